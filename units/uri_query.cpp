// driver for queryParamMap of the real core/URI.hpp: only fixes calling conventions and exports field offsets
#include "uri_copy.cpp"
#define QM(X, U) extern "C" const void* u_qmap_##X(const U* u) { return &u->queryParamMap(); }
QM(s, S)
QM(r, R)
