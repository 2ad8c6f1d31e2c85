// driver for copy/move of the real core/URI.hpp: only fixes calling conventions and exports field offsets
#include <URI.hpp>
#include <cstddef>
#include <new>
template<typename U> struct Off { static constexpr unsigned long v[] = { sizeof(U), offsetof(U, _str), offsetof(U, _scheme), offsetof(U, _authority), offsetof(U, _path), offsetof(U, _query), offsetof(U, _fragment), offsetof(U, _userName), offsetof(U, _pwd), offsetof(U, _hostName), offsetof(U, _port), offsetof(U, _parsedAuthority), offsetof(U, _queryMap) }; };
using S = opencmw::URI<opencmw::STRICT>;
using R = opencmw::URI<opencmw::RELAXED>;
extern "C" unsigned long u_off(unsigned long i) { static_assert(sizeof(S) == sizeof(R)); return Off<R>::v[i]; }
#define OPS(X, U) \
extern "C" void u_cassign_##X(U* d, const U* s) { *d = *s; } \
extern "C" void u_massign_##X(U* d, U* s) { *d = static_cast<U&&>(*s); } \
extern "C" void u_cctor_##X(U* d, const U* s) { new (d) U(*s); } \
extern "C" void u_mctor_##X(U* d, U* s) { new (d) U(static_cast<U&&>(*s)); } \
extern "C" void u_dtor_##X(U* d) { d->~U(); }
OPS(s, S)
OPS(r, R)
