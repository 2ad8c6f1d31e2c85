// driver: a URI whose authority is an arbitrary sub-range of its text (what parseURI establishes), then the authority accessors
#include <URI.hpp>
#include <new>
using O = std::optional<std::string>;
template<typename U> static inline void auth(O* o, std::optional<std::uint16_t>* q, const char* p, unsigned long n, unsigned long a, unsigned long b) {
    U u{ std::string() };
    u._str.assign(p, n);
    u._authority = std::string_view(u._str.data() + a, b - a);
    const U& v = u;
    new (o) O(v.user()); new (o + 1) O(v.password()); new (o + 2) O(v.hostName()); new (q) std::optional<std::uint16_t>(v.port());
}
extern "C" void u_auth_r(O* o, std::optional<std::uint16_t>* q, const char* p, unsigned long n, unsigned long a, unsigned long b) { auth<opencmw::URI<opencmw::RELAXED>>(o, q, p, n, a, b); }
extern "C" void u_auth_s(O* o, std::optional<std::uint16_t>* q, const char* p, unsigned long n, unsigned long a, unsigned long b) { auth<opencmw::URI<opencmw::STRICT>>(o, q, p, n, a, b); }
