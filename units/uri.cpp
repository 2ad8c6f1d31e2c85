// driver for the real core/URI.hpp: only fixes calling conventions, contains no logic of its own
#include <URI.hpp>
#include <new>
using S = opencmw::URI<opencmw::STRICT>;
using R = opencmw::URI<opencmw::RELAXED>;
extern "C" void u_enc(std::string* out, const char* p, unsigned long n) { new (out) std::string(S::encode(std::string_view(p, n))); }
extern "C" void u_dec_s(std::string* out, const char* p, unsigned long n) { new (out) std::string(S::decode(std::string_view(p, n))); }
extern "C" void u_dec_r(std::string* out, const char* p, unsigned long n) { new (out) std::string(R::decode(std::string_view(p, n))); }
using O = std::optional<std::string>;
// parse, then read every top-level component
template<typename U> static inline void parts(O* o, const char* p, unsigned long n) {
    const U u(std::string(p, n));
    new (o) O(u.scheme()); new (o + 1) O(u.authority()); new (o + 2) O(u.path()); new (o + 3) O(u.queryParam()); new (o + 4) O(u.fragment());
}
extern "C" void u_parts_s(O* o, const char* p, unsigned long n) { parts<S>(o, p, n); }
extern "C" void u_parts_r(O* o, const char* p, unsigned long n) { parts<R>(o, p, n); }
// parse, then read the components of the authority
template<typename U> static inline void auth(O* o, std::optional<std::uint16_t>* q, const char* p, unsigned long n) {
    const U u(std::string(p, n));
    new (o) O(u.user()); new (o + 1) O(u.password()); new (o + 2) O(u.hostName()); new (q) std::optional<std::uint16_t>(u.port());
}
extern "C" void u_auth_s(O* o, std::optional<std::uint16_t>* q, const char* p, unsigned long n) { auth<S>(o, q, p, n); }
extern "C" void u_auth_r(O* o, std::optional<std::uint16_t>* q, const char* p, unsigned long n) { auth<R>(o, q, p, n); }
