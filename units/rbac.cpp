// driver for the real majordomo/Rbac.hpp; fixed calling conventions, no logic of its own
#include <majordomo/Rbac.hpp>
using SV = std::string_view; using namespace opencmw::majordomo;
extern "C" void rb_role(SV *out, const char *p, std::size_t n) { *out = parse_rbac::role(SV(p, n)); }
extern "C" void rb_hash(SV *out, const char *p, std::size_t n) { *out = parse_rbac::hash(SV(p, n)); }
extern "C" void rb_both(SV *out, const char *p, std::size_t n) { auto r = parse_rbac::roleAndHash(SV(p, n)); out[0] = r.first; out[1] = r.second; }
// lookup tables with arbitrary names and rights
#define LOOKUP(K) using Map##K = opencmw::ConstExprMap<SV, Permission, K>; extern "C" std::size_t rb_sizeof##K() { return sizeof(Map##K); } \
    extern "C" int rb_at##K(const Map##K *m, const char *p, std::size_t n) { return static_cast<int>(m->at(SV(p, n))); } extern "C" int rb_at_or##K(const Map##K *m, const char *p, std::size_t n, int d) { return static_cast<int>(m->at(SV(p, n), static_cast<Permission>(d))); }
LOOKUP(1) LOOKUP(2) LOOKUP(4)
#define ROLE(f, T) extern "C" int rb_rights_##f() { return static_cast<int>(T::rights()); } extern "C" void rb_name_##f(SV *out) { *out = T::name(); }
ROLE(admin, ADMIN) ROLE(any, ANY) ROLE(any_ro, ANY_RO) ROLE(none, NONE)
extern "C" int rb_rw() { return static_cast<int>(Permission::RW); } extern "C" int rb_ro() { return static_cast<int>(Permission::RO); } extern "C" int rb_no() { return static_cast<int>(Permission::NONE); } extern "C" int rb_wo() { return static_cast<int>(Permission::WO); }
