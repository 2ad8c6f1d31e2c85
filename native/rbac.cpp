// the real role-token parsing and permission lookup against an independent character-by-character parse
#include "common.hpp"
#include <majordomo/Rbac.hpp>
#include <memory>
using nat::Ctl; using namespace opencmw::majordomo; using SV = std::string_view;
#define E(c, m) if (!(c)) return std::string(m)
static bool at(SV v, SV whole, size_t lo, size_t n) { return v.size() == n && (n == 0 || v.data() == whole.data() + lo); }
static std::string tok(const std::string &s) {
    std::unique_ptr<char[]> exact(new char[s.size() ? s.size() : 1]); memcpy(exact.get(), s.data(), s.size()); SV t(exact.get(), s.size());   // exact allocation: reads beyond the token are caught
    static const char pre[] = { 'R', 'B', 'A', 'C', '=' }; bool ok = t.size() >= 5; for (size_t i = 0; ok && i < 5; i++) ok = t[i] == pre[i];
    size_t comma = 5; if (ok) { while (comma < t.size() && t[comma] != ',') comma++; if (comma >= t.size()) ok = false; }
    auto r = parse_rbac::role(t), h = parse_rbac::hash(t); auto both = parse_rbac::roleAndHash(t);
    if (!ok) { E(r.empty(), "role of a token without one"); E(h.empty(), "hash of a token without one"); E(both.first.empty() && both.second.empty(), "role and hash of a token without them"); return ""; }
    E(at(r, t, 5, comma - 5), "role"); E(at(h, t, comma + 1, t.size() - comma - 1), "hash"); E(at(both.first, t, 5, comma - 5) && at(both.second, t, comma + 1, t.size() - comma - 1), "role and hash");
    return "";
}
template<size_t N> static std::string look(const std::string &s) {
    std::array<std::pair<SV, Permission>, N> d; std::vector<std::string> names; size_t q = 0; auto b = [&] { return q < s.size() ? (unsigned char) s[q++] : 0u; };
    for (size_t i = 0; i <= N; i++) { std::string n; for (unsigned k = b() % 4; k; k--) n += char('A' + b() % 2); names.push_back(n); }
    for (size_t i = 0; i < N; i++) d[i] = { SV(names[i]), Permission(b() % 4) };
    auto copy = d; opencmw::ConstExprMap<SV, Permission, N> m(std::move(copy)); SV key = names[N]; Permission dv = Permission(b() % 4); size_t f = 0; while (f < N && d[f].first != key) f++;
    E(m.at(key, dv) == (f < N ? d[f].second : dv), "lookup with a default");
    try { auto v = m.at(key); E(f < N && v == d[f].second, "lookup"); } catch (const std::out_of_range &) { E(f == N, "lookup refuses a known role"); }
    return "";
}
static std::string fixed() { E(ADMIN::name() == "ADMIN" && ADMIN::rights() == Permission::RW, "ADMIN"); E(ANY::name() == "ANY" && ANY::rights() == Permission::RW, "ANY"); E(ANY_RO::name() == "ANY" && ANY_RO::rights() == Permission::RO, "ANY_RO"); E(NONE::name() == "NONE" && NONE::rights() == Permission::NONE, "NONE"); return ""; }
static std::string check(const std::string &s) { for (auto e : { tok(s), look<1>(s), look<2>(s), look<4>(s), fixed() }) if (!e.empty()) return e; return ""; }
int main(int argc, char **argv) {
    return nat::run(argc, argv, [](Ctl &c) { c.check = check; return c.prop == "C22"; }, [](Ctl &c) {
        while (c.time_left()) {
            std::string s; if (c.r(4)) s = "RBAC="; if (c.r(8) == 0 && !s.empty()) s[c.r(s.size())] = char(c.r(256)); if (c.r(10) == 0 && !s.empty()) s.pop_back();
            static const char al[] = "AB,,=,RC x\0\xff"; for (uint64_t k = c.r(c.r(30) ? 12 : 300); k; k--) s += c.r(20) ? al[c.r(sizeof(al) - 1)] : char(c.r(256));
            if (!c.go(s)) return;
        }
    });
}
