// the real MultiArray against an independent enumeration of index tuples
#include "common.hpp"
#include <MultiArray.hpp>
#include <algorithm>
#include <numeric>
using nat::Ctl; using opencmw::MultiArray;
#define E(c, m) if (!(c)) return std::string(m)
template<class F> static int attempt(F f) { try { f(); return 0; } catch (const std::out_of_range &) { return 1; } catch (...) { return 2; } }
template<class T> static T val(uint32_t k) { return T(k % 100 + 1); }
template<class T, uint32_t N> struct Chk {
    using M = MultiArray<T, N>; using A = std::array<uint32_t, N>;
    static bool next(A &t, const A &d) { for (uint32_t i = N; i-- > 0;) { if (++t[i] < d[i]) return true; t[i] = 0; } return false; }
    static const T *par(const M &m, const A &t, bool get) { return [&]<size_t... I>(std::index_sequence<I...>) { return get ? &m.get(t[I]...) : &m(t[I]...); }(std::make_index_sequence<N>{}); }
    static T *parm(M &m, const A &t, bool get) { return [&]<size_t... I>(std::index_sequence<I...>) { return get ? &m.get(t[I]...) : &m(t[I]...); }(std::make_index_sequence<N>{}); }
    static std::string shape(const M &cm, M &m, const A &d, const A &str, const A &off, uint32_t count, bool rowmajor) {
        E(m.dimensions() == d && cm.dimensions() == d, "sizes"); E(cm.element_count() == count, "number of elements"); E(&cm.elements() == &m.elements(), "elements");
        for (uint32_t i = 0; i < N; i++) { E(cm.stride(i) == str[i] && m.stride(i) == str[i], "stride"); E(cm.offset(i) == off[i] && m.offset(i) == off[i], "offset"); E(cm.n(i) == d[i], "size accessor"); }
        A t{}; uint32_t rank = 0; bool any = std::all_of(d.begin(), d.end(), [](auto v) { return v > 0; });
        if (any) do {
            uint32_t p = 0; for (uint32_t i = 0; i < N; i++) p += (off[i] + t[i]) * str[i];
            if (rowmajor) E(p == rank, "harness");
            E(cm.index(t) == p, "index of a tuple"); E(cm.indices(p) == t, "indices of a position");
            const T *e = m.elements().data() + p; E(p < m.elements().size(), "harness size");
            E(&cm[t] == e && &m[t] == e && &cm.get(t) == e && &m.get(t) == e, "access by index tuple"); E(&cm[p] == e && &m[p] == e && &cm(p) == e && &m(p) == e && &cm.get(p) == e && &m.get(p) == e, "access by position");
            if constexpr (N > 1) { E(par(cm, t, false) == e && par(cm, t, true) == e && parm(m, t, false) == e && parm(m, t, true) == e, "access by indices"); }
            rank++;
        } while (next(t, d));
        auto sz = uint32_t(m.elements().size());
        for (uint32_t p : { sz, sz + 1, 0xffffffffu }) { E(attempt([&] { (void) cm.get(p); }) == 1 && attempt([&] { (void) m.get(p); }) == 1, "checked access outside the data is not refused"); }
        A big{}; big[0] = str[0] ? sz / str[0] + 1 : 0; if (str[0] && cm.index(big) >= sz) { E(attempt([&] { (void) cm.get(big); }) == 1 && attempt([&] { (void) m.get(big); }) == 1, "checked tuple access outside the data is not refused"); if constexpr (N > 1) E(attempt([&] { (void) par(cm, big, true); }) == 1 && attempt([&] { (void) parm(m, big, true); }) == 1, "checked indices outside the data are not refused"); }
        return "";
    }
    static std::string run(const std::string &s) {
        auto b = [&](size_t i) { return i < s.size() ? (unsigned char) s[i] : 0u; };
        A d, str{}, off{}; for (uint32_t i = 0; i < N; i++) d[i] = b(2 + i) % (N == 1 ? 40 : N == 2 ? 12 : 6);
        uint32_t cnt = 1; for (uint32_t i = N; i-- > 0;) { str[i] = cnt; cnt *= d[i]; }
        std::vector<T> el(cnt); for (uint32_t i = 0; i < cnt; i++) el[i] = val<T>(i * 7 + b(7));
        std::string e;
        { M m(d); e = shape(m, m, d, str, off, cnt, true); if (!e.empty()) return "sized: " + e; E(m.elements() == std::vector<T>(cnt), "sized: elements start as zero"); }
        { M m; A z{}; A zs{}; zs[N - 1] = 1; E(m.dimensions() == z && m.element_count() == 0 && m.elements().empty(), "default"); }
        M m1(el, d); e = shape(m1, m1, d, str, off, cnt, true); if (!e.empty()) return "copied: " + e; E(m1.elements() == el, "copied: elements");
        { auto v = el; auto dd = d; M m(std::move(v), std::move(dd)); e = shape(m, m, d, str, off, cnt, true); if (!e.empty()) return "moved: " + e; E(m.elements() == el, "moved: elements"); E(m == m1, "equal arrays differ"); }
        { // custom layout: padding and offsets
            A cs{}, co{}; uint32_t reach = 0, acc = 1; for (uint32_t i = N; i-- > 0;) { co[i] = b(12 + i) % 3; cs[i] = acc + b(16 + i) % 3; uint32_t top = (co[i] + (d[i] ? d[i] - 1 : 0)) * cs[i]; reach += top; acc = reach + 1; }
            std::vector<T> big(reach + 1 + b(20) % 3); for (size_t i = 0; i < big.size(); i++) big[i] = val<T>(uint32_t(i)); M m(big, d, cs, co); e = shape(m, m, d, cs, co, uint32_t(big.size()), false); if (!e.empty()) return "custom layout: " + e; E(m.elements() == big, "custom layout: elements");
            { M q(el, d); bool eq = q.element_count() == m.element_count() && std::equal(el.begin(), el.end(), big.begin()); E((q == m) == eq && (m == q) == eq, "arrays of another layout: comparison"); E(m == m, "an array differs from itself"); if (big.size() > 0) { M u = m; u.elements().back() = T(u.elements().back() + 1); E(!(u == m) && !(m == u), "arrays with different elements are equal"); } }
            M p1 = m + m, p2 = m + val<T>(3); for (size_t i = 0; i < big.size(); i++) E(p1.elements().size() > i && p1.elements()[i] == T(big[i] + big[i]) && p2.elements().size() > i && p2.elements()[i] == T(big[i] + val<T>(3)), "custom layout: + is element-wise"); e = shape(p1, p1, d, cs, co, uint32_t(big.size()), false); if (!e.empty()) return "custom layout, sum: " + e; e = shape(p2, p2, d, cs, co, uint32_t(big.size()), false); if (!e.empty()) return "custom layout, + number: " + e;
        }
        // operators
        std::vector<T> e2(cnt + b(8) % 2); for (uint32_t i = 0; i < e2.size(); i++) e2[i] = val<T>(i * 3 + b(9)); M m2(e2, d);
        { M m = m1; m += m2; for (uint32_t i = 0; i < cnt; i++) E(m.elements()[i] == T(el[i] + e2[i]), "+= is element-wise"); E(m.elements().size() == cnt, "+= size"); M r = m1 + m2; E(r.elements() == m.elements() && r.dimensions() == d && r.element_count() == cnt, "+ is element-wise"); E(r == m, "equal results differ"); E(m1.elements() == el && m2.elements() == e2, "operands changed"); }
        { M m = m2; T x = val<T>(b(10)); m += x; for (uint32_t i = 0; i < e2.size(); i++) E(m.elements()[i] == (i < cnt ? T(e2[i] + x) : e2[i]), "+= number"); M r = m1 + x; for (uint32_t i = 0; i < cnt; i++) E(r.elements()[i] == T(el[i] + x), "+ number"); }
        for (uint32_t i = 0; i < cnt; i++) { M m(el, d); m.elements()[i] = T(m.elements()[i] + 1); E(!(m == m1), "arrays with a different element are equal"); }
        for (uint32_t i = 0; i < N; i++) { A q = d; q[i]++; M m(q); M z(d); E(!(m == z), "arrays of different shape are equal"); }
        if (e2.size() > cnt) { M m(el, d); m.elements().push_back(T(5)); E(m == m1, "elements beyond the valid ones count"); }
        return "";
    }
};
static std::string chk(const std::string &s) {
    if (s.size() < 2) return ""; bool f = s[1] & 1;
    switch ((unsigned char) s[0] % 4) { case 0: return f ? Chk<double, 1>::run(s) : Chk<int8_t, 1>::run(s); case 1: return f ? Chk<double, 2>::run(s) : Chk<int32_t, 2>::run(s); case 2: return f ? Chk<float, 3>::run(s) : Chk<int8_t, 3>::run(s); default: return f ? Chk<int64_t, 4>::run(s) : Chk<uint8_t, 4>::run(s); }
}
int main(int argc, char **argv) {
    return nat::run(argc, argv, [](Ctl &c) { if (c.prop != "C19") return false; c.check = chk; return true; }, [](Ctl &c) {
        while (c.time_left()) { std::string s; for (int i = 0; i < 22; i++) s += char(c.r(256)); if (c.r(2)) for (int i = 12; i < 20; i++) s[i] = 0; if (!c.go(s)) return; } });
}
