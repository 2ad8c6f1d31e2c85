// the real IoBuffer against a model: operation sequences over buffers with different memory resources
#include "common.hpp"
#include <IoBuffer.hpp>
#include <deque>
#include <map>
#include <memory>
using nat::Ctl; using B = opencmw::IoBuffer; using U8 = std::uint8_t;
#define E(c, m) if (!(c)) return std::string(m)
struct Plain : std::pmr::memory_resource { // checks that every buffer comes back once, whole, with its size
    std::map<void *, std::size_t> live; std::string bad;
    void *do_allocate(std::size_t n, std::size_t) override { void *p = malloc(n); live[p] = n; return p; }
    void  do_deallocate(void *p, std::size_t n, std::size_t) override { auto i = live.find(p); if (i == live.end()) { bad = "a buffer is returned to a resource it did not come from"; return; } if (i->second != n) bad = "a buffer is returned with another size"; live.erase(i); free(p); }
    bool  do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
struct Mod { std::string c; std::size_t pos = 0; bool wrapped = false; std::vector<U8> *own = nullptr; };
static std::string le(std::uint64_t v, int n) { std::string r; for (int i = 0; i < n; i++) r += char(v >> (8 * i)); return r; }
template<class T> static std::string raw(T v) { return std::string(reinterpret_cast<const char *>(&v), sizeof(T)); }
static std::string estr(const std::string &s) { return le(s.size() + 1, 4) + s + '\0'; }
static std::string same(const B &b, const Mod &m, const char *w) {
    E(b.size() == m.c.size(), std::string(w) + ": size"); E(b.position() == m.pos, std::string(w) + ": read position"); E(b.empty() == m.c.empty(), "empty"); E(b.capacity() >= b.size(), std::string(w) + ": capacity");
    E(m.c.empty() || !memcmp(b.data(), m.c.data(), m.c.size()), std::string(w) + ": content"); E(b.asString() == m.c, std::string(w) + ": content as text"); return "";
}
struct Src { const std::string &s; std::size_t i = 0; unsigned b() { return i < s.size() ? (unsigned char) s[i++] : 0u; } std::uint64_t w() { std::uint64_t v = 0; for (int k = 0; k < 8; k++) v = v << 8 | b(); return v; } bool more() const { return i < s.size(); }
    std::string str() { std::size_t n = b() % 12; if (n == 11) n = 40 + b() % 60; std::string r; for (std::size_t k = 0; k < n; k++) r += char(b()); return r; } };
enum K { U1, I1, I2, I4, I8, F4, F8, BO, CH, ST, SV, VI1, VI2, VI4, VI8, VF4, VF8, VST, VBO, AI2, ABO, AST, RAW, NK };
struct Item { K k; std::string enc; std::uint64_t v; std::string s; std::vector<std::uint64_t> a; std::vector<std::string> t; };
template<class T> static T cv(std::uint64_t v) { T r; memcpy(&r, &v, sizeof(T)); return r; }
template<class T> static void putv(B &b, Item &it) { std::vector<T> v; it.enc = le(it.a.size(), 4); for (auto x : it.a) { v.push_back(cv<T>(x)); it.enc += raw(v.back()); } b.put(v); }
template<class T> static std::string getv(B &b, const Item &it, std::size_t cut) { std::vector<T> v(3); if (cut % 3 == 1) { b.getArray(v, it.a.size() + cut); } else if (cut % 3 == 2) { v = b.getArray<T>(); } else { b.getArray(v); } E(v.size() == it.a.size(), "array: number of values"); for (std::size_t i = 0; i < v.size(); i++) E(raw(v[i]) == raw(cv<T>(it.a[i])), "array: value"); return ""; }
static void put(B &b, Item &it, Src &s) {
    it.k = K(s.b() % NK); it.v = s.w(); it.s = s.str(); for (unsigned c = s.b(), n = c == 255 && s.b() < 16 ? 256 << (s.b() % 9) : c % 9, i = 0; i < n; i++) { it.a.push_back(i < 9 ? s.w() : i * 2654435761u); if (i < 300) it.t.push_back(i % 3 ? it.s.substr(0, i) : std::string(i, 'x')); }
    switch (it.k) {
    case U1: b.put(cv<U8>(it.v)); it.enc = le(it.v, 1); break; case I1: b.put(cv<std::int8_t>(it.v)); it.enc = le(it.v, 1); break; case I2: b.put(cv<std::int16_t>(it.v)); it.enc = le(it.v, 2); break; case I4: b.put(cv<std::int32_t>(it.v)); it.enc = le(it.v, 4); break; case I8: b.put(cv<std::int64_t>(it.v)); it.enc = le(it.v, 8); break;
    case F4: b.put(cv<float>(it.v)); it.enc = le(it.v, 4); break; case F8: b.put(cv<double>(it.v)); it.enc = le(it.v, 8); break; case BO: b.put(bool(it.v & 1)); it.enc = le(it.v & 1, 1); break; case CH: b.put(cv<char>(it.v)); it.enc = le(it.v, 1); break;
    case ST: b.put(it.s); it.enc = estr(it.s); break; case SV: b.put(std::string_view(it.s)); it.enc = estr(it.s); break; case RAW: b.put<B::WITHOUT>(std::string_view(it.s)); it.enc = it.s; break;
    case VI1: putv<std::int8_t>(b, it); break; case VI2: putv<std::int16_t>(b, it); break; case VI4: putv<std::int32_t>(b, it); break; case VI8: putv<std::int64_t>(b, it); break; case VF4: putv<float>(b, it); break; case VF8: putv<double>(b, it); break;
    case VST: b.put(it.t); it.enc = le(it.t.size(), 4); for (auto &x : it.t) it.enc += estr(x); break;
    case VBO: { std::vector<bool> v; it.enc = le(it.a.size(), 4); for (auto x : it.a) { v.push_back(x & 1); it.enc += char(x & 1); } b.put(v); break; }
    case AI2: { std::array<std::int16_t, 3> v{ cv<std::int16_t>(it.v), cv<std::int16_t>(it.v >> 16), cv<std::int16_t>(it.v >> 32) }; it.enc = le(3, 4) + raw(v); b.put(v); break; }
    case ABO: { std::array<bool, 4> v{ bool(it.v & 1), bool(it.v & 2), bool(it.v & 4), bool(it.v & 8) }; it.enc = le(4, 4) + raw(v); b.put(v); break; }
    case AST: { std::array<std::string, 2> v{ it.s, "y" + it.s }; it.enc = le(2, 4) + estr(v[0]) + estr(v[1]); b.put(v); break; }
    default: break;
    }
}
static std::string get(B &b, const Item &it, std::size_t cut) {
    std::string e;
    switch (it.k) {
    case U1: E(raw(b.get<U8>()) == it.enc, "get u8"); break; case I1: E(raw(b.get<std::int8_t>()) == it.enc, "get i8"); break; case I2: E(raw(b.get<std::int16_t>()) == it.enc, "get i16"); break; case I4: E(raw(b.get<std::int32_t>()) == it.enc, "get i32"); break; case I8: E(raw(b.get<std::int64_t>()) == it.enc, "get i64"); break;
    case F4: E(raw(b.get<float>()) == it.enc, "get float"); break; case F8: E(raw(b.get<double>()) == it.enc, "get double"); break; case BO: E(b.get<bool>() == bool(it.v & 1), "get bool"); break; case CH: E(raw(b.get<char>()) == it.enc, "get char"); break;
    case ST: E(b.get<std::string>() == it.s, "get string"); break; case SV: E(b.get<std::string_view>() == it.s, "get text view"); break; case RAW: b.skip(int(it.s.size())); break;
    case VI1: return getv<std::int8_t>(b, it, cut); case VI2: return getv<std::int16_t>(b, it, cut); case VI4: return getv<std::int32_t>(b, it, cut); case VI8: return getv<std::int64_t>(b, it, cut); case VF4: return getv<float>(b, it, cut); case VF8: return getv<double>(b, it, cut);
    case VST: { std::vector<std::string> v{ "old" }; if (cut & 1) b.getArray(v); else v = b.get<std::vector<std::string>>(); E(v == it.t, "array of strings"); break; }
    case VBO: { std::vector<bool> v(1, true); b.getArray(v); E(v.size() == it.a.size(), "array of bool: number of values"); for (std::size_t i = 0; i < v.size(); i++) E(v[i] == bool(it.a[i] & 1), "array of bool"); break; }
    case AI2: { std::array<std::int16_t, 3> v{}; b.getArray(v); E(le(3, 4) + raw(v) == it.enc, "fixed array"); break; }
    case ABO: { std::array<bool, 4> v{}; b.getArray(v); E(le(4, 4) + raw(v) == it.enc, "fixed array of bool"); break; }
    case AST: { std::array<std::string, 2> v; b.getArray(v); E(v[0] == it.s && v[1] == "y" + it.s, "fixed array of strings"); break; }
    default: break;
    }
    return e;
}
template<class F> static int attempt(F f) { try { f(); return 0; } catch (const std::out_of_range &) { return 1; } catch (...) { return 2; } }
template<class T> static std::string at(B &b, const Mod &m, std::size_t i) { bool ok = i < m.c.size() && m.c.size() - i >= sizeof(T); int r = attempt([&] { (void) b.at<T>(i); }); E(r == (ok ? 0 : 1), ok ? "at: an index inside the content is refused" : "at: a value outside the content is not refused"); if (ok) E(!memcmp(&b.at<T>(i), m.c.data() + i, sizeof(T)), "at: value"); return ""; }
static std::string run(const std::string &in) {
    Src s{ in }; Plain pl; std::string e; std::deque<std::vector<U8>> own; unsigned char stacks[4][16];
    {
        std::vector<B> bs; std::vector<Mod> ms; std::vector<std::vector<Item>> its; bs.reserve(4);
        for (int k = 0; k < 4; k++) {
            unsigned how = s.b() % 6, cap = s.b() % 40; its.emplace_back();
            switch (how) {
            case 0: bs.emplace_back(); ms.push_back({}); break; case 1: bs.emplace_back(std::size_t(cap)); ms.push_back({}); E(bs.back().capacity() == cap, "constructor: capacity"); break;
            case 2: bs.emplace_back(std::size_t(cap), std::pmr::polymorphic_allocator<U8>(&pl)); ms.push_back({}); break;
            case 3: { std::string t = s.str(); bs.emplace_back(t.data(), t.size()); ms.push_back({ t }); break; }
            case 4: own.emplace_back(cap + 1, U8(cap)); bs.emplace_back(std::span<U8>(own.back())); ms.push_back({ std::string(cap + 1, char(cap)) }); ms.back().wrapped = true; break;
            case 5: memset(stacks[k], int(cap), 16); bs.emplace_back(stacks[k], 16ul); ms.push_back({ std::string(16, char(cap)) }); ms.back().wrapped = true; break;
            }
            if (e = same(bs.back(), ms.back(), "constructor"); !e.empty()) return e;
        }
        while (s.more()) {
            unsigned op = s.b() % 16, x = s.b() % 4, y = s.b() % 4; B &b = bs[x]; Mod &m = ms[x]; auto &it = its[x];
            const char *w = "";
            if (m.wrapped && (op < 6 || op == 8 || op == 9 || op == 15)) op = 10 + op % 5;
            switch (op) {
            case 0: case 1: case 2: case 3: case 4: { Item i; put(b, i, s); m.c += i.enc; it.push_back(i); w = "put"; break; }
            case 5: b.reserve(s.b() % 120); w = "reserve"; break;
            case 6: m.pos = std::min<std::size_t>(m.pos, m.c.size()); b.set_position(m.pos); w = "set position"; break;
            case 7: b.reset(); m.pos = 0; w = "rewind"; break;
            case 8: b.shrink_to_fit(); E(b.capacity() == b.size(), "shrink to fit"); w = "shrink"; break;
            case 9: b.clear(); m.c.clear(); m.pos = 0; it.clear(); w = "clear"; break;
            case 10: if (x != y || (s.b() & 1)) { b = bs[y]; auto t = ms[y]; t.wrapped = false; if (x == y) t = m; m = t; m.wrapped = dynamic_cast<opencmw::ThrowingAllocator *>(b._allocator.resource()) != nullptr; it = its[y]; } w = "copy assign"; break;
            case 11: { if (x == y) { b = std::move(bs[y]); } else { b = std::move(bs[y]); m = ms[y]; it = its[y]; ms[y].c.clear(); ms[y].pos = 0; its[y].clear(); if (e = same(bs[y], ms[y], "moved-from"); !e.empty()) return e; E(bs[y].capacity() == 0, "moved-from: capacity"); bs[y] = B(); ms[y].wrapped = false; } w = "move assign"; break; }
            case 12: { B t(b); if (e = same(t, m, "copy construct"); !e.empty()) return e; t.put(std::int32_t(5)); B u(std::move(t)); Mod n = m; n.c += le(5, 4); if (e = same(u, n, "move construct"); !e.empty()) return e; w = "copy construct, source"; break; }
            case 13: if (x != y) { b.swap(bs[y]); std::swap(m, ms[y]); std::swap(it, its[y]); if (e = same(bs[y], ms[y], "swap, other"); !e.empty()) return e; } w = "swap"; break;
            case 14: {
                std::size_t i = s.b() % (m.c.size() + 4); if (e = at<U8>(b, m, i); !e.empty()) return e; if (e = at<std::int16_t>(b, m, i); !e.empty()) return e;
                if (reinterpret_cast<std::uintptr_t>(b.data() + i) % 8 == 0) if (e = at<std::int64_t>(b, m, i); !e.empty()) return e;
                if (e = at<U8>(b, m, SIZE_MAX - s.b() % 3); !e.empty()) return e;
                int n = int(s.b() % (m.c.size() + 4)) - 2; std::string_view v; bool ok = i <= m.c.size() && (n < 0 || std::size_t(n) <= m.c.size() - i); int r = attempt([&] { v = b.asString(i, n); }); E(r == (ok ? 0 : 1), "asString: refused exactly outside the content"); if (ok) E(v == std::string_view(m.c).substr(i, n < 0 ? std::string::npos : std::size_t(n)), "asString: text");
                int d = int(s.b()) - 128; long to = long(m.pos) + d; ok = to >= 0 && to <= long(m.c.size()); r = attempt([&] { b.skip(d); }); E(r == (ok ? 0 : 1), "skip: refused exactly outside the content"); if (ok) m.pos = std::size_t(to); w = "checked access"; break;
            }
            case 15: { std::size_t n = s.b() % 90, o = m.c.size(); b.resize(n); if (n > o) memset(b.data() + o, 7, n - o); m.c.resize(n, 7); it.clear(); if (m.pos > n) { b.reset(); m.pos = 0; } w = "resize"; break; }
            }
            if (op >= 10 && op != 10 && op != 11 && op != 13) w = *w ? w : "op";
            if (e = same(b, m, w); !e.empty()) return e;
            if (!pl.bad.empty()) return pl.bad;
        }
        // read everything back, in order
        for (int k = 0; k < 4; k++) {
            std::size_t tot = 0; for (auto &i : its[k]) tot += i.enc.size();
            if (tot > ms[k].c.size()) continue;
            std::size_t p = ms[k].c.size() - tot; std::string all; for (auto &i : its[k]) all += i.enc; if (ms[k].c.substr(p) != all) continue;
            bs[k].set_position(p); for (auto &i : its[k]) { if (e = get(bs[k], i, in.size() + p); !e.empty()) return e; p += i.enc.size(); E(bs[k].position() == p, "get: the position advances by the bytes consumed"); }
            Mod m = ms[k]; m.pos = p; if (e = same(bs[k], m, "reading"); !e.empty()) return e;
        }
    }
    E(pl.bad.empty(), pl.bad); E(pl.live.empty(), "a buffer was not released"); return "";
}
int main(int argc, char **argv) {
    return nat::run(argc, argv, [](Ctl &c) { if (c.prop != "C18") return false; c.check = run; return true; },
        [](Ctl &c) { while (c.time_left()) { std::string s; for (unsigned n = 20 + c.r(300); n > 0; n--) s += char(c.r(256)); if (!c.go(s)) return; } });
}
