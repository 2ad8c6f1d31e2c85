#include "common.hpp"
#include "sched.hpp"
#include <ReaderWriterLock.hpp>
using nat::Ctl;
using L = opencmw::ReaderWriterLock; using enum opencmw::ReaderWriterLockType;
// input: [mode/threads][2 op bytes per thread][schedule bytes...]
static std::string conc(const std::string &in, bool c10) {
    size_t nt = 2 + (uint8_t(in[0]) & 1); if (in.size() < 1 + 2 * nt) return "";
    L l; int rd = 0, wr = 0; std::string err; std::vector<std::function<void()>> b; sched::Data cell;
    auto chk = [&](const char *w) { if (rd > 0 && wr > 0 && err.empty()) err = std::string("a reader and a writer hold the lock together (") + w + ")"; };
    auto body = [&](bool r, const char *w) { (r ? rd : wr)++; chk(w); if (!(r ? cell.read() : cell.write()) && err.empty()) err = std::string("effects of the previous holder are not ordered before this one (") + w + ")"; sched::point(); chk(w); (r ? rd : wr)--; };
    for (size_t t = 0; t < nt; t++) b.push_back([&, t] {
        for (int k = 0; k < 2; k++) switch (uint8_t(in[1 + 2 * t + size_t(k)]) % 7) {
            case 0: { auto v = l.lock<READ>(); if (v <= 0 && err.empty()) err = "lock<READ> returned " + std::to_string(v); body(true, "lock read"); auto u = l.unlock<READ>(); if (u < 0 && err.empty()) err = "unlock<READ> returned " + std::to_string(u); break; }
            case 1: { auto v = l.lock<WRITE>(); if (v >= 0 && err.empty()) err = "lock<WRITE> returned " + std::to_string(v); body(false, "lock write"); auto u = l.unlock<WRITE>(); if (u > 0 && err.empty()) err = "unlock<WRITE> returned " + std::to_string(u); break; }
            case 2: if (l.tryLock<READ>()) { body(true, "try read"); l.unlock<READ>(); } break;
            case 3: if (l.tryLock<WRITE>()) { body(false, "try write"); l.unlock<WRITE>(); } break;
            case 4: { auto g = l.scopedGuard<READ>(); body(true, "guard read"); break; }
            case 5: { auto g = l.scopedGuard<WRITE>(); body(false, "guard write"); break; }
            default: break;
        } });
    size_t o = 1 + 2 * nt;
    bool fin = sched::run(b, [&](uint64_t k, int n) { return o + k < in.size() ? int(uint8_t(in[o + k]) % unsigned(n)) : int(k / 3 % unsigned(n)); });
    if (err.empty() && fin && l.value() != 0) err = "all holds released but the lock reports " + std::to_string(l.value());
    return err;
}
// sequential histories: exact results
static std::string seq(const std::string &in) {
    L l; long r = 0, w = 0;
    for (size_t i = 1; i < in.size(); i++) {
        auto bad = [&](const char *op, long got) { return std::string(op) + " returned " + std::to_string(got) + " with " + std::to_string(r) + " readers and " + std::to_string(w) + " writers at step " + std::to_string(i); };
        switch (uint8_t(in[i]) % 8) {
        case 0: { auto x = l.tryLock<READ>(); if (x != (w == 0)) return bad("tryLock<READ>", x); r += x != 0; break; }
        case 1: { auto x = l.tryLock<WRITE>(); if (x != (r == 0)) return bad("tryLock<WRITE>", x); w += x != 0; break; }
        case 2: if (w == 0) { auto x = l.lock<READ>(); r++; if (x != r) return bad("lock<READ>", x); } break;
        case 3: if (r == 0) { auto x = l.lock<WRITE>(); w++; if (x != -w) return bad("lock<WRITE>", x); } break;
        case 4: if (r) { auto x = l.unlock<READ>(); r--; if (x != r) return bad("unlock<READ>", x); } break;
        case 5: if (w) { auto x = l.unlock<WRITE>(); w--; if (x != -w) return bad("unlock<WRITE>", x); } break;
        case 6: if (w == 0) { try { auto g = l.scopedGuard<READ>(); if (l.value() != r + 1) return bad("value under guard", l.value()); if (in[i] & 16) throw 1; } catch (int) {} } break;
        default: if (r == 0) { try { auto g = l.scopedGuard<WRITE>(); if (l.value() != -w - 1) return bad("value under guard", l.value()); if (in[i] & 16) throw 1; } catch (int) {} } break;
        }
        if (l.value() != r - w) return bad("value", l.value());
    }
    return "";
}
static std::string chk(const std::string &in) { if (in.empty()) return ""; return (uint8_t(in[0]) & 0x80) ? seq(in) : conc(in, true); }
int main(int argc, char **argv) {
    return nat::run(argc, argv, [](Ctl &c) { c.check = chk; return c.prop == "C09" || c.prop == "C10"; }, [](Ctl &c) {
        bool s = c.prop == "C10";
        for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) for (int d = 0; d < 8; d++) for (int e = 0; e < 8; e++) for (int f = 0; f < 8; f++) if (!c.go({ char(0x80), char(a), char(b), char(d), char(e | (e & 1) << 4), char(f) })) return;
        { std::string t(1, char(0x80)); for (int k : { 0, 1, 4, 5 }) { t.resize(1); for (int i = 0; i < 3000; i++) t += char(k < 4 ? k : i < 1500 ? k - 4 : k); if (!c.go(t)) return; } } // many holds
        for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int m = 0; m < 4096; m++) { std::string t{ 0, char(a), 6, char(b), 6 }; for (int k = 0; k < 12; k++) t += char(m >> k & 1); if (!c.go(t)) return; }
        while (c.time_left()) {
            if (s && c.r(2)) { std::string t(1, char(0x80)); for (size_t n = c.r(40); n--;) t += char(c.r(32)); if (!c.go(t)) return; continue; }
            std::string t(1, char(c.r(2))); for (int i = 0; i < 6; i++) t += char(c.r(7)); for (size_t n = c.r(40); n--;) t += char(c.r(6)); if (!c.go(t)) return;
        }
    });
}
