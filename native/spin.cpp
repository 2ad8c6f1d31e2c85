#include "common.hpp"
#include "sched.hpp"
#include <SpinWait.hpp>
#include <sys/syscall.h>
using nat::Ctl;
// ---- fake clock for the timed wait
static bool fake = false; static int64_t fnow = 0; static std::vector<int64_t> reads; static std::string script; static size_t sp = 0;
static int64_t scale = 1;
static int64_t adv() { if (script.empty()) return 1000; unsigned b = uint8_t(script[sp++ % script.size()]); return scale * (b < 100 ? int64_t(b) * 997 : b < 200 ? int64_t(b - 99) * 10007 : int64_t(b - 199) * 300007); }
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept { if (!fake) return int(syscall(SYS_clock_gettime, c, t)); fnow += adv(); reads.push_back(fnow); t->tv_sec = fnow / 1000000000; t->tv_nsec = fnow % 1000000000; return 0; }
extern "C" int nanosleep(const struct timespec *r, struct timespec *) { if (!fake) return 0; fnow += r->tv_sec * 1000000000 + r->tv_nsec + adv(); return 0; }
extern "C" int sched_yield() noexcept { if (fake) fnow += adv(); return 0; }
// input: [timeout lo][timeout hi][cond lo][cond hi][clock script...]
static std::string timed(const std::string &in) {
    if (in.size() < 4) return "";
    int64_t T = int16_t(uint8_t(in[0]) | uint8_t(in[1]) << 8); bool huge = uint8_t(in[1]) == 0x7f; if (huge) T = (int64_t(1) << (31 + (uint8_t(in[0]) & 15))) + (uint8_t(in[0]) >> 4) - 1; else if (T > 1000) T = T % 1000; scale = huge ? 5000 : 1; size_t N = uint8_t(in[2]) | size_t(uint8_t(in[3]) & 15) << 8;
    script = in.substr(4); sp = 0; fnow = 123456789; reads.clear(); fake = true; size_t calls = 0; bool last = false; std::string err; int64_t over = -1;
    auto cond = [&]() noexcept { ++calls; if (T > 0 && calls > 14 && reads.size() >= 2 && reads.back() / 1000000 - reads.front() / 1000000 >= T && err.empty()) err = "keeps waiting after the timeout"; last = calls > N || calls > 20000; return last; };
    bool r = false, thr = false;
    opencmw::SpinWait<> w; try { r = in.size() % 2 || T != -1 ? w.spinUntil(cond, T) : w.spinUntil(cond); } catch (const std::out_of_range &) { thr = true; }
    fake = false;
    if (thr != (T < -1)) return T < -1 ? "timeout below -1 accepted" : "valid timeout refused"; if (thr) return "";
    if (!err.empty()) return err;
    if (r && !last) return "success although the condition was false";
    if (!r && last) return "gave up although the condition was true";
    if (!r && T == -1) return "gave up without a timeout after " + std::to_string(calls) + " checks";
    if (!r && T > 0) { int64_t el = reads.size() < 2 ? 0 : reads.back() / 1000000 - reads.front() / 1000000; if (el < T) return "gave up after " + std::to_string(el) + " ms of " + std::to_string(T); }
    if (!r && T == 0 && calls != 1) return "waited although the timeout is 0";
    if (T == 0 && N == 0 && !r) return "condition true at once but reported as timeout";
    return "";
}
struct Spin { int n = 0; void spin_once() { n++; } void reset() { n = 0; } };
template<typename M> static std::string mutex(const std::string &in) {
    size_t nt = 2 + (uint8_t(in[0]) & 1); M m; int h = 0; size_t total = 0; std::string err; sched::Data cell; std::vector<std::function<void()>> b;
    for (size_t t = 0; t < nt; t++) b.push_back([&] { for (int k = 0; k < 2; k++) { m.lock(); if (++h > 1 && err.empty()) err = "two threads hold the mutex"; if (!cell.excl() && err.empty()) err = "effects of the previous holder are not ordered before this one"; sched::point(); if (h > 1 && err.empty()) err = "two threads hold the mutex"; --h; ++total; m.unlock(); } });
    bool fin = sched::run(b, [&](uint64_t k, int n) { return 1 + k < in.size() ? int(uint8_t(in[1 + k]) % unsigned(n)) : int(k / 3 % unsigned(n)); });
    if (err.empty() && !fin) err = "no progress although every holder unlocked";
    if (err.empty()) { std::vector<std::function<void()>> one{ [&] { m.lock(); m.unlock(); } }; if (!sched::run(one, [](uint64_t, int) { return 0; }, 50)) err = "mutex not free after the last unlock"; }
    return err;
}
static std::string chk11(const std::string &in) { if (in.empty()) return ""; auto e = mutex<opencmw::AtomicMutex<>>(in); if (e.empty()) e = mutex<opencmw::AtomicMutex<Spin>>(in); if (e.empty()) e = mutex<opencmw::AtomicMutex<opencmw::SpinWait<>>>(in); return e; }
int main(int argc, char **argv) {
    return nat::run(argc, argv, [](Ctl &c) { c.check = c.prop == "C11" ? chk11 : timed; return c.prop == "C11" || c.prop == "C12"; }, [](Ctl &c) {
        if (c.prop == "C11") { for (int m = 0; m < 1 << 14; m++) { std::string t(1, 0); for (int k = 0; k < 14; k++) t += char(m >> k & 1); if (!c.go(t)) return; } while (c.time_left()) { std::string t(1, char(c.r(2))); for (size_t n = c.r(50); n--;) t += char(c.r(6)); if (!c.go(t)) return; } return; }
        for (int T : { 0x7f00, 0x7f01, 0x7f21, 0x7f02, 0x7f11, 0x7f09, -3, -2, -1, 0, 1, 2, 3, 10, 100, 999 }) for (int N : { 0, 1, 2, 5, 9, 10, 11, 12, 13, 14, 20, 33, 100, 1000, 4000 }) for (const char *s : { "", "a", "\xff", "\x01\xc8" }) if (!c.go(std::string{ char(T & 255), char(T >> 8 & 255), char(N & 255), char(N >> 8) } + s)) return;
        while (c.time_left()) { int T = !c.r(16) ? 0x7f00 + int(c.r(256)) : c.r(4) ? int(c.r(40)) - 3 : int(c.r(1000)), N = int(c.r(2) ? c.r(60) : c.r(4000)); std::string t{ char(T & 255), char(T >> 8 & 255), char(N & 255), char(N >> 8) }; for (size_t n = c.r(8); n--;) t += char(c.rng()); if (!c.go(t)) return; }
    });
}
