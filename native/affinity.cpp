// the real core/ThreadAffinity.hpp against recording stand-ins of the system interface: nothing of the sandbox is changed
#include <cstddef>
#include "common.hpp"
struct VB : std::vector<bool> { using std::vector<bool>::vector; };
namespace std { template<size_t I> bool get(const ::VB &f) { return f[I]; } }
#include <ThreadAffinity.hpp>
#include <array>
#include <deque>
using nat::Ctl;
namespace sys {
unsigned hw = 4; pthread_t self_ = 77; int ncall = 0, rc = 0; pthread_t t{}; int pid = 0; cpu_set_t set{}; std::string name; int policy = 0, prio = 0; char what = ' ';
void reset() { ncall = 0; t = 0; pid = 0; name.clear(); what = ' '; }
}
extern "C" {
int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) noexcept { sys::ncall++; sys::what = 'A'; sys::t = t; if (n != sizeof(cpu_set_t)) sys::what = '?'; sys::set = *s; return sys::rc; }
int sched_setaffinity(pid_t p, size_t n, const cpu_set_t *s) noexcept { sys::ncall++; sys::what = 'a'; sys::pid = p; if (n != sizeof(cpu_set_t)) sys::what = '?'; sys::set = *s; return sys::rc; }
int pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) noexcept { sys::ncall++; sys::what = 'G'; sys::t = t; if (n != sizeof(cpu_set_t)) sys::what = '?'; *s = sys::set; return sys::rc; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) noexcept { sys::ncall++; sys::what = 'g'; sys::pid = p; if (n != sizeof(cpu_set_t)) sys::what = '?'; *s = sys::set; return sys::rc; }
int pthread_setname_np(pthread_t t, const char *n) noexcept { sys::ncall++; sys::what = 'N'; sys::t = t; sys::name = n; return sys::rc; }
int pthread_getname_np(pthread_t t, char *b, size_t n) noexcept { if (sys::what == ' ' || sys::what == 'n') { sys::ncall++; sys::what = 'n'; sys::t = t; } if (n < 16) return 34; snprintf(b, n, "%s", sys::what == 'n' ? sys::name.c_str() : "x"); return sys::what == 'n' ? sys::rc : 0; }
int pthread_setschedparam(pthread_t t, int p, const struct sched_param *q) noexcept { sys::ncall++; sys::what = 'S'; sys::t = t; sys::policy = p; sys::prio = q->sched_priority; return sys::rc; }
int sched_setscheduler(pid_t t, int p, const struct sched_param *q) noexcept { sys::ncall++; sys::what = 's'; sys::pid = t; sys::policy = p; sys::prio = q->sched_priority; return sys::rc; }
int pthread_getschedparam(pthread_t t, int *p, struct sched_param *q) noexcept { sys::ncall++; sys::what = 'P'; sys::t = t; *p = sys::policy; q->sched_priority = sys::prio; return sys::rc; }
int sched_getscheduler(pid_t t) noexcept { sys::pid = t; return sys::policy; }
int sched_getparam(pid_t t, struct sched_param *q) noexcept { sys::ncall++; sys::what = 'p'; sys::pid = t; q->sched_priority = sys::prio; return sys::rc; }
int sched_get_priority_min(int p) noexcept { return p == 1 ? 1 : p == 2 ? 3 : 0; }
int sched_get_priority_max(int p) noexcept { return p == 1 ? 99 : p == 2 ? 50 : 0; }
pthread_t pthread_self() noexcept { return sys::self_; }
}
unsigned std::thread::hardware_concurrency() noexcept { return sys::hw; }
using namespace opencmw::thread;
struct T : std::thread { }; // handle set by hand
static std::thread &thr(pthread_t h) { static std::thread *t = reinterpret_cast<std::thread *>(::operator new(sizeof(std::thread))); static_assert(sizeof(std::thread) == sizeof(pthread_t)); memcpy((void *) t, &h, sizeof h); return *t; }
// input: kind(1) target(1) rc(1) hw(2) payload
struct In { int kind, tgt, rc, hw; std::string p; In(const std::string &s) { auto b = [&](size_t i) { return i < s.size() ? (unsigned char) s[i] : 0; }; kind = b(0) % 3; tgt = b(1); rc = (signed char) b(2); hw = b(3) | b(4) << 8; p = s.size() > 5 ? s.substr(5) : ""; } };
#define E(c, m) if (!(c)) return std::string(m)
template<class F> static int attempt(F f) { try { f(); return 0; } catch (const std::system_error &) { return 1; } catch (...) { return 2; } }
static std::string tgt_ok(const In &x) { if (x.kind == 2) { E(sys::pid == x.tgt - 8, "wrong process addressed"); } else E(sys::t == (x.kind == 0 ? (pthread_t) x.tgt : sys::self_), "wrong thread addressed"); return ""; }
static std::string outcome(const In &x, int r, bool valid, const char *what) {
    std::string w = what;
    E(r != 2, w + ": not a system error");
    E(valid || (r == 1 && sys::ncall == 0), w + ": invalid target must be refused without a system call");
    if (!valid) return "";
    E(sys::ncall == 1, w + ": exactly one system call");
    E((r == 0) == (x.rc == 0), w + (r ? ": fails although the system call succeeds" : ": a failing system call is not reported"));
    return tgt_ok(x);
}
static std::string chk14(const std::string &s) {
    In x(s); sys::reset(); sys::hw = (unsigned) x.hw; sys::rc = x.rc; memset(&sys::set, 0xff, sizeof sys::set);
    bool valid = x.kind == 0 ? x.tgt != 0 : x.kind == 1 ? true : x.tgt - 8 > 0; int pid = x.tgt - 8;
    VB v; for (size_t i = 0; i < x.p.size(); i++) v.push_back(x.p[i] & 1);
    int r = attempt([&] { if (x.kind == 0) setThreadAffinity(v, thr((pthread_t) x.tgt)); else if (x.kind == 1) setThreadAffinity(v); else if (!setProcessAffinity(v, pid)) throw 1; });
    auto e = outcome(x, r, valid, "set affinity"); if (!e.empty()) return e;
    if (valid) { E(sys::what == 'A' || sys::what == 'a', "set affinity: wrong call"); for (size_t i = 0; i < 1024; i++) { bool w = i < v.size() && i < sys::hw && v[i]; E(!!CPU_ISSET(i, &sys::set) == w, "set affinity: CPU " + std::to_string(i) + (w ? " not enabled" : " enabled")); } }
    sys::reset(); CPU_ZERO(&sys::set); for (size_t i = 0; i < 1024; i++) if (!x.p.empty() && (x.tgt % 2 ? (x.p[i % x.p.size()] >> (i / x.p.size() % 2) & 1) : i % 1024 == (unsigned char) x.p[0] * 4u + (x.p.size() > 1 ? x.p[1] & 3u : 0))) CPU_SET(i, &sys::set);
    std::vector<bool> g; r = attempt([&] { g = x.kind == 0 ? getThreadAffinity(thr((pthread_t) x.tgt)) : x.kind == 1 ? getThreadAffinity() : getProcessAffinity(pid); });
    e = outcome(x, r, valid, "get affinity"); if (!e.empty()) return e;
    if (valid && r == 0) { E(g.size() == std::min<size_t>(1024, sys::hw), "get affinity: number of flags"); for (size_t i = 0; i < g.size(); i++) E(g[i] == !!CPU_ISSET(i, &sys::set), "get affinity: flag " + std::to_string(i)); }
    return "";
}
static std::string chk15(const std::string &s) {
    In x(s); sys::hw = 4; sys::rc = x.rc; bool valid = x.kind == 0 ? x.tgt != 0 : x.kind == 1 ? true : x.tgt - 8 > 0; int pid = x.tgt - 8;
    if (x.kind != 2) {
        std::string name; for (char ch : x.p) if (ch) name += ch;
        sys::reset(); std::string back = name + "TAIL";
        int r = attempt([&] { std::string_view nm(back.data(), name.size()); if (x.kind == 0) setThreadName(nm, thr((pthread_t) x.tgt)); else setThreadName(nm); });
        if (valid && x.rc > 0 && r == 0) { E(x.rc != 34 || name != "a name longer than 15", "an error code of the system is not reported [setThreadName-positive-rc]"); r = 1; }
        auto e = outcome(x, r, valid, "set name"); if (!e.empty()) return e;
        if (valid) E(sys::what == 'N' && sys::name == name, "set name: wrong characters passed: '" + sys::name + "'");
        sys::reset(); sys::name = name.substr(0, 15); std::string want = sys::name, got;
        r = attempt([&] { got = x.kind == 0 ? getThreadName(thr((pthread_t) x.tgt)) : getThreadName(); });
        e = outcome(x, r, valid, "get name"); if (!e.empty()) return e;
        if (valid && r == 0) E(got == want, "get name: wrong text '" + got + "'");
    }
    auto b = [&](size_t i) { return i < x.p.size() ? (int) (signed char) x.p[i] : 0; };
    int pol = b(0) % 4, pr = b(1); sys::reset();
    int r = attempt([&] { auto P = static_cast<Policy>(pol); if (x.kind == 0) setThreadSchedulingParameter(P, pr, thr((pthread_t) x.tgt)); else if (x.kind == 1) setThreadSchedulingParameter(P, pr); else setProcessSchedulingParameter(P, pr, pid); });
    bool v2 = valid && pr >= sched_get_priority_min(pol) && pr <= sched_get_priority_max(pol); if (valid && !v2 && sys::what == 'n') sys::ncall = 0; // the name for the message
    auto e = outcome(x, r, v2, "set scheduling"); if (!e.empty()) return e;
    if (v2) E(sys::policy == pol && sys::prio == pr, "set scheduling: wrong values passed");
    sys::reset(); sys::policy = b(2); sys::prio = b(3) * 1000003; SchedulingParameter g{ UNKNOWN, -5 };
    r = attempt([&] { g = x.kind == 0 ? getThreadSchedulingParameter(thr((pthread_t) x.tgt)) : x.kind == 1 ? getThreadSchedulingParameter() : getProcessSchedulingParameter(pid); });
    e = outcome(x, r, valid, "get scheduling"); if (!e.empty()) return e;
    if (valid && r == 0) E(g.priority == sys::prio && g.policy == (sys::policy == 0 ? OTHER : sys::policy == 1 ? FIFO : sys::policy == 2 ? ROUND_ROBIN : UNKNOWN), "get scheduling: wrong values");
    return "";
}
int main(int argc, char **argv) {
    return nat::run(argc, argv, [](Ctl &c) { c.check = c.prop == "C14" ? chk14 : chk15; return c.prop == "C14" || c.prop == "C15"; }, [](Ctl &c) {
        auto in = [](int k, int t, int rc, int hw, const std::string &p) { std::string s; s += char(k); s += char(t); s += char(rc); s += char(hw & 255); s += char(hw >> 8); return s + p; };
        if (c.prop == "C14") {
            for (int k = 0; k < 3; k++) for (int t : { 0, 7, 8, 9, 200 }) for (int rc : { 0, 1, -1, 22 }) for (int hw : { 0, 1, 4, 63, 64, 65, 127, 128, 129, 1000, 1023, 1024, 1025, 3000 }) for (int n : { 0, 1, 2, 4, 63, 64, 65, 128, 129, 1023, 1024, 1025, 1500, 4000 }) {
                if (rc && n > 65) continue;
                for (int q = 0; q < 3; q++) { std::string p((size_t) n, char(q == 0 ? 1 : 0)); if (q == 2) for (auto &ch : p) ch = char(c.rng()); if (!c.go(in(k, t, rc, hw, p))) return; } if (!c.time_left()) return; }
            for (int hw : { 200, 1024 }) for (int a = 0; a < 256; a++) for (int b = 0; b < 4; b++) if (!c.go(in(a % 3, 10, 0, hw, std::string{ char(a), char(b) }))) return; // one CPU enabled
            while (c.time_left()) { std::string p(c.r(c.r(2) ? 1100 : 70), 0); for (auto &ch : p) ch = char(c.rng()); if (!c.go(in(int(c.r(3)), int(c.r(20)), c.r(3) ? 0 : int(c.r(256)), int(c.r(c.r(2) ? 1200 : 70)), p))) return; }
            return;
        }
        c.go(in(0, 7, 34, 4, "a name longer than 15")); c.failed = false; // the listed finding
        for (int k = 0; k < 3; k++) for (int t : { 0, 7, 8, 9, 200 }) for (int rc : { 0, 1, -1, 22 }) for (int pol = -2; pol < 5; pol++) for (int pr = -128; pr < 128; pr++) { std::string p = { char(pol), char(pr), char(pr), char(pol) }; if (!c.go(in(k, t, rc, 4, p))) return; }
        for (int k = 0; k < 2; k++) for (int n = 0; n < 40; n++) { std::string p((size_t) n, 'n'); for (auto &ch : p) ch = char(c.rng() | 1); if (!c.go(in(k, 7, 0, 4, p))) return; }
        while (c.time_left()) { std::string p(c.r(c.r(2) ? 20 : 300), 0); for (auto &ch : p) ch = char(c.rng()); if (!c.go(in(int(c.r(3)), int(c.r(20)), c.r(3) ? 0 : int(c.r(256)), 4, p))) return; }
    });
}
