// native oracle harness plumbing: argv = search <prop> <seconds> <seed> | replay <prop> <hex>
#pragma once
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>
namespace nat {
inline std::string cur_hex = "-";
inline std::string hex(const std::string &s) { static const char *d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r.empty() ? "00len0" : r; }
inline std::string unhex(const std::string &h) { std::string r; if (h == "00len0") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16)); return r; }
inline void on_sig(int s) { const char *p = "FAIL "; (void) !write(1, p, 5); (void) !write(1, cur_hex.data(), cur_hex.size()); const char *q = " crash: the process was killed by a signal (assertion, terminate or invalid memory access)\n"; (void) !write(1, q, strlen(q)); _exit(1); }
extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
inline void on_death() { on_sig(0); }
struct Ctl {
    std::string prop; double budget; std::mt19937_64 rng; std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now(); uint64_t n = 0; std::function<std::string(const std::string &)> check;
    bool failed = false;
    bool time_left(double frac = 1.0) { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget * frac; }
    uint64_t r(uint64_t m) { return m ? rng() % m : 0; }
    // returns true to continue
    bool go(const std::string &in) { cur_hex = hex(in); ++n; std::string e; try { e = check(in); } catch (const std::exception &x) { e = std::string("unexpected exception: ") + x.what(); } catch (...) { e = "unexpected exception"; } if (!e.empty()) { for (auto &c : e) if (c == '\n') c = ' '; printf("FAIL %s %s\n", cur_hex.c_str(), e.c_str()); fflush(stdout); failed = true; return false; } return true; }
};
// setup: prop -> (check function, search function)
inline int run(int argc, char **argv, const std::function<bool(Ctl &)> &setup, const std::function<void(Ctl &)> &search) {
    for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL }) signal(s, on_sig);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    Ctl c; c.prop = argv[2];
    if (!setup(c)) { printf("INFO no native oracle\n"); return 0; }
    if (!strcmp(argv[1], "replay")) { c.go(unhex(argv[3])); return c.failed; }
    c.budget = atof(argv[3]); c.rng.seed(strtoull(argv[4], nullptr, 10));
    search(c);
    printf("INFO %llu inputs\n", (unsigned long long) c.n);
    return c.failed;
}
} // namespace nat
