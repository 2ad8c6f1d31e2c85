// deterministic scheduler: the code under test runs in coroutines; every atomic operation is a scheduling point (sequentially consistent interleavings),
// and happens-before is tracked with vector clocks from the memory orders actually used, so a missing acquire/release shows as a data race on a Data cell
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include <mutex>
#include <condition_variable>
#include <array>
#include <span>
#include <format>
#include <iostream>
#include <ucontext.h>
namespace sched {
struct Co { ucontext_t ctx; std::unique_ptr<char[]> stack; std::function<void()> f; bool done = false; };
inline std::vector<Co> *cos_ = nullptr; inline int cur = -1; inline ucontext_t mainctx; inline uint64_t steps = 0; inline bool abandoned = false;
inline void point() { if (cur < 0) return; ++steps; swapcontext(&(*cos_)[size_t(cur)].ctx, &mainctx); }
inline void entry() { auto &c = (*cos_)[size_t(cur)]; c.f(); c.done = true; swapcontext(&c.ctx, &mainctx); }
inline void hb_reset();
// runs the bodies under the schedule given by choice(step, number of runnable threads); false: step limit reached (run abandoned)
template<typename Choice> bool run(const std::vector<std::function<void()>> &bodies, Choice choice, uint64_t limit = 400) {
    static std::vector<std::unique_ptr<char[]>> pool;
    std::vector<Co> cos(bodies.size()); cos_ = &cos; steps = 0; hb_reset();
    for (size_t i = 0; i < bodies.size(); i++) { if (pool.size() <= i) pool.push_back(std::make_unique<char[]>(65536)); cos[i].f = bodies[i]; getcontext(&cos[i].ctx); cos[i].ctx.uc_stack.ss_sp = pool[i].get(); cos[i].ctx.uc_stack.ss_size = 65536; cos[i].ctx.uc_link = nullptr; makecontext(&cos[i].ctx, entry, 0); }
    uint64_t k = 0; bool ok = true;
    while (true) {
        int en[16]; int n = 0; for (size_t i = 0; i < cos.size(); i++) if (!cos[i].done) en[n++] = int(i);
        if (!n) break; if (k > limit) { ok = false; break; }
        int t = en[choice(k++, n)]; cur = t; swapcontext(&mainctx, &cos[size_t(t)].ctx); cur = -1;
    }
    cos_ = nullptr;
    return ok;
}
// ---- happens-before
using VC = std::array<uint32_t, 8>;
inline std::array<VC, 8> vc{}; inline bool fenced[8];
inline void hb_reset() { vc = {}; for (size_t i = 0; i < 8; i++) { vc[i][i] = 1; fenced[i] = false; } }
inline void join(VC &a, const VC &b) { for (size_t i = 0; i < 8; i++) a[i] = std::max(a[i], b[i]); }
inline bool acq(std::memory_order o) { return o == std::memory_order_acquire || o == std::memory_order_consume || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || fenced[cur]; }
inline bool rel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || fenced[cur]; }
inline void hb_load(const VC &r, std::memory_order o) { if (cur >= 0 && acq(o)) join(vc[size_t(cur)], r); }
inline void hb_store(VC &r, std::memory_order o) { if (cur < 0) { r = {}; return; } auto c = size_t(cur); if (rel(o)) { r = vc[c]; vc[c][c]++; } else r = {}; }
inline void hb_rmw(VC &r, std::memory_order o) { if (cur < 0) return; auto c = size_t(cur); if (acq(o)) join(vc[c], r); if (rel(o)) { join(r, vc[c]); vc[c][c]++; } }
inline void fence(std::memory_order) { point(); if (cur >= 0) fenced[cur] = true; } // conservative: later operations of the thread are taken as ordered
struct Data { VC rd{}, wr{}; // accesses of a kind; each check: every access of the other kind happened before
    bool read() { if (cur < 0) return true; auto c = size_t(cur); rd[c] = vc[c][c]; return before(wr); }
    bool write() { if (cur < 0) return true; auto c = size_t(cur); wr[c] = vc[c][c]; return before(rd); }
    bool excl() { if (cur < 0) return true; auto c = size_t(cur); bool ok = before(wr); wr[c] = vc[c][c]; return ok; } // against other writes
    bool before(const VC &x) { for (size_t i = 0; i < 8; i++) if (i != size_t(cur) && x[i] > vc[size_t(cur)][i]) return false; return true; } };
} // namespace sched
namespace std {
#define VO memory_order o = memory_order_seq_cst
template<typename T> struct vatomic {
    T v{}; mutable sched::VC r{}; using value_type = T; static constexpr bool is_always_lock_free = true;
    constexpr vatomic() noexcept = default; constexpr vatomic(T x) noexcept : v(x) {} vatomic(const vatomic &) = delete; vatomic &operator=(const vatomic &) = delete;
    T load(VO) const noexcept { sched::point(); sched::hb_load(r, o); return v; }
    void store(T x, VO) noexcept { sched::point(); sched::hb_store(r, o); v = x; }
    T rmw(T n, memory_order o) noexcept { sched::hb_rmw(r, o); T p = v; v = n; return p; }
    T exchange(T x, VO) noexcept { sched::point(); return rmw(x, o); }
    bool compare_exchange_strong(T &e, T d, memory_order o, memory_order f) noexcept { sched::point(); if (v == e) { rmw(d, o); return true; } sched::hb_load(r, f); e = v; return false; }
    bool compare_exchange_strong(T &e, T d, VO) noexcept { return compare_exchange_strong(e, d, o, o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o); }
    bool compare_exchange_weak(T &e, T d, memory_order a, memory_order b) noexcept { return compare_exchange_strong(e, d, a, b); }
    bool compare_exchange_weak(T &e, T d, VO) noexcept { return compare_exchange_strong(e, d, o); }
    T fetch_add(T x, VO) noexcept requires(is_integral_v<T>) { sched::point(); return rmw(T(v + x), o); }
    T fetch_sub(T x, VO) noexcept requires(is_integral_v<T>) { sched::point(); return rmw(T(v - x), o); }
    T fetch_or(T x, VO) noexcept requires(is_integral_v<T>) { sched::point(); return rmw(T(v | x), o); }
    T fetch_and(T x, VO) noexcept requires(is_integral_v<T>) { sched::point(); return rmw(T(v & x), o); }
    T fetch_xor(T x, VO) noexcept requires(is_integral_v<T>) { sched::point(); return rmw(T(v ^ x), o); }
    operator T() const noexcept { return load(); } T operator=(T x) noexcept { store(x); return x; }
    T operator++() noexcept { return T(fetch_add(1) + 1); } T operator--() noexcept { return T(fetch_sub(1) - 1); } T operator++(int) noexcept { return fetch_add(1); } T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(T x) noexcept { return T(fetch_add(x) + x); } T operator-=(T x) noexcept { return T(fetch_sub(x) - x); }
    void wait(T, memory_order = memory_order_seq_cst) const noexcept { sched::point(); } void notify_one() noexcept {} void notify_all() noexcept {} bool is_lock_free() const noexcept { return true; }
};
template<typename T> struct vid { using type = T; }; template<typename T> using vid_t = typename vid<T>::type;
template<typename T> T atomic_load(const vatomic<T> *a) { return a->load(); }
template<typename T> T atomic_load_explicit(const vatomic<T> *a, memory_order o) { return a->load(o); }
template<typename T> void atomic_store(vatomic<T> *a, vid_t<T> x) { a->store(x); }
template<typename T> void atomic_store_explicit(vatomic<T> *a, vid_t<T> x, memory_order o) { a->store(x, o); }
template<typename T> T atomic_exchange(vatomic<T> *a, vid_t<T> x) { return a->exchange(x); }
template<typename T> T atomic_exchange_explicit(vatomic<T> *a, vid_t<T> x, memory_order o) { return a->exchange(x, o); }
template<typename T> bool atomic_compare_exchange_strong(vatomic<T> *a, vid_t<T> *e, vid_t<T> d) { return a->compare_exchange_strong(*e, d); }
template<typename T> bool atomic_compare_exchange_weak(vatomic<T> *a, vid_t<T> *e, vid_t<T> d) { return a->compare_exchange_strong(*e, d); }
template<typename T> bool atomic_compare_exchange_strong_explicit(vatomic<T> *a, vid_t<T> *e, vid_t<T> d, memory_order o, memory_order f) { return a->compare_exchange_strong(*e, d, o, f); }
template<typename T> bool atomic_compare_exchange_weak_explicit(vatomic<T> *a, vid_t<T> *e, vid_t<T> d, memory_order o, memory_order f) { return a->compare_exchange_strong(*e, d, o, f); }
template<typename T> T atomic_fetch_add(vatomic<T> *a, vid_t<T> x) { return a->fetch_add(x); }
template<typename T> T atomic_fetch_sub(vatomic<T> *a, vid_t<T> x) { return a->fetch_sub(x); }
template<typename T> T atomic_fetch_add_explicit(vatomic<T> *a, vid_t<T> x, memory_order o) { return a->fetch_add(x, o); }
template<typename T> T atomic_fetch_sub_explicit(vatomic<T> *a, vid_t<T> x, memory_order o) { return a->fetch_sub(x, o); }
struct vatomic_flag {
    int v = 0; mutable sched::VC r{};
    bool test_and_set(VO) noexcept { sched::point(); sched::hb_rmw(r, o); int p = v; v = 1; return p; }
    void clear(VO) noexcept { sched::point(); sched::hb_store(r, o); v = 0; }
    bool test(VO) const noexcept { sched::point(); sched::hb_load(r, o); return v; }
    void wait(bool, memory_order = memory_order_seq_cst) const noexcept { sched::point(); } void notify_one() noexcept {} void notify_all() noexcept {}
};
inline bool atomic_flag_test_and_set(vatomic_flag *f) { return f->test_and_set(); } inline bool atomic_flag_test_and_set_explicit(vatomic_flag *f, memory_order o) { return f->test_and_set(o); }
inline void atomic_flag_clear(vatomic_flag *f) { f->clear(); } inline void atomic_flag_clear_explicit(vatomic_flag *f, memory_order o) { f->clear(o); }
inline void vatomic_thread_fence(memory_order o) { sched::fence(o); }
} // namespace std
#undef VO
#define atomic vatomic
#define atomic_flag vatomic_flag
#define atomic_thread_fence vatomic_thread_fence
