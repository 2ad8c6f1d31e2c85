// driver for the real core/ReaderWriterLock.hpp: calling conventions only
#include <cstdint>
#include <ReaderWriterLock.hpp>
#include <new>
using L = opencmw::ReaderWriterLock;
using enum opencmw::ReaderWriterLockType;
extern "C" int u_body();
extern "C" void u_ctor(L* l) { new (l) L(); }
extern "C" std::int64_t u_value(const L* l) { return l->value(); }
extern "C" std::int64_t u_lock_r(const L* l) { return l->lock<READ>(); }
extern "C" std::int64_t u_lock_w(const L* l) { return l->lock<WRITE>(); }
extern "C" std::int64_t u_try_r(const L* l) { return l->tryLock<READ>(); }
extern "C" std::int64_t u_try_w(const L* l) { return l->tryLock<WRITE>(); }
extern "C" std::int64_t u_unlock_r(const L* l) { return l->unlock<READ>(); }
extern "C" std::int64_t u_unlock_w(const L* l) { return l->unlock<WRITE>(); }
template<auto T> static inline void guarded(L* l) { auto g = l->scopedGuard<T>(); if (u_body()) throw 1; }
extern "C" void u_guard_r(L* l) { guarded<READ>(l); }
extern "C" void u_guard_w(L* l) { guarded<WRITE>(l); }
