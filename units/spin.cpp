// driver for the real core/SpinWait.hpp: calling conventions only
#include <chrono>
#include <limits>
#include <stdexcept>
#include <SpinWait.hpp>
#include <new>
extern "C" bool u_cond() noexcept;
extern "C" void u_spin();
extern "C" void u_spin_reset();
struct Spin { void spin_once() { u_spin(); } void reset() { u_spin_reset(); } };
using M0 = opencmw::AtomicMutex<>; using M1 = opencmw::AtomicMutex<Spin>; using M2 = opencmw::AtomicMutex<opencmw::SpinWait<>>;
extern "C" void u_m0_ctor(M0* m) { new (m) M0(); }
extern "C" void u_m1_ctor(M1* m) { new (m) M1(); }
extern "C" void u_m2_ctor(M2* m) { new (m) M2(); }
extern "C" void u_m0_lock(M0* m) { m->lock(); }
extern "C" void u_m1_lock(M1* m) { m->lock(); }
extern "C" void u_m2_lock(M2* m) { m->lock(); }
extern "C" void u_m0_unlock(M0* m) { m->unlock(); }
extern "C" void u_m1_unlock(M1* m) { m->unlock(); }
extern "C" void u_m2_unlock(M2* m) { m->unlock(); }
extern "C" bool u_until(long timeout) { opencmw::SpinWait<> s; return s.spinUntil([]() noexcept { return u_cond(); }, timeout); }
extern "C" bool u_until_forever() { opencmw::SpinWait<> s; return s.spinUntil([]() noexcept { return u_cond(); }); }
extern "C" bool u_until2(long timeout) { opencmw::SpinWait<1, 2, 3> s; return s.spinUntil([]() noexcept { return u_cond(); }, timeout); }
extern "C" int u_once(opencmw::SpinWait<>* s) { s->spinOnce(); return s->count(); }
