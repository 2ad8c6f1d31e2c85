seed('uri-enc-slash', 'C03', [(URI, "if (isUnreserved(c)) {", "if (isUnreserved(c) || (c == '/' && !encoded.view().empty() && encoded.view().back() == '.')) {")],
'''#include <URI.hpp>
#include <cstdio>
int main() { using U = opencmw::URI<>; if (U::encode("a/b") != "a%2Fb" || U::encode("../x") != "..%2Fx") { puts("slash not encoded"); return 1; } return 0; }
''', 'a "/" directly after a "."', 'a reserved character is left unencoded in one context')
seed('rw-try-stale', 'C09', [(LOCK, "            if (expected > 0L) {\n                expected = 0L;\n            }\n            return std::atomic_compare_exchange_strong(&_activeReaderCount, &expected, expected - 1L);", "            if (expected > 0L) {\n                return 0L;\n            }\n            return _activeReaderCount.fetch_sub(1L) <= 0L;")],
'''#include "sched.hpp"
#include <ReaderWriterLock.hpp>
#include <cstdio>
int main() { using L = opencmw::ReaderWriterLock; using enum opencmw::ReaderWriterLockType;
  for (int m = 0; m < 4096; m++) { L l; int r = 0, w = 0; bool bad = false;
    std::vector<std::function<void()>> b{ [&] { l.lock<READ>(); r++; if (w) bad = true; sched::point(); if (w) bad = true; r--; l.unlock<READ>(); }, [&] { if (l.tryLock<WRITE>()) { w++; if (r) bad = true; sched::point(); if (r) bad = true; w--; l.unlock<WRITE>(); } } };
    bool fin = sched::run(b, [&](uint64_t k, int n) { return k < 12 ? int(m >> k & 1) % n : 0; });
    if (bad || (fin && l.value() != 0)) { puts("lock corrupted"); return 1; } } return 0; }
''', 'a reader that arrives between the look at the counter and its update', 'a failed write try-lock leaves the counter changed')
seed('rw-unlock-relaxed', 'C09', [(LOCK, "return std::atomic_fetch_sub(&_activeReaderCount, 1L) - 1L;", "return _activeReaderCount.fetch_sub(1L, std::memory_order_relaxed) - 1L;")],
'''#include "sched.hpp"
#include <ReaderWriterLock.hpp>
#include <cstdio>
int main() { using L = opencmw::ReaderWriterLock; using enum opencmw::ReaderWriterLockType;
  for (int m = 0; m < 4096; m++) { L l; bool bad = false; sched::Data d; // happens-before tracked from the memory orders used
    std::vector<std::function<void()>> b{ [&] { l.lock<READ>(); if (!d.read()) bad = true; l.unlock<READ>(); }, [&] { l.lock<WRITE>(); if (!d.write()) bad = true; l.unlock<WRITE>(); } };
    sched::run(b, [&](uint64_t k, int n) { return k < 12 ? int(m >> k & 1) % n : 0; });
    if (bad) { puts("data race between a reader and the next writer"); return 1; } } return 0; }
''', 'weakly ordered hardware, or a compiler that moves reads past the unlock', 'the critical section of a reader may leak behind its unlock')
seed('rw-unlock-result', 'C10', [(LOCK, "return std::atomic_fetch_add(&_activeReaderCount, 1L) + 1L;", "std::atomic_fetch_add(&_activeReaderCount, 1L);\n            return value();")],
'''#include "sched.hpp"
#include <ReaderWriterLock.hpp>
#include <cstdio>
int main() { using L = opencmw::ReaderWriterLock; using enum opencmw::ReaderWriterLockType;
  for (int m = 0; m < 4096; m++) { L l; bool bad = false; l.lock<WRITE>(); 
    std::vector<std::function<void()>> b{ [&] { if (l.unlock<WRITE>() > 0) bad = true; }, [&] { l.lock<READ>(); l.unlock<READ>(); } };
    sched::run(b, [&](uint64_t k, int n) { return k < 12 ? int(m >> k & 1) % n : 0; });
    if (bad) { puts("unlock<WRITE> reports readers"); return 1; } } return 0; }
''', 'another thread locks between the release and the second look at the counter', 'unlock reports the state after somebody else\'s change')
seed('rw-try-max', 'C10', [(LOCK, "            if (expected < 0L) {\n                expected = 0L;\n            }\n            return std::atomic_compare_exchange_strong(&_activeReaderCount, &expected, expected + 1L);", "            if (expected < 0L || expected > 255L) {\n                expected = 0L;\n            }\n            return std::atomic_compare_exchange_strong(&_activeReaderCount, &expected, expected + 1L);")],
'''#include <ReaderWriterLock.hpp>
#include <cstdio>
int main() { opencmw::ReaderWriterLock l; using enum opencmw::ReaderWriterLockType; for (int i = 0; i < 300; i++) if (l.tryLock<READ>() != 1) { puts("try-lock for reading fails without a writer"); return 1; } return 0; }
''', 'more than 256 simultaneous readers', 'try-lock for reading fails although no writer holds the lock')
seed('mtx-ttas', 'C11', [(SPIN, "while (_lock.test_and_set(std::memory_order_acquire)) {", "while (_lock.test(std::memory_order_acquire) || (!_lock.test(std::memory_order_relaxed) && (_lock.test_and_set(std::memory_order_acquire), false))) {")],
'''#include "sched.hpp"
#include <SpinWait.hpp>
#include <cstdio>
int main() { for (int m = 0; m < 4096; m++) { opencmw::AtomicMutex<> x; int h = 0; bool bad = false;
    auto f = [&] { x.lock(); if (++h > 1) bad = true; sched::point(); if (h > 1) bad = true; --h; x.unlock(); };
    std::vector<std::function<void()>> b{ f, f };
    sched::run(b, [&](uint64_t k, int n) { return k < 12 ? int(m >> k & 1) % n : 0; });
    if (bad) { puts("two holders"); return 1; } } return 0; }
''', 'two threads that see the mutex free at the same time', 'both take the mutex')
seed('spin-forever', 'C12', [(SPIN, "millisecondsTimeout <= (getTickCount() - num)) {", "static_cast<std::uint32_t>(millisecondsTimeout) <= static_cast<std::uint32_t>(getTickCount() - num)) {")],
'''#include <cstdint>
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>
static int64_t now = 1000000000;
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { now += 1000000000; t->tv_sec = now / 1000000000; t->tv_nsec = 0; return 0; }
extern "C" int nanosleep(const struct timespec *, struct timespec *) { return 0; }
extern "C" int sched_yield() noexcept { return 0; }
#include <SpinWait.hpp>
#include <cstdio>
int main() { opencmw::SpinWait<> w; int n = 0; bool r = w.spinUntil([&]() noexcept { return ++n > 60; }, (int64_t(1) << 32) + 5); if (!r) { puts("gave up early"); return 1; } return 0; }
''', 'a timeout of 2^32 ms or more', 'long timeouts are truncated to 32 bits and end early')
seed('spin-wrap', 'C12', [(SPIN, "        if (millisecondsTimeout != 0 && millisecondsTimeout != -1) {\n            num = getTickCount();", "        if (millisecondsTimeout > 1) {\n            num = getTickCount();")],
'''#include <cstdint>
#include <ctime>
#include <unistd.h>
static int64_t now = 1000000000000;
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { now += 1000; t->tv_sec = now / 1000000000; t->tv_nsec = now % 1000000000; return 0; }
extern "C" int nanosleep(const struct timespec *, struct timespec *) { return 0; }
extern "C" int sched_yield() noexcept { return 0; }
#include <SpinWait.hpp>
#include <cstdio>
int main() { opencmw::SpinWait<> w; int n = 0; bool r = w.spinUntil([&]() noexcept { return ++n > 60; }, 1); if (!r) { puts("gave up early"); return 1; } return 0; }
''', 'a timeout of exactly one millisecond', 'the wait ends at once although no time passed')
import glob
for d in ('rw-try-stale', 'rw-unlock-relaxed', 'rw-unlock-result', 'mtx-ttas'): shutil.copy(os.path.join(V, 'native', 'sched.hpp'), os.path.join(V, 'seeded', d, 'sched.hpp'))
