SYS = r'''#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
struct VB : std::vector<bool> { using std::vector<bool>::vector; };
namespace std { template<size_t I> bool get(const ::VB &f) { return f[I]; } }
#include <ThreadAffinity.hpp>
// recording stand-ins: the system is not changed
static unsigned hw = 4; static int calls = 0, rc = 0, pol = 0, prio = 0, pidv = 0; static cpu_set_t cs; static std::string nm; static pthread_t tgt;
extern "C" {
int pthread_setaffinity_np(pthread_t t, size_t, const cpu_set_t *s) noexcept { calls++; tgt = t; cs = *s; return rc; }
int sched_setaffinity(pid_t p, size_t, const cpu_set_t *s) noexcept { calls++; pidv = p; cs = *s; return rc; }
int pthread_getaffinity_np(pthread_t, size_t, cpu_set_t *s) noexcept { *s = cs; return rc; }
int sched_getaffinity(pid_t p, size_t, cpu_set_t *s) noexcept { pidv = p; *s = cs; return rc; }
int pthread_setname_np(pthread_t, const char *n) noexcept { calls++; nm = n; return rc; }
int pthread_getname_np(pthread_t, char *b, size_t n) noexcept { snprintf(b, n, "%s", nm.c_str()); return rc; }
int pthread_setschedparam(pthread_t, int p, const struct sched_param *q) noexcept { calls++; pol = p; prio = q->sched_priority; return rc; }
int sched_setscheduler(pid_t t, int p, const struct sched_param *q) noexcept { calls++; pidv = t; pol = p; prio = q->sched_priority; return rc; }
int pthread_getschedparam(pthread_t, int *p, struct sched_param *q) noexcept { *p = pol; q->sched_priority = prio; return rc; }
int sched_getscheduler(pid_t) noexcept { return pol; }
int sched_getparam(pid_t, struct sched_param *q) noexcept { q->sched_priority = prio; return rc; }
int sched_get_priority_min(int p) noexcept { return p == 1 ? 1 : p == 2 ? 3 : 0; }
int sched_get_priority_max(int p) noexcept { return p == 1 ? 99 : p == 2 ? 50 : 0; }
}
unsigned std::thread::hardware_concurrency() noexcept { return hw; }
using namespace opencmw::thread;
#define R(c) if (!(c)) { printf("failed: %s\n", #c); return 1; }
template<class F> bool thr(F f) { try { f(); return false; } catch (const std::system_error &) { return true; } }
'''
seed('aff-word', 'C14', [(AFF, "    size_t nMax = std::min(threadMap.size(), static_cast<size_t>(std::thread::hardware_concurrency()));\n    for (size_t i = 0; i < nMax; i++) {\n        if (threadMap[i]) {\n            CPU_SET(i, &cpuSet);", "    const unsigned nMax = static_cast<unsigned>(std::min(threadMap.size(), static_cast<size_t>(std::thread::hardware_concurrency())));\n    for (unsigned i = 0; i < nMax; i++) {\n        if (threadMap[i]) {\n            cpuSet.__bits[i / __NCPUBITS] |= static_cast<__cpu_mask>(1U << (i % __NCPUBITS));")],
SYS + '''int main() { hw = 64; VB v(64); v[40] = true; setThreadAffinity(v); R(CPU_COUNT(&cs) == 1 && CPU_ISSET(40, &cs)) return 0; }
''', 'a machine with more than 32 CPUs', 'the flag of CPU 32+i enables CPU i (32-bit shift)')
seed('aff-get-trim', 'C14', [(AFF, "        bitMask[i] = CPU_ISSET(i, &cpuSet);", "        bitMask[i] = CPU_ISSET(i, &cpuSet) && i < static_cast<size_t>(CPU_COUNT(&cpuSet)) * __NCPUBITS;")],
SYS + '''int main() { hw = 256; CPU_ZERO(&cs); CPU_SET(130, &cs); auto v = getThreadAffinity(); R(v.size() == 256 && v[130]) return 0; }
''', 'few enabled CPUs with high numbers', 'an enabled CPU is reported as disabled')
seed('aff-pid-zero', 'C14', [(AFF, 'std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));\n    }\n    cpu_set_t cpuSet = detail::getAffinityMask(threadMap);', 'std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));\n    }\n    if (threadMap.size() == 0) {\n        return true;\n    }\n    cpu_set_t cpuSet = detail::getAffinityMask(threadMap);')],
SYS + '''int main() { hw = 4; VB v; rc = 22; R(thr([&] { setProcessAffinity(v, 5); })) return 0; }
''', 'an empty flag list', 'success is reported although nothing was set (the system would refuse an empty set)')
seed('name-trim', 'C15', [(AFF, "    return std::string{ threadName, std::min(strlen(threadName), THREAD_MAX_NAME_LENGTH) };", "    return std::string{ threadName, std::min(strlen(threadName), THREAD_MAX_NAME_LENGTH - 2) };")],
SYS + '''int main() { nm = "fifteen-chars-x"; R(getThreadName() == nm) return 0; }
''', 'a name of the full 15 characters', 'the last character is lost when reading the name')
seed('sched-range', 'C15', [(AFF, 'setProcessSchedulingParameter({}, {}, {}) -- invalid pid", static_cast<int>(scheduler), priority, pid));\n    }\n    const int minPriority = sched_get_priority_min(scheduler);\n    const int maxPriority = sched_get_priority_max(scheduler);\n    if (priority < minPriority || priority > maxPriority) {', 'setProcessSchedulingParameter({}, {}, {}) -- invalid pid", static_cast<int>(scheduler), priority, pid));\n    }\n    const int minPriority = sched_get_priority_min(Policy::FIFO) - 1;\n    const int maxPriority = scheduler == Policy::OTHER ? 0 : sched_get_priority_max(scheduler);\n    if (priority < minPriority || priority > maxPriority) {')],
SYS + '''int main() { R(thr([&] { setProcessSchedulingParameter(ROUND_ROBIN, 0, 7); }) && calls == 0) return 0; }
''', 'priority 0 with a real-time policy', 'a priority below the range of the policy is passed to the system')
seed('sched-get-unknown', 'C15', [(AFF, "    case SCHED_OTHER: return Policy::OTHER;\n", "    case SCHED_BATCH:\n    case SCHED_OTHER: return Policy::OTHER;\n")],
SYS + '''int main() { pol = SCHED_BATCH; R(getThreadSchedulingParameter().policy == UNKNOWN) return 0; }
''', 'a thread with the batch policy', 'an unknown policy is reported as OTHER')
