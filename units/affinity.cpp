// driver for the real core/ThreadAffinity.hpp: a flag list of arbitrary length, and fixed calling conventions; no logic of its own
#include <cstddef>
struct Flags { const bool* p; std::size_t n; std::size_t size() const { return n; } bool operator[](std::size_t i) const { return p[i]; } const bool* begin() const { return p; } const bool* end() const { return p + n; } using value_type = bool; };
namespace std { template<size_t I> bool get(const ::Flags& f) { return f.p[I]; } }
#include <ThreadAffinity.hpp>
#include <new>
using namespace opencmw::thread;
extern "C" void a_set_t(const Flags* f, std::thread* t) { setThreadAffinity(*f, *t); }
extern "C" void a_set_self(const Flags* f) { setThreadAffinity(*f); }
extern "C" bool a_set_p(const Flags* f, int pid) { return setProcessAffinity(*f, pid); }
extern "C" void a_get_t(std::vector<bool>* out, std::thread* t) { new (out) std::vector<bool>(getThreadAffinity(*t)); }
extern "C" void a_get_self(std::vector<bool>* out) { new (out) std::vector<bool>(getThreadAffinity()); }
extern "C" void a_get_p(std::vector<bool>* out, int pid) { new (out) std::vector<bool>(getProcessAffinity(pid)); }
extern "C" void a_name_t(const char* p, std::size_t n, std::thread* t) { setThreadName(std::string_view(p, n), *t); }
extern "C" void a_name_self(const char* p, std::size_t n) { setThreadName(std::string_view(p, n)); }
extern "C" void a_getname_t(std::string* out, std::thread* t) { new (out) std::string(getThreadName(*t)); }
extern "C" void a_getname_self(std::string* out) { new (out) std::string(getThreadName()); }
extern "C" void a_sched_t(int policy, int prio, std::thread* t) { setThreadSchedulingParameter(static_cast<Policy>(policy), prio, *t); }
extern "C" void a_sched_self(int policy, int prio) { setThreadSchedulingParameter(static_cast<Policy>(policy), prio); }
extern "C" void a_sched_p(int policy, int prio, int pid) { setProcessSchedulingParameter(static_cast<Policy>(policy), prio, pid); }
extern "C" void a_getsched_t(SchedulingParameter* out, std::thread* t) { *out = getThreadSchedulingParameter(*t); }
extern "C" void a_getsched_self(SchedulingParameter* out) { *out = getThreadSchedulingParameter(); }
extern "C" void a_getsched_p(SchedulingParameter* out, int pid) { *out = getProcessSchedulingParameter(pid); }
