// an in-memory stand-in for the ZeroMQ C functions used by ZmqUtils.hpp, following their reference manual
#pragma once
#include <zmq.h>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <vector>
namespace fake {
struct Content { char *p; size_t n; zmq_free_fn *ffn; void *hint; };            // ffn == nullptr: library-owned block
struct Rec { uint32_t magic; Content *c; };
constexpr uint32_t LIVE = 0x600dcafe, CLOSED = 0xdeadbeef;
inline Rec &rec(const zmq_msg_t *m) { return *reinterpret_cast<Rec *>(const_cast<unsigned char *>(m->_)); }
inline long live = 0; inline std::string misuse;
inline void bad(const char *s) { if (misuse.empty()) misuse = s; }
inline void release(Content *c) { if (!c) return; live--; if (c->ffn) c->ffn(c->p, c->hint); else delete[] c->p; delete c; }
inline Content *own(const std::string &s) { live++; auto *p = new char[s.size() ? s.size() : 1]; memcpy(p, s.data(), s.size()); return new Content{ p, s.size(), nullptr, nullptr }; }
struct Sock {
    std::deque<std::vector<std::string>> in; size_t at = 0; bool more = false;                 // multi-part messages to deliver
    std::vector<std::pair<std::string, int>> out; std::deque<int> sendErrors, recvErrors, optErrors;  // 0: succeed, otherwise errno; empty: succeed
};
inline int next(std::deque<int> &q) { if (q.empty()) return 0; int e = q.front(); q.pop_front(); return e; }
} // namespace fake
extern "C" {
inline int zmq_msg_init(zmq_msg_t *m) { fake::rec(m) = { fake::LIVE, nullptr }; return 0; }
inline int zmq_msg_init_data(zmq_msg_t *m, void *d, size_t n, zmq_free_fn *f, void *h) { fake::live++; fake::rec(m) = { fake::LIVE, new fake::Content{ static_cast<char *>(d), n, f, h } }; if (!f) fake::bad("no free function"); return 0; }
inline int zmq_msg_close(zmq_msg_t *m) { auto &r = fake::rec(m); if (r.magic != fake::LIVE) { errno = EFAULT; return -1; } fake::release(r.c); r = { fake::CLOSED, nullptr }; return 0; }
inline int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s) {
    auto &a = fake::rec(d), &b = fake::rec(s); if (a.magic != fake::LIVE || b.magic != fake::LIVE) { fake::bad("zmq_msg_move of a message that is not initialised"); errno = EFAULT; return -1; } if (d == s) return 0;
    fake::release(a.c); a.c = b.c; b.c = nullptr;
    if (a.c && !a.c->ffn) { auto *n = fake::own(std::string(a.c->p, a.c->n)); fake::release(a.c); a.c = n; }   // short contents move with the message
    return 0;
}
inline void *zmq_msg_data(zmq_msg_t *m) { auto &r = fake::rec(m); if (r.magic != fake::LIVE) fake::bad("zmq_msg_data of a message that is not initialised"); static char none; return r.c ? r.c->p : &none; }
inline size_t zmq_msg_size(const zmq_msg_t *m) { auto &r = fake::rec(m); if (r.magic != fake::LIVE) fake::bad("zmq_msg_size of a message that is not initialised"); return r.c ? r.c->n : 0; }
inline int zmq_msg_send(zmq_msg_t *m, void *s_, int flags) {
    auto &s = *static_cast<fake::Sock *>(s_); auto &r = fake::rec(m); if (r.magic != fake::LIVE) { fake::bad("zmq_msg_send of a message that is not initialised"); errno = EFAULT; return -1; }
    if (int e = fake::next(s.sendErrors)) { errno = e; return -1; }
    std::string c = r.c ? std::string(r.c->p, r.c->n) : std::string(); s.out.emplace_back(c, flags); fake::release(r.c); r.c = nullptr; return int(c.size());
}
inline int zmq_msg_recv(zmq_msg_t *m, void *s_, int) {
    auto &s = *static_cast<fake::Sock *>(s_); auto &r = fake::rec(m); if (r.magic != fake::LIVE) { fake::bad("zmq_msg_recv into a message that is not initialised"); errno = EFAULT; return -1; }
    if (int e = fake::next(s.recvErrors)) { errno = e; return -1; }
    if (s.in.empty()) { errno = EAGAIN; return -1; }
    auto &f = s.in.front(); fake::release(r.c); r.c = fake::own(f[s.at]); int n = int(f[s.at].size()); if (++s.at >= f.size()) { s.at = 0; s.in.pop_front(); s.more = false; } else s.more = true; return n;
}
inline int zmq_getsockopt(void *s_, int o, void *v, size_t *n) { auto &s = *static_cast<fake::Sock *>(s_); if (int e = fake::next(s.optErrors)) { errno = e; return -1; } int x = s.more; if (o != ZMQ_RCVMORE || *n < sizeof(x)) { errno = EINVAL; return -1; } memset(v, 0, *n); memcpy(v, &x, sizeof(x)); *n = sizeof(x); return 0; }
inline int zmq_setsockopt(void *, int, const void *, size_t) { return 0; }
inline void *zmq_ctx_new(void) { return new int; }
inline int zmq_ctx_term(void *c) { delete static_cast<int *>(c); return 0; }
inline void *zmq_socket(void *, int) { return new fake::Sock; }
inline int zmq_close(void *s) { delete static_cast<fake::Sock *>(s); return 0; }
}
