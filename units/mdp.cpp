// driver for the real zmq/ZmqUtils.hpp (MDP message transport); fixed calling conventions, no logic of its own
#include <zmq/ZmqUtils.hpp>
#include <cstddef>
using namespace opencmw; using F = mdp::MessageFormat; using M8 = mdp::BasicMessage<F::WithoutSourceId>; using M9 = mdp::BasicMessage<F::WithSourceId>;
using zmq::MessageFrame; using std::optional;
extern "C" {
int  zq_send8(M8 *m, zmq::Socket *s) { auto r = zmq::send(std::move(*m), *s); return r.isValid(); }
int  zq_send9(M9 *m, zmq::Socket *s) { auto r = zmq::send(std::move(*m), *s); return r.isValid(); }
void zq_recv8(optional<M8> *o, zmq::Socket *s) { new (o) optional<M8>(zmq::receive<F::WithoutSourceId>(*s)); }
void zq_recv9(optional<M9> *o, zmq::Socket *s) { new (o) optional<M9>(zmq::receive<F::WithSourceId>(*s)); }
bool zq_has8(optional<M8> *o) { return o->has_value(); }
bool zq_has9(optional<M9> *o) { return o->has_value(); }
void zq_free8(optional<M8> *o) { o->~optional(); }
void zq_free9(optional<M9> *o) { o->~optional(); }
// frames
void zq_f_default(MessageFrame *f) { new (f) MessageFrame(); }
void zq_f_string(MessageFrame *f, std::string *s) { new (f) MessageFrame(std::move(*s)); }
void zq_f_buffer(MessageFrame *f, IoBuffer *b) { new (f) MessageFrame(std::move(*b)); }
void zq_f_char(MessageFrame *f, char c) { new (f) MessageFrame(c); }
void zq_f_static(MessageFrame *f, const char *p, std::size_t n) { new (f) MessageFrame(MessageFrame::fromStaticData(std::string_view(p, n))); }
void zq_f_move(MessageFrame *f, MessageFrame *g) { new (f) MessageFrame(std::move(*g)); }
void zq_f_assign(MessageFrame *f, MessageFrame *g) { *f = std::move(*g); }
void zq_f_swap(MessageFrame *f, MessageFrame *g) { f->swap(*g); }
void zq_f_data(std::string_view *o, MessageFrame *f) { *o = f->data(); }
std::size_t zq_f_size(MessageFrame *f) { return f->size(); }
int  zq_f_recv(MessageFrame *f, zmq::Socket *s, int flags) { auto r = f->receive(*s, flags); return r.isValid(); }
int  zq_f_send(MessageFrame *f, zmq::Socket *s, int flags) { auto r = f->send(*s, flags); return r.isValid(); }
void zq_f_free(MessageFrame *f) { f->~MessageFrame(); }
#define OFF(n) std::size_t zq_off8_##n() { return offsetof(M8, n); } std::size_t zq_off9_##n() { return offsetof(M9, n); }
OFF(sourceId) OFF(protocolName) OFF(command) OFF(serviceName) OFF(clientRequestID) OFF(topic) OFF(data) OFF(error) OFF(rbac)
std::size_t zq_size8() { return sizeof(M8); } std::size_t zq_size9() { return sizeof(M9); } std::size_t zq_opt8() { return sizeof(optional<M8>); } std::size_t zq_opt9() { return sizeof(optional<M9>); }
std::size_t zq_frame() { return sizeof(MessageFrame); } std::size_t zq_msg() { return offsetof(MessageFrame, _message); } std::size_t zq_uri() { return sizeof(M8::URI); } std::size_t zq_uristr() { return offsetof(M8::URI, _str); } std::size_t zq_buf() { return sizeof(IoBuffer); }
}
