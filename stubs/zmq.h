// declarations of the ZeroMQ C API (the library is not installed); the functions are undefined and enter by contract
#pragma once
#include <cerrno>
#include <cstddef>
#include <cstdint>
extern "C" {
typedef struct zmq_msg_t { alignas(void *) unsigned char _[64]; } zmq_msg_t;
typedef void(zmq_free_fn)(void *data_, void *hint_);
int         zmq_msg_init(zmq_msg_t *msg_);
int         zmq_msg_init_data(zmq_msg_t *msg_, void *data_, size_t size_, zmq_free_fn *ffn_, void *hint_);
int         zmq_msg_send(zmq_msg_t *msg_, void *s_, int flags_);
int         zmq_msg_recv(zmq_msg_t *msg_, void *s_, int flags_);
int         zmq_msg_close(zmq_msg_t *msg_);
int         zmq_msg_move(zmq_msg_t *dest_, zmq_msg_t *src_);
int         zmq_msg_copy(zmq_msg_t *dest_, zmq_msg_t *src_);
void       *zmq_msg_data(zmq_msg_t *msg_);
size_t      zmq_msg_size(const zmq_msg_t *msg_);
int         zmq_msg_more(const zmq_msg_t *msg_);
void       *zmq_ctx_new(void);
int         zmq_ctx_term(void *context_);
void       *zmq_socket(void *, int type_);
int         zmq_close(void *s_);
int         zmq_setsockopt(void *s_, int option_, const void *optval_, size_t optvallen_);
int         zmq_getsockopt(void *s_, int option_, void *optval_, size_t *optvallen_);
int         zmq_errno(void);
}
#define ZMQ_DONTWAIT 1
#define ZMQ_SNDMORE 2
#define ZMQ_RCVMORE 13
#define ZMQ_LINGER 17
#define ZMQ_SNDHWM 23
#define ZMQ_RCVHWM 24
#define ZMQ_HEARTBEAT_IVL 75
#define ZMQ_HEARTBEAT_TTL 76
#define ZMQ_HEARTBEAT_TIMEOUT 77
