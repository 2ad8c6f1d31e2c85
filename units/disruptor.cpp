// driver for the real disruptor headers: calling conventions only
#include <cstddef>
#include <new>
#include <disruptor/RingBuffer.hpp>
using namespace opencmw::disruptor;
#ifndef RBSIZE
#define RBSIZE 8
#endif
using V = std::vector<std::shared_ptr<Sequence>>; using I = std::int64_t; using W = NoWaitStrategy;
using ST = SingleThreadedStrategy<RBSIZE, W>; using MT = MultiThreadedStrategy<RBSIZE, W>; using RB = RingBuffer<I, RBSIZE, W, MultiThreadedStrategy>; using RS = RingBuffer<I, RBSIZE, W, SingleThreadedStrategy>; using EP = EventPoller<I, RBSIZE, W, MultiThreadedStrategy>;
extern "C" {
void cb_translate(I* e, I s); bool cb_handle(I* e, I s, bool end);
}
using ES = EventPoller<I, RBSIZE, W, SingleThreadedStrategy>;
#define DRV(P, R, E) \
I P##_sizeof() { return sizeof(R); } \
I P##_off_entries() { return offsetof(R, _entries); } \
I P##_off_cs() { return offsetof(R, _claimStrategy); } \
I P##_off_gate() { return offsetof(R, _gatingSequences); } \
I P##_off_cursor() { return offsetof(R, _cursor); } \
I* P##_at(const R* r, I q) { return &r->R::operator[](q); } \
void P##_ctor(R* r) { new (r) R(); } \
bool P##_has(R* r, int n) { return r->hasAvailableCapacity(n); } \
I P##_next(R* r, int n) { return r->next(n); } \
I P##_try(R* r, int n) { return r->tryNext(n); } \
I P##_rem(R* r) { return r->getRemainingCapacity(); } \
void P##_publish(R* r, I q) { r->publish(q); } \
bool P##_avail(R* r, I q) { return r->isAvailable(q); } \
bool P##_ispub(R* r, I q) { return r->isPublished(q); } \
I P##_high(R* r, I a, I b) { return r->getHighestPublishedSequence(a, b); } \
I P##_cursor(R* r) { return r->cursor(); } \
I P##_min(R* r) { return r->getMinimumGatingSequence(); } \
void P##_event(R* r) { r->publishEvent([](I&& e, I s) { cb_translate(&e, s); }); } \
bool P##_tryevent(R* r) { return r->tryPublishEvent([](I&& e, I s) { cb_translate(&e, s); }); } \
I P##_ep_sizeof() { return sizeof(E); } \
I P##_ep_off_data() { return offsetof(E, _dataProvider); } \
I P##_ep_off_seq() { return offsetof(E, _sequence); } \
I P##_ep_off_gate() { return offsetof(E, _gatingSequences); } \
I P##_ep_off_last() { return offsetof(E, _lastAvailableSequence); } \
I P##_poll(E* p) { return I(p->poll([](I& e, I s, bool b) { return cb_handle(&e, s, b); })); } \
I P##_pollv(E* p) { return I(p->poll([](I& e, I s, bool b) { cb_handle(&e, s, b); })); }
extern "C" {
DRV(rb, RB, EP)
DRV(rs, RS, ES)
I d_min(const V* v, I m) { return detail::getMinimumSequence(*v, m); }
I d_size() { return RBSIZE; }
void st_ctor(ST* s, Sequence* c, W* w) { new (s) ST(*c, *w); }
I st_off_next() { return offsetof(ST, _nextValue); }
I st_off_cached() { return offsetof(ST, _cachedValue); }
bool st_has(const ST* s, const V* v, int n, I c) { return s->hasAvailableCapacity(*v, n, c); }
I st_next(ST* s, const V* v, int n) { return s->next(*v, n); }
I st_try(ST* s, const V* v, int n) { return s->tryNext(*v, n); }
I st_rem(const ST* s, const V* v) { return s->getRemainingCapacity(*v); }
void st_publish(ST* s, I q) { s->publish(q); }
bool st_avail(const ST* s, I q) { return s->isAvailable(q); }
I st_high(const ST* s, I a, I b) { return s->getHighestPublishedSequence(a, b); }
void mt_ctor(MT* s, Sequence* c, W* w) { new (s) MT(*c, *w); }
I mt_off_gate() { return offsetof(MT, _gatingSequenceCache); }
I mt_off_avail() { return offsetof(MT, _availableBuffer); }
I mt_sizeof() { return sizeof(MT); }
bool mt_has(const MT* s, const V* v, int n, I c) { return s->hasAvailableCapacity(*v, n, c); }
I mt_next(MT* s, const V* v, int n) { return s->next(*v, n); }
I mt_try(MT* s, const V* v, int n) { return s->tryNext(*v, n); }
I mt_rem(const MT* s, const V* v) { return s->getRemainingCapacity(*v); }
void mt_publish(MT* s, I q) { s->publish(q); }
bool mt_avail(const MT* s, I q) { return s->isAvailable(q); }
I mt_high(const MT* s, I a, I b) { return s->getHighestPublishedSequence(a, b); }
I sq_value(const Sequence* s) { return s->value(); }
void sq_set(Sequence* s, I v) { s->setValue(v); }
bool sq_cas(Sequence* s, I a, I b) { return s->compareAndSet(a, b); }
I sq_inc(Sequence* s) { return s->incrementAndGet(); }
I sq_add(Sequence* s, I v) { return s->addAndGet(v); }
}
