#include <bits/stdc++.h>
#include "common.hpp"
#include "sched.hpp"
#include <disruptor/RingBuffer.hpp>
using nat::Ctl; using namespace opencmw::disruptor; using I = std::int64_t;
struct Ev { I v = -7; sched::Data d; };
static I raw(const std::shared_ptr<Sequence> &s) { return s->_fieldsValue.v; }
static const I bases[] = { -1, (I(1) << 31) - 4, (I(1) << 32) - 3, (I(1) << 33) + 5 };
struct Bang {};
template<std::size_t SIZE, template<std::size_t, typename> typename CS> struct Run {
    using RB = RingBuffer<Ev, SIZE, NoWaitStrategy, CS>; using EP = EventPoller<Ev, SIZE, NoWaitStrategy, CS>; static constexpr bool MT = std::is_same_v<CS<SIZE, NoWaitStrategy>, MultiThreadedStrategy<SIZE, NoWaitStrategy>>;
    std::shared_ptr<RB> rb = std::make_shared<RB>(); std::string err; std::vector<std::shared_ptr<EP>> pol; std::set<I> claimed, published;
    void bad(const std::string &s) { if (err.empty()) err = s; }
    void start(I b) { rb->_cursor->setValue(b); if constexpr (!MT) { rb->_claimStrategy->_nextValue = b; rb->_claimStrategy->_cachedValue = b; } else rb->_claimStrategy->_gatingSequenceCache->setValue(b); }
    std::vector<std::shared_ptr<Sequence>> gate() { std::vector<std::shared_ptr<Sequence>> g; for (auto &p : pol) g.push_back(p->sequence()); return g; }
    void took(I s) { for (auto &p : pol) if (s - I(SIZE) > raw(p->sequence())) bad("sequence " + std::to_string(s) + " claimed while a consumer is at " + std::to_string(raw(p->sequence())) + " with capacity " + std::to_string(SIZE)); if (!claimed.insert(s).second) bad("sequence " + std::to_string(s) + " handed out twice"); }
    void write(Ev &e, I s) { bool a = e.d.excl(), b = e.d.write(); if (!a || !b) bad("the event of sequence " + std::to_string(s) + " is written while another access to the slot is not ordered before"); e.v = -9; sched::point(); e.v = s * 3 + 1; }
    std::string conc(const std::string &in) { // [mode][base][8 op bytes][schedule]
        uint8_t m = uint8_t(in[0]); size_t np = MT ? 1 + (m >> 1 & 1) : 1, nc = 1 + (m >> 2 & 1); I b0 = bases[uint8_t(in[1]) & 3]; start(b0);
        pol.push_back(rb->newPoller()); if (nc > 1) pol.push_back((m & 8) ? rb->newPoller({ pol[0]->sequence() }) : rb->newPoller());
        rb->addGatingSequences(gate()); for (auto &p : pol) if (raw(p->sequence()) != b0) return "a new consumer does not start at the cursor";
        std::vector<std::function<void()>> b;
        auto o8 = [&](size_t i) { return uint8_t(in[2 + i % 8]); };
        for (size_t t = 0; t < np; t++) b.push_back([&, t] {
            for (size_t k = 0; k < 3 && err.empty(); k++) { auto op = o8(t * 3 + k); int n = 1 + (op >> 3) % int(SIZE - 1);
                auto tr = [&](Ev &&e, I s) { took(s); write(e, s); published.insert(s); if (op & 0x80) throw Bang{}; };
                auto fill = [&](I s) { for (I q = s - n + 1; q <= s; q++) { took(q); write((*rb)[q], q); } for (I q = s - n + 1; q <= s; q++) published.insert(q); if constexpr (MT) { if (op & 0x40) for (I q = s; q > s - n; q--) rb->publish(q); else for (I q = s - n + 1; q <= s; q++) rb->publish(q); } else rb->publish(s); };
                switch (op & 7) {
                case 0: case 1: rb->publishEvent(tr); break;
                case 2: rb->tryPublishEvent(tr); break;
                case 3: case 4: fill(rb->next(n)); break;
                case 5: { I s = 0; bool ok = true; try { s = rb->tryNext(n); } catch (const NoCapacityException &) { ok = false; } if (ok) fill(s); break; }
                case 6: { I c = raw(rb->_cursor), lo = b0 + 1; I h = rb->getHighestPublishedSequence(std::max(lo, c - I(SIZE) + 1), c); for (I q = std::max(lo, c - I(SIZE) + 1); q <= h; q++) if (!published.count(q)) bad("sequence " + std::to_string(q) + " reported published before it was"); if (h > c) bad("more published than claimed"); break; }
                default: if (!MT) { for (int x = 0; x < 2; x++) { if (rb->hasAvailableCapacity(1) && rb->getRemainingCapacity() < 1) bad("capacity reported, but none remains"); } } else { for (I q = raw(rb->_cursor) - 1, e = q + 3; q < e; q++) if (q > b0 && rb->isAvailable(q) && !published.count(q)) bad("sequence " + std::to_string(q) + " available before it was published"); } break;
                } } });
        for (size_t t = 0; t < nc; t++) b.push_back([&, t] { I next = b0 + 1; auto op = o8(6 + t);
            for (int k = 0; k < 5 && err.empty(); k++) { int cnt = 0; bool last = false, stopped = false;
                auto h = [&](Ev &e, I s, bool end) -> bool {
                    if (s != next) bad("a consumer expecting " + std::to_string(next) + " was given " + std::to_string(s));
                    if (!published.count(s)) bad("a consumer was given " + std::to_string(s) + " before it was published");
                    if (t == 1 && (m & 8) && s > raw(pol[0]->sequence())) bad("a dependent consumer was given an event before the one it waits for passed it");
                    if (last) bad("events after the end of the batch"); last = end; if (&e != &(*rb)[s]) bad("a consumer was given another slot");
                    if (!e.d.read()) bad("the content of " + std::to_string(s) + " is not ordered before its delivery"); if (e.v != s * 3 + 1) bad("a consumer sees another content than published for " + std::to_string(s));
                    sched::point(); if (e.v != s * 3 + 1) bad("the event " + std::to_string(s) + " was overwritten while a consumer uses it");
                    if ((op & 7) == 7 && cnt == 1) { stopped = true; throw Bang{}; }
                    next++; cnt++; if ((op & 3) == 2) { stopped = true; return false; } return true; };
                PollState st = PollState::UNKNOWN; bool thrown = false;
                try { st = pol[t]->poll(h); } catch (const Bang &) { thrown = true; }
                if (raw(pol[t]->sequence()) != next - 1) bad("after poll the consumer's sequence is " + std::to_string(raw(pol[t]->sequence())) + " instead of " + std::to_string(next - 1));
                if (!thrown && (st == PollState::Processing) != (cnt > 0)) bad("wrong poll state"); if (thrown != (stopped && (op & 7) == 7)) bad("an exception of the handler was lost"); if (cnt && !stopped && !last) bad("the end of the batch was not marked");
            } });
        size_t o = 10; bool fin = sched::run(b, [&](uint64_t k, int n) { return o + k < in.size() ? int(uint8_t(in[o + k]) % unsigned(n)) : int(k / 4 % unsigned(n)); }, 300);
        if (err.empty()) { I e = b0 + 1; for (I s : claimed) if (s != e++ && fin) bad("gap before sequence " + std::to_string(s)); if (fin && raw(rb->_cursor) != e - 1) bad("cursor " + std::to_string(raw(rb->_cursor)) + " after sequences up to " + std::to_string(e - 1)); }
        return err; }
    std::string seq(const std::string &in) { // exact results, one thread: [mode][base][ops]
        I b = bases[uint8_t(in[1]) & 3]; start(b); std::vector<std::shared_ptr<Sequence>> g{ std::make_shared<Sequence>(b), std::make_shared<Sequence>(b) }; if (in[0] & 2) g.pop_back(); rb->addGatingSequences(g); I c = b; std::set<I> pub;
        for (size_t i = 2; i < in.size() && err.empty(); i++) { auto op = uint8_t(in[i]); int n = 1 + (op >> 3) % int(SIZE - 1); I mn = c; for (auto &s : g) mn = std::min(mn, raw(s)); auto at = " at step " + std::to_string(i);
            switch (op & 7) {
            case 0: case 1: case 2: { bool room = c + n - I(SIZE) <= mn; I s = -5; bool ok = true; if ((op & 7) == 2) { if (!room) break; s = rb->next(n); } else try { s = rb->tryNext(n); } catch (const NoCapacityException &) { ok = false; }
                if (ok != room) bad(std::string(ok ? "a claim beyond the capacity was granted" : "a claim was refused although there is room") + at); if (ok) { if (s != c + n) bad("claimed " + std::to_string(s) + " instead of " + std::to_string(c + n) + at); for (I q = c + 1; q <= c + n; q++) if (MT && rb->isAvailable(q)) bad("available before publication" + at); for (I q = c + 1; q <= c + n; q++) { if (MT || q == c + n) rb->publish(q); pub.insert(q); } c += n; } break; }
            case 3: case 4: if (pub.size()) { auto &s = g[(op >> 6) % g.size()]; I v = std::min(c, raw(s) + n); s->setValue(v); } break;
            case 5: if (rb->getRemainingCapacity() != I(SIZE) - (c - mn)) bad("remaining capacity " + std::to_string(rb->getRemainingCapacity()) + at); if (rb->hasAvailableCapacity(n) != (c + n - I(SIZE) <= mn)) bad("wrong capacity test" + at); if (rb->getMinimumGatingSequence() != mn) bad("wrong minimum" + at); break;
            case 6: for (I q = std::max(b + 1, c - I(SIZE) + 1); q <= c + 2; q++) if (rb->isAvailable(q) != (pub.count(q) > 0)) bad("availability of " + std::to_string(q) + at); break;
            default: if (c > b) { I lo = std::max(b + 1, c - I(SIZE) + 1); if (rb->getHighestPublishedSequence(lo, c) != c) bad("highest published" + at); if (MT && rb->getHighestPublishedSequence(lo, c + 2) != c) bad("highest published beyond the cursor" + at); if (rb->cursor() != c) bad("cursor" + at); } break;
            } }
        for (I p = c - I(SIZE) + 1; p <= c; p++) for (I q = p + 1; q <= c; q++) if (&(*rb)[p] == &(*rb)[q]) bad("two sequences share a slot");
        return err; }
};
template<std::size_t S, template<std::size_t, typename> typename CS> static std::string one(const std::string &in) { Run<S, CS> r; return (uint8_t(in[0]) & 0x80) ? r.seq(in) : r.conc(in); }
static std::string chk(const std::string &in) {
    if (in.size() < 10) return ""; auto m = uint8_t(in[0]);
    if (m & 1) return (m & 16) ? one<8, MultiThreadedStrategy>(in) : one<4, MultiThreadedStrategy>(in);
    return (m & 16) ? one<8, SingleThreadedStrategy>(in) : one<4, SingleThreadedStrategy>(in);
}
int main(int argc, char **argv) {
    return nat::run(argc, argv, [](Ctl &c) { c.check = chk; return c.prop == "C16" || c.prop == "C17"; }, [](Ctl &c) {
        while (c.time_left()) { bool s = c.r(4) == 0; std::string t(1, char((s ? 0x80 : 0) | int(c.r(32)))); t += char(c.r(4)); size_t ops = s ? 8 + c.r(40) : 8; for (size_t i = 0; i < ops; i++) t += char(c.r(3) ? c.r(64) : c.r(256));
            if (!s) { size_t n = c.r(160), burst = 1 + c.r(12); char cur = 0; for (size_t i = 0; i < n; i++) { if (c.r(burst) == 0) cur = char(c.r(4)); t += cur; } }
            if (!c.go(t)) return; }
    });
}
