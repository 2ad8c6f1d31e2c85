H = r'''#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
#include <disruptor/RingBuffer.hpp>
using namespace opencmw::disruptor; using I = std::int64_t;
#define R(c) if (!(c)) { printf("failed: %s\n", #c); return 1; }
'''
ST = '''using RB = RingBuffer<I, 8, NoWaitStrategy, SingleThreadedStrategy>;
'''
MT = '''using RB = RingBuffer<I, 4, NoWaitStrategy, MultiThreadedStrategy>;
'''
seed('rb-st-batch', 'C16', [(CLAIM, "if (const std::int64_t wrapPoint = (_nextValue + requiredCapacity) - static_cast<std::int64_t>(SIZE); wrapPoint > _cachedValue || _cachedValue > _nextValue) {", "if (const std::int64_t wrapPoint = (_nextValue + requiredCapacity) - static_cast<std::int64_t>(SIZE); _nextValue - static_cast<std::int64_t>(SIZE) >= _cachedValue || _cachedValue > _nextValue) {")],
  H + ST + r'''int main() {
    auto rb = std::make_shared<RB>(); auto c = std::make_shared<Sequence>(); rb->addGatingSequences({ c });
    for (int i = 0; i < 6; i++) { I s = rb->tryNext(1); rb->publish(s); }      // 0..5 claimed, consumer at -1: two slots left
    bool refused = false; try { (void) rb->tryNext(4); } catch (const NoCapacityException &) { refused = true; }
    R(refused); return 0;
}
''', 'a batch claim when fewer slots are free than the batch needs but at least one is', 'a single producer may claim slots a consumer has not passed', stubs=True)
seed('rb-mt-check-once', 'C16', [(CLAIM, """        do {
            current = _cursor.value();
            next    = current + n_slots_to_claim;

            if (!hasAvailableCapacity(dependents, n_slots_to_claim, current)) {
                throw NoCapacityException();
            }
        } while (!_cursor.compareAndSet(current, next));
""", """        if (!hasAvailableCapacity(dependents, n_slots_to_claim, _cursor.value())) {
            throw NoCapacityException();
        }
        do {
            current = _cursor.value();
            next    = current + n_slots_to_claim;
        } while (!_cursor.compareAndSet(current, next));
""")], H + MT + r'''int main() {
    for (int k = 0; k < 4000; k++) {
        auto rb = std::make_shared<RB>(); auto c = std::make_shared<Sequence>(); rb->addGatingSequences({ c });
        for (int i = 0; i < 3; i++) rb->publish(rb->next());       // one slot left
        std::atomic<int> go{ 0 }, got{ 0 }; std::vector<std::thread> t;
        for (int i = 0; i < 6; i++) t.emplace_back([&] { go++; while (go < 6) {} try { (void) rb->tryNext(1); got++; } catch (const NoCapacityException &) {} });
        for (auto &x : t) x.join();
        R(got <= 1);
    }
    return 0;
}
''', 'two producers try to claim the last free slot at the same time', 'the capacity is tested for another cursor value than the one claimed from', stubs=True)
seed('rb-mt-cache', 'C16', [(CLAIM, "            _gatingSequenceCache->setValue(minSequence);\n\n            if (wrapPoint > minSequence) {", "            _gatingSequenceCache->setValue(cursorValue);\n\n            if (wrapPoint > minSequence) {")],
  H + MT + r'''int main() {
    auto rb = std::make_shared<RB>(); auto c = std::make_shared<Sequence>(); rb->addGatingSequences({ c });
    for (int i = 0; i < 4; i++) rb->publish(rb->tryNext(1));
    int got = 0; for (int i = 0; i < 3; i++) try { (void) rb->tryNext(1); got++; } catch (const NoCapacityException &) {}
    R(got == 0); return 0;
}
''', 'a refused try-claim followed by another one', 'the cached minimum of the consumers is too high after a capacity test', stubs=True)
seed('rb-flag-trunc', 'C17', [(CLAIM, "return static_cast<std::int32_t>(static_cast<std::uint64_t>(sequence) >> _indexShift);", "return static_cast<std::int32_t>(sequence) >> _indexShift;")],
  H + MT + r'''int main() {
    auto rb = std::make_shared<RB>(); (void) rb->next(); rb->publish(0);
    R(rb->isAvailable(0)); R(!rb->isAvailable(I(1) << 32)); return 0;
}
''', 'sequence numbers above 2^32', 'a slot counts as published for a sequence 2^32 later', stubs=True)
seed('rb-high-gap', 'C17', [(CLAIM, """        for (std::int64_t sequence = lowerBound; sequence <= availableSequence; sequence++) {
            if (!isAvailable(sequence)) {
                return sequence - 1;
            }
        }

        return availableSequence;""", """        auto sequence = availableSequence;
        while (sequence >= lowerBound && !isAvailable(sequence)) {
            sequence--;
        }
        return sequence;""")], H + MT + r'''int main() {
    auto rb = std::make_shared<RB>(); auto p = rb->newPoller(); rb->addGatingSequences({ p->sequence() });
    I a = rb->next(), b = rb->next(); (*rb)[b] = 1; rb->publish(b);      // the later one is published first
    int n = 0; p->poll([&](I &, I, bool) { n++; return true; }); R(n == 0);
    rb->publish(a); p->poll([&](I &, I, bool) { n++; return true; }); R(n == 2); return 0;
}
''', 'producers publish out of order', 'consumers see a sequence although an earlier one is not published', stubs=True)
seed('rb-event-throw', 'C17', [(RING, """            std::invoke(std::forward<Translator>(translator), std::forward<T>((*this)[sequence]), sequence, args...);
        } catch (...) {""", """            std::invoke(std::forward<Translator>(translator), std::forward<T>((*this)[sequence]), sequence, args...);
            publish(sequence);
        } catch (...) {"""), (RING, """            // xTODO: evaluate if these should be thrown back to the user
        }
        publish(sequence);
""", """            // xTODO: evaluate if these should be thrown back to the user
        }
""")], H + MT + r'''int main() {
    auto rb = std::make_shared<RB>(); auto p = rb->newPoller(); rb->addGatingSequences({ p->sequence() });
    rb->publishEvent([](I &&, I) { throw 1; }); rb->publishEvent([](I &&e, I) { e = 7; });
    int n = 0; p->poll([&](I &, I, bool) { n++; return true; }); R(n == 2); return 0;
}
''', 'a translator that throws', 'a claimed sequence is never published and blocks all consumers', stubs=True)
seed('rb-poll-throw', 'C17', [(RING, """                    auto &event = (*_dataProvider)[nextSequence];
""", """                    auto &event       = (*_dataProvider)[nextSequence];
                    processedSequence = nextSequence;
"""), (RING, """                    processedSequence = nextSequence;
                    nextSequence++;
""", """                    nextSequence++;
""")], H + MT + r'''int main() {
    auto rb = std::make_shared<RB>(); auto p = rb->newPoller(); rb->addGatingSequences({ p->sequence() });
    for (int i = 0; i < 3; i++) rb->publishEvent([](I &&e, I s) { e = s; });
    std::vector<I> seen; bool once = true;
    for (int k = 0; k < 3; k++) try { p->poll([&](I &, I s, bool) { if (s == 1 && once) { once = false; throw 1; } seen.push_back(s); return true; }); } catch (int) {}
    R((seen == std::vector<I>{ 0, 1, 2 })); return 0;
}
''', 'a handler that throws on one event', 'the event the handler failed on is skipped', stubs=True)
