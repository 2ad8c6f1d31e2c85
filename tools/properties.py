URI = ['src/core/include/URI.hpp']; B64 = ['src/majordomo/include/majordomo/base64pp.hpp']
LOCK = ['src/core/include/ReaderWriterLock.hpp']; SPIN = ['src/core/include/SpinWait.hpp']
prop('C01', 'Base64 encoding is exactly RFC 4648', 'For every byte sequence the encoder returns the RFC 4648 base64 text of exactly those bytes: standard alphabet, four characters per three bytes, and one or two "=" pad characters for an incomplete last group.',
     ['inputs'], 'all byte sequences of any length', 'tests sample a dozen short strings; a wrong digit for one byte value or a wrong tail after many groups stays invisible', B64, [('encode', 'base64pp.hpp encode'), ('group encoding', 'base64pp.hpp detail::encode_tripplet')], claim=True,
     note='unbounded proof over all inputs (length < 2^56); trusts the VC generator, clang IR generation, z3/cvc5 and the std contracts listed in evidence')
prop('C02', 'Base64 decoding accepts exactly well-formed text and inverts encoding', 'Decoding yields a result exactly for texts whose length is a multiple of four and that consist of alphabet characters with at most two "=" at the very end; the result is then the byte sequence the text encodes, so decoding an encoded byte sequence gives that sequence back. Every other text is refused without reading outside it.',
     ['inputs'], 'all texts of any length and content', 'tests feed a handful of good and bad texts; acceptance of a single foreign character or an off-by-one at a group boundary needs the full input space', B64, [('decode', 'base64pp.hpp decode'), ('validity check', 'base64pp.hpp detail::is_valid_base64_str')], claim=True, note='unbounded proof, including memory safety of every access and the round-trip lemma')
prop('C03', 'Percent-encoding is RFC 3986 and round-trips', 'Percent-encoding any byte string keeps exactly the unreserved characters and writes every other byte as "%" and two upper-case hexadecimal digits. Decoding the result gives the original string back, in both checking modes.',
     ['inputs'], 'all byte strings, including NUL and bytes above 127', 'tests encode one sample sentence', URI, [('encode', 'URI.hpp encode'), ('decode', 'URI.hpp decode')], claim=True, note='unbounded proof; stream classes enter by contract')
prop('C04', 'Percent-decoding handles every escape, well-formed or not', 'Decoding replaces each "%" followed by two hexadecimal digits by the byte they name and copies every other character. A "%" not followed by two hexadecimal digits is reported as a URI syntax error in the strict mode and kept literally in the relaxed mode; nothing outside the given text is ever read.',
     ['inputs'], 'all texts, in particular those with truncated or non-hexadecimal escapes anywhere', 'tests never decode a malformed or truncated escape', URI, [('decode', 'URI.hpp decode')], claim=True, note='unbounded proof of both modes, including memory safety and the exception type')
prop('C05', 'A URI text splits into exactly its delimited components', 'Parsing a text of the form [scheme:][//authority][path][?query][#fragment] reports each component exactly when it is non-empty, and then exactly the characters between its delimiters; likewise user, password, host and port of [user[:password]@]host[:port], the port being reported exactly for a decimal number up to 65535 and a bracketed host keeping its colons. The strict mode rejects, with a URI syntax error, exactly the texts in which a component contains a character it does not allow; the relaxed mode rejects nothing.',
     ['inputs'], 'all texts that have a scheme, are empty, or start with "/", "?" or "#"', 'tests parse about thirty fixed URIs; delimiters in unusual positions, empty components and odd ports are not reached', URI, [('parseURI', 'URI.hpp parseURI'), ('parseAuthority', 'URI.hpp parseAuthority'), ('parsePort', 'URI.hpp parsePort')], claim=True, note='unbounded proof; parse and authority split are verified modularly (the authority accessors for every sub-range parseURI can establish)')
prop('C06', 'Copying, assigning and moving a URI keeps all its components', 'After copy construction, copy assignment, move construction or move assignment (self-assignment included) the target reports the text and every component the source reported before, whatever the target held and whichever components had been read earlier; a copied-from object is unchanged and neither depends on the other\'s lifetime.',
     ['inputs', 'histories'], 'all texts (short and long) and all histories of component reads before the operation', 'tests copy two URIs; stale or dangling views need particular combinations of text length and earlier reads', URI, [('copy assignment', 'URI.hpp operator=(const URI&)'), ('move assignment', 'URI.hpp operator=(URI&&)')], claim=True, note='unbounded proof over every object state allowed by the class invariant (short and long texts, any earlier reads); std::string and std::unordered_map enter by contract')
prop('C07', 'The query map holds exactly the decoded key/value pairs of the query', 'The map of query parameters contains exactly one entry per distinct decoded key of the "&" or ";" separated query: its value is the decoded text after the first "=", the last occurrence winning, and a key without "=" (or with an empty value at the very end of the query) has no value. In strict mode a query with an illegal character or malformed escape raises a syntax error, every time it is asked for, and never yields a partial map.',
     ['inputs', 'histories'], 'all query strings; first and repeated reads', 'tests read a few fixed queries once', URI, [('queryParamMap', 'URI.hpp queryParamMap')], claim=True, note='unbounded proof; decode enters by its contract, which is discharged in the same check; std::unordered_map by contract')
prop('C08', 'A built URI parses back to the components it was built from', 'Building a URI from legal components (scheme, user, password, host, port, path, query parameters with arbitrary keys and values, fragment) gives a text whose parsed components are those components. Rebuilding from a parsed URI reproduces its text, and replacing one component there changes only that component.',
     ['inputs', 'histories'], 'all legal component values and all subsets of components', 'tests build a few fixed combinations', URI, [('UriFactory::toString', 'URI.hpp UriFactory'), ('relativeRef', 'URI.hpp relativeRef')], na='in preparation')
prop('C09', 'Readers and writers never hold the lock together', 'While a thread holds the reader-writer lock for reading, no thread holds it for writing, and the other way round (several readers, or several writers, may hold it together, as documented). This holds for every interleaving of lock, try-lock, unlock and scoped guards by any number of threads that release only holds they own, and everything done before a release is visible to whoever acquires afterwards. A scoped guard holds the lock from construction to destruction, also when left by an exception.',
     ['schedules'], 'any number of threads, any schedule', 'tests run a few threads for a short time; the critical windows are a few instructions wide', LOCK, [('lock/tryLock/unlock', 'ReaderWriterLock.hpp'), ('ScopedLock', 'ReaderWriterLock.hpp')], claim=True, note='rely/guarantee proof over the atomic operations of the real functions for any number of threads; assumes the C++ memory model for the one atomic counter')
prop('C10', 'Lock operations report and change exactly what they say', 'Try-lock returns 1 exactly when it acquired one hold and 0 when it changed nothing; undisturbed by other threads it succeeds exactly if no conflicting hold exists. Lock and unlock add or remove exactly one hold and return the signed number of holds (readers positive, writers negative) right after their own change, whatever other threads do; value reports the signed number at one instant and changes nothing.',
     ['schedules', 'histories'], 'all operation sequences and interleavings', 'tests check single-threaded return values on a few states', LOCK, [('tryLock', 'ReaderWriterLock.hpp'), ('lock/unlock/value', 'ReaderWriterLock.hpp')], claim=True, note='rely/guarantee proof; return values are compared with ghost hold counts at the linearisation point')
prop('C11', 'The spinning mutex admits one holder at a time', 'At any time at most one thread holds the spinning mutex: lock returns only with the mutex taken from the free state by this call, never takes it from another holder, and unlock makes it free again; what a holder did before unlock is visible to the next one. The waiting strategy chosen does not change this, and a new mutex is free.',
     ['schedules', 'configurations'], 'any number of threads, any schedule, every wait strategy', 'tests run a few threads briefly', SPIN, [('AtomicMutex', 'SpinWait.hpp')], claim=True, note='rely/guarantee proof for no strategy, SpinWait, and an arbitrary strategy given by an uninterpreted contract')
prop('C12', 'Timed waits end only by success or after the full timeout', 'A spinning wait on a condition returns success only right after the condition was seen true, and gives up only while it is false and the requested time, counted in whole clock milliseconds, has fully elapsed; timeout 0 means one look. With "no timeout" (-1) it never gives up, whatever the clock and however often the condition is false; once the time is over and the initial spin phase has passed it does give up. A timeout below -1 is refused with an out-of-range error.',
     ['schedules', 'inputs'], 'all timeouts, clock readings and condition histories', 'tests use one short timeout on an idle machine', SPIN, [('spinUntil', 'SpinWait.hpp')], claim=True, note='unbounded loop proof; the clock is any non-decreasing function (contract), the condition any history')
prop('C13', 'Settings never expose a torn or lost value', 'A setting shared between a real-time and other threads always reads as a value that was stored completely before, and each completed replace, modify or exchange is visible to every later access; exclusive access by one side excludes the other.',
     ['schedules', 'histories'], 'all interleavings of accesses from the real-time and the other threads', 'no test exercises it concurrently', ['src/disruptor/include/BasicSetting.hpp'], [('MutableOption', 'BasicSetting.hpp')], na='in preparation')
prop('C14', 'CPU affinity masks map bit i to CPU i and back', 'Setting a thread\'s or process\' affinity from a list of flags enables exactly the CPUs whose flag is set - flags beyond the end of the list or beyond the number of CPUs of the machine count as not set - and reading it reports one flag per CPU of the machine (at most 1024), set exactly if that CPU is enabled, for any list length and machine size. An uninitialised thread or a process id that is not positive is refused with a system error without any system call, and a failing system call is reported as a system error.',
     ['inputs', 'configurations'], 'all masks and machine sizes', 'the test machine has few CPUs; masks beyond the first word are never produced', ['src/core/include/ThreadAffinity.hpp'], [('setThreadAffinity', 'ThreadAffinity.hpp'), ('getAffinityMask', 'ThreadAffinity.hpp')], claim=True, note='contracts on set/get Thread/ProcessAffinity and both getAffinityMask; loop invariants for an arbitrary CPU; system calls by recorded contract')
prop('C15', 'Thread names and scheduling parameters are passed on exactly', 'Naming a thread passes exactly the given characters to the system, and reading the name returns the name the system holds; setting scheduling policy and priority passes exactly the requested values in one system call, or raises a system error without a system call if the priority is outside the range of the policy; reading them returns what the system reports. An uninitialised thread or a process id that is not positive is refused with a system error without changing anything, and a failing system call is reported as a system error.',
     ['inputs', 'fault_sequences'], 'all names (including views into larger strings), policies, priorities and system-call failures', 'tests set two fixed names and cannot fail system calls', ['src/core/include/ThreadAffinity.hpp'], [('setThreadName', 'ThreadAffinity.hpp'), ('setThreadSchedulingParameter', 'ThreadAffinity.hpp')], claim=True, note='contracts on set/getThreadName, set/get Thread/ProcessSchedulingParameter, getEnumPolicy; system calls by recorded contract; one known finding (positive result of pthread_setname_np ignored); process names not under contract')
D = 'src/disruptor/include/disruptor/'
prop('C16', 'A producer never overwrites an event a consumer has not passed', 'A sequence number handed out by the ring buffer (claim or try-claim, any batch size below the capacity, one or several producers) is never more than the buffer capacity ahead of any registered consumer, however producers and consumers interleave; a capacity test answers yes only if the slots are free, and the reported remaining capacity is never more than there is. A try-claim by a single producer is refused only if some consumer leaves no room. The smallest of a set of sequences is computed so that the result is never above any of them, even while they advance.',
     ['schedules', 'histories'], 'all interleavings of producers and consumers, all batch sizes; capacities 8 and 1024', 'tests run short fixed pipelines; the critical windows are single instructions', [D + 'ClaimStrategy.hpp', D + 'Sequence.hpp', D + 'RingBuffer.hpp'], [('next/tryNext/hasAvailableCapacity', 'ClaimStrategy.hpp'), ('getMinimumSequence', 'Sequence.hpp')], claim=True, note='rely/guarantee proof over the atomic operations of the real functions, for an arbitrary consumer; gating list fixed during a call; sequence numbers below 2^60; one claim at a time for the single-producer strategy')
prop('C17', 'Every published sequence is claimed once and becomes visible in order', 'Sequence numbers handed out to producers are consecutive, without gap or duplicate, and a refused try-claim takes none. A sequence counts as available only after it was published; the highest published sequence is the last one before the first unpublished one. An event poller hands each published event exactly once and in order to its handler, in the slot that was filled, marks the last available one as end of the batch, and afterwards its own sequence is the last handled one - also if the handler stops it or throws. Publishing an event claims one sequence, fills its slot and publishes it even if the translator throws; the content written before publication is visible to whoever sees it published.',
     ['schedules', 'histories'], 'all interleavings of producers and consumers; all handler and translator behaviours; capacities 8, 64 and 1024', 'tests run short fixed pipelines', [D + 'ClaimStrategy.hpp', D + 'RingBuffer.hpp', D + 'Sequence.hpp'], [('publish/getHighestPublishedSequence', 'ClaimStrategy.hpp'), ('EventPoller::poll', 'RingBuffer.hpp'), ('publishEvent/tryPublishEvent', 'RingBuffer.hpp')], claim=True, note='contracts on both claim strategies, RingBuffer, EventPoller::poll and Sequence; callers are checked against the contracts of the strategy; flags distinguish sequences less than 2^31 capacities apart')
prop('C18', 'IoBuffer keeps what was written, reads it back in order and owns its memory', 'Writing a number, text or array appends exactly its encoding (little-endian value; 32-bit length, characters, zero byte; 32-bit count, elements) and changes nothing written before, however the buffer has to grow. Reading in the order of writing returns the same values and advances the read position by exactly the bytes of each value, without changing the content. Checked access - a value at an index, skipping, a text view - is refused with std::out_of_range exactly when it would reach outside the content. Copies are equal and independent, a moved-from buffer is empty and usable, and over construction, growth, assignment, swap and destruction every byte accessed lies inside the buffer and every buffer is given back once, with its size, to the memory resource it came from; wrapped memory is never released.', ['inputs', 'histories'], 'all buffer states, values, lengths and memory resources', 'tests use fixed sequences on one resource', ['src/serialiser/include/IoBuffer.hpp'], [('put/get/getArray', 'IoBuffer.hpp'), ('reallocate/reserve/resize', 'IoBuffer.hpp'), ('swap/constructors/assignment', 'IoBuffer.hpp'), ('at/skip/asString', 'IoBuffer.hpp')], claim=True, note='representation invariant preserved by every operation from an arbitrary state; arrays of bool and of strings and fixed-size arrays by the bounded native search only; an unchecked get requires enough content, as documented by its noexcept interface')
prop('C19', 'Multi-dimensional arrays address every element by exactly one index tuple', 'An array constructed from its sizes has as many elements as the product of the sizes, in row-major order; index() maps in-range tuples one-to-one onto the positions and indices() is its inverse, also for a custom layout with strides and offsets in which the dimensions do not overlap. All accessors reach the element at index(tuple); checked access is refused with std::out_of_range exactly outside the data. Addition works element by element, keeps the layout of the left operand and leaves the operands alone, and two arrays are equal exactly if sizes, number of elements and elements agree.', ['inputs'], 'all shapes and index tuples of one to four dimensions', 'tests use two or three shapes', ['src/serialiser/include/MultiArray.hpp'], [('index/indices', 'MultiArray.hpp'), ('constructors', 'MultiArray.hpp'), ('get/operator[]/operator()', 'MultiArray.hpp'), ('operators', 'MultiArray.hpp')], claim=True, note='contracts on the real functions for one to four dimensions and 8-bit elements; the one-to-one lemmas over mathematical integers (32-bit arithmetic agrees while sizes stay below 2^32; cross-checked at reduced width in machine arithmetic)')
prop('C20', 'A notification reaches exactly the matching subscriptions', 'A subscription matches a notification topic exactly if service path (as prefix where allowed) and every filter of the subscription agree.', ['inputs'], 'all topics, filters and values', 'tests match a table of examples', ['src/majordomo/include/majordomo/SubscriptionMatcher.hpp', 'src/core/include/Topic.hpp'], [('SubscriptionMatcher', 'SubscriptionMatcher.hpp')], na='in preparation')
prop('C21', 'Timing selectors parse to their fields and match as documented', 'A timing selector text parses to exactly the fields it names, rejects malformed text, and matching treats a wildcard as matching everything and every other field as equality.', ['inputs'], 'all selector texts', 'tests use fixed selectors', ['src/core/include/TimingCtx.hpp'], [('TimingCtx', 'TimingCtx.hpp')], na='in preparation')
prop('C22', 'Role tokens resolve to the right role and permission', 'A token "RBAC=<role>,<hash>" yields exactly the characters of its role (up to the first comma) and of its hash (everything after that comma), whether read separately or together, and any other token yields neither. Looking up a role in a permission table gives the rights of the first entry of exactly that name; an unknown name gives the stated default, or an out-of-range error where there is none. The predefined roles have their documented names and rights.', ['inputs'], 'all tokens of any length and content; all tables of one, two or four roles', 'tests use fixed tokens', ['src/majordomo/include/majordomo/Rbac.hpp', 'src/core/include/opencmw.hpp'], [('role/hash/roleAndHash', 'Rbac.hpp parse_rbac'), ('permission lookup', 'opencmw.hpp ConstExprMap::at'), ('roles', 'Rbac.hpp ADMIN/ANY/ANY_RO/NONE')], claim=True, note='unbounded proof over all tokens and role names; the table size is a compile-time constant, proved for 1, 2 and 4 entries; enforcement in the worker needs ZeroMQ and is not covered')
prop('C23', 'Requests are answered by the service they name, once', 'Every well-formed request gets exactly one reply, from the addressed service or an error, whatever workers connect, fail or reconnect.', ['schedules', 'histories', 'fault_sequences'], 'all message interleavings and worker failures', 'tests drive one broker with fixed exchanges', ['src/majordomo/include/majordomo/Broker.hpp'], [('Broker', 'Broker.hpp')], na='needs the ZeroMQ library (not installed: the file cannot be compiled here) and reasoning over an event loop against unmodelled sockets; no contract verifier within reach accepts it')
prop('C24', 'Serialised objects deserialise to equal objects', 'For every reflected structure, serialising and deserialising in any of the supported formats reproduces every field, and malformed input is reported instead of read out of bounds.', ['inputs', 'programs'], 'all annotated types, values and input bytes', 'tests use a few structures', ['src/serialiser/include/IoSerialiser.hpp', 'src/serialiser/include/IoSerialiserYaS.hpp', 'src/serialiser/include/IoSerialiserJson.hpp'], [('IoSerialiser', 'IoSerialiser.hpp')], na='the serialisers are generated by compile-time reflection over the third-party refl-cpp and units libraries, which are not installed here, so the real functions cannot be compiled, let alone put under contract')
prop('C25', 'Clients reconnect and resubscribe after a broken connection', 'After connection loss a client eventually reconnects and every live subscription receives updates again.', ['fault_sequences', 'schedules'], 'all failure points', 'liveness over network faults', ['src/client/include/Client.hpp', 'src/client/include/RestClientNative.hpp'], [('reconnect', 'Client.hpp')], na='liveness over network peers; depends on ZeroMQ/nghttp2/OpenSSL, none installed; not expressible as a contract on a terminating function')
prop('C26', 'MDP messages cross the wire unchanged and malformed ones are refused', 'Sending a message hands exactly its 8 (with source id 9) frames to the socket, in protocol order and each carrying its field byte for byte, all but the last marked as continued; a busy socket is retried, success is reported exactly if every frame was accepted. Receiving takes one whole multi-part message, however many frames it has, and yields a message exactly if it has the required number of frames, a one-byte declared command and a legal topic; every field then equals its frame. Anything else is refused without an exception. Each frame content is released exactly once, whatever is moved, assigned, sent or fails.', ['inputs', 'histories', 'fault_sequences'], 'all field contents, frame counts and frame contents; all socket errors', 'the tests of this part need the ZeroMQ library and are not run; they exchange a few well-formed messages', ['src/zmq/include/zmq/ZmqUtils.hpp', 'src/core/include/MdpMessage.hpp'], [('send', 'ZmqUtils.hpp send, ZmqMessage::sendFrame'), ('receive', 'ZmqUtils.hpp receive'), ('frame ownership', 'ZmqUtils.hpp MessageFrame')], claim=True, note='unbounded proof (any frame count by loop invariant after eleven peeled iterations); IoBuffer and URI enter by the contracts discharged in C18, C05 and C06, the ZeroMQ C functions by contracts from their manual (library not installed)')
