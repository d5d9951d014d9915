#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
S = 'src/arpc/'
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': [S + f for f in files],
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in (state or [])],
                          'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})

NOTEST = 'No existing test runs this code at all: '
prop('C01', 'Serialized values decode back to equal values',
     'Encoding any value of any supported type (integers, floats, bools, characters, enums, strings, C arrays, std and flat containers, pairs, tuples, plain aggregates, classes with declared bases and fields and custom save/load, optionals, unique pointers, durations and time points, nested arbitrarily) and decoding the bytes with a decoder of the same byte order yields an equal value, in every byte order, whatever the destination object held before and however large the sizes are. Decoding consumes exactly the bytes that encoding produced, so any sequence of values written to one stream reads back as the same sequence.',
     ['inputs', 'programs'], 'every supported type built from the constructors above, every value of it, every sequence of values on one stream, both byte orders, any prior contents of the destination',
     NOTEST + 'the suite only static_asserts type hashes and traits; no test encodes or decodes a byte.',
     ['binary_codecs.h', 'serializable_base.h', 'traits/container_traits.h', 'traits/type_traits.h', 'traits/serialization_traits.h', 'string_adapters.cpp'],
     [('binary_encoder / binary_decoder overload sets mirror one another', 'binary_codecs.h'), ('variable-length size read/write pair', 'binary_codecs.h (write_variant/read_variant)')],
     ['decoded value', 'bytes left in the stream'])
prop('C02', 'Encoded bytes are a canonical, portable function of the value',
     'The bytes produced for a value depend only on the value, its structural type and the byte order chosen by the encoder: fixed-width scalars in that byte order, sizes as little-endian groups of 7 bits with a continuation bit in both byte orders, elements and fields in iteration/declaration order (bases first, then fields, then custom data), presence as one byte 0/1, durations as 64-bit tick counts. Types with the same structure (a vector and a list and a deque, a string and a string view, a pair, a tuple and an aggregate, flat and std containers with the same iteration order) therefore produce identical bytes and can be decoded as one another.',
     ['inputs', 'programs'], 'every supported non-pointer-graph type and value, both byte orders, every pair of structurally equivalent types',
     NOTEST + 'wire bytes are never compared with anything; a symmetric change of encoder and decoder would break peers and stored data unseen.',
     ['binary_codecs.h', 'serializable_base.h', 'traits/type_traits.h'],
     [('write_block / write_variant / maybe_write_size', 'binary_codecs.h')], ['bytes in the output stream', 'cross-type decode result'])
prop('C03', 'Shared, weak and unique pointer graphs are reproduced exactly',
     'Decoding a serialized set of objects linked by shared, weak and unique pointers yields an isomorphic graph: the same nulls, the same values, two pointers refer to one object after decoding exactly when they did before encoding, including through cycles, self references, base-class pointers and across several values written to the same stream. A weak pointer never keeps the object alive once the decoder and the strong owners are gone, and an object referenced many times is written once.',
     ['inputs', 'histories'], 'every finite pointer graph over plain and polymorphic classes, every split of it over consecutive encode calls on one encoder/decoder pair',
     NOTEST + 'there is no test with a shared pointer value.',
     ['binary_codecs.h', 'registry.h'],
     [('object ids assigned on first sight', 'binary_codecs.h (shared_object_map_, shared_object_vector_)')],
     ['identity (==) of decoded pointers', 'use counts', 'encoded length'])
prop('C04', 'Polymorphic objects keep their concrete class across serialization',
     'An object of a registered polymorphic class serialized through a pointer to any of its serializable bases decodes to an object of the same concrete class with equal contents, for any inheritance depth and any number of classes mixed in one stream. Decoding fails with a library error, and never yields an object of a wrong type, when the stream names an unknown class, a class that does not derive from the pointed-to type, a class whose structure hash differs, or shares one object between incompatible pointer types; encoding an unregistered class fails with an error.',
     ['inputs', 'programs', 'histories'], 'every hierarchy of registered classes, every static pointer type, every mix of objects on a stream, every alteration of class names, hashes and ids in the stream',
     NOTEST + 'registry and dynamic classes have no test.',
     ['registry.h', 'registry.cpp', 'dynamic_base_class.h', 'serializable_base.h', 'binary_codecs.h'],
     [('class registries keyed by portable name', 'registry.h'), ('subclass check and type hash check before construction', 'binary_codecs.h (load_dynamic_object_reference)')],
     ['concrete class name of the decoded object', 'error class'])
prop('C05', 'Untrusted bytes are decoded or rejected cleanly, never misread',
     'For any byte string and any destination type, decoding either yields a value or throws a C++ exception; it never reads or writes out of bounds, leaks, loops, or executes undefined behaviour. Decoding any proper prefix of a valid encoding fails with an end-of-file error, never with a value, and an input it accepts re-encodes and decodes to an equal value; sizes and ids that do not fit are rejected.',
     ['inputs', 'fault_sequences'], 'every byte string (random, mutated valid encodings, every truncation point) for every supported destination type in both byte orders',
     NOTEST + 'no malformed or truncated input is ever decoded.',
     ['binary_codecs.h', 'io_adapters.cpp', 'string_adapters.cpp', 'iostream_adapters.cpp', 'registry.h'],
     [('read_fully throws eof on short reads', 'io_adapters.cpp'), ('id range checks', 'binary_codecs.h')], ['sanitizer reports', 'exception class', 'decoded value'])
prop('C06', 'Structure-verified data is accepted exactly by compatible types',
     'Data written with structure verification can be read with verification as type B exactly when the structure hashes of the written type and B agree, and then yields the value a plain read would; otherwise reading fails with a data-mismatch error before the destination is modified. Verification adds only the 32-bit structure hash of the written type, in the encoder\'s byte order, in front of the plain encoding.',
     ['inputs', 'programs'], 'every pair of types (compatible or not), every value, both byte orders, every corruption of the hash',
     NOTEST + 'verify_structure is never exercised.',
     ['binary_codecs.h', 'type_hash.h'], [('hash prefix written and compared', 'binary_codecs.h (verify_structure overloads)')],
     ['error class', 'destination contents', 'bytes written'])
prop('C07', 'Structure hashes depend on structure only and are stable',
     'The structure hash of a type is a compile-time constant determined only by its wire structure: it ignores names, cv/ref qualifiers and the choice among equivalent containers or between tuple, pair and aggregate, and it changes when a field is added, removed, reordered, retyped or wrapped, when a base class, container kind, array length, optionality or pointer kind changes, or when a function signature changes (up to accidental 32-bit collisions). It is defined for every serializable type including recursive ones, and its value for a given structure never changes between builds, since peers and stored data compare it.',
     ['programs', 'inputs'], 'every serializable type expression and every structural edit or structure-preserving renaming of it',
     'type_hash_test.cpp pins some 70 constants of small types; it cannot cover arbitrary compositions, classes with several bases or fields, recursion through containers, or the sensitivity of the hash to edits.',
     ['type_hash.h', 'traits/container_traits.h', 'traits/type_traits.h', 'serializable_base.h', 'mpt.h'],
     [('FNV-style accumulation over a structural walk with back references', 'type_hash.h')], ['type_hash_v<T>'])
prop('C08', 'Declared fields, bases, enum entries and names are what was declared',
     'For every class declared with the field, base and custom-serialization macros, introspection reports exactly the declared fields (names, types, order), bases and dynamic bases, and serialization visits exactly those; inherited save/load code of a base is not run again for the derived class. For every enum declared with the enum macro each entry has its declared value, and the name lookup returns the entry name for declared values and the declared unknown name for every other value of the base type.',
     ['programs', 'inputs'], 'every class and enum declaration built from the macros, every enum value',
     NOTEST + 'the macros are only instantiated in two examples that are not run, and the enum macro is not instantiated anywhere.',
     ['serializable_base.h', 'serializable.h', 'enum.h', 'preprocessor.h', 'traits/serialization_traits.h'],
     [('ARPC_FIELDS / ARPC_ENUM expansion', 'serializable_base.h, enum.h')], ['field_names()', 'field descriptors', 'enum_names<T>::name'])
prop('C09', 'Compile-time sequence algorithms agree with ordinary list algorithms',
     'Every type-level algorithm (size, element access, range, concatenation, insertion into a set of types, find, find-if, filter, count, accumulate, transform, for-each, as-tuple, conversions between sequence kinds, aggregate arity, integer ranges) returns for every packed sequence of types, values or integers what the corresponding ordinary list algorithm returns, and run-time visits happen exactly once per element in order, with value category and references preserved.',
     ['programs'], 'every sequence (pack, value pack, integer sequence, tuple, pair, aggregate) of bounded length, every predicate/functor, every index',
     NOTEST + 'mpt.h has no test; only what the other headers happen to instantiate is compiled.',
     ['mpt.h', 'traits/type_traits.h'], [('template recursion and fold expressions over index sequences', 'mpt.h')], ['resulting type or value', 'trace of functor calls'])
prop('C10', 'Preprocessor list macros expand like ordinary list operations',
     'The list macros (argument count, for-each with separator, counted for, conditionals, boolean logic, concatenation, stringizing, deferred and nested expansion) expand, for every argument list in their supported length, to exactly what the corresponding list operation yields: every argument once, in order, with separators only between elements, empty lists included.',
     ['programs'], 'every argument list up to the supported maximum (including empty), every length, nested use through the deferred forms',
     NOTEST + 'the macros are exercised by no test, and most of the several hundred per-length definitions are never expanded.',
     ['preprocessor.h'], [('per-length macro tables', 'preprocessor.h')], ['expanded text'])
prop('C11', 'Type traits classify every composed type correctly',
     'For every type composed from scalars, enums, arrays, strings, std and flat containers, pairs, tuples, optionals, pointers and user classes, the introspection traits (iterable, associative, map/set, multi-key, contiguous, fixed size and its value, resizable, reservable, bit-transferable, aggregate, serializable, dynamic, member-pointer decomposition, writable value type, qualifier removal) report what the type really supports, independent of cv/ref qualifiers where documented.',
     ['programs'], 'every composed type, every qualifier combination, every trait',
     'container_traits tests assert a fixed list of standard types; arbitrary element types, qualifiers, flat containers of compound elements and member pointer traits are not covered.',
     ['traits/container_traits.h', 'traits/type_traits.h', 'traits/serialization_traits.h', 'traits/trait_factories.h'],
     [('SFINAE detection', 'traits/trait_factories.h')], ['trait value'])
prop('C12', 'Unique flat map and set behave like std::map and std::set',
     'After any sequence of operations, a flat map or set with unique keys holds the same elements in the same order as std::map/std::set given the same sequence, and every operation (insert, emplace, range and initializer-list construction and assignment, operator[], at, find, count, bounds, equal range, erase by key/iterator/range, clear, size, iteration in both directions) returns the same result: insertion keeps the existing element on a duplicate key, keys stay strictly increasing and lookups find exactly the present keys.',
     ['histories', 'inputs'], 'every operation sequence over every key/value/comparator type, with duplicate keys frequent',
     'The container tests call each operation once on a handful of literal keys; no history, no duplicates inside ranges, no comparator state.',
     ['container/flat_map.h', 'container/flat_set.h', 'container/detail/flat_tree.h'],
     [('sorted vector with binary search', 'container/detail/flat_tree.h')], ['returned iterators, booleans and counts', 'full iteration'])
prop('C13', 'Flat multimap and multiset behave like their std counterparts',
     'After any sequence of operations a flat multimap or multiset holds the same multiset of elements, ordered by key, as std::multimap/std::multiset given the same sequence, with equal keys adjacent, and every lookup, count, bound, equal range and erase returns or removes exactly the elements with that key. The relative order of elements with equal keys is unspecified, but lookups, bounds and erasure always cover all of them.',
     ['histories', 'inputs'], 'every operation sequence with frequent equal keys, every comparator and element type',
     'The multi container tests insert a few literals and check counts; histories and stateful orders are not covered.',
     ['container/flat_map.h', 'container/flat_set.h', 'container/detail/flat_tree.h'],
     [('sorted vector with binary search', 'container/detail/flat_tree.h')], ['iteration', 'counts'])
prop('C14', 'Flat containers copy, move, swap and compare as values',
     'Copy and move construction, copy and move assignment, swap, self assignment, initializer-list assignment and comparator accessors of the flat containers behave as for the standard associative containers: contents and comparator (including its state) travel together, copies are independent and in the same order, the source of a move stays usable, and move-only element types work. Stateful comparators, function pointers and lambdas give the same order and lookups as in the standard containers, and no operation touches memory out of bounds or invalidates more than documented.',
     ['histories', 'inputs'], 'every history mixing several containers with whole-container operations, every comparator including stateful ones, move-only mapped types',
     'The tests use default stateless comparators and copy/move a few literals; comparator state, aliasing and move-only values are never exercised.',
     ['container/flat_map.h', 'container/flat_set.h', 'container/detail/flat_tree.h'],
     [('special member functions of the shared tree base', 'container/detail/flat_tree.h')], ['contents and order after whole-container operations'])
prop('C15', 'HighwayHash results match the published algorithm',
     'For every 256-bit key and every message of any length, the 64-, 128- and 256-bit results equal those of the published HighwayHash algorithm, on every platform and independent of the alignment of the input. ',
     ['inputs'], 'every key, every message (all lengths around the 32-byte packet and remainder boundaries), all three output widths, all alignments',
     NOTEST + 'highway_hash has no test, not even the published vectors.',
     ['highway_hash.h', 'highway_hash.cpp'], [('packet update, remainder and finalization', 'highway_hash.cpp')], ['hash values'])
prop('C16', 'Hashing a message is independent of how it is fed in',
     'Feeding a message to the hash in any number of pieces of any sizes gives the same result as feeding it at once; reading a result does not disturb the state, so it can be read repeatedly and more data appended afterwards; copies evolve independently and every fresh or reset state equals a new one.',
     ['histories', 'inputs'], 'every split of every message, every interleaving of appends, result reads, copies and restarts',
     NOTEST + 'incremental hashing is not tested.',
     ['highway_hash.h', 'highway_hash.cpp'], [('partial-packet buffering', 'highway_hash.cpp')], ['hash values'])
prop('C17', 'Authenticated packets verify exactly when intact and same key',
     'Decoding a packet produced by the authenticating codec with the same key returns the original payload, for any payload and any key. Any packet that is changed in any bit, truncated, extended, or checked with a different key is rejected with a data-mismatch error and its payload is not delivered, except with the negligible probability of a 64-bit collision.',
     ['inputs', 'fault_sequences'], 'every payload and key, every bit flip, truncation, extension, splice and key change',
     NOTEST + 'packet codecs have no test.',
     ['packet_codecs.h', 'packet_codecs.cpp', 'highway_hash.cpp'], [('keyed hash appended and checked', 'packet_codecs.cpp (highway_hash_mac_codec)')], ['decoded payload', 'error class'])
prop('C18', 'Byte stuffing is reversible, zero-free, tight and canonical',
     'Byte-stuffing encodes every payload to bytes that contain no zero, longer than the payload by at least one byte and at most one plus one per full 254 bytes, and exactly as the COBS definition (appended zero, blocks of up to 254 non-zero bytes) prescribes; decoding it returns the payload. Decoding arbitrary bytes either returns a payload or fails with a data-mismatch error, without memory errors; whatever contains a zero or a block running past the end is rejected.',
     ['inputs'], 'every payload (zero-dense, zero-free, lengths around multiples of 254 and 255), every byte string as decoder input',
     NOTEST + 'packet codecs have no test.',
     ['packet_codecs.h', 'packet_codecs.cpp'], [('in-place block stuffing', 'packet_codecs.cpp (cobs_codec)')], ['encoded bytes', 'decoded bytes', 'error class'])
prop('C19', 'Packet streams deliver exactly the packets sent, in order',
     'For every packet protocol and codec stack, receiving from the byte stream written by sending a sequence of packets yields the same packets in the same order, however the bytes are chunked, and then reports end of file. If bytes on the stream are altered, removed or inserted, the receiver never delivers a packet that was not sent (with checksummed protocols), reports the damage as an error or skips it, resynchronizes at the next packet boundary where the protocol has delimiters, and never exceeds the configured maximum size; packets above the limit are refused.',
     ['histories', 'fault_sequences', 'inputs'], 'every sequence of packets incl. empty and large ones, every chunking, every corruption of the byte stream',
     NOTEST + 'packet protocols have no test.',
     ['packet_protocols.h', 'packet_codecs.cpp', 'packet_codecs.h', 'io_adapters.cpp'],
     [('delimiter framing and codec pipelines', 'packet_protocols.h')], ['received packets', 'errors'])
prop('C20', 'Stream adapters move bytes faithfully and report end of data',
     'Every input and output adapter transfers exactly the bytes given, in order, for any interleaving of single-character, bulk and full-length calls and any chunking of the underlying stream: a full read returns all the bytes or fails with an end-of-file error, a bulk read returns fewer bytes than asked only at the end of data, a single-character read there fails with an end-of-file error, '
     'and writes append without loss. Reading back an object name or string produced through the adapters yields the same bytes.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of calls on every adapter, every content (zero and 0xff bytes included), every underlying short read or failure',
     NOTEST + 'adapters have no test.',
     ['io_adapters.h', 'io_adapters.cpp', 'string_adapters.h', 'string_adapters.cpp', 'iostream_adapters.h', 'iostream_adapters.cpp', 'object_name.h'],
     [('read/read_fully/getc/putc/write', 'io_adapters.cpp')], ['bytes transferred', 'error class'])
prop('C21', 'Errors and results keep their class, message and value',
     'Rebuilding an error from its portable class name and message rethrows the same error class with the same message for every library error, and an unknown class name yields the unknown error, never a different known one. A result holder reports exactly what was last put in it (nothing, a value, or an exception), returns that value or rethrows that exception on access, transfers it on move, and destroys each held value exactly once.',
     ['inputs', 'histories'], 'every error class and message, every unknown name, every sequence of set/read/move/assign operations on holders of every kind of value type',
     NOTEST + 'errors and result_holder have no test.',
     ['errors.h', 'errors.cpp', 'result_holder.h'], [('error registry keyed by portable name', 'errors.cpp'), ('tagged union of value and exception', 'result_holder.h')],
     ['caught class and message', 'holder state', 'live object count'])
prop('C22', 'Network addresses and endpoints are faithful values',
     'An address or address list reports exactly the family, host and port it was built from, in text and in binary form; copies and moves of addresses are independent equal values whatever the family and size, and iteration over a resolved list visits each address once. An endpoint keeps every attribute set on it, whatever the order and combination of settings.',
     ['inputs', 'histories'], 'every IPv4/IPv6/Unix address and port, every sequence of copies, moves and assignments',
     NOTEST + 'address has no test.',
     ['address.h', 'address.cpp'], [('owned sockaddr copies', 'address.cpp')], ['as_string', 'address bytes', 'sanitizer reports'])
prop('C23', 'Flags wake every waiter exactly while set',
     'A flag reports set exactly between a set and the next reset, repeated sets or resets are idempotent, a wait returns exactly when the flag is set, setting wakes every waiter, and a reset never wakes or loses one. This holds for any number of threads and any interleaving, and in cancelled contexts setting and resetting still work.',
     ['schedules', 'histories'], 'every interleaving of set/reset/wait/test by several threads, cancelled or not',
     'The flag test is not even compiled in this build (its dependency is missing) and checks one sequence on one thread.',
     ['flag.h', 'flag.cpp', 'channel.cpp', 'pipe.cpp'], [('self-pipe holding one byte while set', 'flag.cpp')], ['is_set()', 'wait results'])
prop('C24', 'Mutexes exclude, and every unlock lets one waiter in',
     'At most one thread holds a mutex at any time; lock returns only once the mutex is held, try-lock succeeds exactly when it was free, awaiting the lock acquires it for exactly the awaiting party, a timed-out or cancelled attempt does not acquire it, and each unlock lets some waiter proceed.',
     ['schedules', 'histories'], 'every interleaving of lock/try/await/unlock by several threads with timeouts and cancellations',
     'The mutex test is not compiled in this build and checks one single-threaded sequence.',
     ['mutex.h', 'mutex.cpp', 'channel.cpp', 'pipe.cpp', 'select.h'], [('token byte in a pipe', 'mutex.cpp')], ['holder count', 'results'])
prop('C25', 'Queues and semaphores lose, duplicate and reorder nothing',
     'Every item put into a queue is taken out exactly once, items come out in the order they were put, the queue never holds more than its capacity, size/empty/full report the true state, non-blocking operations fail exactly when the queue is full or empty, and blocked producers and consumers proceed as soon as they can. Timed-out or cancelled operations neither add nor consume an item; a semaphore behaves like a queue of anonymous items.',
     ['schedules', 'histories'], 'every history of put/get/async/non-blocking calls by several threads, every capacity, timeouts and cancellations included',
     NOTEST + 'queue and semaphore are not compiled in this build and have no test.',
     ['queue.h', 'semaphore.h', 'flag.cpp', 'select.h'], [('lock-protected deque plus two flags', 'queue.h')], ['items out vs. items in', 'size/empty/full'])
prop('C26', 'A future yields exactly what its promise delivered, once',
     'A future becomes ready exactly when its promise is given a value, an exception, a result, or is destroyed or overwritten unset (then it fails with an invalid-state error); getting it returns that value or rethrows that exception, whatever the order and threads of set and get and even if the promise or the future is moved or dropped first. Continuations, handlers and decorations attached to a future or awaitable run once, on the matching outcome only, in order, and transform the result accordingly; setting twice or using an empty future fails with an invalid-state error.',
     ['schedules', 'histories'], 'every composition of then/except/decorate, every order of set/get/drop/move on any threads',
     'awaitable_test is not compiled in this build; futures and promises have no test.',
     ['future.h', 'future.cpp', 'awaitable.h', 'function.h', 'result_holder.h'], [('shared state with reader/writer release', 'future.cpp')], ['results', 'call counts', 'sanitizer reports'])
prop('C27', 'Cancellation and deadlines propagate down the context tree, promptly',
     'A context is cancelled exactly when it or one of its unshielded ancestors has been cancelled; a child\'s deadline is never later than its parent\'s at creation and setting a deadline only ever shortens it. Every blocking operation under a cancelled context, and every one that would have to wait past its deadline, fails with the cancelled or deadline-exceeded error without having taken effect (one that is ready may still succeed after the deadline), operations under other contexts are unaffected, and leaving a context restores the previous current one and waits for contexts and threads derived from it.',
     ['schedules', 'histories'], 'every tree of contexts and shields, every order of create/cancel/set deadline/block/destroy over several threads, with a controlled clock',
     NOTEST + 'contexts are not compiled in this build and have no test.',
     ['context.h', 'context.cpp', 'select.h', 'thread.h'], [('child registration and recursive cancel', 'context.cpp'), ('implicit wait on cancellation and deadline', 'select.h')], ['is_cancelled', 'deadline', 'error class of blocking calls'])
prop('C28', 'Context data is inherited by value and survives serialization',
     'A context sees for each class of data the value set in it, else the value its parent had when it was created, else the default; later changes in parent or child do not affect one another. Serializing a context and loading it elsewhere reproduces its data, its cancellation state and its remaining time, with clocks of the two sides independent, and any malformed serialized context is rejected without crashing.',
     ['histories', 'inputs'], 'every tree of contexts and history of set/reset/get, every serialized context and corruption of it',
     NOTEST + 'contexts are not compiled in this build and have no test.',
     ['context.h', 'context.cpp', 'serializable.h'], [('copied map of shared immutable values', 'context.cpp')], ['get<T>() values', 'error class'])
prop('C29', 'Select reports exactly the ready events and takes no other effect',
     'Waiting on any mix of awaitables returns as soon as at least one is ready and reports results for ready ones only: a reported result means its action ran exactly once, an unreported one means it did not run, so nothing is consumed unobserved. Timeouts and deadlines fire no earlier than asked and, absent other events, as soon as the shortest one has elapsed, polling awaitables fire only when nothing else is ready (and then all of them, once the shortest of their periods passes before any other timeout), dynamic lists behave like their members, and interruption by signals or spurious readiness is invisible. A timeout counts from when the wait starts, a deadline from when its awaitable is made; what is ready goes before what has timed out.',
     ['schedules', 'histories', 'fault_sequences'], 'every combination of flags, queues, timeouts, deadlines, polling entries and lists, every order in which they become ready, interrupted system calls',
     NOTEST + 'select is not compiled in this build and has no test of its own.',
     ['select.h', 'awaitable.h', 'awaitable.cpp', 'wait.h', 'wait.cpp'], [('poll loop with per-awaitable reaction', 'select.h')], ['which results are active', 'effects on the awaited objects', 'virtual time at return'])
prop('C30', 'Executors run every task exactly once',
     'Every task given to an executor runs exactly once, unless it was refused with an error to the caller, including when tasks are submitted from many threads or from other tasks, block, throw anything, or cancel or shorten their own context. A thread pool never runs more tasks at once than it has workers, never leaves an accepted task waiting while a worker is idle, and starts each task in a context without deadline or cancellation of its own. Destroying a pool cancels the contexts of its tasks and waits for those that run; the ones that have not begun never do, and no task runs twice or after the pool is gone. The synchronous executor runs the task before it returns, in the calling thread, and passes on what it throws.',
     ['schedules', 'histories'], 'every submission history from any threads, pool sizes, throwing and blocking tasks, shutdown at any point',
     NOTEST + 'executors are not compiled in this build and have no test.',
     ['executor.h', 'executor.cpp', 'thread.h', 'queue.h'], [('work queue and worker threads', 'executor.cpp')], ['run counts', 'concurrency level'])
prop('C31', 'Channels, pipes and connections carry bytes intact or fail',
     'Bytes written to a pipe, file, socket or connection are read at the other end unchanged and in order, whatever the sizes, partial transfers, interrupted system calls and blocking on a full buffer; end of file and disconnection are reported as errors rather than as data. Blocking operations honour cancellation, a closed or moved-from channel fails cleanly, each descriptor is closed exactly once and none leaks.',
     ['schedules', 'fault_sequences', 'histories'], 'every sequence of reads/writes/closes/moves with injected short transfers, would-block and interrupts, every message size',
     NOTEST + 'channels and connections are not compiled in this build and have no test.',
     ['channel.h', 'channel.cpp', 'pipe.cpp', 'file.cpp', 'socket.cpp', 'connection.h', 'connection.cpp'],
     [('retry loops over non-blocking descriptors', 'channel.cpp'), ('owning descriptor handle', 'channel.h')], ['bytes received', 'error class', 'open descriptors'])
prop('C32', 'Destruction waits for users: usage locks never dangle',
     'While a usage lock on an object is held the object is not destroyed: taking a lock succeeds exactly when the object is still alive, a holder can use the object until it releases the lock, and destruction or invalidation completes exactly when the last holder is gone. No schedule lets a user reach a destroyed object or leaves the destroyer waiting with no holder left.',
     ['schedules'], 'every interleaving of acquire/use/release/destroy over several threads',
     NOTEST + 'usage_lock has no test.',
     ['usage_lock.h'], [('count with condition variable', 'usage_lock.h')], ['liveness of the object at use', 'completion of the destroyer'])
prop('C33', 'A remote call returns what the local call would',
     'Calling a method through a remote proxy executes the named object\'s method exactly once with equal arguments and returns an equal result, or throws the same library error with the same message (the unknown error for other exceptions); this includes inherited interface methods, void and const methods, all serializable argument types, asynchronous calls, several clients, objects and calls in flight, and either byte order. Calls to unknown objects or methods fail with a not-found error, and each reply reaches the call that caused it.',
     ['schedules', 'inputs', 'histories'], 'every interface, argument value, mix of concurrent synchronous and asynchronous calls, completion order',
     NOTEST + 'the RPC layer is not compiled in this build and has no test.',
     ['client.h', 'server.h', 'interface.h', 'message_defs.h', 'connection.cpp', 'function.h'], [('request ids matched to pending calls', 'client.h'), ('method dispatch by name and signature hash', 'server.h')], ['results', 'call log of the implementation object'])
prop('C34', 'A server survives any bytes a client sends',
     'Whatever bytes, frames or well-framed but malformed requests a client sends, in any split and then disconnecting at any point, the server does not crash, hang or corrupt memory, answers malformed requests with an error or drops that connection only, and keeps serving correct calls from other clients.',
     ['inputs', 'fault_sequences', 'schedules'], 'every byte sequence on a server connection, every mutation of valid requests, disconnect at every point',
     NOTEST + 'the RPC layer is not compiled in this build and has no test.',
     ['server.h', 'connection.cpp', 'packet_protocols.h', 'binary_codecs.h'], [('per-connection error handling', 'server.h')], ['liveness of the server for a second client', 'sanitizer reports'])
prop('C35', 'Remote calls carry cancellation, deadlines and context data',
     'A remote call executes under a context with the caller\'s context data and deadline; cancelling the caller or exceeding its deadline ends the call with the corresponding error on the client and cancels the context of the running method on the server, without affecting other calls. A disconnected client\'s calls fail with an error rather than hanging, and later calls on a new connection work.',
     ['schedules', 'histories', 'fault_sequences'], 'every point of cancellation, expiry or disconnection relative to the progress of the call, several calls in flight',
     NOTEST + 'the RPC layer is not compiled in this build and has no test.',
     ['client.h', 'server.h', 'context.h', 'message_defs.h'], [('context serialized into the request, cancel message', 'client.h')], ['error class at the client', 'context state seen by the method'])
prop('C36', 'A name reaches the object registered under it',
     'Objects can be registered, replaced, renamed and unregistered while the server runs, under names of any serializable type: a call executes on the object that had the name at some moment between its start and its end and on no other, and otherwise fails with a not-found error; replacing an object leaves none of its methods reachable. The destructor of an unregistered object waits for the calls that run on it and then ends, and no method runs on it afterwards.',
     ['schedules', 'histories'], 'every history of registrations, removals and destructions, any names, any calls at the same time',
     NOTEST + 'the RPC layer is not compiled in this build and has no test.',
     ['server.h', 'usage_lock.h', 'object_name.h'], [('object map under objects_mu_', 'server.h'), ('references held by the method table', 'server.h')], ['results of calls', 'which object runs'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        p['statement'] = p['statement'].strip()
        f.write(json.dumps(p) + '\n')
print(len(P))
