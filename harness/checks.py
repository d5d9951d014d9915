"""Configuration of every check. See check.py."""

import wrap

ASYNC = dict(lib='full', between=True, link=wrap.LINK, flags=['-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0'])

CHECKS = {
    'C01': dict(src=['c01.cpp'], gen='gen_types', types=120, rule='sequences of 1-4 values of randomly generated types (every supported kind, nested, user classes with bases/fields/custom save) in either byte order into fresh or dirty destinations; containers up to 2 million elements; non-trivial: more than 8 encoded bytes',
                assumptions=['long double (padding), zero-size container elements, unique_ptr with custom deleters and durations with floating representation are out of the domain']),
    'C02': dict(src=['c02.cpp'], gen='gen_types', types=120, rule='bytes of 1-3 values of generated types in both byte orders against an independent encoder, every type read back as an equivalent type, sizes across group boundaries; non-trivial: more than 8 bytes, or a different equivalent type'),
    'C03': dict(src=['c03.cpp'], opt='-O0', flags=['-frtti'], rule='random graphs (cycles, sharing, weak/unique edges, dynamic classes whose base is not first, pointers in containers) as several values on one stream: reference bytes, isomorphism, and exactly the objects alive that counting strong references predicts once the decoder is gone; up to 20000 objects, chains of 400; non-trivial: an object with several pointers to it',
                assumptions=['pointers that alias part of another object are out of the domain', 'the library is built with run-time type information here, to name the class of decoded objects independently']),
    'C04': dict(src=['c04.cpp', 'allocs.cpp'], opt='-O0', gen='gen_poly', flags=['-frtti'], rule='several pointers (shared, unique, weak, in containers) of every static class of generated hierarchies to random concrete classes on one stream, against a reference codec; streams with changed class names, hashes and ids, and reads through other pointer types; non-trivial: more than one class, or more than three bytes of tampered stream',
                assumptions=['a class has one dynamic base (two do not compile), plus any number of plain bases before or after it', 'the library is built with run-time type information here, to name the class of decoded objects independently']),
    'C05': dict(src=['c05.cpp', 'allocs.cpp'], gen='gen_types', types=120, gen_opts=dict(verify=False), rule='valid encodings mutated/truncated/spliced, encodings of other types and random bytes (up to 4 KB) decoded as generated types and compared with an independent decoder; every proper prefix; size-group strings; leak counting; non-trivial: more than one byte of input',
                assumptions=['allocations above 16 MB are refused with std::bad_alloc, which counts as a clean rejection', 'decoders are not reused after a failed read']),
    'C06': dict(src=['c06.cpp', 'allocs.cpp'], gen='gen_types', types=110, rule='verified and plain values mixed on streams against the reference bytes, verified data read as any other generated type or with a damaged hash; non-trivial: a rejected read or a different equivalent type'),
    'C07': dict(runner='genprog', gen_module='gen_hash', rule='structure hashes of generated types (containers, arrays, tuples, pairs, aggregates, pointers, classes with bases, fields and custom code, functions, mutually recursive classes) against a model of the published function; the same structure spelled with other types and names; one structural change at a random place; non-trivial: a composed type',
                assumptions=['the hash function in use at the pinned commit is the one that must stay'] ),
    'C08': dict(runner='genprog', gen_module='gen_intro', rule='generated class hierarchies (0-16 fields of mixed types, private and template classes, up to 3 bases, dynamic classes, custom serialization at any level) and enums of every base type (1-100 entries, duplicate and extreme values): introspection results, bytes written, objects read back and names of declared and other values against what was declared; non-trivial: more than one field or entry, or a base'),
    'C09': dict(runner='genprog', gen_module='gen_mpt', rule='generated programs: each applies one algorithm to a random sequence (types incl. incomplete, void, references and functions; values of mixed integer and enum types; tuples/pairs with references and move-only elements as lvalue/const/rvalue; aggregates of 0-32 fields) and is compared with the same operation on a Python list; non-trivial: more than one element',
                assumptions=['const rvalue tuples and sequences above 127 elements are not generated']),
    'C10': dict(runner='genprog', gen_module='gen_pp', rule='generated macro calls with 0 to 256 arguments (words, operators, literals with commas, parenthesized groups, empty arguments, macros that expand to lists), nested and deferred forms, conditionals; the expansion by both compilers, as a string without white space, against the same operation on a Python list; non-trivial: more than one argument'),
    'C11': dict(runner='genprog', gen_module='gen_traits', rule='all traits of randomly composed types (scalars, enums, arrays, strings, all std and flat containers, pairs, tuples with const and reference elements, optionals, pointers, user classes with and without fields, bases and custom code), plain, const, reference and volatile, and member pointers of generated classes, against a table of what each constructor supports; non-trivial: a composed type or a generated class'),
    'C12': dict(src=['c12.cpp'], rule='histories of up to 30 operations from every constructor, on maps and sets with less/greater/stateful comparators and plain/string/heap-backed elements, compared with std::map/std::set after every operation; non-trivial: a duplicate key, more than one element, or a construction range beyond 16'),
    'C13': dict(src=['c13.cpp'], rule='as C12 for multi containers against std::multimap/std::multiset, contents compared up to the order among equivalent keys; non-trivial: a duplicate key, more than one element, or a construction range beyond 16',
                assumptions=['the relative order of elements with equivalent keys is unspecified']),
    'C14': dict(src=['c14.cpp'], rule='histories of copy/move/assign/swap/modify over a pool of containers whose comparators differ in state, with move-only elements and lambda/function-pointer comparators, against the std containers; non-trivial: a whole-container operation or more than one element'),
    'C15': dict(src=['c15.cpp'], rule='random keys and messages (every length 0..300 and lengths around block limits up to 5000, misaligned and exactly sized buffers); non-trivial: a non-empty message',
                assumptions=['the reference is checked against the published 64-bit vectors for lengths 0..7']),
    'C16': dict(src=['c16.cpp'], rule='histories of append/finish/copy/assign/reset over up to 4 hash objects, and every two-piece split of random messages; non-trivial: appends after a read, copies, or more than one block'),
    'C17': dict(src=['c17.cpp'], rule='random keys and payloads; per packet every bit flip, truncation, byte removal/insertion, and other keys; non-trivial: a non-empty payload or a changed packet'),
    'C18': dict(src=['c18.cpp'], rule='payloads with runs of non-zero bytes around 254 and arbitrary/damaged encodings; non-trivial: contains a zero or a run of at least 254'),
    'C19': dict(src=['c19.cpp'], rule='packet sequences over chunked streams, with byte edits, cuts and size limits; non-trivial: several or long packets, or damaged/over-long frames'),
    'C20': dict(src=['c20.cpp'], rule='histories of stream calls over every adapter and chunking; non-trivial: at least two bytes of data or a failing sink'),
    'C21': dict(src=['c21.cpp'], flags=['-frtti'], rule='every library error, derived and foreign exceptions with random messages through name and message and through serialized holders; known, near-known and random names; histories of set/move/swap/reset/drop over up to 4 holders of strings, counted and move-only objects, integers and nothing against a model, with a count of live objects; non-trivial: a message, or something replaced, moved or swapped',
                assumptions=['what a moved-from holder contains is not specified', 'the library is built with run-time type information here, to name the class of a caught error independently']),
    'C22': dict(src=['c22.cpp'], lib='full', link=['-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo'], rule='histories of set/copy/move/drop/tweak over up to 9 addresses of every family and length against a model, with text compared to independent formatting; endpoints with random sequences of settings and copies resolved through a stand-in system resolver that records the request and answers with random lists or errors; non-trivial: a copy or move, several requests, or a list of several addresses',
                assumptions=['the system resolver is a stand-in that records what it is asked', 'text of local (AF_UNIX) and scoped addresses is not compared']),
    'C23': dict(src=['c23.cpp', 'vsched.cpp'], **ASYNC, rule='histories of set/reset/is_set/wait on 1-3 flags in normal, cancelled and expired contexts against a model; programs of 2-5 threads under generated schedules (random walk and priorities, with virtual time and interrupted polls), their histories checked for linearizability, and no waiter left behind while its flag is set; non-trivial: several changes of state, or waits with more switches than threads'),
    'C24': dict(src=['c24.cpp', 'vsched.cpp'], **ASYNC, rule='programs of 2-5 threads over 1-2 mutexes (lock, scoped lock, try_lock, maybe_lock, async_lock, timed, expiring, cancelled before or meanwhile, either of two, unlocking in ended contexts) under generated schedules: mutual exclusion, linearizability of every result, nobody left waiting for a free mutex, all mutexes free at the end; non-trivial: several acquisitions with more switches than threads',
                assumptions=['unlocking a mutex that is not held is out of the domain']),
    'C25': dict(src=['c25.cpp', 'vsched.cpp'], **ASYNC, rule='histories of one thread against std::deque, and programs of 2-5 threads over 1-2 bounded queues of integers, strings, move-only items and nothing (put, get, maybe_, timed, expiring, cancelled before or meanwhile, either of two, transfer, size/empty/full) under generated schedules: linearizability of all results including refusals, nobody left waiting without reason, everything drained and freed; non-trivial: several items moved with more switches than threads'),
    'C26': dict(src=['c26.cpp', 'vsched.cpp'], **ASYNC, rule='random chains of up to 4 then/except/decorate on futures and awaitables of integers, strings, move-only values and nothing, against a model of the outcome and of which stages run; histories of promises and futures set in every way, moved, overwritten, dropped and read, against a model; producers and consumers under generated schedules; values and shared states counted; non-trivial: more than one stage, more than two moves, drops or refusals, or results read with more switches than threads',
                assumptions=['a future whose result was taken is not read again', 'the message of the invalid-state error is not specified']),
    'C27': dict(src=['c27.cpp', 'vsched.cpp'], **ASYNC, rule='histories of one thread over any tree of contexts and shields (create, cancel, deadlines, leave, time, every kind of blocking operation, ready or not) against a model with exact virtual times; programs of nested contexts, shields, threads and daemon threads that block, cancel one another and leave in any order under generated schedules; non-trivial: a deadline that ends a wait and a cancellation, or a blocked thread woken by a cancellation with more than three switches',
                assumptions=['an operation that needs not wait may succeed past its deadline', 'a deadline that is shortened during a wait applies to the next one']),
    'C28': dict(src=['c28.cpp', 'vsched.cpp', 'allocs.cpp'], **ASYNC, rule='histories of set, reset and new contexts over trees, with classes that derive from one another, are move-only, empty or have their dynamic base not first, every value of every context compared after every step; contexts sent in either byte order to a machine with another calendar into contexts that have data and deadlines of their own; hand-made streams with duplicates, empty entries and any time left; damaged encodings and arbitrary bytes; non-trivial: data that is inherited and changed, sent with a deadline or cancelled, several entries, or refused',
                assumptions=['a value is set through its own class, not a base', 'references to values are not used after the value is replaced']),
    'C29': dict(src=['c29.cpp', 'vsched.cpp'], **ASYNC, rule='mixes of up to six awaitables (flags, queues in either direction, mutexes, semaphores, futures, pipes read, written and hung up, timeouts, deadlines, polling, never, always) in every shape a call can have (single, lists, lvalues and rvalues, results of other types), with things happening at known virtual times, reactions that retry or throw, contexts with deadlines or cancelled, signals and descriptors that look ready but are not; non-trivial: waits for at least two',
                assumptions=['times are representable in nanoseconds', 'a negative timeout is none', 'a deadline awaitable counts from where it is made']),
    'C30': dict(src=['c30.cpp', 'vsched.cpp'], **ASYNC, rule='thread pools of one to three workers with bounded and unbounded queues, several submitters (some whose time runs out), tasks of every kind (that throw, block, sleep, submit others, cancel their context or shorten its deadline; move-only, large, copied), pools that live until everything accepted is done, that have to run as many tasks at once as they have workers, or that are destroyed at any time, under generated schedules; non-trivial: several tasks and several switches',
                assumptions=['a pool has at least one worker', 'only tasks of a pool use it while it is destroyed', 'tasks submit to their own pool only if its queue is unbounded']),
    'C32': dict(src=['c32.cpp', 'vsched.cpp'], **ASYNC, rule='an owner that arms and drops a usage lock in rounds (also from two threads, and destroys it while things are held) and one to three users that get, use, copy, pass on and release at any time; and objects that hold a lock on themselves and drop it when destroyed, as the connections do; under generated schedules. Non-trivial: at least one user got the object and more than three context switches',
                assumptions=['the object itself outlives its lock, as the owner has to see to', 'nobody starts to use a lock while it is being destroyed']),
    'C31': dict(src=['c31.cpp', 'vsched.cpp'], **ASYNC, rule='histories of pipes, socket pairs and files held by up to five channels (make, move, swap, dup, release, close, shut down, blocking modes, reads and writes of every kind and size, with short transfers, EINTR and EAGAIN injected) against a model of contents and descriptors; transfers between threads; socket connections ended by data, the peer, disconnect, cancellation or a deadline; what precedes the end; connections made and unmade by several threads; packets in both protocols; and the loopback network with its addresses and options. Non-trivial: a moved channel and two transfers, or several switches with a blocked operation, or more than one packet or connection',
                assumptions=['what does not block is not interrupted by signals', 'writes below 32 KB to an empty socket or pipe are whole unless cut short by the check', 'permissions of new files are only asked to let the owner read and write']),
    'C33': dict(src=['c33_le.cpp', 'c33_be.cpp', 'c33_mix.cpp', 'vsched.cpp'], **ASYNC, rule='a server with 1-4 workers and 1-3 objects (two implement a diamond of interfaces, one an unrelated one, one a handwritten one with const methods) and 1-3 clients with 1-3 threads each over socket pairs with small or normal buffers, in three combinations of byte orders and packet protocols; every call (synchronous, or up to four started at once and awaited in any order; all kinds of arguments and results; every class of error; unknown names and methods of equal name and other signature) is compared with the same call on a local twin, and with the log of what ran; then everything ends in any order. Non-trivial: more than one call and more than 20 context switches',
                assumptions=['nothing times out or fails on the way (C34 and C35 do)', 'methods are found by name and signature, whichever interface they come from']),
    'C34': dict(src=['c34.cpp', 'allocs.cpp', 'vsched.cpp'], **ASYNC, rule='a server (three combinations of byte orders and packet protocols, 1-10 workers, bounded and unbounded queues, up to 4 connections at a time in one of them), a correct client, and 1-4 attackers that make up to two connections each and send, in pieces of any size, framed messages (good requests with repeated ids, proper prefixes of requests, requests for other objects, methods and signatures, spoilt and senseless ones, cancellations, and fatal headers), spoilt frames, plain junk or nothing, then wait for the answers, shut down, leave a partial frame, disconnect, or the server stops: every request has exactly one reply, with the result of the method or an error as called for; the connection of a fatal message ends, and no other; no descriptor is left; and the correct calls succeed, during the attack if there are more workers than attackers can keep busy, and after it with any number. Non-trivial: more than 8 bytes of attack, three correct calls and 20 context switches',
                assumptions=['a client may keep up to two workers waiting, with a partial frame and with replies it does not read', 'allocations above 16 MB are refused']),
    'C35': dict(src=['c35.cpp', 'vsched.cpp'], **ASYNC, rule='histories of up to three threads making up to four calls each through one or two clients (plain, of context data and deadlines in up to two nested contexts and over up to two servers hops, waits that end by themselves, by cancelling the caller, by cancelling the request, by the option\'s timeout, the context\'s deadline or the server\'s limit), under a deterministic scheduler with virtual time; and histories of calls while connections are shut down one or both ways, refused, or the server stops and starts again: results, errors, what methods observe, how methods end and when must agree with the model, and every call made after the faults must succeed. Non-trivial: more than one call of which one observed its context or was cut short (a connection killed and more than one call good), and more than 20 context switches',
                assumptions=['the server has a worker for each connection and each call that waits', 'clocks of both sides agree: no jumps while calls are on the way']),
    'C36': dict(src=['c36.cpp', 'vsched.cpp'], **ASYNC, rule='histories of up to 23 operations by an owner that makes objects of two classes, registers them under names of several types (new, in use, repeatedly), drops names and objects, and destroys objects it dropped, while up to four threads call the names: every result must be explained by what the name stood for at some moment of the call, no method may run on a destroyed object, and destruction ends. Non-trivial: more than two calls of which one found an object, more than 20 context switches, and a name replaced or calls at the same time',
                assumptions=['one thread registers', 'an object is unregistered everywhere before it is destroyed, or destroyed after the server']),
}
