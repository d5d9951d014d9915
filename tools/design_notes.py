"""Per property: what is checked against what, and why it reaches what the unit tests cannot. Used by gen_design.py."""
NOTES = {
'C01': "Round trip against the value itself, for every supported kind of type. The types are generated C++ (a fixed zoo of ~60 composed types plus user classes), the values and the destination's previous contents are drawn; the reader's position must be exactly at the end. Arms read into fresh and dirty objects, several values per stream, both byte orders, very large containers.",
'C02': "Differential: an independent encoder written from the format (7-bit groups, little/big endian scalars, ids) must give the same bytes; equal values give equal bytes whatever the type they are stored in (metamorphic), and equivalent types read each other's bytes.",
'C03': "Isomorphism of random pointer graphs, reference bytes, and a predicted count of live objects after the decoder is gone (strong reference counting in the model; ASan for leaks and UAF).",
'C04': "Reference codec for (name, hash, id) triples; the concrete class of everything decoded is taken from typeid. Tampered names/hashes/ids must be rejected as the reference decoder says.",
'C05': "Independent decoder says what a byte string means or that it has no meaning; the library must agree on value, position and acceptance. ASan/UBSan, allocation cap (16 MB) and a leak count turn crashes and unbounded work into failures.",
'C06': "Reference bytes of the verified prefix; every other generated type is read from verified data and must be accepted iff its published structure is compatible.",
'C07': "Generated modules are compiled and print their hashes; a Python model of the published hash function predicts them. Metamorphic pairs: same structure under other names (equal), one random structural change (different).",
'C08': "Programs with random class hierarchies and enums are generated, compiled and run; the introspection results, bytes and names are compared with the generator's own declaration.",
'C09': "Generated programs apply one compile-time algorithm each to a random sequence; the result is compared with Python's list operation. Bad instantiations that stop compiling are caught because they are instantiated.",
'C10': "The preprocessor itself (g++ and clang++) expands generated macro calls; the text is compared with the list operation in Python.",
'C11': "Table-driven model of what each type constructor supports, applied to randomly composed types; a static evaluation per trait.",
'C12': "Model-based histories against std::map / std::set, full comparison after every operation (contents, iterators returned, counts, exceptions).",
'C13': "As C12 against multimap / multiset.",
'C14': "Histories over a pool of containers with stateful comparators; the std containers are the model; element life is counted.",
'C15': "Differential against an independent HighwayHash implementation which is itself checked against published vectors.",
'C16': "Metamorphic: any split, copy or assignment of the hash state gives the hash of the concatenation.",
'C17': "Authenticated packets: round trip; every bit flip, cut, insertion and other key of every generated packet must be refused.",
'C18': "Reference COBS encoder/decoder; encodings are zero free, bounded in length, and decode(arbitrary) agrees with the reference on value and refusal.",
'C19': "Sequence model over a stream that delivers arbitrary chunks, with edits, cuts and size limits.",
'C20': "Model of a byte string with a position; every call's return value, position and end-of-data behaviour is compared.",
'C21': "Model of error classes by name and of a result holder's state; the class of a caught exception is identified by typeid, live objects are counted.",
'C22': "Model of an address as (family, bytes, length), independent text formatting, stand-in resolver that records its request.",
}
NOTES.update({
'C23': "Model-based (one thread) and linearizability search over histories recorded under the deterministic scheduler; a lost wakeup shows as a deadlock or as a waiter left while its flag is set.",
'C24': "Same machinery: mutual exclusion by an owner counter, linearizability of every result, nobody left waiting for a free mutex.",
'C25': "std::deque model (one thread), linearizability (threads), conservation of items: everything put is got once, in order, freed once.",
'C26': "Model of the outcome of continuation chains and of which stages run; histories of promises/futures; shared states and values counted; consumer and producer under generated schedules.",
'C27': "Model of a context tree with exact virtual times: when each blocking operation must end, and how.",
'C28': "Model of inheritance by value over trees of contexts; serialized contexts are compared after a decode on a machine with another calendar, crafted and damaged streams included.",
'C29': "Model of which awaitables are ready at which virtual time: select must report exactly those and leave all others untouched (locks, items, bytes).",
'C30': "Every task runs exactly once (or is destroyed exactly once without running when the pool goes), pools are as parallel as they have workers, exceptions do not end workers.",
'C31': "Model of each descriptor's contents (pipes, socket pairs, files) with short transfers, EINTR and EAGAIN injected; socket connections ended in every way; loopback TCP resolves and connects.",
'C32': "Ownership counters under generated schedules: destruction waits until the last user has released; ASan for anything that touches the lock later.",
'C33': "Model of the server object: result or exception of a remote call must be what the model's local call gives; whole client, server, reactor, pool and packet protocol run in one process under the deterministic scheduler over socket pairs.",
'C34': "Grammar based attackers (good, damaged, truncated, repeated, reordered, oversized messages, raw bytes, disconnects at any point) next to a correct client, whose calls must all be right; every reply the attackers get must be the model's reply to one of their requests; descriptors and memory balanced after.",
'C35': "Model of deadlines (virtual time), context data and cancellation through calls, also over two hops: what the method observes, how it ends, how the call ends and when. The second half breaks connections and stops servers: every call gives its result or an error of the connection, ran at most once, and later calls work.",
'C36': "History of registrations by one owner; a call's result must be explained by the object the name stood for at some moment of the call; no method runs on a destroyed object.",
'C37': "A scripted server (not the library's) answers a real client with right replies in any order, replies to ids that were never asked or answered already, damaged, partial, oversized and senseless packets, and ends connections at any byte. Each call's result must be the reply that was sent for it, or an error, and later calls must work.",
})
