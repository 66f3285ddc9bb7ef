LEVELS = {}
NOTES["C05"] = "The registered default callbacks are run on every integer of each 32/64-bit type: complete case split over sign and number of digits, characters as terms over the digits; decode(encode(v)) = v, no exception, and order of every pair of classes and of the first differing digit. std::string, std::to_string and stream extraction by contract."
NOTES["C10"] = "Every constructor, assignment, move, release, unpack and pack operation of Blob/RealBlob/ReferenceBlob and alloc/dealloc proved against an ownership contract (buffer released exactly when owned, source emptied on move, nothing leaked); sequences follow by composition. Exceptions from allocation are outside."
NOTES["C04"] = "sp_to_key and key_to_sp run on arbitrary pairs and composed: lengths, types and a skolem byte come back (copies and references, null data, objects in use), the split reads nothing but the key, the key starts with the pair's bytes; append_type/remove_type likewise. little_endian and Blob inlined, memcpy by contract."
NOTES["C01"] = "Packing proved to produce, and unpacking to take apart, one wire layout (offsets defined recursively over the entries) for any number of entries and any lengths, contents and types, including null values; the two contracts compose to the round trip. alloc_array by contract (proved in its own units); Blob, little_endian and the header code are inlined."
NOTES["C02"] = "Like C01, for the five responses with any mixture of statuses and any number of records per entry; GETOP records are a second, nested layout with its own offset recursion. Histogram::pack/unpack/pack_size and the Histogram constructor by contract (C09); alloc_array by contract (own units)."
NOTES["C03"] = "add(), update_size() and steal() of every message proved to grow the reported size by the wire layout's size of the entry (GETOP responses: at least) and leave the other entries alone, constructors to report the empty size; packers and unpackers, given exactly that many bytes, proved to access only those. Induction over the history of calls composes them. Assumes values and histograms are not modified between adding and packing."
NOTES["C08"] = "add() proved from every state of a histogram against recursively defined counts and upper bound (counts of the first i values by recursion over i; bucket of a value = greatest edge not exceeding it); get(), get_cache() and the constructor likewise; IEEE comparisons via the solver's floating point theory. std::upper_bound by contract; bucket generators by contract (ascending edges, none NaN, at least one): the built-in ones compute with pow/log and are only sampled by the harness. NaN values excluded."
NOTES["C09"] = "Packing proved to produce, and unpacking into any histogram to take apart, one layout, for any name, cache, edges and counts: byte for byte at skolem positions, cursor and space advanced by exactly pack_size(); std::string and alloc_array by contract (the latter proved in its own units)."
NOTES["C13"] = "PutImpl run from an arbitrary state of the queues with any flags: one arbitrary iteration of its loop at a time, each queueing exactly the triple of one flag (roles, bytes, types, caller addresses, destination by the hash of the triple's own key) or nothing; which iteration serves which flag is read off the code. Every Put call (C++ and C, bulk, float, double, single type) proved to pass its arguments on unchanged, once per entry. The hash by contract (C07); synchronisation and statistics no effect; sequential execution; serial_puts by contract."
NOTES["C15"] = "Every conversion (PUT, GET, GETOP, DELETE, HISTOGRAM) proved on an arbitrary response and entry: operation, status, datastore, key and, only if successful, object or histogram; a GETOP entry's records become a chain of the same length in order (induction over the loop, nodes by index), at least one node. AddAll proved over a list of any number of responses of any length: result (q, i) at position count(0)+...+count(q-1)+i; responses released once. Add, Append, walking and all accessors (C++ and C) proved on an arbitrary list and position. std::deque by contract (a sequence), Histogram accessors by contract (C08), timestamps not judged."
NOTES["C14"] = "Every queueing function (PutImpl, GetImpl, GetOpImpl, DeleteImpl, HistogramImpl) run from an arbitrary queue state: the operation becomes the last one of the last batch of the hash's datastore, or the only one of a new last batch; all earlier operations and other queues unchanged; operation limit and byte limit kept (class invariant assumed on entry, proved on exit). Every user call proved to queue its entries once, in order, unchanged. Assumes an operation limit of at least one, sequential execution; the hash by contract (C07), serial_puts by contract."
NOTES["C17"] = "operate(BPut) proved one arbitrary entry at a time: Histogram::add is called exactly once, with the object's value and on the histogram the predicate's bytes name, exactly if the entry's status is success, the predicate is of byte type, such a histogram exists and the object is a float or double; never otherwise. Histogram queries likewise: one entry per name, success exactly if it exists, referring to it. AddHistogram and both GetHistogram proved; other operations proved not to touch histograms. std::map by contract (lookup by bytes), Histogram::add by contract (C08), the datastore's own PUT by contract (any statuses); numbers have the size of their type."

NOTES["C11"] = "BPutImpl, BGetImpl and BDeleteImpl proved one arbitrary entry at a time: a PUT writes exactly the encoded object and its type under the key of the pair, a GET returns exactly the decoded stored value and its type if the pair is there and fails otherwise, a DELETE erases exactly the pair; one answer per entry, in order, carrying that entry's references and its own status; nothing else is written or erased. encode/decode proved against the callbacks, and used by contract with sp_to_key (C04: same key exactly for the same pair) and std::map; histories follow by induction. Object types are those the interface knows (their names are looked up for a log message)."
NOTES["C16"] = "process<X> proved for each of the five kinds, one arbitrary round, queue, packet and answer at a time: every queue that holds a batch is visited; a batch is left only while another one for the same rank is being sent this round; what is taken off a queue gets this rank as sender, the queue as destination and the rank of its datastore, goes to the transport or to the local server accordingly, never replaces another packet, has its response turned into results exactly once and is released exactly once; the function ends only when no queue holds anything. remaining, range_server<X> (right datastore, entries passed on in order, once), dispatch by operation, FlushPuts/Gets/GetOps/Deletes/Histograms, Flush, the C entry points, serial_puts, async_put_thread and the set-up of the queues and of the table of ranks proved in units of their own. Assumed: std::list/map/vector by contract, the transport returns the responses of what it was given (C18, C19-C22 say why not more), mutexes and condition variables as sequential stubs, every round makes progress by a paper argument. AddAll and operate by contract (C15, C09-C13)."
NOTES["C12"] = "The BGetOpImpl of all three kinds of datastore proved one arbitrary query at a time over records that are, by contract (std::map; LevelDB and RocksDB iterators), a sorted sequence: where each operation starts, in which direction it walks, that it stops exactly at the end of the data, of the matching records or at the requested number, that it fails exactly if there is nothing to return or a record cannot be decoded, and that it touches nothing but its own entry; the walk loops by invariants over any number of records. BGetOp_copy_response, loop_init, get_seek, get_end and error_response proved in their own units; lemmas on the order of byte strings connect the positions with the records that begin with the bytes of the pair. encode/decode, sp_to_key/key_to_sp (C04) and the response's add() (C03) by contract."
NOTES["C18"] = "parse_kv_stream proved one arbitrary line at a time, for any number of lines of any length: blank lines and comments change nothing, any other line sets exactly the option its first word names to the rest without surrounding blanks (characters at skolem positions, trimming loops by invariants). Sequence::add/process (every source once, in order, over an empty configuration; null sources skipped), the three readers, the typed lookups (int, unsigned, long, size_t, double, float, bool, text, named values), parse_value/parse_map_value, the table of options and setters in fill_options, the hard coded defaults and the order of default_reader's sources proved in units of their own; precedence follows by composition. Streams, getline, isspace, getenv and unordered_map by contract; parse_datastore/transport/endpointgroup/elen/histogram and the setters are only exercised by the harness."
NOTES["C19"] = "Rely/guarantee proof over the real thread code, following one arbitrary PUT: both threads see six facts about it (in the queue, which background pass took it, passes begun and stored, where done_check was last cleared, result returned); taking or releasing one of the two locks, waiting (spurious wake-ups included) and notifying are the points where the other thread may have moved, as far as its guarantee lets it. Obligations: the invariants at every release, that each thread changes only what is its own to change, that nothing holding the PUT or its result is dropped, that every shared field is touched only under its lock, no lock taken twice or kept, every wait is in a loop that looks again and every change somebody waits for is notified. async_put_thread, FlushPuts while open and while closing, init::async_puts, destroy::async_puts, the variants without a thread, the seven C PUT calls and the statistics in process<X> are units; lemmas close the composition (the other thread's steps are reflexive, transitive, keep the invariant; after the handshake the PUT has been sent and stored). Assumed: mutexes, condition variables, threads, vectors and lists as the standard says; process<X> and Results by contract (C16, C15); one user thread; fair scheduling. Data races on anything else only by the ThreadSanitizer harness."
NOTES["C21"] = "The database library is known by contract: a map that changes by Write(batch), which applies the whole batch in order and returns ok or returns an error; Get returns what was last written; what went to the log survives the end of the process, a synced write everything; Open gives back what is there. Proved against it on the code of LevelDB.cpp and RocksDB.cpp, one arbitrary entry at a time over two loops: an entry's change is in the batch exactly if its values encode, under the key of its own pair (C04), the value being the encoded object and its type; the batch is written once, to the log, and each entry's status is success exactly if its change was part of a write that succeeded; a GET looks up its own key in the current state and answers with exactly what is there; SyncImpl writes with sync and reports the result; OpenImpl, CloseImpl, UsableImpl and the constructor keep the name, the options and the database handle; Datastore::Open, Close, Sync and operate pass everything on. Replayed on real stores with killed, exited and closed processes and with writes that fail. Assumed: the contracts of LevelDB and RocksDB (their durability is not hxhim's code), Blob, sp_to_key (C04), responses (C03), encode/decode callbacks (C05)."
NA = {
    "C20": "What reaches which rank, and that nobody waits forever, is decided by the interleaving of MPI_Isend/Irecv/Test/Reduce calls of several processes inside the MPI library (and by RPC threads inside Thallium). A contract on hxhim's functions can say what each hands to MPI (C01-C03, C16 do) but the property itself would have to be assumed as MPI's contract; no verifier here handles several address spaces with message timing.",
    "C22": "Order and precision depend on libstdc++'s conversion between binary and decimal floating point (std::to_string, stringstream with precision, exponent by repeated multiplication); there is no contract of those conversions, short of assuming the property, that an SMT solver here can use (mixed real/float/string reasoning over up to 17 digits).",
}
