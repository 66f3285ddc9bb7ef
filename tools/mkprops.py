#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

p("C01", "Bulk requests survive the wire unchanged",
  "When a bulk PUT, GET, GETOP, DELETE or HISTOGRAM request is serialized and deserialized, the receiver sees the same operation, source, destination and entry count, and for every entry, in order, byte-identical subjects, predicates, objects or names with their lengths and types, the same requested object type, record count and query operation, and for PUT, GET and DELETE the same caller-side subject and predicate addresses (GETOP entries carry no addresses, FIRST and LAST queries carry no subject and predicate, histogram names carry no type). This holds for every number of entries and every value length and content, including zero-length values.",
  ["inputs"], "all requests: any entry count, any value lengths (including 0), contents, types, operations, addresses",
  "The unit tests round-trip one fixed small request per kind with short non-empty strings; they do not quantify over entry counts, lengths, contents, types or GETOP operations.",
  ["src/message/Packer.cpp", "src/message/Unpacker.cpp", "src/utils/Blob.cpp", "include/utils/little_endian.hpp"],
  [("symmetric per-entry field order in pack and unpack", "src/message/Packer.cpp, src/message/Unpacker.cpp"),
   ("length-prefixed value encoding", "src/utils/Blob.cpp pack/unpack")],
  ["Message::Packer::pack output buffer", "Message::Unpacker::unpack result"],
  [("wire buffer", "header followed by one record per entry", "src/message/Packer.cpp")])
p("C02", "Bulk responses survive the wire unchanged",
  "When a bulk PUT, GET, GETOP, DELETE or HISTOGRAM response is serialized and deserialized, the receiver sees the same operation, source, destination and entry count, and for every entry, in order, the same status, for PUT, GET and DELETE the same original subject and predicate references (address, length and type), and for every successful entry byte-identical returned objects, records or histograms. This holds for every entry count, mixture of successes and failures, records per entry (including zero), and value length (including zero).",
  ["inputs"], "all responses: any entry count, status mixture, number of records per entry, lengths and contents",
  "The unit tests round-trip one fixed small all-success response per kind; mixtures of failed and successful entries, zero or many records per GETOP, and arbitrary lengths are not covered.",
  ["src/message/Packer.cpp", "src/message/Unpacker.cpp", "src/utils/Blob.cpp"],
  [("status-dependent record layout mirrored in pack and unpack", "src/message/Packer.cpp, src/message/Unpacker.cpp"),
   ("reference encoding", "src/utils/Blob.cpp pack_ref/unpack_ref")],
  ["Message::Packer::pack output buffer", "Message::Unpacker::unpack result"])
p("C03", "A message never serializes past its reported size",
  "For every request or response, however its entries were added or moved in from another message (and not modified afterwards), serializing it writes only inside a buffer of the size the message reports, and deserializing that buffer reads only inside it. For PUT, GET, DELETE and HISTOGRAM messages and for GETOP requests the reported size equals the number of bytes written.",
  ["inputs", "histories"], "all sequences of add/steal operations building a message, any lengths and statuses",
  "Sizes are maintained incrementally in code far from the packing loops; tests check sizes for single fixed messages only, and an overrun of a heap buffer by a few bytes passes silently.",
  ["src/message/Message.cpp", "src/message/SubjectPredicate.cpp", "src/message/BPut.cpp", "src/message/BGet.cpp", "src/message/BGetOp.cpp", "src/message/BDelete.cpp", "src/message/BHistogram.cpp", "src/message/Packer.cpp"],
  [("serialized_size accumulated by add()", "src/message/*.cpp"), ("buffer allocated from size()", "src/message/Packer.cpp header pack")],
  ["Message::size()", "bytes written by Packer::pack"],
  [("serialized_size", "running total of packed bytes", "include/message/Message.hpp")])
p("C04", "Stored keys identify exactly one subject-predicate pair",
  "Combining a subject and a predicate into a datastore key and splitting the key again returns the same subject and predicate bytes, lengths and types, whether or not copies are requested; consequently two different pairs never produce the same key. Likewise, appending a type to a stored value and removing it returns the same bytes, length and type.",
  ["inputs"], "all byte strings, all lengths including 0, all known data types",
  "Tests use two short strings; collisions between pairs whose concatenations coincide, zero lengths and binary contents need a proof over all inputs.",
  ["src/datastore/triplestore.cpp", "src/datastore/datastore.cpp"],
  [("length and type trailer after the concatenated bytes", "src/datastore/triplestore.cpp"), ("type trailer on values", "src/datastore/datastore.cpp append_type/remove_type")],
  ["sp_to_key / key_to_sp", "datastore GET results"])
p("C05", "Integer encoding preserves value and order",
  "For every 32- and 64-bit signed or unsigned integer, decoding its lexicographic encoding returns the same integer, and for any two integers of one such type, byte-wise comparison of their encodings orders them exactly as their numeric values. The encoding never fails or aborts for any value of these types.",
  ["inputs"], "all values and all pairs of values of int32, int64, uint32, uint64",
  "Tests enumerate a few hundred small numbers; digit-count boundaries, extreme values and pairwise order over 2^64 values cannot be sampled.",
  ["include/utils/elen.tpp", "include/datastore/transform.tpp", "src/datastore/transform.cpp"],
  [("recursive length prefix and digit flipping", "include/utils/elen.tpp")],
  ["elen::encode::integers / elen::decode::integers", "datastore transform callbacks"])
p("C06", "Server and datastore placement maps are mutually inverse",
  "For every client:server ratio, number of datastores per server and world size, every datastore ID maps to exactly one rank that is a range server and mapping that rank and the ID's offset back returns the same ID; every (server rank, offset) maps to one ID that maps back to that rank, IDs are contiguous from zero, and non-server ranks and out-of-range arguments give -1. The same holds for range server IDs.",
  ["inputs", "configurations"], "all non-negative IDs and ranks, all positive ratios, all datastore counts per server whose IDs fit an int",
  "Tests check tables for a handful of ratios; clients of the map run on different ranks, so a single inconsistent triple routes data to a rank that does not own it.",
  ["src/hxhim/Datastore.cpp", "src/hxhim/RangeServer.cpp"],
  [("block arithmetic on client/server ratio", "src/hxhim/Datastore.cpp get_rank/get_id, src/hxhim/RangeServer.cpp")],
  ["hxhim::Datastore::get_rank/get_id", "hxhim::RangeServer::get_rank/get_id/is_range_server"])
p("C07", "Hash destinations are valid and depend only on the data",
  "Every built-in hash function returns a datastore ID between 0 and the number of datastores minus one, for every subject and predicate of any length (below 2 GiB), and reads only the bytes of the given subject and predicate. Data-based hash functions return the same destination for the same bytes on every rank, whatever the alignment or address of the bytes.",
  ["inputs", "configurations"], "all subjects and predicates of any length, all datastore counts and ranks",
  "Tests hash two fixed strings; range and purity over all byte strings and all tail lengths (switch/fallthrough code) cannot be sampled.",
  ["src/hxhim/hash.cpp", "include/utils/uthash.h"],
  [("final modulo datastore count", "src/hxhim/hash.cpp"), ("block and tail processing of the hash macros", "include/utils/uthash.h")],
  ["return value of each hxhim_hash_* function", "bytes read from the key buffers"])
p("C08", "Histograms count every value exactly once in the right bucket",
  "(Of values that are not NaN.) Once a histogram has received its first N values and generated buckets, every value added so far that is at or above the lowest bucket edge is counted exactly once, in the bucket with the greatest left edge not exceeding it, including the N cached values; no other count changes. The reported upper bound is the greatest value counted. Before that, all added values are retained and no counts are exposed.",
  ["inputs", "histories"], "all sequences of added values (numbers, not NaN), all N and all bucket generators returning at least one bucket with ascending edges",
  "Tests add ten consecutive integers; arbitrary values, duplicates, values on edges and every history length need an inductive argument.",
  ["src/utils/Histogram.cpp"],
  [("cache then generate then insert", "src/utils/Histogram.cpp add"), ("upper_bound bucket search", "src/utils/Histogram.cpp insert")],
  ["Histogram::get", "Histogram::get_cache"],
  [("cache_/count_/buckets_/counts_/size_", "values awaiting bucket generation and the bucket table", "include/utils/Histogram.hpp")])
p("C09", "Histograms survive serialization",
  "Packing a histogram and unpacking the result gives a histogram with the same name, value count, first-N threshold, bucket edges, counts and upper bound, and the same cached values as long as the buckets have not been generated, whatever state either histogram was in. Packing writes exactly the number of bytes the histogram reports as its packed size, and packing and unpacking advance and decrement the caller's cursor and available space by exactly that.",
  ["inputs", "histories"], "all histograms in all states: any name, threshold, number of values and buckets",
  "Tests pack one filled histogram; empty, partially cached, bucketless and arbitrary-size states are not covered.",
  ["src/utils/Histogram.cpp"],
  [("state-dependent layout mirrored in pack and unpack", "src/utils/Histogram.cpp"), ("pack_size", "src/utils/Histogram.cpp")],
  ["Histogram::pack / unpack / pack_size"])
p("C10", "Value buffers have exactly one owner",
  "A buffer owned by a value object is released exactly once, when its last owner is overwritten, deallocated or destroyed; making a reference never transfers or duplicates ownership, moving transfers it and leaves the source empty, and a non-owning object never releases memory. No sequence of construct, copy, move, assign, self-assign, unpack and destroy operations releases a buffer twice, leaks it, or leaves an owner pointing at released memory.",
  ["histories"], "all sequences of operations on value objects",
  "Double frees and leaks depend on operation sequences; the tests exercise each operation once and do not run under a leak or double-free detector.",
  ["src/utils/Blob.cpp", "include/utils/Blob.hpp", "include/utils/memory.hpp"],
  [("clean flag", "src/utils/Blob.cpp"), ("clear on move, dealloc before overwrite", "src/utils/Blob.cpp operator=")],
  ["calls to alloc/dealloc", "Blob::data/size/data_type/will_clean"],
  [("clean", "this object owns ptr", "include/utils/Blob.hpp")])
p("C11", "The in-memory datastore behaves as a typed map",
  "After any history of bulk PUTs and DELETEs on the in-memory datastore, a GET of a subject-predicate pair (bytes and types) succeeds exactly if the pair was put and not deleted since, and then returns the bytes and type of the last object put (floating point values within the precision of their encoding); operations on other pairs have no effect on it. Every bulk operation returns one response entry per request entry, in order, carrying that entry's original caller references and its own status; a DELETE succeeds exactly when the pair was present.",
  ["histories", "inputs"], "all histories of bulk operations, all subjects, predicates, objects, types and batch sizes",
  "Tests run one small PUT/GET/DELETE scenario over three fixed triples; interleavings of overwrites, deletes, duplicate keys inside one batch and typed values are not covered.",
  ["src/datastore/InMemory.cpp", "src/datastore/datastore.cpp", "src/datastore/triplestore.cpp", "src/datastore/transform.cpp"],
  [("ordered map keyed by encoded pair", "src/datastore/InMemory.cpp"), ("transform encode/decode", "src/datastore/datastore.cpp")],
  ["Datastore::operate(BPut/BGet/BDelete) responses"])
p("C12", "Ordered queries return the right records in the right order",
  "On every kind of datastore (in-memory, LevelDB, RocksDB) a FIRST or LAST query returns the smallest or largest stored records in ascending or descending key order, NEXT and PREV return records starting at the first stored key at or after the encoded bytes of the given pair and going forward or backward, EQ returns the one record whose key begins with those bytes and fails if there is none, and LOWEST and HIGHEST return the smallest (ascending) or largest (descending) records whose keys begin with the encoded subject and predicate (with an empty numeric predicate: beginning at the smallest or largest number of that subject); each returns at most the requested number of records, stopping at the end of the data, with the decoded subject, predicate, object and types of each. A query that finds nothing, including any query on an empty datastore, reports an error for that entry without affecting other entries.",
  ["inputs", "histories"], "all datastore contents produced by PUTs and DELETEs, query keys, record counts and operations",
  "Tests query three fixed triples with in-range counts; empty stores, absent keys, record counts past either end and zero counts are not covered.",
  ["src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "include/datastore/datastore.tpp", "src/datastore/datastore.cpp"],
  [("iterator walk with per-record copy", "BGetOpImpl in src/datastore/InMemory.cpp, LevelDB.cpp, RocksDB.cpp"), ("shared status per entry", "include/datastore/datastore.tpp")],
  ["Datastore::operate(BGetOp) responses"])
p("C13", "A PUT queues exactly the requested permutations",
  "A PUT with any set of permutation flags queues exactly one triple for each flag requested, no others, and each queued triple carries the caller's subject, predicate and object in the roles that flag names, addressed to the datastore the hash function selects for that triple's own subject and predicate. If the hash rejects a triple the call reports an error and does not queue that triple (whether further permutations of the same PUT are queued is not stated).",
  ["inputs"], "all combinations of the six permutation flags, all values, all hash functions",
  "Tests use SPO or all permutations with one datastore; role mix-ups between flags and destination choice per permutation over all 64 flag sets are not covered.",
  ["src/hxhim/ops/impl.cpp", "include/hxhim/constants.h"],
  [("role switch per flag", "src/hxhim/ops/impl.cpp PutImpl")],
  ["queued BPut request contents per destination"])
p("C14", "Batches respect limits and lose nothing",
  "Every queued operation ends up exactly once in one batch for the datastore its hash selects, in the order the operations were issued, with its own arguments. No batch holds more than the configured number of operations, and a batch of two or more operations never exceeds the byte limit, if one is set.",
  ["inputs", "histories", "configurations"], "all sequences of operations, all limits (including no byte limit), all destinations",
  "Tests queue a few operations under one default limit; limit boundaries and arbitrary mixes of destinations need an inductive argument over the queue.",
  ["src/hxhim/ops/impl.cpp", "src/message/Message.cpp"],
  [("open a new packet when full or too large", "src/hxhim/ops/impl.cpp setup_packet"), ("append to last packet", "src/hxhim/ops/impl.cpp get_packet")],
  ["per-datastore request queues"])
p("C15", "Results mirror responses one for one, in order",
  "Converting responses into results yields, in order, exactly one result per response entry (and one per returned record for GETOP entries) with that entry's operation, status, originating datastore, subject and predicate, and its object or histogram if and only if it succeeded; an entry without records still yields one valid result. Appending one result list to another moves every result exactly once and preserves order, and iterating visits every result exactly once.",
  ["inputs", "histories"], "all response chains, entry counts, record counts, status mixtures and sequences of appends",
  "Tests add one hand-made result of each kind; chains of several responses, zero-record entries and repeated appends are not covered.",
  ["src/hxhim/Results.cpp", "include/hxhim/Results.hpp", "src/message/Messages.cpp"],
  [("per-operation conversion", "src/hxhim/Results.cpp init"), ("flattening of records", "src/hxhim/Results.cpp Add")],
  ["hxhim::Results accessors"])
p("C16", "Every flushed operation is answered exactly once",
  "Flushing a queue sends every queued batch exactly once to the datastore it was queued for, and returns exactly one result per queued operation (per record for GETOP), together with the results of PUTs already processed before the flush, leaving the queue empty; nothing queued is dropped, duplicated or left behind, for any number of batches and datastores, whether datastores are local or several of them share a remote rank.",
  ["histories", "configurations"], "all queue contents, all assignments of datastores to ranks",
  "Tests flush on a single process with a single datastore, so the remote path and several datastores per rank never run.",
  ["include/hxhim/private/process.hpp", "include/transport/backend/local/RangeServer.hpp", "src/hxhim/ops/FLUSH.cpp"],
  [("round-robin pop of one packet per datastore per round", "include/hxhim/private/process.hpp")],
  ["results list", "requests handed to the transport or the local server"])
p("C17", "Datastore histograms follow exactly the matching successful puts",
  "A datastore histogram named N receives a value exactly once for each successfully stored PUT whose predicate bytes equal N with a byte type and whose object is a float or double, with that object's numeric value, and receives nothing for any other operation. A histogram query returns one entry per requested name, in order, that succeeds exactly when a histogram of that name exists and then refers to that histogram.",
  ["inputs", "histories"], "all PUT batches, predicates, object types and statuses, all sets of histogram names",
  "Tests put one matching batch; mixtures of types, failed puts, near-miss names and repeated values are not covered.",
  ["src/datastore/datastore.cpp"],
  [("post-PUT histogram update", "src/datastore/datastore.cpp operate(BPut)"), ("lookup by name", "src/datastore/datastore.cpp operate(BHistogram)")],
  ["Datastore::GetHistogram", "BHistogram responses"])
p("C18", "Later configuration sources override earlier ones",
  "After reading any sequence of configuration sources, each option has the value given by the last source that mentions it, and options no source mentions keep their defaults. Blank lines and lines whose first word begins with # change nothing; in any other line the first word is the option and the rest, without surrounding blanks (possibly nothing), its value. A typed lookup returns exactly the parsed value, or reports an option that is not there (leaving the caller's variable unchanged) or a value that cannot be parsed; a text lookup returns the whole value.",
  ["inputs", "configurations"], "all sequences of configuration sources and all file contents",
  "Tests read fixed small inputs; precedence over arbitrary sequences and malformed lines is not covered.",
  ["include/utils/Configuration.hpp", "src/utils/Configuration.cpp", "src/hxhim/config.cpp"],
  [("ordered sequence of readers into one map", "src/utils/Configuration.cpp"), ("get_value / get_from_map", "include/utils/Configuration.hpp")],
  ["Config map after processing", "typed getters"])
p("C19", "Background PUTs lose and duplicate nothing",
  "With asynchronous PUTs enabled, for every interleaving of the user's thread with the background thread and however often either wakes without a reason: every PUT is sent exactly once, by the background thread or by a flush; a PUT flush begun while the session is open returns exactly one result for every PUT issued before it whose result no earlier flush returned, and no other PUT results; neither thread waits for the other forever; closing ends the background thread and leaves no results behind; and the queue of PUTs, the kept results and the packet statistics, which both threads use, are only touched under their locks.",
  ["schedules"], "all interleavings of the user's calls with the background thread, any number of passes, flushes and wake-ups",
  "The result depends on thread interleavings that tests cannot enumerate; the test suite runs the background thread in a few sequential scenarios only.",
  ["src/hxhim/init.cpp", "src/hxhim/private.cpp", "src/hxhim/ops/FLUSH.cpp", "src/hxhim/ops/PUT.cpp", "src/hxhim/ops/BPUT.cpp", "src/hxhim/ops/single_type.cpp", "src/hxhim/destroy.cpp", "include/hxhim/private/process.hpp"],
  [("background thread", "src/hxhim/init.cpp async_put_thread"), ("handshake with a flush", "src/hxhim/private.cpp wait_for_background_puts"), ("kept results", "src/hxhim/ops/FLUSH.cpp FlushPuts")],
  ["results returned by a flush", "operations the datastores receive"])
p("C20", "Every remote request gets the matching response",
  "With any number of ranks and any message timing, each request sent to a remote range server is processed exactly once and its response reaches the sender, and all ranks shut down without waiting forever.",
  ["schedules", "fault_sequences"], "all message orders and delays between all ranks",
  "Tests run on one rank; message timing between ranks is outside their reach.",
  ["src/transport/backend/MPI", "src/transport/backend/Thallium", "include/transport/backend/MPI/EndpointGroup.tpp"],
  [("paired sends and receives", "include/transport/backend/MPI/EndpointGroup.tpp")],
  ["responses returned by communicate"])
p("C21", "Persistent datastores keep acknowledged writes",
  "On an open LevelDB or RocksDB datastore, every entry of a bulk PUT, GET or DELETE gets exactly one answer, in request order, with references to the request's subject and predicate. A PUT is acknowledged exactly if its values can be encoded and the database accepted the write; then the object is stored with its bytes and type under its pair (same bytes under different types are different pairs), replacing what was there. A DELETE is acknowledged exactly if its pair can be encoded and the database accepted it, and removes that pair only. A GET returns the bytes and type last stored for its pair, and fails if there is none. What is not acknowledged with success is reported as an error; entries that fail do not affect others. Sync succeeds exactly if the database has synced everything written before. What was acknowledged is still there, with the same bytes and types, after the process stops at any point or closes the datastore, and it is opened again under the same name.",
  ["crash_points", "histories", "inputs"], "all histories of operations, all crash points between operations, all values",
  "Tests never crash or reopen after a crash, and only write values that can be encoded to a database that accepts them.",
  ["src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "src/datastore/datastore.cpp"],
  [("batches, statuses, sync and opening", "src/datastore/LevelDB.cpp, src/datastore/RocksDB.cpp"), ("keys and type trailers", "src/datastore/triplestore.cpp, include/datastore/datastore.hpp"), ("Open, Close, Sync", "src/datastore/datastore.cpp")],
  ["response statuses", "GET after reopen", "Sync's result"])
p("C22", "Floating point encoding preserves order",
  "For any two finite floating point values representable at the configured precision, byte-wise comparison of their encodings orders them as their numeric values, and decoding returns the value within that precision.",
  ["inputs"], "all pairs of finite floats and doubles",
  "Tests enumerate a few decimals.",
  ["include/utils/elen.tpp"],
  [("mantissa/exponent split and digit flipping", "include/utils/elen.tpp")],
  ["elen::encode::floating_point / elen::decode::floating_point"])

assert len({x["id"] for x in P}) == len(P)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
