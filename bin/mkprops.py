#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is reviewable)."""
import json, os
H='src/hxhim/'; D='src/datastore/'; M='src/message/'; T='src/transport/'
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","A read returns exactly the last completed write",
  "After a PUT of (subject, predicate, object) has been flushed, every later GET of that subject-predicate pair succeeds and returns exactly the bytes and data type of the most recently executed PUT for the pair (floating point objects: the value within the configured precision). A GET of a pair that was never PUT, or whose last executed operation is a successful DELETE, reports an error, and a DELETE removes that pair only.",
  ["histories","inputs","configurations"],
  "every history of PUT/GET/DELETE/flush over arbitrary byte strings and data types, on every storage backend, batch limit and number of datastores",
  "The tests PUT two or three fixed triples and read them back once; overwrites, deletes, re-puts, long mixed histories, odd byte contents and small batch limits are never combined.",
  [D+"InMemory.cpp",D+"LevelDB.cpp",D+"RocksDB.cpp",H+"ops/impl.cpp","include/hxhim/private/process.hpp"],
  [("storing the encoded object with its type",D+"LevelDB.cpp BPutImpl"),("lookup and decode",D+"LevelDB.cpp BGetImpl"),("removal",D+"InMemory.cpp BDeleteImpl")],
  [("key/value store","one ordered map per datastore","src/datastore/*")],["results of flush"])
p("C02","Different subject-predicate pairs never share a record",
  "Two records whose (subject bytes, subject type, predicate bytes, predicate type) differ in any component are independent: writing or deleting one never changes what reading the other returns. This holds for adversarial bytes: empty-looking splits, embedded zero or 0xff bytes, one being a prefix of another, or the same concatenation split at another place.",
  ["inputs","histories"],"all pairs of subject/predicate byte strings and types, in any write order",
  "Tests use a few printable, distinct strings; key collisions appear only for particular splits, lengths, types and terminator bytes.",
  [D+"triplestore.cpp","src/utils/little_endian.cpp",D+"InMemory.cpp",D+"LevelDB.cpp",D+"RocksDB.cpp"],
  [("key construction",D+"triplestore.cpp sp_to_key"),("key splitting",D+"triplestore.cpp key_to_sp")],None,["results of flush"])
p("C03","A PUT writes exactly the requested permutations of the triple",
  "For each permutation selected in a PUT, exactly one record is written with the components of the triple in that order (types travelling with their component), and no record is written for permutations that were not selected. Reading any selected permutation's pair returns its third component.",
  ["inputs","programs"],"all 64 permutation masks, all triples, single and bulk PUTs mixed with other operations",
  "Tests use one or two masks with fixed values and mostly check the SPO record.",
  [H+"ops/impl.cpp","src/hxhim/constants.cpp",H+"ops/PUT.cpp",H+"ops/BPUT.cpp"],
  [("permutation expansion",H+"ops/impl.cpp PutImpl"),("permutation table","src/hxhim/constants.cpp")],None,["results of flush"])
p("C04","Ordered retrieval returns the right records in key order",
  "Ordered retrieval walks the datastore's records in the byte order of their encoded keys: from the first key with the requested prefix forwards or backwards, from either end of the store, or over the lowest or highest records of the prefix, returning at most the requested number of records, none skipped or repeated, each with its own subject, predicate, object and types. When no record qualifies the operation reports an error.",
  ["inputs","histories"],"all store contents, prefixes, operators and record limits, all backends",
  "Tests probe a three-record store with one prefix and a subset of the operators; LOWEST, HIGHEST and empty or non-matching prefixes are not tested.",
  [D+"InMemory.cpp",D+"LevelDB.cpp",D+"RocksDB.cpp",D+"datastore.cpp","include/datastore/datastore.tpp","include/hxhim/constants.h"],
  [("iteration per operator",D+"LevelDB.cpp BGetOpImpl"),("seek position",D+"datastore.cpp BGetOp_get_seek"),("copying a record into the response","include/datastore/datastore.tpp")],None,["results of flush"])
p("C05","Every queued operation yields exactly its own result",
  "A flush returns exactly one result (for ordered retrieval: one per record) for each operation it executed, carrying the operation's kind, its own subject and predicate with their types (failed retrievals from an end of the store excepted), the datastore that handled it, and its own status: a failing operation in a batch never changes the status or data of another one. Nothing is lost, duplicated, or attributed to another operation, and results of one category from one datastore come in the order their operations were queued.",
  ["histories","inputs","configurations"],"all mixes of operations, including failing ones, across batch boundaries, datastores and backends",
  "Tests count results for two-operation batches and never mix failing and succeeding operations in one packet.",
  [H+"Results.cpp",M+"BPut.cpp",M+"BGet.cpp",M+"BGetOp.cpp",M+"BDelete.cpp","include/hxhim/private/process.hpp","include/transport/backend/local/RangeServer.hpp"],
  [("response to result conversion",H+"Results.cpp init/AddAll"),("moving responses","src/message/*.cpp steal"),("per-packet processing","include/hxhim/private/process.hpp")],None,["results of flush"])
p("C06","Flushing executes each queued operation once, in category and queue order",
  "Queued operations have no effect until a flush that covers their category, which executes each of them exactly once and leaves the category empty; a category-specific flush leaves the other categories queued. A full flush executes PUTs, then GETs, then ordered GETs, then DELETEs, then histogram requests, and operations of one category on the same datastore take effect in the order they were queued.",
  ["histories","programs"],"all interleavings of queueing calls with the six flush calls and sync, all batch limits",
  "Tests flush one category at a time right after queueing into it; ordering within and across categories and re-flushing is not exercised.",
  [H+"ops/FLUSH.cpp",H+"ops/impl.cpp",H+"ops/SYNC.cpp","include/hxhim/private/process.hpp"],
  [("category order",H+"ops/FLUSH.cpp Flush"),("queueing into packets",H+"ops/impl.cpp setup_packet"),("draining packets","include/hxhim/private/process.hpp")],
  [("queues","unsent requests per category and datastore","include/hxhim/private/hxhim.hpp")],["results of flush"])
p("C07","Many ranks behave like one shared store under every message schedule",
  "With the MPI transport, clients on all ranks see one logical store: each operation takes effect atomically at its datastore between the start and the end of the flush that executed it, in queue order per rank and datastore, whatever the delivery order of messages and the number of ranks, servers, datastores per server or listener threads. Every flush that all needed servers can answer terminates with all its results.",
  ["schedules","histories","configurations"],"all message delivery orders and thread interleavings, all client/server ratios and datastores per server",
  "All existing tests run on a single rank without a network transport, so no remote path is executed at all.",
  [T+"backend/MPI/EndpointGroup.cpp","include/transport/backend/MPI/EndpointGroup.tpp",T+"backend/MPI/RangeServer.cpp",T+"backend/MPI/Init.cpp","include/hxhim/private/process.hpp"],
  [("grouping packets by destination","include/hxhim/private/process.hpp"),("sending and receiving","include/transport/backend/MPI/EndpointGroup.tpp"),("serving",T+"backend/MPI/RangeServer.cpp")],None,["results of flush on every rank"])
p("C08","The request/response protocol pairs every request with one response",
  "Between a client and a range server each request (a size message followed by its data) is answered by exactly one response of the announced size sent back to the requester, consumed by the call that sent the request; no message is left unreceived, sent with a buffer that is no longer valid, or matched to another exchange. A shutdown in which all ranks take part leaves no rank waiting.",
  ["schedules","configurations"],"all interleavings of clients, listener threads and message deliveries",
  "The MPI transport is never run by the tests.",
  [T+"backend/MPI/RangeServer.cpp","include/transport/backend/MPI/EndpointGroup.tpp",H+"hxhim.cpp"],
  [("client exchange","include/transport/backend/MPI/EndpointGroup.tpp return_msgs"),("server exchange",T+"backend/MPI/RangeServer.cpp listener_thread"),("shutdown",H+"hxhim.cpp Close")],None,["MPI calls"])
p("C09","Background PUTs are neither lost, repeated nor reordered",
  "With background PUTs enabled, every PUT queued before a flush of PUTs has been executed exactly once when that flush returns, its result is returned by exactly one flush, and two PUTs to the same pair take effect in the order they were queued, whenever the background thread runs. Once as many PUTs are queued as background PUTs are set to start at, those queued so far are executed without any flush. Flushing, syncing and closing always terminate.",
  ["schedules","histories","configurations"],"all interleavings of the caller with the background thread, all thresholds",
  "One test queues a handful of PUTs and flushes once; races between queueing, the background batch and the flush handshake depend on timing.",
  [H+"init.cpp",H+"private.cpp",H+"ops/FLUSH.cpp",H+"ops/PUT.cpp",H+"ops/BPUT.cpp",H+"destroy.cpp"],
  [("background thread",H+"init.cpp async_put_thread"),("flush handshake",H+"private.cpp wait_for_background_puts"),("result hand-over",H+"ops/FLUSH.cpp FlushPuts")],
  [("background results","results waiting for the next flush","include/hxhim/private/hxhim.hpp async_puts")],["results of flush"])
p("C10","Routing is a total, deterministic bijection of datastores to ranks",
  "For every client:server ratio, number of ranks and datastores per server, the servers' datastores get consecutive ids, each id is located on exactly one (rank, offset), and the id-to-rank and rank-to-id mappings are inverse to each other and agree on all ranks. A pair is always routed to the same existing datastore by a built-in hash that depends on the pair alone, results name that datastore, and a hash that reports an error makes the operation fail without being queued.",
  ["configurations","inputs"],"all ratios, world sizes, datastores per server and pairs",
  "Tests check a few ratios on fixed ranks and call the hashes not at all.",
  [H+"Datastore.cpp",H+"RangeServer.cpp",H+"hash.cpp",H+"init.cpp",H+"accessors.cpp"],
  [("id to rank",H+"Datastore.cpp"),("server ids",H+"RangeServer.cpp"),("hashing",H+"hash.cpp"),("totals",H+"init.cpp datastore")],None,["accessors","results of flush"])
p("C11","Synced data survives close, reopen and crash",
  "With an on-disk backend, everything whose effect was complete when a sync succeeded is present and unchanged after the session is closed and reopened under the same name with the same configuration, and after the process is killed at any later point. Deleted pairs stay deleted.",
  ["crash_points","histories"],"all histories, with a close or an abrupt process kill at any point after a sync, any number of reopenings",
  "Tests never reopen a datastore and never kill the process.",
  [D+"LevelDB.cpp",D+"RocksDB.cpp",H+"ops/SYNC.cpp",H+"hxhim.cpp",D+"datastores.cpp"],
  [("writing through",D+"LevelDB.cpp BPutImpl"),("sync",D+"LevelDB.cpp SyncImpl"),("naming",D+"datastores.cpp generate_name")],None,["results of flush after reopen"])
p("C12","Switching datastores isolates and preserves each data set",
  "Changing the datastore name first executes and returns everything queued, then continues on the datastore of the new name: nothing written under one name is visible under another, and switching back to an on-disk name shows exactly what was there. Changing the hash likewise flushes first and then routes all later operations with the new function on the newly named datastores. Opening a single datastore of a set by its path gives access to exactly the records of that datastore, and what is done to it there is found when the whole set is opened again.",
  ["histories","configurations"],"all sequences of switches between names mixed with operations, on all backends and layouts",
  "One test switches once and does not read back the old name.",
  [H+"hxhim.cpp",D+"datastore.cpp",D+"datastores.cpp"],
  [("name change",H+"hxhim.cpp ChangeDatastoreName"),("hash change",H+"hxhim.cpp ChangeHash"),("close and open",D+"datastore.cpp Change")],None,["results of flush"])
p("C13","Results do not depend on tuning choices",
  "The same program of operations gives the same results and final contents whatever the storage backend, limits on operations or bytes per request, number of datastores, hash, number of listener threads, transport, or background-PUT threshold. Only the datastore named in a result may differ (and the status of deleting an absent pair, which is backend specific).",
  ["configurations","programs"],"all combinations of tuning options for a program",
  "Tests run one fixed configuration.",
  [H+"ops/impl.cpp","include/hxhim/private/process.hpp",H+"config.cpp",D+"InMemory.cpp",D+"LevelDB.cpp",D+"RocksDB.cpp"],
  [("packet splitting",H+"ops/impl.cpp setup_packet"),("datastore construction",D+"datastores.cpp Init")],None,["results of flush"])
p("C14","Histograms count every tracked value once in the right bucket",
  "For each tracked predicate name a datastore's histogram counts exactly the floating point objects of the successful PUTs of that predicate executed there: after the first N values the buckets are fixed by the chosen generator, and from then on every value is counted in the last bucket whose lower edge does not exceed it (values below the first edge excepted), so the counts add up. Histogram requests return these buckets and counts, packing and unpacking a histogram preserves it, and histograms written on sync are restored on reopen.",
  ["inputs","histories"],"all value sequences, first-N settings, generators, and PUT mixes",
  "Tests insert one fixed arithmetic series per generator.",
  ["src/utils/Histogram.cpp",D+"datastore.cpp",M+"BHistogram.cpp",H+"ops/HISTOGRAM.cpp"],
  [("bucket generation and insertion","src/utils/Histogram.cpp"),("tracking PUTs",D+"datastore.cpp operate(BPut)"),("persistence",D+"LevelDB.cpp WriteHistogramsImpl")],None,["histogram results"])
p("C15","Messages survive packing and unpacking unchanged",
  "For every request and response of every kind, packing succeeds with exactly the size the message announces, and unpacking the bytes yields a message with the same kind, endpoints, count and per-entry contents, types, statuses and record lists (retrievals from an end of the store need no key, failed entries no object); the announced size never depends on how the message was built up.",
  ["inputs","programs"],"all message kinds with any number of entries of any contents, built by any sequence of additions and moves",
  "Tests pack one or two fixed entries per kind.",
  [M+"Packer.cpp",M+"Unpacker.cpp",M+"BPut.cpp",M+"BGet.cpp",M+"BGetOp.cpp",M+"BDelete.cpp",M+"BHistogram.cpp","src/utils/Blob.cpp"],
  [("packing",M+"Packer.cpp"),("unpacking",M+"Unpacker.cpp"),("size accounting",M+"*.cpp add/update_size")],None,["packed bytes"])
p("C16","Numeric keys sort in numeric order and decode back",
  "The stored form of numbers orders exactly like the numbers: for any two values of the same integer type, and for floating point values that differ beyond the configured precision, byte order of the encodings equals numeric order, and equal values have equal encodings. Decoding an encoded integer returns the same integer and decoding an encoded floating point number returns it within the configured precision.",
  ["inputs"],"all values of the six numeric types",
  "Tests list a few dozen constants from the paper.",
  ["include/utils/elen.tpp","src/utils/elen.cpp","include/datastore/transform.tpp"],
  [("integer encoding","include/utils/elen.tpp encode::integers"),("floating point encoding","include/utils/elen.tpp encode::floating_point"),("hooking into storage","include/datastore/transform.tpp")],None,["encoded strings","stored order"])
p("C17","Walking a result list visits each result once and rejects misuse",
  "Iterating a result list visits every result once in order, any number of times, and ends; accessors report success only for a valid position and for data the result's kind carries, and otherwise fail without touching their outputs. Appending moves all results over in order and leaves the other list empty; the C and C++ interfaces agree.",
  ["programs","inputs"],"all sequences of cursor moves, additions, appends and accessor calls",
  "Tests walk one list once.",
  [H+"Results.cpp","include/hxhim/Results.hpp"],
  [("cursor and accessors",H+"Results.cpp")],None,["accessor return values"])
p("C18","Requests respect the configured limits",
  "No request sent to a range server carries more operations than the configured maximum per request, and none that holds more than one operation exceeds the configured maximum size by more than the fixed per-message overhead; every queued operation is still sent.",
  ["configurations","inputs"],"all limits and sizes of subjects, predicates and objects",
  "Tests check only the number of queued packets for one limit.",
  [H+"ops/impl.cpp",M+"Message.cpp"],
  [("packet setup",H+"ops/impl.cpp setup_packet"),("message size",M+"Message.cpp")],None,["request messages"])
p("C19","Configuration sources are applied in order of precedence",
  "The effective setting of every option is the one from the highest-precedence source that defines it: environment variables over the file named by the environment over the default file over built-in defaults, each option independently of which other options a source defines (the null transport, which has no other ranks, comes with its own hash; settings that belong together, such as the number encoding, are taken as a group). Malformed values never change an option silently to something else, and text parsing of key-value files ignores comments and keeps later duplicates.",
  ["configurations","inputs"],"all combinations of options over the sources, valid and malformed",
  "Tests check the generic parser on a small stream and never the option layer.",
  [H+"config.cpp","include/hxhim/config.hpp","src/utils/Configuration.cpp",H+"options.cpp"],
  [("source sequence",H+"config.cpp process_config_and_fill_options"),("option parsing",H+"config.cpp fill_options"),("key-value parsing","src/utils/Configuration.cpp")],None,["effective options"])
p("C20","Calls are accepted exactly in the states and with arguments that allow them",
  "Operations are accepted only on an open session and with valid arguments, option setters only before opening, and every rejected call returns an error and has no effect on queues, store or options. Open fails on a running session, closing twice or using a closed session reports an error, and sessions can be initialised, opened and closed repeatedly.",
  ["programs","inputs"],"all sequences of lifecycle calls, setters and operations, with valid and invalid arguments",
  "Tests open and close once and pass a null session to a few accessors.",
  [H+"hxhim.cpp",H+"options.cpp",H+"accessors.cpp",H+"ops/PUT.cpp",H+"private.cpp"],
  [("session state",H+"hxhim.cpp Open/Close"),("running guard in setters",H+"options.cpp"),("argument checks","src/hxhim/ops/*.cpp")],None,["return codes"])
p("C21","Bulk and typed calls are equivalent to the single generic calls",
  "A bulk call of n entries has the same effect and results as n single calls in the same order, and the float- and double-specific calls as the generic calls with that object type. Entries that cannot be queued make the call return an error without disturbing the remaining ones.",
  ["programs","inputs"],"all bulk sizes including zero, all operations and element mixes",
  "Tests use bulk calls of fixed size and compare only some fields.",
  [H+"ops/BPUT.cpp",H+"ops/BGET.cpp",H+"ops/BGETOP.cpp",H+"ops/BDELETE.cpp",H+"ops/BHISTOGRAM.cpp",H+"ops/float.cpp",H+"ops/double.cpp",H+"ops/single_type.cpp"],
  [("bulk loops","src/hxhim/ops/B*.cpp"),("typed wrappers",H+"ops/single_type.cpp")],None,["results of flush"])
p("C22","Caller buffers are only read, and results own what they return",
  "hxhim never writes to or frees a buffer passed by the caller, and objects, and all of the records of ordered retrieval, returned in results stay readable and unchanged until the results are destroyed, regardless of later operations, flushes or the end of the flush that produced them.",
  ["histories","programs"],"all programs, with results kept alive across later operations",
  "Tests destroy results immediately and do not run with memory checking.",
  ["src/utils/Blob.cpp",M+"BGet.cpp",M+"BGetOp.cpp",H+"Results.cpp"],
  [("ownership in blobs","src/utils/Blob.cpp"),("moving into results",H+"Results.cpp")],None,["result contents","caller buffers"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
if sch:
    for x in P: jsonschema.validate(x,sch)
print(len(P))
