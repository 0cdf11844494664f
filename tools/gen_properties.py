#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

SRV = ["pkg/network/server.go", "pkg/network/conn.go", "pkg/db/engine.go", "pkg/concurrency/topic.go", "pkg/concurrency/data_channel.go"]
p("C01", "Every request gets exactly one reply, in order, on its own connection",
  "While a client keeps its connection open and reads, every complete request it sends, whether valid, unknown, malformed as a command or not an array, is answered with exactly one well-formed RESP reply. Replies arrive on the connection that sent the request and in the order of the requests, however deeply the client pipelines and however many other clients are active. No reply is lost, duplicated, misrouted, reordered or mixed with the bytes of another.",
  ["schedules", "inputs", "histories"], "all request streams, pipelining depths, numbers of concurrent clients and interleavings of the reader, event bus, engine and response goroutines",
  "No test starts a server; the existing tests only exercise the event bus with a handful of events and receivers that are always ready.",
  SRV, [("per-connection reader publishes requests on the event bus", "pkg/network/server.go newConn"), ("engine publishes one response per request", "pkg/db/engine.go Start"), ("response worker routes by connection id", "pkg/network/server.go responseWorker")],
  ["client side of the TCP connection"], [("clients", "connection id to open connection", "pkg/network/server.go")])
p("C02", "Concurrent clients see one atomic, linearizable store",
  "For every set of concurrently connected clients, the replies they receive are explained by executing all commands one at a time in some order that respects real time: a command that was answered before another was sent takes effect first. Multi-key commands (MSET, MGET, SDIFF, SINTER, SUNION) and read-modify-write commands (INCR, DECR, APPEND, pushes, pops) are atomic, so no client sees a partial MSET, a lost increment or an element popped twice.",
  ["schedules", "histories"], "all interleavings of all commands of any number of clients",
  "No test runs two clients, and the container tests are single-threaded.",
  SRV + ["pkg/db/db.go"], [("single engine goroutine executes commands", "pkg/db/engine.go Start")], ["client side: call and return of each command"])
p("C03", "String commands follow their sequential specification",
  "For every sequence of SET, GET, MSET, MGET, EXISTS, STRLEN, APPEND, INCR, INCRBY, DECR, DECRBY and GETRANGE with arbitrary binary keys and values and any letter case of the command name, every reply and the resulting contents equal those of a key-to-string map. Counters operate on 64-bit signed integers and reject non-integers, missing keys and results that overflow, leaving the value unchanged; an empty string is distinct from a missing key. A failing command gets the error of its cause: no such command, invalid argument, not an integer or out of range, no such key.",
  ["inputs", "histories"], "all command sequences, keys and values",
  "The container tests fix a few operations on a few literal values; no test drives commands, replies, binary data, or integer limits.",
  ["pkg/command/global.go", "pkg/container/string_map.go", "pkg/container/string.go", "pkg/container/int_variant.go"],
  [("global commands on the string map", "pkg/command/global.go"), ("integer variant of strings", "pkg/container/int_variant.go")], ["replies over TCP"])
p("C04", "List commands follow their sequential specification",
  "For every sequence of LPUSH, RPUSH, LPOP, RPOP, LINDEX, LINSERT, LLEN, LRANGE, LTRIM, LREM and LSET with arbitrary binary elements, positive and negative positions and counts, and repeated elements, every reply and the resulting order of elements equal those of a sequence. Ranges clamp at the right end, a range that starts before the first element, after the last or after its own end selects nothing (LTRIM then keeps the list), negative LREM counts remove from the tail, and LLEN always equals the number of elements. A failing command gets the error of its cause: invalid argument, no such key, index out of range.",
  ["inputs", "histories"], "all command sequences, elements, positions and counts",
  "The list tests cover a few literal lists; sentinels, out-of-range slices and removal from both ends with duplicates are not explored.",
  ["pkg/command/list.go", "pkg/container/list.go", "pkg/util/index.go"], [("doubly linked list with two sentinels", "pkg/container/list.go"), ("index and slice resolution", "pkg/util/index.go")], ["replies over TCP"])
p("C05", "Hash commands follow their sequential specification",
  "For every sequence of HSET, HGET, HMGET, HEXISTS, HDEL, HKEYS, HVALS, HGETALL, HSTRLEN and HLEN with arbitrary binary fields and values, including empty ones, every reply and the resulting contents equal those of a field-to-value map per key. HSET reports the number of new fields, HDEL the number removed, and HGETALL, HKEYS and HVALS list every field exactly once and agree with HLEN and with each other. Commands with arguments that do not fit get the error invalid argument.",
  ["inputs", "histories"], "all command sequences, fields and values",
  "The hash container tests use a fixed table; no test drives the commands or empty and binary fields.",
  ["pkg/command/hash.go", "pkg/container/hash.go"], [("hash commands", "pkg/command/hash.go")], ["replies over TCP"])
p("C06", "Set commands follow their sequential specification",
  "For every sequence of SADD, SREM, SISMEMBER, SMEMBERS, SCARD, SRANDMEMBER, SPOP, SDIFF, SINTER and SUNION with arbitrary binary members, every reply and the resulting contents equal those of mathematical sets: the algebra is exact for any number of operands including missing, repeated and identical keys, and never modifies them. SPOP removes exactly the members it returns; SPOP and SRANDMEMBER return distinct existing members, as many as were asked for (the absolute value of the count) or all there are, and nothing from an empty set. Commands with arguments that do not fit get the error invalid argument.",
  ["inputs", "histories"], "all command sequences, members, counts and random outcomes",
  "The set container tests use fixed tables; the commands, emptied sets and operand repetition are not driven.",
  ["pkg/command/set.go", "pkg/container/set.go"], [("set commands", "pkg/command/set.go"), ("set algebra", "pkg/container/set.go")], ["replies over TCP"])
p("C07", "Failed and read-only commands change nothing; writes touch only their key",
  "A command that is answered with an error, and every read-only command, leaves the whole database exactly as it was, both now and after a restart. A successful write changes only the keys it names, and only the value of the type it works on: strings, lists, hashes and sets under the same key never affect each other. Reads and failing commands that name many missing keys do not make the server keep anything for them.",
  ["inputs", "histories"], "all commands, valid or not, against all database contents",
  "No test compares the database before and after a command, or mixes types under one key.",
  ["pkg/db/db.go", "pkg/db/engine.go", "pkg/command/command.go", "pkg/container/container.go"], [("argument parsing before execution", "pkg/command"), ("containers per type", "pkg/container/container.go")], ["full dump of all keys through read commands, before and after"])
p("C08", "No client input can crash the server or disturb other clients",
  "Whatever bytes a client sends, in whatever fragments and however it disconnects, the server process keeps running and other clients keep getting correct replies. A connection that sends bytes that are not RESP is closed by the server and nothing else is affected; a RESP value that is no request, or has arguments that are no strings, is answered with an error; data stored by other clients stays intact.",
  ["inputs", "fault_sequences"], "all byte streams (malformed, truncated, huge lengths, deep nesting, abrupt resets)",
  "The reader tests use well-formed literals and a few errors; nothing is sent to a server.",
  ["pkg/protocol/reader.go", "pkg/network/conn.go", "pkg/network/server.go", "pkg/db/engine.go"], [("RESP reader", "pkg/protocol/reader.go"), ("argument validation in commands", "pkg/command")], ["server process exit status", "a canary client's replies"])
p("C09", "RESP encoding and decoding round-trip under any fragmentation",
  "Every RESP object the library can construct encodes to bytes that decode to an equal object, byte for byte, with binary-safe bulk strings, null strings and arrays, and arrays nested up to the documented limit (simple strings and errors are single lines). Decoding consumes exactly the object's bytes, so that any concatenation of objects decodes to the same sequence however the stream is fragmented. Every proper prefix of an encoding yields an error, never an object, and so do bytes of no known type, numbers and lengths that are none, and strings that are longer or shorter than announced; no input makes the decoder panic.",
  ["inputs"], "all objects, concatenations, fragmentations, truncations and byte strings",
  "The tests decode a dozen literals from complete buffers.",
  ["pkg/protocol/reader.go", "pkg/protocol/resp.go"], [("token and length based reader", "pkg/protocol/reader.go"), ("pre-rendered representations", "pkg/protocol/resp.go")], ["return values of the reader"])
p("C10", "A clean shutdown and restart preserves the whole database",
  "After a server with a database file and no master is shut down, by its stop call or by SIGTERM or SIGINT, and a server is started on the same file, the database equals the one at shutdown: every acknowledged write of every client is there, in the effect it had, for every command including those with random outcomes and for arbitrary binary keys and values. This holds over any number of shutdown and restart cycles.",
  ["histories", "schedules", "inputs"], "all histories of commands by concurrent clients, moments of shutdown and numbers of restarts",
  "No test writes or replays a log.",
  ["pkg/db/engine.go", "pkg/log/log.go", "pkg/log/persistent.go", "pkg/network/server.go", "cmd/server/main.go"], [("append every modifying command to the log", "pkg/db/engine.go writeLog"), ("flush at stop", "pkg/db/engine.go Stop"), ("replay at init", "pkg/db/engine.go BuildFromLog")], ["dump of all keys through read commands before and after the restart"])
p("C11", "After a crash the database is a prefix of the executed writes",
  "If the server is killed at any instant, or its database file is cut off at any byte, the next start succeeds and recovers exactly the effect of a prefix of the modifying commands in the order they were executed: every complete record is applied and nothing else. Everything written and cleanly persisted after such a recovery survives the following restarts.",
  ["crash_points", "histories"], "all lengths of the surviving file, all kill instants, all subsequent histories",
  "No test truncates a log or restarts after a crash.",
  ["pkg/log/log.go", "pkg/network/server.go", "pkg/db/engine.go"], [("length-prefixed records", "pkg/log/log.go"), ("recovery from the file", "pkg/network/server.go fromFile")], ["dump after restart from a truncated file"])
p("C12", "The log codec returns what was logged, in order, for any damage at the tail",
  "Any sequence of log entries built from requests with arbitrary binary arguments, packed one after another, parses back to the same sequence of command names, database indexes, argument values and raw requests. A stream cut at any byte yields exactly its complete entries; an entry whose content is damaged but whose length is intact is skipped without losing the entries around it; no bytes make the parser panic or invent entries before the damage. A source that fails while being read is reported as an error, with the complete entries before the failure at most, none of them altered.",
  ["inputs", "crash_points"], "all entry sequences, cut points and damaged entries",
  "The log package has no tests.",
  ["pkg/log/log.go", "pkg/log/log.pb.go"], [("PackLog and ParseLog", "pkg/log/log.go")], ["return values of pack and parse"])
p("C13", "A replica's initial sync is a complete, consistent snapshot of the master",
  "A replica that connects to a master with a database file at any moment, also while clients write, receives every write acknowledged before it connected and a prefix, in execution order, of those that follow, never a torn or reordered part; a server configured with that master starts with exactly that state. If the transfer is cut at any byte, or the master stops or has no file, the replica gets an error or nothing, never a partial database, and never waits forever. A replica that does not take what it is sent delays no other replica.",
  ["schedules", "crash_points", "histories"], "all moments of connection relative to writes, all cut points of the transfer, any number of replicas",
  "The replication package has no tests.",
  ["pkg/replication/master.go", "pkg/replication/replica.go", "pkg/log/persistent.go", "pkg/network/server.go"], [("flush and copy of the log file", "pkg/replication/master.go handleConn"), ("length prefix", "pkg/replication/replica.go")], ["bytes received on the replica port", "dump of a replica server"])
p("C14", "Shutdown terminates, is idempotent, and releases ports and clients",
  "In every configuration (with or without a database file, replication or connected, pipelining or stalled clients) a stop call or termination signal makes the serve call return only after all acknowledged writes are in the database file. Afterwards the client and replication ports are free, all client connections are closed, and further or concurrent stop calls return without effect. A new server can be started on the same ports right away.",
  ["configurations", "schedules", "histories"], "all configurations, client states and moments and numbers of stop requests",
  "No test starts or stops a server.",
  ["pkg/network/server.go", "pkg/db/engine.go", "pkg/replication/master.go", "pkg/network/conn.go"], [("stop sequence", "pkg/network/server.go stop"), ("engine stop and flush", "pkg/db/engine.go Stop")], ["return of the serve call", "ability to bind the ports", "EOF at clients", "database file contents"])
p("C15", "Connection operations never block after close, and idle connections expire",
  "A connection object closes exactly once: the first close succeeds, every later close, read or write, from any goroutine, reports that it is closed, and operations already in progress return instead of blocking; none reports a close of a connection that stays open. A connection on which no read or write starts for the expiry time is closed, and one that is used more often than that is never closed by expiry. What was written before the close arrives at the peer intact and in order. When the peer ends the connection the reader is told and the connection closes.",
  ["schedules", "histories"], "all interleavings of reads, writes, closes, peer resets and expiry",
  "The network package has no tests.",
  ["pkg/network/conn.go"], [("expire worker with reset channel", "pkg/network/conn.go startExpireWorker"), ("compare-and-swap close", "pkg/network/conn.go Close")], ["return values at the connection object and bytes at the peer"])
p("C16", "Data channels deliver each sent event once, in order, and report truthfully",
  "Every event whose send reports success is received exactly once, in the order of each sender, unless the receiver is closed first; an event whose send reports expiry or closure is never received, and a send reports expiry only after its time limit has passed. A channel with a buffer holds as many events as its size without a receiver. After a close, every later send reports closed and every later receive reports the closed error, even with events still buffered, and calls blocked at the close return.",
  ["schedules", "histories"], "all buffer sizes, expiry times, numbers of senders and receivers and moments of close",
  "The tests use one receiver, 100 events and fixed sleeps.",
  ["pkg/concurrency/data_channel.go"], [("send select over close, data and expiry", "pkg/concurrency/data_channel.go Send"), ("receive", "pkg/concurrency/data_channel.go Receive")], ["return values of send and receive"])
p("C17", "Topics and the event bus deliver to every live subscriber and count truthfully",
  "A published event reaches every subscriber that is ready for it exactly once, unchanged and only within its topic, and the publish result equals the number of subscribers that got it. A subscriber that closed is dropped, and what it took is given back, without affecting others or a newer subscription of the same name; a subscriber that is not ready keeps no other from its events; publishing or subscribing to a topic that does not exist reports so. Removing a topic tells every waiting subscriber, and creating or removing a topic reports success exactly once per change under any concurrency.",
  ["schedules", "histories"], "all interleavings of publish, subscribe, close, re-subscribe, topic creation and removal",
  "The topic tests use five subscribers in one fixed scenario; the event bus test file is empty.",
  ["pkg/concurrency/topic.go", "pkg/concurrency/event_bus.go"], [("distributeEvent", "pkg/concurrency/topic.go"), ("topic registry under RWMutex", "pkg/concurrency/event_bus.go")], ["publish results and received events"])
p("C18", "A future has exactly one outcome, seen identically by everyone",
  "Under any concurrent use a future ends either fulfilled or cancelled, never both: exactly one cancel succeeds or none, and all waits and gets, from any goroutine and at any time, agree with that outcome and, if fulfilled, return the task's own result and error. The task runs exactly once, no operation panics, and waiting with a limit reports a timeout only if that time has passed.",
  ["schedules"], "all interleavings of task completion, cancels, gets and waits",
  "The future tests order the calls with sleeps.",
  ["pkg/concurrency/future.go", "pkg/concurrency/task.go"], [("done and cancel channels", "pkg/concurrency/future.go")], ["return values of cancel, get, wait and wait-for"])
p("C19", "Concurrent data maps are linearizable and their length is exact",
  "The locked and the sync data map behave, under concurrent set, get, has and remove from any number of goroutines, like one atomic map, and the simple one does so for a single goroutine. Whenever no operation is in progress, the length equals the number of keys present.",
  ["schedules", "histories"], "all interleavings and histories of map operations",
  "The tests run one scenario with disjoint keys.",
  ["pkg/types/data_map.go"], [("RWMutex map, sync.Map with counter", "pkg/types/data_map.go")], ["return values of the map operations"])
p("C20", "The server and its libraries are free of data races",
  "No execution of the server under concurrent clients, replication, connection churn and shutdown, nor any documented concurrent use of the event bus, topics, data channels, futures, broadcasters, concurrent data maps, persistent files and connections, contains a data race.",
  ["schedules"], "all interleavings of the workloads",
  "The tests are not run under the race detector and start no server.",
  SRV + ["pkg/concurrency/future.go", "pkg/concurrency/event_bus.go", "pkg/types/data_map.go", "pkg/log/persistent.go", "pkg/replication/master.go"], [("channels, mutexes and atomics", "throughout")], ["race detector reports"])
p("C21", "Index, slice and string-order helpers match their documented definition",
  "For every size, index and pair of indexes, resolving an index or a slice gives the documented result: negative indexes count from the end, an invalid index or slice gives -1, a slice's right end is clamped to the last element, and a valid result always lies inside the range with left not beyond right. Comparing two byte strings gives zero only for equal strings and otherwise the sign of their lexical order, antisymmetrically.",
  ["inputs"], "all sizes, indexes and strings, including extremes of the integer range",
  "The tests enumerate a few dozen literals.",
  ["pkg/util/index.go", "pkg/util/util.go"], [("Index and Slice", "pkg/util/index.go"), ("LexicalCompare", "pkg/util/util.go")], ["return values"])
p("C22", "The client sends exactly the arguments typed and shows replies faithfully",
  "A command line made of space-separated words and double-quoted texts, including quoted empty texts and any number of spaces, is encoded as a RESP array of exactly those arguments, and a line with an unterminated quote is rejected rather than sent altered. Every well-formed reply, of any nesting, is rendered without failure, with nulls, integers, errors, strings and each element of an array shown in order with its number. The program ends with success at quit or at the end of its input, and reports a server that is gone instead of hanging.",
  ["inputs"], "all argument lists, quotings, spacings and reply objects",
  "The client has no tests.",
  ["cmd/client/internal/codec.go", "cmd/client/main.go"], [("FormatInput and FormatOutput", "cmd/client/internal/codec.go")], ["return values and the client's terminal output"])
p("C23", "The sorted set keeps members ordered by score and name",
  "After any sequence of adding new members, deleting, increasing scores and popping, the sorted set contains exactly the members it should with their scores, popping from either end yields the member with the least or greatest score (ties broken by name), the rank of a member is its position in that order, and the length is exact.",
  ["inputs", "histories"], "all operation sequences, scores, names and random skip-list heights",
  "The sorted set test file is empty.",
  ["pkg/container/sorted_set.go"], [("skip list with spans", "pkg/container/sorted_set.go")], ["return values"])
p("C24", "A broadcast value reaches every reader, never before it is set",
  "Every read of a broadcaster, whether begun before or after the value is set and from any number of goroutines, returns exactly the value set, nil included, and no read returns before it is set.",
  ["schedules"], "all numbers of readers and interleavings with the set",
  "The test uses one ordering with sleeps.",
  ["pkg/concurrency/broadcast.go"], [("close of the ready channel", "pkg/concurrency/broadcast.go")], ["return values of get"])
p("C25", "The persistent file loses, tears and interleaves nothing",
  "Under concurrent writes of any sizes from any number of goroutines, mixed with flushes and size queries, the file after a flush contains each write's bytes exactly once, contiguous and in each writer's order, and everything written before a flush began is in the file when it returns. What the file holds at any moment is a prefix of that byte sequence.",
  ["schedules", "histories"], "all numbers of writers, write sizes (below and above the buffer) and interleavings with flush",
  "The log package has no tests.",
  ["pkg/log/persistent.go"], [("buffered writer under a lock", "pkg/log/persistent.go")], ["file contents"])
p("C26", "Resources return to their baseline after clients leave",
  "After any number of clients have connected, worked, misbehaved or been reset and are gone, the server holds no more goroutines, file descriptors or per-client state than before they came; the same holds for finished replica transfers.",
  ["histories", "fault_sequences"], "all numbers of clients and ways to leave",
  "No test starts a server or counts resources.",
  ["pkg/network/server.go", "pkg/network/conn.go", "pkg/replication/master.go", "pkg/concurrency/topic.go"], [("connection close and removal from the registry", "pkg/network/server.go"), ("temporary files and handles of replica transfers", "pkg/replication/master.go")], ["goroutine, descriptor and live-object counts of the server process"])
p("C27", "A client that stops reading does not delay other clients",
  "If some clients send requests and never read their replies, every other client's requests are still answered, completely and in order, and new clients can connect; when a stalled client resumes reading it gets its own replies complete and in order.",
  ["fault_sequences", "schedules"], "all numbers of stalled clients, reply sizes and amounts of unread data",
  "No test starts a server.",
  ["pkg/network/server.go", "pkg/network/conn.go"], [("response delivery to connections", "pkg/network/server.go responseWorker")], ["replies at the other clients"])
p("C28", "A configuration file sets exactly the options it names",
  "Parsing a configuration file gives every option named in it the value written there and leaves every other option as it was, which is the documented default unless the configuration parsed into has been changed before; a missing, unreadable or ill-typed file is reported as an error.",
  ["inputs", "configurations"], "all subsets of options and values",
  "The config package has no tests.",
  ["pkg/common/config.go"], [("toml unmarshalling over defaults", "pkg/common/config.go")], ["fields after parsing"])
p("C29", "A handler pipeline runs handlers in order and stops at the first error",
  "For any list of handlers the pipeline calls them in the order they were added, each with the result of the one before, and returns the last result; if a handler fails, no later handler runs and exactly that error and that handler's result are returned.",
  ["inputs", "programs"], "all lengths of pipelines, positions of failures and repeated runs",
  "The tests run two fixed pipelines.",
  ["pkg/util/pipeline.go"], [("Run loop", "pkg/util/pipeline.go")], ["call log of the handlers and return values"])
p("C30", "The containers follow their interfaces when used as a library",
  "Every operation of the string object, linked list, hash and set returns what its interface documents, for any sequence of operations, any arguments and any size: the string object's views as text, bytes, length, hash and integer always agree, an operation that returns an error leaves its object unchanged, set algebra leaves its operands as they were and its result is a set of its own, bytes and lists of objects that were handed out stay as they were, and what a caller does to a list of objects it passed in or got back does not change the container.",
  ["inputs", "histories"], "all operation sequences, arguments and sizes",
  "The tests apply a few literals to each operation, and never hold on to values.",
  ["pkg/container/string.go", "pkg/container/list.go", "pkg/container/hash.go", "pkg/container/set.go"], [("string object", "pkg/container/string.go"), ("linked list", "pkg/container/list.go"), ("set algebra", "pkg/container/set.go")], ["return values and contents of the containers"])
p("C31", "Identifiers are unique and stable",
  "No two connections, events, log entries or generated identifiers ever share an identifier, however many goroutines of however many processes create them at the same time; the identifier of an object never changes; and random generators created separately produce different sequences.",
  ["schedules", "histories"], "all numbers of goroutines, processes and identifiers",
  "The test creates a handful of identifiers in one goroutine.",
  ["pkg/util/uuid.go", "pkg/util/random_provider.go", "pkg/network/conn.go", "pkg/log/log.go"], [("identifier generation", "pkg/util/uuid.go"), ("identifiers of log entries", "pkg/log/log.go")], ["the identifiers created by all goroutines and processes"])
p("C32", "The log has exactly the enabled messages, whole and in order",
  "After logging is set up with a level and outputs, every message of an enabled level, logged from any number of goroutines, appears in each output exactly once, formatted like Printf, whole and in the order of its goroutine; messages of lower levels do not appear; what a log file held before stays. Before logging is set up messages are dropped without a failure. Logging an error returns an error that says and wraps what was given, Panic panics after logging, and Fatal ends the process with a failure status after logging.",
  ["inputs", "schedules", "configurations"], "all levels, outputs, messages, arguments and interleavings",
  "The logging functions have no tests.",
  ["pkg/common/logging.go"], [("set-up and level functions", "pkg/common/logging.go")], ["log files, standard streams, return values and exit status"])
p("C33", "The byte and text helpers match their definition",
  "Reading an exact number of bytes returns exactly those bytes and leaves the rest unread, or fails if there are fewer, however the source splits them; parsing an integer accepts exactly the decimal 64-bit integers; joining quoted texts and formatting log texts keep every argument, in order.",
  ["inputs", "fault_sequences"], "all byte sources, lengths, texts and arguments",
  "The tests use a few literals and never a source that splits or fails.",
  ["pkg/util/util.go"], [("ReadExactBytes, ParseInt64, QuoteJoin, FormatLog", "pkg/util/util.go")], ["return values and what remains in the source"])
p("C34", "A server that cannot get what it needs fails to start, cleanly",
  "If the client port, the replication port or the database file cannot be used, initialisation reports failure (the server program ends with a failure status): it never starts without serving clients, replicas or persistence it was told to provide. A failed attempt leaves no port open, no file changed and nothing running behind, and once the obstacle is gone the same configuration starts, with the data of its database file. With replication on and no port of its own given, replicas are served at the port after the clients'.",
  ["configurations", "fault_sequences"], "all configurations, obstacles and numbers of failed attempts",
  "No test starts a server.",
  ["pkg/network/server.go", "pkg/db/engine.go", "pkg/replication/master.go", "cmd/server/main.go"], [("Init", "pkg/network/server.go Init, fromFile"), ("NewEngine", "pkg/db/engine.go")], ["result of Init, exit status, open ports, files, goroutines and descriptors"])
p("C35", "Many clients at once are served in turn",
  "However many clients send requests at the same time, and whether or not some commands take long, every client is served in its turn: none waits for a reply while the others are answered over and over, and the number of requests answered per second does not break down as the number of waiting clients grows.",
  ["schedules", "histories"], "all numbers of clients, pipelining depths and durations of commands",
  "No test starts a server.",
  ["pkg/network/server.go", "pkg/concurrency/topic.go", "pkg/concurrency/event_bus.go", "pkg/db/engine.go"], [("newConn", "pkg/network/server.go"), ("PublishUntilDelivered", "pkg/concurrency/event_bus.go")], ["order and number of replies of all clients, requests answered per second"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
