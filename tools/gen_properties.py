#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

M = "memcache/"
prop("C01", "Every result belongs to its own command",
 "Each result function returns the decoded form of the reply the server gave to exactly that command: never another command's reply, a mixture of replies, or a default value with a nil error. This holds for any number of goroutines, pipelines and connections sharing one client, any mix of command types, any pipeline length (including pipelines split into several batches) and any order in which result functions are called.",
 ["schedules", "histories", "configurations", "inputs"],
 "all concurrent programs over the pipeline API x all batch/limit/buffer/connection settings x all interleavings",
 "Unit tests check a handful of fixed pipelines against a mock or a local server on one goroutine; matching is positional, so a single off-by-one at any batch, buffer or pool boundary under any interleaving breaks it.",
 [M+"pipeline.go", M+"core.go", M+"sender.go", M+"builder.go", M+"input_selector.go", M+"pool.go"],
 [("positional matching of replies to the commands of a batch", "pipeline.go parseCommands / parseCommandsForSingleCommandData"), ("batches queued for the receiver in exactly the order they are written", "sender.go sendToWriter, recvBuffer"), ("split into sibling batches", "builder.go internalIncreaseCount")],
 ["result functions of Pipeline.MGet/MGetFast/MSet/MDel/Version/FlushAll", "commands received and replies sent by the server"])
prop("C02", "Concurrent operations are linearizable against the server",
 "For a server that applies each command atomically, every concurrent history of get, set, compare-and-set, delete and flush operations issued through the client is linearizable per key: each successful operation appears to take effect once at some instant between its being issued and its result being returned. Operations that end in an error may or may not have taken effect, but never take effect more than once.",
 ["schedules", "histories", "fault_sequences"],
 "all concurrent histories over shared keys with any number of connections, with and without connection failures",
 "The only concurrent end-to-end test checks CRCs of values, needs a live server, and never checks recency or CAS outcomes.",
 [M+"pipeline.go", M+"core.go", M+"sender.go", M+"memcache.go"],
 [("results are only released after the reply of their own batch was read", "core.go recvCommands, command.go setCompleted"), ("no retry of a command on another connection", "sender.go writeAndFlush")],
 ["call and return of every operation at the API", "sequential store in the server"])
prop("C03", "A pipeline's commands reach the server in the order issued",
 "The commands of one pipeline are executed by the server in the order in which they were issued, including across batch splits, explicit Execute calls and successive flushes of the same pipeline. All of them travel over a single connection as long as that connection is healthy, and a command issued after an earlier result of the same pipeline was returned is executed after that earlier command.",
 ["schedules", "histories", "configurations"],
 "all pipelines of any length interleaved with any other traffic, for every batch size and write limit",
 "Tests check the order of bytes from the command builder only; the order on the wire depends on two linked lists, two queues and a starvation-avoidance scheduler under concurrency.",
 [M+"input_selector.go", M+"builder.go", M+"send_buffer.go", M+"sender.go"],
 [("a batch's successor is queued only after the batch itself is taken", "input_selector.go getNextCommand"), ("a new flush of a pipeline waits for the previous one", "pipeline.go getCurrentSession")],
 ["arrival order of commands at the server, per connection"])
prop("C04", "No command is lost, duplicated or invented",
 "Every command is delivered to the server at most once, even when connections fail and are replaced in the middle of sending. A command whose result carries no error, or carries an error reply from the server, was delivered exactly once, and the server never receives a command that no caller issued (other than the client's own version probes).",
 ["fault_sequences", "schedules", "histories", "crash_points"],
 "all workloads x a connection failure at any byte of either direction",
 "Tests inject one write error on a mock; they never count deliveries across reconnections.",
 [M+"sender.go", M+"input_selector.go", M+"send_buffer.go", M+"conn.go"],
 [("commands bound to the connection they were taken for; skipped when it already failed", "sender.go sendToWriter/writeAndFlush"), ("lists unlinked as commands are taken", "input_selector.go removeFirst")],
 ["server command log versus operations issued"])
prop("C05", "Requests carry exactly the caller's key, options and value",
 "For every valid key, every option value and every value of any length and content, the bytes sent for a command are one well-formed request with exactly that key, those options and that value, and a bare or zero option sends nothing. The value is captured when the command is issued, so later changes the caller makes to its slice have no effect on what is sent.",
 ["inputs", "configurations", "schedules"],
 "all keys x option values over their full integer range x values of 0 bytes to several MiB x buffer, batch and pool states",
 "Tests encode a few small values; encoding goes through pooled, size-classed buffers and a writer of configurable size, so boundary lengths and buffer reuse matter.",
 [M+"builder.go", M+"command.go", M+"pool.go", M+"netconn/netconn.go"],
 [("request text plus out-of-line value segments", "builder.go addMSet, command.go writeToWriter"), ("size-classed byte pools", "pool.go getByteSlice")],
 ["bytes received by the server, parsed by an independent strict parser"])
prop("C06", "Keys that could break the protocol never reach the server",
 "A key that is empty, longer than 250 bytes, or contains a control, space or non-ASCII byte is refused with an error on its own command, sends no byte, and does not disturb the other commands of its pipeline. Every other key, i.e. 1 to 250 printable non-space ASCII bytes, is accepted.",
 ["inputs"],
 "all byte strings used as a key by get, fast get, set and delete, alone and mixed with valid commands in one pipeline",
 "Tests list a few bad keys per command; the claim is about every byte value at every position and length, including invalid UTF-8.",
 [M+"pipeline.go"],
 [("key validation before a command is added", "pipeline.go validateKeyFormat, MGetFast/MSet/MDel")],
 ["returned errors", "bytes received by the server"])
prop("C07", "Replies decode exactly however the stream is fragmented",
 "Every well-formed reply (hits with any value bytes and length, CAS and stale/won/winner flags, misses, stored / not stored / exists / not found, deleted, version, OK) is decoded to exactly its content. The result does not depend on how the reply stream is cut into network reads, on the receive buffer size, or on how many replies share a read.",
 ["inputs", "schedules", "configurations"],
 "all sequences of well-formed replies x all ways to split the byte stream x all receive buffer sizes",
 "Tests feed hand-picked splits of a few replies; there are exponentially many splits and the fast paths differ from the resumable ones.",
 [M+"reader.go", M+"parser.go", M+"core.go"],
 [("resumable reader state machine", "reader.go recvInLoop"), ("positional parser", "parser.go")],
 ["result functions versus the structured reply the server intended"])
prop("C08", "No server bytes can crash or wedge the client",
 "Whatever bytes a server sends in reply, the client never panics or terminates the process, never spins forever, and never tries to allocate a value larger than memcached's 1 GiB item limit. Every affected operation still returns, with an error whenever its reply is not well-formed enough to be understood.",
 ["inputs", "fault_sequences"],
 "all byte streams from the server, in all fragmentations, in reply to any pipeline",
 "Tests cover a few invalid prefixes; the parser indexes raw bytes and trusts lengths and numbers sent by the peer.",
 [M+"reader.go", M+"parser.go", M+"pool.go", M+"core.go"],
 [("error states of the reader", "reader.go setErrorAndReturn"), ("parser length checks", "parser.go")],
 ["process liveness, completion and error of every operation"])
prop("C09", "A broken reply stream never answers later commands",
 "Bytes received on one connection are never used to answer a command that was sent on another connection, whatever was left over when the first one failed. Once a reply cannot be parsed, no later command of the same batch is reported as successful on the strength of the out-of-step bytes that follow, and the connection is abandoned.",
 ["fault_sequences", "inputs", "histories"],
 "all byte streams that leave surplus or unparsable data x all points at which the connection is replaced x the commands that follow",
 "No test drives traffic after a protocol error across a reconnection with surplus bytes buffered.",
 [M+"core.go", M+"reader.go", M+"pipeline.go", M+"conn.go"],
 [("reader state reset on failure or change of connection", "core.go recvCommands, reader.go reset"), ("connection closed on unparsable reply", "pipeline.go parseCommandsForSingleCommandData")],
 ["results versus replies sent on the connection that carried the command"],
 state=[("buffered unread reply bytes", "bytes read but not yet parsed", "reader.go")])
prop("C10", "Every operation completes under every fault sequence",
 "Every result function, Finish call and health probe returns, whatever the network does: refused or failing dials, connections closed or reset at any byte in either direction, servers that stop reading or stop answering, in any order and with any number of operations in flight. A stalled server is given up after the configured timeouts; no combination of in-flight operations and failures deadlocks the client.",
 ["fault_sequences", "crash_points", "schedules", "configurations"],
 "all fault sequences x number of in-flight operations (including more than every internal queue holds) x all interleavings",
 "Tests cover a single write, flush or read error with a few commands in flight; deadlocks need full queues plus a failure at one instant.",
 [M+"sender.go", M+"core.go", M+"conn.go", M+"input_selector.go", M+"send_buffer.go", M+"netconn/netconn.go"],
 [("read and write deadlines", "netconn.go timeoutReader/timeoutWriter"), ("bounded queue between sender and receiver", "sender.go recvBuffer"), ("failed connection answers all its commands", "core.go readNextMemcacheCommandResponse")],
 ["return of every result function"])
prop("C11", "Service resumes by itself once faults stop",
 "After any sequence of failures, once the server is reachable and behaving again every connection of the pool is re-established by the client alone and operations succeed again, after at most a bounded number of retry intervals and failing operations per connection. An initial connection failure is no exception: creating a client against an unreachable server succeeds, and it works once the server is up.",
 ["fault_sequences", "histories", "crash_points"],
 "all finite fault sequences followed by a healthy server, for every pool size, with and without traffic during the outage",
 "Tests check one reset on a mock; recovery of every pool member after arbitrary failure sequences is never observed.",
 [M+"conn.go", M+"sender.go", M+"memcache.go"],
 [("background reconnection per connection", "conn.go newConn"), ("failure signalled to the reconnector", "sender.go setLastErrorAndCloseUnsafe / waitForError")],
 ["success of operations on each pool member after faults stop", "dials seen by the server"])
prop("C12", "Server-reported errors stay with their own command",
 "A SERVER_ERROR reply is reported as a server error with the server's exact message on the one command it answers; the connection stays in use and every other command keeps its own result. A CLIENT_ERROR reply is reported with its message on its command and never as success, and the connection it came over is replaced.",
 ["inputs", "histories", "schedules"],
 "all placements and texts of error replies among other replies in pipelines of any length, under concurrency",
 "Tests place one too-large set in a short pipeline; they do not mix error replies with other pipelines on the same connection.",
 [M+"parser.go", M+"pipeline.go", M+"errors.go"],
 [("error prefix recognition", "parser.go isErrorPrefix/readError"), ("server errors exempt from closing the connection", "pipeline.go parseCommandsForSingleCommandData")],
 ["errors returned, connections seen by the server"])
prop("C13", "Close drains accepted work, releases everything, and returns",
 "Close always returns, from any number of callers and at any moment; operations flushed before it get their real outcome when the server is healthy, and an operation racing with it either gets its real outcome or is refused with the connection-closed error without having been sent. When Close has returned, every connection of the client is closed and its background goroutines are gone, and closing opens no new connection.",
 ["schedules", "histories", "fault_sequences"],
 "all instants of Close relative to traffic, failures, reconnection and health probes",
 "Tests close idle or nearly idle clients; shutdown hands over between five goroutines and is only wrong in particular interleavings.",
 [M+"memcache.go", M+"conn.go", M+"core.go", M+"sender.go", M+"health.go"],
 [("closed flag in the input queue drained by the sender", "send_buffer.go, input_selector.go"), ("receiver ends when its queue is closed and empty", "core.go recvCommands"), ("reconnector told to stop", "sender.go shutdown/waitForError")],
 ["return of Close, outcomes of racing operations, connections and goroutines left"])
prop("C14", "After Close every operation fails promptly",
 "Once Close has returned, every operation of every pipeline, whether created before or after, of any type and with any number of commands, returns the connection-closed error (key errors excepted) without blocking and without sending anything. Further Close calls are harmless.",
 ["histories", "inputs", "configurations"],
 "all pipelines (any length relative to the batch size) flushed after Close, including ones filled before it",
 "One test covers a single short pipeline after Close; longer ones are split and take another path.",
 [M+"sender.go", M+"pipeline.go", M+"send_buffer.go"],
 [("refused publish completes the command with an error", "sender.go publish")],
 ["results after Close, bytes and dials seen by the server"])
prop("C15", "Unanswered commands never exceed the write limit",
 "On each connection the number of commands sent whose replies have not begun to arrive stays within the configured write limit, as long as no single batch is larger than the limit, give or take the remainder of one batch whose replies have begun. The allowance is never leaked: after any successes and failures the full limit can be used again, and a batch larger than the limit is still sent.",
 ["schedules", "configurations", "histories", "fault_sequences"],
 "all write limits, batch sizes, pipeline sizes, reply timings and failures",
 "Tests exercise the counter alone or a counting stress run on a mock that answers at once.",
 [M+"input_selector.go", M+"core.go"],
 [("write/read counters with a wait", "input_selector.go connWriteLimiter"), ("reads counted per batch, also on failure", "core.go increaseReadCount")],
 ["commands received minus replies begun, at the server, while replies are withheld"])
prop("C16", "Short pipelines are not starved by long ones",
 "A pipeline flushed while much longer pipelines are being sent on the same connection does not wait for them to be sent completely: before its first batch, only an amount of their remaining commands bounded by the write limit and batch size is sent. All long pipelines still complete.",
 ["schedules", "configurations", "histories"],
 "all numbers and sizes of long pipelines, all moments at which short ones are flushed",
 "Tests check the selector's order for fixed lists; the guarantee is about arrival while sending is under way.",
 [M+"input_selector.go", M+"builder.go", M+"send_buffer.go"],
 [("separate list for continuation batches", "input_selector.go longCmdList")],
 ["arrival order at the server relative to the flush of the short pipeline"])
prop("C17", "A returned value is stable and private until released",
 "The bytes of a value returned by a get never change, and its memory is never part of another returned value or of a pending request, until the caller releases it; releasing one value or one result handle never affects any other. Versions, error messages and previously returned responses likewise stay unchanged whatever the client does later.",
 ["histories", "schedules", "inputs"],
 "all interleavings of gets, sets and releases over all value sizes, with failures and abandoned pipelines",
 "Tests check pool functions in isolation; aliasing appears only when buffers are recycled under concurrent traffic.",
 [M+"pool.go", M+"reader.go", M+"command.go", M+"pipeline.go"],
 [("size-classed pools for values and requests", "pool.go"), ("value handed to the caller, slot cleared", "command.go freeCommandResponseData")],
 ["content and address range of live values over time"])
prop("C18", "Concurrent use is free of data races",
 "Any number of goroutines may use one client at the same time, each with its own pipelines, together with Close, reconnections and health probes, without any data race in the client.",
 ["schedules", "fault_sequences"],
 "all interleavings of concurrent pipelines, failures, reconnections, probes and Close",
 "The recorded test runs do not use the race detector, and without a server most concurrent tests do not run at all.",
 [M+"sender.go", M+"core.go", M+"conn.go", M+"pipeline.go", M+"pool.go", M+"health.go", M+"memcache.go"],
 [("locks, condition variables, channels and pools", "throughout memcache/")],
 ["race detector reports"])
prop("C19", "Flushing and result functions follow the pipeline contract",
 "Nothing of a pipeline is sent until one of its result functions, Execute or Finish is called. Execute, Finish and the result function of a command not yet sent send everything issued so far; Execute does not wait for replies, and Finish returns only when all commands are answered. Each result function yields its result on the first call and the already-gotten error on every later call; Execute and Finish may be repeated, in any order and on empty pipelines, and a pipeline can be used again after any of them.",
 ["programs", "histories"],
 "all sequences of API calls on one pipeline",
 "Tests run short fixed call sequences; the contract is about every sequence of issue, Execute, Finish and result calls.",
 [M+"pipeline.go", "README.md"],
 [("session per flush", "pipeline.go getCurrentSession, pushCommandsIfNotPublished, waitAndParseCmdData"), ("read-once flag", "pipeline.go pushAndWaitIfNotRead")],
 ["commands at the server after each API call", "results and errors of each call"])
prop("C20", "Idle connections are probed and repaired without traffic",
 "While the client is idle, every connection of the pool is probed once per health-check round, so a connection that broke while idle is found and replaced without any user operation. Probes never disturb or alter user operations, and failing probes never stop later rounds.",
 ["histories", "fault_sequences", "configurations"],
 "all pool sizes, all sequences of breakages, all mixes of idle and active rounds",
 "Tests drive the round function with fake counters; they never let it find and repair broken connections.",
 [M+"health.go", M+"memcache.go", M+"conn.go"],
 [("sequence-based selection of connections without recent use", "health.go runSingleLoop")],
 ["version commands per connection at the server, dials after breakage"])
prop("C21", "Pipelines are spread evenly and each sticks to one connection",
 "A client opens exactly the requested number of connections (a non-positive number is refused), and successive pipelines take the connections in rotation, so that without health probes any run of N pipelines, created and used from any goroutines, uses each of M connections either floor(N/M) or ceil(N/M) times. A pipeline that is used for several flushes stays on its connection.",
 ["schedules", "configurations", "histories"],
 "all numbers of connections, pipelines and goroutines",
 "Tests do not observe which connection a pipeline uses.",
 [M+"memcache.go", M+"pipeline.go"],
 [("atomic rotation counter", "memcache.go getNextConn"), ("connection chosen at first use and kept", "pipeline.go newPipelineSession")],
 ["commands per connection at the server"])
prop("C22", "No command precedes successful authentication",
 "With password authentication configured, the first bytes on every connection, including every reconnection, are the authentication request with exactly the configured credentials, and no other command is sent on that connection until the server has accepted them. If the server refuses, answers with anything else, closes or stalls, the attempt fails with an error within the dial timeout, its socket is closed, and the client keeps retrying like after any failed dial.",
 ["fault_sequences", "inputs", "crash_points"],
 "all credentials, fragmentations of the server's answer, refusals, stalls and cuts at any byte of the handshake",
 "Tests need a live authenticating server and only try right and wrong credentials once.",
 [M+"netconn/auth.go", M+"netconn/netconn.go", M+"conn.go"],
 [("handshake inside the dial function", "auth.go GetDialFunc")],
 ["bytes received by the server per connection, error passed to the dial error logger"])
prop("C23", "Failed and replaced connections never leak sockets",
 "At every quiet moment the client holds at most one open connection per pool slot: a connection that failed is closed, a connection attempt that fails after the socket was opened closes that socket, and a connection established while the client is shutting down is closed.",
 ["fault_sequences", "histories", "schedules", "configurations"],
 "all sequences of failures at every stage of connecting, authenticating, use and shutdown",
 "Tests check one mock closer; they do not count sockets over failure histories.",
 [M+"conn.go", M+"sender.go", M+"netconn/netconn.go", M+"netconn/auth.go"],
 [("close on first error", "sender.go setLastErrorAndCloseUnsafe"), ("close when already shut down", "sender.go resetNetConn")],
 ["open connections as seen at the dial function and at the server"])
prop("C24", "Statistics are decoded exactly",
 "The general, slab and slab-item statistics calls return exactly the numbers the server reported for each known field, over each field's whole range, list each reported slab class once in order of first appearance, and ignore unknown fields, whatever the order of lines and the fragmentation of the stream. A reply that is malformed or cut off before its end marker yields an error, never silently wrong or partial numbers.",
 ["inputs", "fault_sequences"],
 "all statistics replies, orders, values, fragmentations and truncations",
 "Tests compare against one live server's output or a fixed text.",
 [M+"stats/stats.go", M+"stats/parser.go"],
 [("line scanner and per-field parse", "stats/parser.go next, stats.go parseSlabStat/parseSlabItemStat")],
 ["returned structures versus the reply sent"])
prop("C25", "A failed statistics call does not corrupt the next one",
 "On one statistics client, every call that returns without error returns data from the reply to its own request, also after earlier calls failed on a malformed value or line; it never returns the rest of an earlier reply as its own.",
 ["histories", "inputs", "fault_sequences"],
 "all sequences of statistics and dump calls with malformed content at any line of any reply",
 "No test makes a second call after a failed one.",
 [M+"stats/stats.go", M+"stats/parser.go"],
 [("each reply is consumed up to its end marker", "stats.go Get*Stats, MetaDumpAll")],
 ["per-request marker values in returned data"])
prop("C26", "A key dump is complete and exact, or an error",
 "A dump of all keys calls the callback once for every key line the server sent, in order, with exactly the server's key (undoing its percent-encoding for arbitrary key bytes) and metadata. It returns nil only if the server's end marker was reached; a malformed line, an error line, a failure or a connection closed early is reported as an error.",
 ["inputs", "fault_sequences", "crash_points"],
 "all key byte strings and metadata values, all fragmentations, a cut at any byte of the dump",
 "Tests dump a few plain keys from a live server.",
 [M+"stats/stats.go"],
 [("line parsing", "stats.go parseMetaDumpKey, MetaDumpAll")],
 ["callback invocations and returned error versus lines sent"])
prop("C27", "Flushed commands are coalesced into few network writes",
 "The commands of a flushed pipeline that fit one batch and the send buffer leave in a single network write. Pipelines flushed by different callers while the connection is busy writing are combined, so that they leave together in far fewer writes than pipelines, subject only to the write limit, queue capacity and buffer size.",
 ["schedules", "configurations", "inputs"],
 "all pipeline sizes up to a batch and the buffer size; all numbers of pipelines queued behind a busy write",
 "No test counts network writes.",
 [M+"sender.go", M+"command.go", M+"send_buffer.go", M+"netconn/netconn.go"],
 [("one flush per round of queued batches", "sender.go sendToWriter/writeAndFlush"), ("take all queued batches at once", "send_buffer.go popAll")],
 ["write calls on the network connection"])
prop("C28", "Configured I/O timeouts guard every read and write",
 "Every network read and write the client performs while operations are pending is guarded by a fresh deadline of the configured read or write timeout, so a stalled peer fails the pending operations with a timeout error and costs the connection. Time spent idle never counts: an operation after any idle period gets the full timeout, and an idle connection is not dropped.",
 ["schedules", "configurations", "fault_sequences"],
 "all timeout settings, stall points in either direction, and idle periods longer than the timeouts",
 "No test stalls a server or idles past a timeout.",
 [M+"netconn/netconn.go", M+"options.go", M+"core.go", M+"sender.go"],
 [("deadline set before each read and write", "netconn.go timeoutReader.Read, timeoutWriter.Write")],
 ["deadlines set at the connection, errors returned after a stall"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
