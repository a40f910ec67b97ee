_common = " Executions and schedules are sampled (statement-level perturbation, race-build and plain-build, varied GOMAXPROCS and configurations), not enumerated; trusts the harness's stand-in server and its in-memory connections."
X, F = "exploration", "fault_enumeration"
CHECKS = {
 "C01": ("runtime monitor: online result oracle (key-encoded replies) over perturbed concurrent workloads", X, "Every result of every operation is compared with the reply its own key prescribes." + _common),
 "C02": ("runtime monitor: offline linearizability checking (porcupine) of recorded concurrent histories", X, "Histories of get/set/cas/delete/flush on few keys against an atomic store are checked per key, with and without connection faults." + _common),
 "C03": ("runtime monitor: offline order checker over the arrival log", X, "The arrival order of every pipeline's commands is compared with the issue order, and their connection is compared." + _common),
 "C04": ("runtime monitor: exactly-once checker over the arrival log, with byte-exact cut enumeration", F, "Connections are cut at every byte offset of a scripted session in both directions, plus random fault traffic; arrivals are matched one-to-one with issued operations." + _common),
 "C05": ("runtime monitor: strict independent request parser, compared with what was issued", X, "Every request received is parsed by an independent strict parser and compared field by field; caller slices are overwritten after issuing." + _common),
 "C06": ("runtime monitor: arrival log and result oracle for refused and accepted keys", X, "All byte values at varied positions and lengths, all lengths 0..700, embedded between valid neighbours whose results are checked." + _common),
 "C07": ("runtime monitor: decode oracle over enumerated and random stream fragmentations", X, "All two-way splits and byte-by-byte delivery of scripted reply streams, random fragmentation, receive buffers from 1 byte." + _common),
 "C08": ("runtime monitor: crash, hang and allocation monitor under grammar-mutated replies", X, "Processes are watched for panics, spinning, and oversized allocation while every command type is answered with mutated bytes." + _common),
 "C09": ("runtime monitor: recognisable surplus bytes under enumerated cuts", F, "Plausible surplus replies and cuts at every offset; any use of a surplus byte is recognised by its value." + _common),
 "C10": ("runtime monitor: progress watchdog over a catalogue of faults", F, "Fault kinds x byte positions x concurrency; a call that does not return while no further event can happen is a hang." + _common),
 "C11": ("runtime monitor: recovery monitor after fault bursts", X, "After faults stop every pool slot must answer again within a bounded number of failing operations." + _common),
 "C12": ("runtime monitor: result oracle with dense error replies, connection log", X, "Each error reply carries its own message; results, connection identity and replacement are compared." + _common),
 "C13": ("runtime monitor: close monitor (sockets, goroutines, dials, outcomes vs arrivals)", X, "Close at random moments from several callers, during dials, probes, retries and traffic." + _common),
 "C14": ("runtime monitor: result and arrival oracle after Close", X, "Operations of every type and batch count on old and new pipelines after Close." + _common),
 "C15": ("runtime monitor: online bound on unanswered commands per connection", X, "A server that withholds replies counts received minus replied at every instant; the full limit must be reachable after faults." + _common),
 "C16": ("runtime monitor: bypass count between flush and arrival", X, "Long-pipeline commands received between the flush of a short pipeline and its arrival are counted against the bound." + _common),
 "C17": ("runtime monitor: value ownership (address ranges, content re-checks, poisoned releases)", X, "Live values must not overlap, and keep their bytes until released; released buffers are overwritten." + _common),
 "C18": ("sanitizer: Go race detector over all workload families", X, "The race detector decides; the harness adds no synchronisation of its own in the dedicated workloads." + _common),
 "C19": ("runtime monitor: contract monitor over one logical clock (flush, arrival, reply, return)", X, "Scripted pipelines against gated replies and random programs; each flush and return is ordered against arrivals and replies." + _common),
 "C20": ("runtime monitor: probe counts per connection and round, repair without traffic", X, "Pool sizes 1-8, connections killed while idle, probes racing with traffic." + _common),
 "C21": ("runtime monitor: connection of every pipeline from the arrival log", X, "Rotation counts for runs of pipelines created and used from several goroutines, pool sizes 1-64." + _common),
 "C22": ("runtime monitor: session-prefix monitor with authentication faults", X, "Every session's first bytes; refusals, garbage, cuts and stalls at every position of the authentication exchange." + _common),
 "C23": ("runtime monitor: socket conservation at quiet moments", X, "Open client-side connections are counted at quiet moments under dial, setup and traffic faults, and after Close." + _common),
 "C24": ("runtime monitor: decode oracle for generated statistics replies", X, "Random values over each field's range, order, fragmentation, malformed and truncated replies." + _common),
 "C25": ("runtime monitor: request-identifying statistics replies after failures", X, "Failing calls of every method followed by good ones; each reply identifies its request." + _common),
 "C26": ("runtime monitor: callback log compared with the served key list", X, "Arbitrary key bytes, malformed lines, truncation at every byte." + _common),
 "C27": ("runtime monitor: network write counts", X, "One pipeline against a fresh connection; pipelines flushed while the writer is blocked." + _common),
 "C28": ("runtime monitor: deadline in force at every network call, virtual stalls", X, "Every read and write made while operations are pending is checked for a fresh deadline of the configured length; stalls and idle periods." + _common),
 "C29": ("runtime monitor: online monitor of every dial (target, count, distance) and of the error log", X, "Each dial is judged when it begins against the connections open, the dials in progress and the failures before; real retry intervals of 1-25 ms." + _common),
 "C30": ("runtime monitor: result oracle on healthy connections beside held, broken or unreachable ones", X, "Eleven kinds of sickness on random subsets of connections with many stuck callers; several clients in one process." + _common),
 "C31": ("runtime monitor: reachable heap, object and goroutine counts over rounds of history", X, "Fifteen kinds of history, thousands of pipelines per round; the level after warming up is compared with the level after further rounds." + _common),
 "C32": ("runtime monitor: processor time and wake-ups in waiting states, operation times next to a plain exchange", X, "Seventeen waiting states measured over windows of 60 ms; thousands of operations of fourteen kinds timed in attempts, the best of which counts." + _common),
}
NOT_CLAIMED = {}
