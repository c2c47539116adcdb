"""What each check runs and how its evidence is to be read (used by check.py and tools/mkmanifest.py)."""

ASSUMPTIONS = [
    "The Go 1.27.3 toolchain, testing/synctest (virtual time) and the simulated network in /verif/harness behave as documented; the code under test, gorilla/websocket, net/http and encoding/* run unmodified.",
    "Schedules are sampled (random latencies, chunking, yields and timing), not enumerated.",
]

META = {}


def add(prop, rule, technique, note, **kw):
    META[prop] = dict(rule=rule, technique=technique, note=note, **kw)


add("C01", "Random concurrent Send workloads from either end over one or many connections with tagged requests, random reply order, duplicates and ID collisions; an execution is non-trivial when at least two requests were outstanding at once, and is distinguished by direction, number outstanding, reply permutation and fault mix.",
    "runtime monitoring: tagged requests, offline checker of the recorded wire trace against Send results",
    "Every Send result and every frame of the sampled executions is checked for correlation; trusts the wire parser of the harness.")
add("C02", "Random reply delays around the 60 s timeout (virtual time), losses, late, duplicate, unsolicited, unknown-ID and malformed replies and connection losses at random points, followed by liveness probes; distinguished by fault kind, role, and when in the request's life it struck.",
    "runtime monitoring in virtual time: deadline monitor on every Send, liveness probes",
    "Deadlines are exact in virtual time; bounded by the sampled fault histories.")
add("C03", "Random pipelines of valid, unknown, wrong-direction and ill-formed CALLs with random handler outcomes and delays to both roles; distinguished by the sequence of CALL classes, role and outcome.",
    "runtime monitoring: exactly-once/order/answer checker over handler log and wire trace",
    "Every CALL and answer of the sampled executions is matched by an offline checker.")
add("C04", "Random and structured hostile frames (malformed JSON, wrong shapes, binary, fragments, control frames, protocol errors) interleaved with valid traffic; distinguished by role and hostile frame class.",
    "runtime monitoring: crash watch, log of recovered panics, probe requests after every hostile burst",
    "A crash of the process or of an HTTP goroutine, or an unanswered probe, is a violation.")
add("C05", "Every message of both directions, every property path and mutation class of its schema, applied to generated valid payloads; each (message, path, mutation) counts once.",
    "runtime monitoring: handler-invocation and Send-result monitor under schema-directed mutation",
    "The oracle is the pinned copy of the OCPP 1.6 schemas.")
add("C06", "Generated values for every message of both directions, exchanged library-to-library and against a scripted peer with unusual but equivalent JSON; each (message, set of optional fields set, value class) counts once.",
    "runtime monitoring: differential oracle between values sent, JSON on the wire and values received",
    "Equality of values is decided field by field by reflection, independently of the library's codecs.")
add("C07", "Schema-valid generated values for every message of both directions; each (message, set of optional fields set) counts once.",
    "runtime monitoring: JSON-schema validator on every emitted payload",
    "The oracle is the pinned copy of the OCPP 1.6 schemas and a validator for the subset they use.")
add("C21", "Random sequences of handler outcomes (errors with any text, unencodable, nil and foreign responses, long work) in both roles and transports; distinguished by outcome, role, transport and position.",
    "runtime monitoring: one-answer checker over the wire trace, probes after every outcome",
    "Every outcome's answer is matched; bounded by the sampled sequences.")
add("C22", "Random request mixes with large and odd values under concurrent senders; every frame of both directions is parsed; distinguished by frame type, direction, size class and concurrency.",
    "runtime monitoring: byte-level WebSocket and OCPP-J grammar checker on a wire tap",
    "Every byte the library wrote in the sampled executions is parsed.")
add("C09", "Random histories of connects, overlapping connects, six ways of ending a connection, blocked handlers, failed upgrades and bursts for up to four identities (raw peers and real charge points), compared with a model at every quiescent moment; each distinct history counts once.",
    "runtime monitoring: model-based history checker (registry, reachability, wait channels, status page)",
    "The model is exact at quiescent moments (virtual time); histories are sampled.")
add("C10", "The histories of C09 with listeners that return at once, block or sleep, or use the service, replaced at times; calls are counted against the connections made and ended; each distinct history counts once.",
    "runtime monitoring: exactly-once checker of listener calls against the connection history",
    "Counts are compared at every quiescent moment of the sampled histories.")
add("C16", "Generated values for every OCPP 1.5 message of both directions, sent by real charge points and the real central system to each other over a simulated network with random latencies and chunking, one at a time and up to tens at once; each (message, set of optional fields set) and each concurrent mix counts once.",
    "runtime monitoring: differential oracle between the values sent, the values handled and the values returned",
    "Equality of values is decided field by field by reflection, independently of the library's codecs.")
add("C17", "46 kinds of failing replies and transport faults against the real callers, 29 kinds of malformed or misdirected requests against the real servers, and random handler errors end to end, all followed by a valid exchange; distinguished by kind, role, message and XML spelling.",
    "runtime monitoring in virtual time: result and deadline monitor on every Send, handler-invocation monitor, Fault checker on the wire",
    "Deadlines are exact in virtual time; bounded by the sampled kinds of failure.")
add("C18", "Generated values for every OCPP 1.5 message of both directions, with every envelope taken from the wire and checked, and the same messages spelled in random equivalent XML (prefixes, namespaces, attributes, whitespace, CDATA, character references, comments, encodings) for the library to read; each (message, fields set, spelling) counts once.",
    "runtime monitoring: HTTP, SOAP and WSDL validator on every envelope on the wire, differential oracle for inbound spellings",
    "The oracle is the pinned copy of the OCPP 1.5 WSDLs, a validator for the subset of XML Schema they use, and an independent XML tree comparison.")
add("C11", "Up to six charge points at once with identities drawn from a pool of awkward ones (spaces, slashes, dots, percent signs, query characters, Unicode, arbitrary bytes, long), as real charge points on both transports, scripted ones and scripted SOAP callers, identities repeated at times, before and after reconnections; each (kinds, identities) counts once.",
    "runtime monitoring: handler metadata compared with the identity, the Sec-WebSocket-Key and the remote address of the connection that carried each tagged request",
    "The oracle reads the identity from the workload and the connection from the network tap.")
add("C15", "One to four offenders drawn from 16 misbehaviours next to well-behaved charge points on both transports, whose requests, Sends in both directions, connects and status-page requests are timed in virtual time; distinguished by the set of offenders, latency and blocked listeners.",
    "runtime monitoring in virtual time: latency and failure monitor on every operation of the well-behaved peers, watchdog for operations that never end",
    "Delays are exact in virtual time. At most one writer to a peer that does not read is blocked at a time, because virtual time cannot pass while a goroutine waits for a mutex.")
add("C19", "Random lists of offered subprotocols spread over up to three header lines with odd spacing and case against the real central system; real charge points of both versions against scripted central systems that select in four styles, over reconnections; each offered list counts once.",
    "runtime monitoring: handshake monitor on the wire, followed by probe requests",
    "Every handshake on the wire of the sampled executions is checked.")
add("C20", "Random histories of starting up to five central systems, stopping them, running one on a port in use, connecting and disconnecting charge points with shared identities, SOAP charge points on their own and on used ports, in a program with its own HTTP handlers; all instances are compared with a model after every step; each history counts once.",
    "runtime monitoring: model-based history checker over all instances and the program's own handlers",
    "The model is exact at quiescent moments (virtual time); histories are sampled.")
add("C23", "27 kinds of plain HTTP, malformed, aborted (cut at any byte) and abandoned upgrades with and without the identity of a connected charge point, each followed by checks of registry, listeners, handler, status page and live traffic; 24 kinds of failing first dials; distinguished by the sequence of kinds and cut points.",
    "runtime monitoring in virtual time: registry, listener and handler monitors, goroutine and dial monitors after failed constructors",
    "Listeners may be called in balanced pairs when the server completed the handshake and the answer was lost.")
add("C12", "Random sequences of up to four losses (reset, close, close frame, cut or bad frame, cut while writing, local close) of a charge point's connection to the real or a scripted central system, each followed by an outage of one of fourteen kinds (refused, no listener, HTTP errors, accepted and closed, upgraded and closed, interrupted or hanging handshake, hanging dial, mixtures) of seconds to twenty minutes, with Sends pending; each sequence counts once.",
    "runtime monitoring in virtual time: dial-interval monitor, wait-channel monitor, probes in both directions after every recovery",
    "Dial times are exact in virtual time; bounded by the sampled fault sequences.")
add("C13", "Cancellations at random nanoseconds in nine states of a JSON charge point (connected, half-open, retrying, hanging dial or handshake, just lost, peer not reading) with Sends, queued requests and handlers in progress, and of SOAP charge points with finished and unfinished requests; each (state, load, network) counts once.",
    "runtime monitoring in virtual time: dial, accept, handler and Send monitors after cancellation, goroutine dump",
    "Bounded by the sampled cancellation points.")
add("C14", "38 kinds of finished work (requests in both directions with every outcome, connections of every ending, rejected handshakes, SOAP calls of every outcome, reconnects, failing dials, starts and stops), each repeated hundreds to thousands of times in three windows of random size; each (kind, window) counts once.",
    "runtime monitoring: goroutine dump and live heap compared between windows of work at quiescence",
    "Growth below 48 bytes per operation, or below 48 KB in a window, is not told from noise.")
add("C08", "Up to 23 goroutines at once making random API calls (16 kinds, randomly weighted) against a central system with up to four JSON and two SOAP charge points under disconnects and outages, in virtual time with coinciding events and in real time, with and without the race detector; each (mode, goroutines, identities, kinds) counts once.",
    "Go race detector, crash and deadlock monitors under a randomized stress workload",
    "The race detector judges the happens-before relation of the executions observed. The harness shares no lock or atomic between the goroutines that call the API.",
    race=True, race_shards=8, assumptions=["Races between accesses that no sampled execution made unordered are not seen."])
