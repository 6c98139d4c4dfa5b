T = "abstract interpretation of SSA with value numbering: "
B = "Decided on /repo's current source by fixpoint dataflow over every entry point, all calls inlined, all paths; trusted: go/ssa, the library-call models in checker/models.go, and that other goroutines change only data of the kinds the lock rules cover. "
CLAIMS = {
 "C01": (T + "lock sets at every access to guarded fields", B + "Lock and object identity is by value number, so two names of one object may be told apart (reported, not missed)."),
 "C03": (T + "ownership of the stored value and check-then-insert in one lock epoch", B + "A list or map value is identified with the field and lock epoch it was read in."),
 "C05": (T + "types' layouts against Kafka's; symbolic contents of what the reflective decoder reads and the encoder writes, one field and one list element at a time, by induction over their loops", B + "The layouts of Kafka's protocol are a table written from its definition; signed 64-bit arithmetic is taken as unbounded and encoded strings as shorter than 32768 bytes."),
 "C07": (T + "the decoder analysed for every decoded type: successes only with received bytes of their own, failures propagated to an error without effects, leftover bytes found before a response", B + "A buffered reader over a byte slice gives its bytes in order and reports an error for a peek past its end."),
 "C08": (T + "sizes of all allocations and progress of all loops while receiving and decoding, against the received bytes", B + "Library calls are taken to allocate in proportion to their arguments' existing data only."),
 "C23": (T + "conditions of every dereference, index, slice, conversion and reflective operation discharged on every path; causes of every error and panic", B + "Signed 64-bit arithmetic is taken as unbounded (narrower widths wrap) and encoded strings as shorter than 32768 bytes."),
 "C06": (T + "dispatch table and advertised ranges from an exact evaluation of the initialisation, request/response layouts of each entry", B + "The initialisation code is evaluated exactly with all globals starting at zero; layouts are compared with a table of the protocol's layouts."),
 "C02": (T + "lock balance on every path, lock order graph, blocking effects under locks", B + "Waits are recognised by the called library function; unknown calls under a lock are reported."),
 "C10": (T + "pairing of response entries with their partition across loops, path counting of appended messages, cursor recurrences", B + "Loops are decided by induction over their iterations; a list's elements are identified by the place they are appended or stored at."),
 "C11": (T + "progress and exit conditions of every wait loop on all its paths, with loop-carried flags kept apart", B + "Real time is not modelled: the clock is an increasing unknown."),
 "C12": (T + "guarded compare-and-store in one critical section, provenance of keys and values of every committed-offset access", B + "A stored value is identified with the field, key and lock epoch it was read in."),
 "C13": (T + "provenance of the answered offsets in one lock epoch, per sentinel", B + "Only the two sentinels; searching by time is N02."),
 "C14": (T + "correlation of error codes with lookup outcomes on every path, effect analysis for store writes", B + "A lookup's outcome is the nil-ness or presence found on the path."),
 "C15": (T + "one append per iteration of each loop over the request, provenance of names and indexes", B + "Loops are decided by induction over their iterations."),
 "C19": (T + "provenance of broker, controller, leader, replica and partition values", B + "Broker identity is by node id constant and listening port value."),
 "C20": (T + "one append per map iteration, provenance of names and numbers in one lock epoch", B + "The enumeration of a map is taken as complete when its range loop is left only at its end."),
 "C21": (T + "symbolic sizes of encoded messages, running sums over loops, extent and order of the checksummed bytes", B + "Signed 64-bit arithmetic is taken as unbounded; narrower widths wrap."),
 "C04": (T + "path counting of handler runs and writes per request, symbolic contents of the bytes written, control dependence of the response on the handler's outcome", B + "A connection write is taken to write all of its bytes or fail; the bytes of a value's encoding are C05's."),
 "C09": (T + "symbolic stream of buffered bytes carried round the loop, bounds entailed by the path where a request is taken", B + "A read gives bytes or an error, not both; signed 64-bit arithmetic is taken as unbounded, narrower widths wrap."),
 "C16": (T + "wait group accounting of every goroutine on every path, happens-before of the discharge, order of the stop sequence", B + "Life-cycle calls come from one controlling goroutine; a panic that ends the process is not an end of the handler."),
 "C17": (T + "typestate of accepted connections, duplicated descriptors and the listener on every path", B + "Descriptors are identified by the call that opened them."),
 "C18": (T + "signal checks, deadlines and exits on every path round every loop", B + "Blocking calls are recognised by the called library function; real time is not modelled."),
 "C22": (T + "effects on package variables, ownership of what a mock's store and tables are made of", B + "A package variable is one whose memory is reached from a variable of the package; library calls given such memory are taken to write it unless listed as read-only."),
 "C24": (T + "pairing of the client list's insertion and removal with the connection's goroutine, monotonicity of the entry numbers", B + "Counters are taken not to wrap."),
 "C25": (T + "inductive invariant of the loop that searches the records (what lies behind its cursor has been compared), at its entry, rounds and ends", B + "A loop that walks the records from either end by steps of one is decided; any other way to search is reported as undecided."),
 "C26": (T + "constant propagation into every field of the group answers, on every path", B + "Only the answers; what a client makes of them is N04."),
 "C27": (T + "for each round over the given names, the store entry found or made on every path; provenance of all keys entered in the store", B + "That entries are never removed is C03."),
 "C28": (T + "all nil, bound, type-assertion and nil-map obligations of every exported method, and the fields holding functions against every constructor and start", B + "Arguments the caller goes on to change during the call, and memory exhaustion, are outside it."),
 "C29": (T + "for every return of a restart, the wait between the start of the accepting goroutine and a signal which that goroutine gives only while it listens; provenance of the lane, the port and the store over the whole life", B + "That the old server has ended first is C16 and C18; that the operating system gives the port again at once is trusted."),
 "C30": (T + "for every path from a failed read or write of a connection to a panic, the tests of the error passed on the way", B + "Which system errors a departed peer causes (end of stream, ECONNRESET, EPIPE, expired deadline) is a table from the operating system's definition."),
 "C31": (T + "all blocking events on every path of every connection's goroutine, of the accepting goroutine and of the posting calls, and what each waits on", B + "Locks are taken to be held briefly: that nobody holds one over a wait is C02. Fairness of the scheduler is trusted.")
}
NA = {
 "N01": "value-level inverse of two loops of arithmetic (zig-zag and base-128 varints): needs a solver or execution over all values; the static analysis here decides layout (C05), not arithmetic identities",
 "N03": "real time: elapsed durations depend on the clock and the scheduler, which the source does not determine",
 "N04": "an end-to-end protocol run of a consumer group over a history of connections; only its per-request parts (C10, C12, C13, C20) are decidable from the source",
 "N05": "does not hold by design: the handler goroutine panics deliberately on a malformed or unsupported request, so there is nothing to decide",
}
