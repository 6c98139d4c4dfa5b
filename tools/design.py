PRE = """
# Deciding kafka-mock-go's guarantees by static analysis

## What is built

`checker/` is one program (Go, golang.org/x/tools/go/packages and go/ssa from
the module cache). `check.sh ID` runs it for one property. On every run it
loads /repo's current source, type-checks it, builds SSA, analyses it, prints
what was found, and writes `evidence/ID.json`. It executes nothing of /repo,
and uses no solver.

Exit 0 means: every obligation of every rule of the property was shown. Exit 1
with a VIOLATION line means: at least one was not shown, or the source could
not be loaded, an anchor the rules start from (a type, a field, the handler
table, an entry point) is gone, a rule has fewer instances than it must have,
or the analysis gave up. What is undecided is never passed. `replay=` names a
text file with the rule, function, line and, where there is one, the path
(sequence of events) or the term that does not fit.

### The analysis

An abstract interpreter over SSA (`engine.go`, `models.go`, `state.go`,
`term.go`). An entry point (an exported method, a goroutine body, a request
handler of the API table, the decoder or encoder for one wire type) is
interpreted with all calls inlined: static calls, closures, function values
and interface calls whose target is known from the value. Generic functions
are analysed per instance; reflective code (`reflectm.go`) is interpreted for
each concrete type that reaches it, so that the decoder becomes, per request
type, a fixed sequence of reads.

- Values are hash-consed terms (value numbering): two places hold the same
  value if they hold the same term. A read from memory another goroutine may
  write is a new term, versioned by the lock's critical section it is read in:
  two reads in one critical section give the same term, two reads in different
  ones do not.
- A state holds: the lock set; known cells of memory (with strong updates
  where the address is one object, and invalidation where it may be another);
  nil-ness, equalities, booleans, and linear inequalities over terms (an
  inequality is entailed by a combination of at most three facts).
- Paths are kept apart unless their states agree; there is no merging of
  different facts except at loop heads.
- A loop is taken to a fixpoint: cells that change from round to round become
  loop variables, whose initial values and per-round next values are recorded.
  Facts about loop variables are guessed from the first rounds and dropped
  until they are inductive. A rule about a loop is then a rule about its
  entry, about each of its rounds, and about its ends: induction.
- Arithmetic in integer types narrower than 64 bits is taken modulo their
  width unless the facts bound it; 64-bit signed arithmetic is taken as
  unbounded (a list of 2^63 elements does not exist).
- Buffered readers and byte buffers have symbolic contents: a concatenation
  of pieces with symbolic lengths. Reading n bytes at an offset gives a term
  for exactly those bytes (`rd:w(stream, offset)`).
- Library calls are modelled by name in `models.go`. A call that is not
  modelled is treated as able to do anything to what it is given; a rule that
  depends on what it does reports it.

What it observes is a list of events per path (load, store, append, map
access, lock, unlock, go, call, decode, encode, write, panic, return ...),
each with the state it happened in. The rules (`c_*.go`) are about those
events and terms, never about names of local variables, source text or the
order of independent statements. That is why helpers extracted, statements
reordered, conditions inverted and loops rewritten leave them quiet: the
terms come out the same.

### What is trusted

- go/packages, go/ssa, and the models of library calls.
- Life-cycle calls (Start, RequestStop, WaitForTermination, Restart,
  FinishRequests) come from one controlling goroutine; posts, topic creation
  and offset sets from any.
- Kafka's message layouts are a table in the checker, written from the
  protocol definition.
- A panic that leaves a goroutine ends the process.
- Strings and byte strings to be encoded with a 16-bit length are shorter than
  32768 bytes; signed 64-bit arithmetic does not overflow.
- The two branches of a map range are covered by taking the element as any
  element (and, for the tables evaluated exactly in C06, by both orders).

### Cost

3 to 30 s per check, one process, under 2 GB; all of them take about a minute
on 4 cores. The thorough command is the same as the quick one: the analysis
has no bounds that more time would raise.

### Keeping the checker honest

- `tools/selftest.py` with `tools/cases/*.py`: over 500 small edits of /repo
  in scratch copies, each marked as one that must be reported (and by which
  property) or one that keeps the behaviour (a helper extracted, a loop
  rewritten, statements reordered, a lock wrapper, a named result) and must
  leave all checks quiet. It is run after each change of the checker.
- `checker/refactor` with `tools/refactor.py`: over 50 kinds of mechanical
  behaviour-preserving rewriting (ranges to index loops, inverted and split
  conditions, early exits, if/switch, conditions, right sides, bodies, loops and
  statements extracted into helpers, functions wrapped, bodies in closures,
  arguments and receivers hoisted, literals taken apart, comparisons turned
  round, every unexported name changed), each applied to the whole package at
  once (up to 700 places), and some of them in pairs. Every check is quiet on all
  of them, except where the rewriting is not neutral: an unlock moved from a
  defer to the end is lost when Start panics (C02), and the encoder compares a
  type's name with a string.
- `tools/mutate.go`: single-operator mutants of every source line; those that
  survived were read, and each that breaks a property led to a stronger rule.
- `seeded/`: changes with demonstrations, written from the properties' texts
  (`tools/mkseed.py`, `tools/seeds/`), each confirmed to build, pass the
  stable tests, and fail its demonstration. `tools/seedcheck.py` runs the
  checks against them.
"""

HOW = {
"C01": """Every entry point is analysed, and every load, store, map access, append and
range whose memory belongs to a field of the store's types or to the client
list is an obligation on the lock set at that event. Fields never written after
construction are found, not listed. Objects not yet visible to another
goroutine (made on this path, not stored anywhere shared) are exempt.""",
"C02": """The lock set at every return, unwinding panic, loop end and blocking call; the
acquired-while-holding relation over all entry points, by the kind of lock
(owner type and field), must have no cycle. All interleavings are covered
because a deadlock of ordered, balanced locks needs a cycle.""",
"C03": """All entry points are searched for stores to a partition's records. A post's
path must hold exactly one, whose value is an append of one element to the
list read in the same critical section; the element's fields are traced to the
parameters through a copy. All other writes to the store's lists, elements,
record bytes and maps are violations, or checked insertions.""",
"C04": """The goroutine of a connection is analysed with dispatching inlined and the
handler as an unknown call with each of its outcomes. On every path, the bytes
written between the handler's return and the next look at the input are
compared with the frame the protocol defines, piece by piece.""",
"C05": """For each request, response, header and assignment type of the API table: the
Go type against the protocol's layout, then the decoder run on a symbolic
stream and the encoder on a symbolic value of that type. Each field's term must
be the read of exactly the bytes at the field's symbolic offset. Loops over
arrays are decided for one element and the step to the next.""",
"C06": """The initialisation is evaluated exactly, as constants, in both orders of every
map range; the handler of ApiVersions is then evaluated on the table that
results. The dispatcher's lookup key is compared with the table's.""",
"C07": """The decoder's success and failure paths for each request type, with the bytes
received a symbolic length: success must entail that the end is within it.
Then handlers and the dispatcher: what follows a failure, and what precedes a
response.""",
"C08": """Every allocation (make, append growth, string and byte copies, reader sizes)
and every loop between a read and the handler, with its size as a term: bounded
by a constant (at most 1024), or entailed to be at most the received bytes.""",
"C09": """The buffered input is a symbolic stream carried round the connection's loop.
The request taken must be the slice [4, 4+n) of it with n read from its first
four bytes and 4+n entailed to be at most its length; what is carried to the
next round must be the rest followed by what was read. Sizes are followed at
the widths they are computed in.""",
"C10": """The handler's loops are analysed into a model: the objects made for each
requested partition, which object each response entry is taken from, and what
is added to its set. The pairing of the two loops is decided by induction (the
nth entry of the answer is the nth object), the cursor by its recurrence.""",
"C11": """Each loop of the handler is either a walk over a fixed range or a waiting loop;
of a waiting loop every round and every end must have one of the listed
reasons, with flags carried round loops kept apart by their values.""",
"C12": """Every access to a partition's committed offsets is an event with its key,
value and critical section. A commit must be a compare and store in one of
them, in the partition looked up under the entry's own topic and number, and
for the request's group.""",
"C13": """The handler's answers by path: under the facts of the two sentinels, the
offset's term must be the length of the found partition's records, or 0.""",
"C14": """For each answered entry the lookups on its path, their keys and outcomes, and
the error code's term must agree; and no handler has a store-creating effect.""",
"C15": """The response's lists are followed to the loops that append to them: one append
per round on every path, the source a range over the request's list, the name
or number that of the round's element.""",
"C16": """Counts of wait groups are followed per path, and per way each goroutine can
end. The stop sequence's events must be in order on every path.""",
"C17": """Typestate: opened, handed over, closed, on every path of every goroutine.""",
"C18": """Each loop that can block: which events are between two reads, and under which
facts a round goes on.""",
"C19": """Provenance of the terms in the metadata and coordinator answers.""",
"C20": """As C15, over the store's maps, read in one critical section each; the encoded
assignment is the value built.""",
"C21": """Sizes are linear terms in the lengths of key and value; the size of an encoded
message comes from running the encoder on it symbolically. The checksum's
argument must be that encoding's bytes from the field after the checksum on.""",
"C22": """Memory reached from package variables and its writers; ownership of what the
store is made of.""",
"C23": """Every operation that can fail at run time is an obligation on its path's facts:
nil-ness, index against length (linear facts), dynamic type, map non-nil,
reflective kind. Every panic and every error returned by a handler must have
one of the listed causes.""",
"C24": """The insertion and removal events of the client list in the accept loop and in
each way a connection's goroutine ends; the number's recurrence.""",
"C25": """The answer's path is searched for the loop that walks the found partition's
records. Its counter's start and step say which record a round examines; each
round that goes on must know (from its branch) that record to be at or after the
time, each end must be past the first record or at one known to be before it, and
the offset must be the one after it. Forward walks are decided by the dual
invariant. The timestamp's recurrence, or the record it is read from, must match.""",
"C26": """The answers' terms on every path of the five handlers must be constants.""",
"C27": """The loop over the names given must be exhausted on every return, and each kind
of round must hold an event that found, or entered, the partition in a topic that
was found or entered under that name in this mock's store. Every other insertion
into the store, from any entry point, must be under a given name and number.""",
"C28": """Every dereference, index, slice bound, type assertion and map write on the
caller's goroutine below an exported method is an obligation that the state of its
path must entail, with unconstrained arguments and unconstrained store contents.
Panics of its own accord are allowed only behind the flag whose being set makes a
start panic. Functions kept in fields (the cancel function) must be set by every
constructor, or found set on the path, or the mock found started.""",
"C29": """Each return of Restart must come after a wait on a group whose discharge, by the
accepting goroutine, is preceded on every path by a successful listen and the store
of the listener. Each start must derive the lane that work watches from a lane that
no one cancels or replaces, before it starts a goroutine. Port and parent lane are
written in constructors only.""",
"C30": """Every path that ends in a panic and holds a read or write of a connection whose
error is not known to be nil must hold tests that rule out the errors of a departed
client: errors.Is or errors.As, comparisons, or failed type assertions on the error
itself. After a failed write, a look at the socket (a peeking, non-blocking receive
that failed) serves as well.""",
"C31": """The accepting goroutine may not read, decode, handle or write, and must start a
goroutine that is given the accepted connection before it accepts again. In the
goroutine of a connection, every event that can block is listed and must be on its
own connection, a sleep, a receive of the lane's end, or a lock; waiting on wait
groups, conditions, other channels, or a semaphore is reported. Posting calls may
wait for locks only.""",
}

POST = """
## Behaviour that is taken as intended

- A Metadata request with a null list of topics (in Kafka: all topics) is
  answered with none. The tests pin nothing here; it is a feature not offered.
- A connection's goroutine panics on a malformed or unsupported request and on
  a SyncGroup with assignments (N05): this is how the mock tells a test author
  of a client's mistake.
- Start while a RequestStop of another goroutine is going on is outside the
  use the package describes (one controlling goroutine).
- A read of a committed offset that is missing stores a 0 for it, which no
  answer can tell from its absence.
- `isConnected` may answer false while a client's data is pending and a write
  has just failed; the connection is given up either way.
- Code that nothing served reaches (outbound-utils.go, compact and varint
  kinds, `kafkaClient.Close`, `apiHasTags`) is not judged; the compact
  encoder and decoder of tagged fields disagree, which no served API shows.

## What the checks do not accept although it could be right

- C16/C17: `defer conn.Close()` registered before the discharge runs after it,
  and is reported: the connection's last use is then after the discharge.
- C08 accepts constant allocations up to 1024 elements while decoding.
- C13/C14: partitions cached across entries of one request are undecided, and
  reported.
- C10/C11/C14/C21/C23: the objects of a fetch's partitions kept in a list of
  lists, or consumed from a shrinking list, are undecided, and reported.
- C28: a list as long as a map, filled by index while ranging over the map, is
  undecided (the rounds of a map range are not counted against its length), and
  reported.
- C11: a waiting loop that sleeps for a time that is not a constant is reported.

## False alarms met while building

Each of these was a wrong model or too strong a rule, and was corrected: a
retried read merged with its first attempt; a lock wrapper told apart from its
mutex; a list's memory taken as shared when it is remade every round; C21
asking for the messages' sizes before they were clamped; map lengths taken as
unrelated to the range over them; a struct carried round a loop taken as one
opaque value; a captured variable taken as changed by a write to a global. The quiet cases of `tools/cases` keep them
away.
"""
