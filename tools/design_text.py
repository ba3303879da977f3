"""The prose of DESIGN.md."""
INTRO = """
# Model-based verification of monoruby with TLA+

## Technique and language

The specification is written in **TLA+** and checked with **TLC**.  TLA+ rather than Quint because
(a) TLC's explicit-state search handles the models here (sequences, records, small graphs, state
machines with data) exhaustively without bounding the unrolling; (b) TLC can *evaluate* the same
operators over recorded executions (`ndJsonDeserialize` from the CommunityModules), so one set of
operators is both the model that is explored and the oracle that judges the real code; (c) TLC runs
eight workers over tens of thousands of recorded traces in one JVM start.

A property is decided in up to four steps:

1. **Abstract specification** (`spec/X.tla`): state, operations and results, as operators.  This says
   *what* the code owes its callers and is written from the documentation, not from the code's steps.
2. **Mechanism** (`spec/MC_X.tla`, or a module of its own such as `RawTable`, `GcMark`, `MergeSort`,
   `NativePool`, `IoBuffers`, `HashRep`): the scheme the implementation uses, explored **exhaustively** for
   small constants.  TLC checks that it refines the abstract specification and its own invariants and,
   where it matters, liveness.  Constants such as `ClearFirst`, `HandOn`, `ReplaceRefused` switch a
   protective step off: with FALSE, TLC finds the corresponding defect, which shows that the model is
   not vacuous.
3. **spec -> code**: transitions or walks printed by TLC (`Emit`, `Sim_X.tla`) are replayed in the real
   code; the answers must be those TLC printed.
4. **code -> spec** (`spec/Trace_X.tla`): the harness runs *all* short histories of a small menu and long
   seeded random ones far beyond the exhaustive scope, writes down every operation with its arguments,
   result and the observable state, and TLC checks that each recorded step is a step of the
   specification.  For concurrent code `spec/Linear.tla` searches for an order of the overlapping calls
   that the specification allows.

The harness never decides anything: it executes operations of the real code (built from /repo's working
tree on every run) and writes down what it saw; TLC compares.  A hang is ended by a watchdog and reported, a
fatal signal is reported as a violation with the operation that was running, and a panic is recorded as
an answer (which the specification refuses).

## Layout

    spec/       TLA+ modules and configurations
    harness/    Rust crates which drive the real code (path dependencies on /repo, or `#[path]` inclusion
                of /repo source files for the runtime crate, which cannot be built offline)
    harness/common  seeded generator, argument and trace writing, watchdog
    harness/vstd    `std` stand-in whose atomics, locks, threads, pipes and timers are steps of a
                    controlled scheduler: interleavings are enumerated, not left to the machine
    harness/vlibc   `libc` stand-in with a virtual clock and virtual descriptors
    tools/      check.py (entry point of every check), vlib.py (build, run, TLC, evidence), c_*.py (checks),
                props.py (source of properties.jsonl), notes.py and design_text.py (sources of MANIFEST.json
                and this file), mkseed.py (writes and tries planted bugs)
    seeded/     planted bugs (never read by a check)
    known_findings.txt   defects found (fixed: / known:)

The crate `monoruby` itself cannot be built here (its git dependencies monoasm, onigmo-regex, prism and a
smallvec fork are not in the offline cache).  Its self-contained modules are compiled *unchanged* from
/repo/monoruby/src into small harness crates with stand-ins for the neighbouring types.  What a stand-in
does is part of the trusted base and is named with each property.

Safety of running the checks: no harness deletes or overwrites anything outside its scratch directory
`/verif/.work`, none sends signals to other processes, and calls that could (kill, fork, exec, close of foreign
descriptors) are stand-ins that only record.
"""

_T = "the repository's tests run a handful of fixed scripts; "
GROUPS = [
 ("Ordered map and set (rubymap)", """
`spec/OrderedMap.tla` models an ordered map as a sequence of pairs over key *objects* with an equality class
and a hash class; every public operation is an operator giving the new sequence and the answer, including which
planned failure of a key's `hash` or `eql` has to surface.  `spec/MC_OrderedMap.tla` explores it around the switch
between the linear and the indexed representation (8 entries) and prints every transition; the harness replays
them under four ways of mapping hash classes to 64-bit digests (unrelated, same bucket, same tag, all equal).
`spec/OrderedSet.tla` does the same for sets.""", ["M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "M09", "S01"]),
 ("Hash table (hashbrown fork)", """
`spec/HashTable.tla`, `HashMap.tla` and `HashSet.tla` state the bag / finite map / set semantics with the life of every element
(moved in, handed back, dropped).  `spec/RawTable.tla` is the mechanism: control bytes, groups of W, triangular probing,
tombstones, growth and in-place rehash; TLC checks exhaustively for W = 2 and 4 that it refines the bag, and drives
`Sim_RawTable` walks with W = 16 into full tables and in-place rehashes that the real table then follows.""", ["H01", "H02", "H03", "H04", "H05", "H06"]),
 ("Garbage-collected heap (alloc.rs)", """
`spec/GcHeap.tla` states which objects exist, who refers to whom, what minor and full collections must and may reclaim, and the heap's
figures.  `spec/GcMark.tla` is the mechanism (remembered set, write barrier, ageing, promotion), explored exhaustively and
refining it.""", ["G01", "G02", "G03"]),
 ("Poll word, preemption timer, signals (poll_flag.rs, preempt.rs, signal_table.rs)", """
The modules are compiled against `harness/vstd`, so that every interleaving of their atomic steps within a bound on forced
switches is executed.  `spec/PollFlag.tla` states the lanes and pending signals; `spec/Linear.tla` accepts a history if some order
of its overlapping calls is allowed.""", ["W01", "W02"]),
 ("Green threads and background calls (scheduler.rs, thread.rs, native_pool.rs)", """
`spec/Sched.tla` states, for every scheduler call, what it may do to threads, queues, joiners, masks, limits and descriptor waits,
and which thread runs next.  The real scheduler runs with real stack switches around stand-ins for the interpreter, on a virtual clock.""", ["T01", "T02", "T03", "T04", "N01"]),
 ("Buffered streams (value/rvalue/io.rs, io/buf.rs)", """
`spec/IoStream.tla` states a stream as the descriptor's content, the logical position, what was put back and what is still buffered.
`spec/IoBuffers.tla` is the mechanism.  The system calls of the stream's descriptor are answered by the harness from a plan of short
counts, interruptions, refusals and failures.  A trace step keeps the *set* of states the specification allows.""", ["B01", "B02"]),
 ("Ruby hashes (value/rvalue/hash.rs)", """
`spec/RubyHash.tla` states Ruby's Hash; `spec/HashRep.tla` is the mechanism (inline pairs, boxed table, dead entries, traversal bits) and
refines it over its complete state space.""", ["R01", "R02", "R03"]),
 ("Ruby strings (value/rvalue/string.rs)", """
`spec/RString.tla` states a string as bytes, a declared encoding and a frozen flag, and the division into characters, the classification
and the compatibility of two strings as functions of these alone.  `spec/StrRange.tla` is the rules for carrying the cached
classification over an operation, checked inductively (every right state, one step); `spec/StrShare.tla` is buffer sharing under a
generational collector.  Switching off any one of their nine precautions gives TLC a counterexample.""", ["X01", "X02", "X03"]),
 ("Binary templates", """
`spec/Pack.tla` states Array#pack and String#unpack as two functions over templates, integers of 80 bits, floats as bit patterns and
byte strings; `spec/MC_Pack.tla` checks that they invert each other and that the decoders accept exactly what the standards prescribe.
Eight defects were found and repaired here.""", ["K01", "K02"]),
 ("Classes, modules and methods (globals/store/class.rs, refinement.rs, value/rvalue/module.rs)", """
`spec/Classes.tla` states the ancestor list of a class as regions (prepended, itself, included), method lookup, super, visibility entries, the
reflection lists and activation of refinements as functions of these.  The code keeps chains of nodes that are spliced in place; the harness
`rt_module` compiles it through links into /repo.  `spec/MC_Classes.tla` and `spec/MC_Refine.tla` check what the rules amount to.  Six defects were
found and repaired here.""", ["L01", "L02", "L03", "L04"]),
 ("Formatted text (executor/format.rs)", """
`spec/Format.tla` states sprintf (Kernel#format, String#%) whole: a scanner that reads a directive character by character and remembers how
arguments are chosen, integers from their bits, floats as exact decimal numbers.  The harness `rt_format` compiles the formatter as it is.  `spec/MC_Format.tla`
checks on the specification that texts read back, are nearest and fit their fields.  Nine repairs were made here.""", ["P01", "P02", "P03", "P04"]),
 ("Constants, class variables and names of modules (executor/constants.rs, globals/store/class/constants.rs)", """
`spec/Constants.tla` extends the ancestors of `spec/Classes.tla` by tables of constants with autoload entries and of class variables, and states reading as
a search that may load files, which may read and assign constants themselves.  `spec/Naming.tla` states what Module#name may say; it is a relation: where
Ruby leaves a choice (which of several constants names a module) the code is followed.  The harness `rt_const` shares `rt_module`'s sources and
adds the lookups of the executor.  Five defects were repaired here: a hang among them.""", ["L05", "L06", "L07"]),
 ("Rational numbers (value/rvalue/rational.rs)", """
`spec/Rational.tla` gives rationals as pairs in lowest terms, the roundings through the floor of a scaled number, and the simplest rational in an interval as the
first denominator that has a numerator in it - a definition, where the code walks over mediants in leaps.  `spec/MC_Rational.tla` ties these to what they mean and,
for the last, to a second construction from continued fractions.  Three defects were repaired: rounding beyond the half of negative numbers, rounding to tens
from the integer part alone, and the search around 0, which answered something else or never ended.""", ["E01", "E02", "E03"]),
 ("Random numbers (globals/prng.rs)", """
`spec/Prng.tla` is MT19937 as published, computed by TLC with halves of words, and the draws Ruby makes from it.  The published outputs are checked on the
specification itself, so the specification is known to be the generator and not a copy of the code; uniformity of limited draws is checked exhaustively with
small words.  The harness `rt_prng` only seeds and draws.""", ["U01"]),
 ("Self-contained algorithms", """
Modules of the runtime with a closed specification.""", ["Q01", "F01", "F02", "A01", "V01", "I01"]),
 ("Whole-interpreter properties", """
These are guarantees the repository exists to provide, but deciding them needs the interpreter.""", ["J01", "J02", "J03"]),
]
PROPS = {
 "M01": {"how": "OrderedMap's insert, overwrite, lookup and removal operators; MC_OrderedMap profile M01 (all transitions replayed) and recorded histories.",
         "oracle": "the association list of the specification: result, all pairs in order, length, position and lookup of every key object after every step.",
         "tests": "rubymap has unit tests for single operations on integer keys; none has unequal keys with equal hashes together with the size switch and mixed histories."},
 "M02": {"how": "operators Fails/After of OrderedMap give, for a planned failing key object, whether the operation reaches it and must report it.",
         "oracle": "answer `err` exactly when the specification says a hash or eql call of the failing object is unavoidable, and unchanged content afterwards.",
         "tests": "no test has a key whose hash or eql fails."},
 "M03": {"how": "position-preserving removal, window open/close operators; MC_OrderedMap profile M03 depth 4.",
         "oracle": "survivors, positions and lookups during and after the window.",
         "tests": "needs removal patterns times sizes around the representation switch; tests have two fixed ones."},
 "M04": {"how": "entry operators are *defined* as the plain operator on the same key, so agreement is by construction in the specification.",
         "oracle": "answer and content equal to the plain operation's.", "tests": "tests use entry().or_insert mostly."},
 "M05": {"how": "operators for move, insert-at, sorted insert, sort, reverse, retain, drain, split, truncate, append.",
         "oracle": "sequence after the step, displaced pairs, refusal of out-of-range positions.", "tests": "fixed sizes below the index switch."},
 "M06": {"how": "fast paths specified as the general operation.", "oracle": "same answer and same content.", "tests": "the fast paths have no unit tests of their own."},
 "M07": {"how": "equality, clone, key conversion, collect, extend on two maps built by different histories.", "oracle": "mathematical equality of the pair sets.", "tests": "tests compare two freshly built maps."},
 "M08": {"how": "iterators as a window of the sequence moved from either end.", "oracle": "item, exact remaining length, and the map after dropping a drain.", "tests": "only straight-line iteration is tested."},
 "M09": {"how": "capacity as a nondeterministic number bounded below.", "oracle": "content unchanged and capacity >= what was reserved.", "tests": "one fixed reserve/shrink test."},
 "S01": {"how": "spec/OrderedSet.tla, all transitions of MC_OrderedSet replayed; recorded histories.", "oracle": "sequence without repetition; set algebra on its range.", "tests": "set relations on overlapping sets of different sizes and orders are not enumerated."},
 "H01": {"how": "HashTable as a bag of (hash, element); RawTable refinement; replayed walks.", "oracle": "find/entry/remove answers and the bag.", "tests": "tests use good hashes, so probes rarely pass tombstones or wrap."},
 "H02": {"how": "growth, reserve, shrink, clear, in-place rehash of HashTable; capacity as a lower bound.", "oracle": "bag unchanged, everything findable, capacity obligations.", "tests": "in-place rehash needs a steered history; one upstream test reaches it."},
 "H03": {"how": "HashMap operators including entry, replace, retain, extract, drain.", "oracle": "finite map with first-key objects.", "tests": _T + "none mixes them under collisions."},
 "H04": {"how": "HashSet operators.", "oracle": "set with first element objects; set relations.", "tests": "as H03."},
 "H05": {"how": "iteration, drain, retain, extract and iter_hash as visits of the bag, stoppable early.", "oracle": "each element visited exactly once, exact counts, exactly the rejected ones gone.", "tests": "early stops under tombstones are untested."},
 "H06": {"how": "every element carries an identity; the specification keeps where it lives; one callback per history may panic or fail.", "oracle": "each identity dropped exactly once (a destructor panic may leak those not reached).", "tests": "upstream has two panic tests; none for this fork's fallible paths."},
 "G01": {"how": "reachability in GcHeap; recorded heap histories and replayed GcMark walks.", "oracle": "content and identity of everything reachable; no slot handed out twice.", "tests": "Ruby scripts cannot observe one lost old-to-young reference except by a rare crash."},
 "G02": {"how": "full collections and counters in GcHeap.", "oracle": "released exactly the unreachable ones, once; counters equal a recount.", "tests": "GC.stat is only smoke-tested."},
 "G03": {"how": "minor collections, ageing.", "oracle": "released = young and not reachable from roots or old ones; promotion age.", "tests": "as G01."},
 "W01": {"how": "raise/poll/clear/consume lanes, registration and timer; PreemptTimer explores the start/stop scheme.", "oracle": "an order of the overlapping calls allowed by PollFlag.", "tests": "a race needs a particular interleaving."},
 "W02": {"how": "record-then-arm / clear-then-take in MC_PollFlag (with liveness); tables for every signal number.", "oracle": "pending set and documented table.", "tests": "as W01; the table is tested for three signals."},
 "T01": {"how": "queue order, park/wake permits, fork.", "oracle": "who runs next, and every call's answer.", "tests": "thread tests in Ruby check end results of a few schedules."},
 "T02": {"how": "join, value, finishing, failing, killing.", "oracle": "each joiner's answer.", "tests": "as T01."},
 "T03": {"how": "raise, kill, masks (nested, per class, blocking-only), unstarted threads.", "oracle": "delivery order, moment and count.", "tests": "as T01."},
 "T04": {"how": "sleep, time limits, descriptor waits, deadlock.", "oracle": "virtual time of resumption; deadlock exactly when nothing can run.", "tests": "real-time tests cannot distinguish early from late reliably."},
 "N01": {"how": "NativePool (announce, drain, hand on, take, abandon) with liveness; Trace_Native over enumerated interleavings of real workers.", "oracle": "own result exactly once.", "tests": "races."},
 "B01": {"how": "write side of IoStream.", "oracle": "bytes at the descriptor + bytes buffered = bytes written.", "tests": "real files never return short or refused writes."},
 "B02": {"how": "read side, seeks, un-reads, lines, interleaved writes.", "oracle": "bytes at the logical position; position.", "tests": "as B01; chunking is never varied."},
 "R01": {"how": "RubyHash operators; HashRep refinement; traces.", "oracle": "pairs, lookups of every key, default, mode, flags, marked values, what generated code would read inline.", "tests": "scripts use small well-behaved keys and do not cross representations systematically."},
 "R02": {"how": "traversals with deletions, nested traversals, refusals.", "oracle": "as R01, plus compactness after the last traversal.", "tests": "a few fixed deletions during each."},
 "R03": {"how": "digest and eql? of all pairs of hashes in a history.", "oracle": "eql? of the specification implies equal digests and lookup.", "tests": "one example."},
 "X01": {"how": "StrRange inductively; recorded histories with the cache shown after each step.", "oracle": "Class(encoding, bytes) of RString, or nothing cached.", "tests": "unit tests of single rules on fixed strings, most of them well formed."},
 "X02": {"how": "StrShare exhaustively; recorded histories with collections between the operations.", "oracle": "RString's strings, which share nothing.", "tests": "a handful of substring examples without collections."},
 "X03": {"how": "every short string over edge bytes in every encoding, and histories of offset questions.", "oracle": "Walk(encoding, bytes): one division into characters that all answers must agree with.", "tests": "well-formed examples."},
 "K01": {"how": "recorded calls with random templates; MC_Pack for the round trip on the specification.", "oracle": "PackAll and Unpack of Pack.tla: bytes, encoding, values and error class.", "tests": "single directives on fixed values, compared with recorded CRuby answers, in a crate that is not built."},
 "K02": {"how": "every short string of chosen alphabets through each decoder; limits of lengths and lines through each encoder.", "oracle": "the encoders and decoders of Pack.tla, checked against an independent reading of RFC 4648 and against each other.", "tests": "round trips of a few words."},
 "L01": {"how": "every short sequence of mixing operations and random histories recorded from the real class table; MC_Classes for the rules.", "oracle": "Ancestors of Classes.tla for every class after each step; kind_of?, <= and subclasses as functions of it.", "tests": "a dozen scripts with one or two inclusions each, in a crate that is not built."},
 "L02": {"how": "random histories of definitions and mixing with cached lookups in between.", "oracle": "Lookup and Supers of Classes.tla.", "tests": "each script has one kind of redefinition."},
 "L03": {"how": "the same histories with all lists read after each step.", "oracle": "Lists of Classes.tla, checked against Lookup.", "tests": "lists of single classes."},
 "L04": {"how": "random histories of refine and using with lookups under every set; MC_Refine for the rules.", "oracle": "Activated, Same and Lookup under a set.", "tests": "one module, one activation."},
 "P01": {"how": "every flag set, letter and small width and precision on twelve integers, and random directives on integers of up to 80 bits.", "oracle": "IntText of Format.tla, which MC_Format reads back.", "tests": "some thirty examples compared with CRuby, in a crate that is not built."},
 "P02": {"how": "random directives on chosen and random floats.", "oracle": "FloatTexts of Format.tla over exact decimal numbers, checked by MC_Format to be nearest.", "tests": "one or two numbers per letter, far from ties."},
 "P03": {"how": "random directives on texts of characters of different lengths and on binary strings.", "oracle": "Pad and Cut over character sequences.", "tests": "precision of two accented words; widths only with ASCII."},
 "P04": {"how": "random format strings: whole directives in the three ways, pieces of directives, numbers out of range.", "oracle": "Directive of Format.tla, the scanner.", "tests": "one example of each error."},
 "L05": {"how": "random histories of tables, marks, inclusions and reads in four ways, with a plan for each file.", "oracle": "Read, Probes, Names and Files of Constants.tla.", "tests": "one class, one autoload."},
 "L06": {"how": "random histories of class variables and inclusions, all reads after each step.", "oracle": "Owners and GetVar of Constants.tla.", "tests": "one owner."},
 "L07": {"how": "random histories of bindings, removals, copies and temporary names.", "oracle": "Named, Given and Sound of Naming.tla over the names seen.", "tests": "one module with one constant."},
 "E01": {"how": "every operation on every two small rationals; random larger ones.", "oracle": "Norm, Add, Mul, Inv, Cmp of Rational.tla.", "tests": "a few positive fractions."},
 "E02": {"how": "every rounding of every small rational to -2..2 digits; random larger ones.", "oracle": "Digits of Rational.tla.", "tests": "positive values, no tens."},
 "E03": {"how": "every small value and tolerance; random ones; Floats with small significands.", "oracle": "Simplest and Two of Rational.tla.", "tests": "decimal fractions."},
 "U01": {"how": "random seeds of one to four words and random histories of draws.", "oracle": "Seeded, Draws, Limited, Real, Flat of Prng.tla.", "tests": "two seeds, small limits."},
 "Q01": {"how": "Sort (permutation, order, stability, failure) over traces; MergeSort explored exhaustively with arbitrary comparators.", "oracle": "stable sort of the input; conservation of elements.", "tests": "inconsistent and failing comparators are untested."},
 "F01": {"how": "the language of Glob.tla as a recursive predicate.", "oracle": "Match(pattern, name, flags).", "tests": "a few dozen examples."},
 "F02": {"how": "Expand of Glob.tla.", "oracle": "the sequence of alternatives.", "tests": "a dozen examples."},
 "A01": {"how": "GpAlloc interprets emitted actions symbolically; MC_GpAlloc explores the scheme.", "oracle": "direct execution of the program.", "tests": "unit tests check fixed programs' register counts."},
 "V01": {"how": "IvarTable over traces with junk memory; GrowTable explores growth.", "oracle": "sequence of values, unset beyond.", "tests": "freshly mapped memory is usually zero, so missing clears pass."},
 "I01": {"how": "Interning over traces; InternRace explores the double-checked locking.", "oracle": "bijection names/identifiers.", "tests": "single-threaded examples."},
}
SEEDS = """
Each directory of seeded/ holds a change written from the property's text and the code, a demonstration that fails with it
and passes without, and what it needs.  All of them compile and pass the 417 stable tests, and each is reported
by the check of its own property (tried with `tools/mkseed.py test`).  Bugs that turned out to change nothing observable, or
that the stable tests already find, were dropped: map-eql-subset, map-move-back-sweep, map-shift-insert-collide,
table-erase-run-length, map-replace-entry-tombstone, set-replace-keeps-old.
"""
DEFECTS = """
All of these are repaired by small `fix:` commits in /repo; nothing is left as a known finding.
"""
TAIL = """
## Alarms that were wrong, and what was corrected

- M03: inserting *new* keys while a traversal window is open was reported; the code documents it as barred. The generator no longer does it.
- H02: shrinking may raise the reported capacity of a table with tombstones (they are swept); the capacity rule was loosened to what is documented.
- H06: elements not yet reached when a *destructor* panics may leak (Rust's own collections do the same); the statement says so.
- W02: the drain takes the whole pending set and the lowest is acted on; the first statement said one signal per drain.
- G01-G03: the generator touched a node that its own model had let go; corrected in the harness.
- T01: threads left behind by fork were first counted as lost wakeups; the statement now says what a forked child keeps.
- T03: the targets of a termination are fixed when it starts; threads interrupted before they began count as gone (N01).
- B02: a seek by 0 from the current position is a position query; more bytes put back than the position allows leaves the position
  undefined (`loose`); a repeated call after a refusal is excused only when a call really was refused.
- R01: the harness let panics of its own end-of-history calls escape; such histories now end with the recorded panic.

- L01: a cyclic prepend is refused, but the first draft also took back the (unobservable) origin; a module prepended twice through a splice may
  stand twice, which the first `Once` forbade.

## Observed and left alone

- Module#include into a module that others have already included does not reach them (CRuby before 3.0 behaved the same).

- Buffered output of unclosed files at interpreter exit is not flushed (globals.rs flushes the standard streams only), and an unclosed
  `popen` stream with sync off is dropped; outside the modules that can be built here.
- builtins/io.rs: `read_more_char_bytes` keeps a partial character only on a signal, not when the descriptor would block; `syswrite`
  neither drains the write buffer nor gives read-ahead back.
- alloc.rs: `new_page` does not compare with MAX_PAGES.
- A fork from a thread other than main leaves main's scheduler context behind.
- value/rvalue/hash.rs: more than three nested inline traversals ended in another order than innermost-first (documented limitation).
- builtins/fiddle.rs asks for a NUL-terminated buffer of frozen strings too; if the string is the root of shared views, making room
  moves the buffer under them.
- String: UTF-16 surrogates are not paired (each unit counts as a character), as the code's comments say.

## Not covered

Weak-memory effects below sequential consistency; user `hash`/`eql?` code that changes the very hash being searched; fibers inside green
threads; everything that needs the bytecode interpreter or generated code (J01-J03).
"""
