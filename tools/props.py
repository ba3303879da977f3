import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=False):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}],"observe_at":[observe],
       "hook_needed":("not buildable here" if hook else None)}
    if state: a["state"]=[{"name":n,"meaning":m,"where":files[0]} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CORE=["rubymap/src/map.rs","rubymap/src/map/core.rs","rubymap/src/map/core/entry.rs"]
p("M01","An insertion-ordered map stays a map for every history of operations",
 "After any sequence of inserts, overwrites, lookups and removals the ordered map holds exactly the pairs an association list kept in first-insertion order would hold: at most one entry per key class, the latest value, the first-inserted key object, the documented order. Iteration, length, positional access and lookup by any equal key all report that same content, whatever the size of the map and whatever hash collisions the keys have.",
 ["histories","inputs"],"every sequence of map operations over every set of keys, every hash assignment (including total collision) and every size, in particular back and forth across the small/large representation change",
 "Unit tests replay a few fixed scripts and one random-insert loop with well-spread hashes; they never interleave removal styles, re-insertion, promotion to the indexed form and colliding keys, so a corrupted index position that only shows up for one collision pattern is invisible to them.",
 CORE,"entry vector + hash index of positions; the index is left unbuilt while the map is small, then built once; every removal has to repair stored positions",
 "results of insert/insert_full/get*/contains/swap_remove*/shift_remove*/pop/clear/iter/get_index and lookup of every key of the universe after each step",
 [("entries","ordered pairs"),("indices","hash -> position"),("linear","small form, no index")])
p("M02","A failing key hash or comparison is reported and changes nothing",
 "If computing a key's hash or comparing two keys fails while a map or set operation is running, the operation returns that failure to its caller. The collection then holds exactly what it held before (for a bulk operation: exactly the pairs already taken over), and later operations behave as if the failed one had never been issued.",
 ["fault_sequences","histories"],"every operation x every point at which hashing or comparing may fail x every content and size of the collection",
 "No existing test lets hash or eql? fail at all: every test key is infallible.",
 CORE+["rubymap/src/set.rs","hashbrown/src/raw/mod.rs","hashbrown/src/table.rs"],"fallible callbacks threaded through the probe loop and through every fast path",
 "Result value of every fallible operation, then full content and lookup of every key",[("E/G context","carries the planned failure")])
p("M03","Removing entries during a traversal neither loses nor revives anything",
 "While a traversal window is open, entries removed through the position-preserving removals disappear from every lookup, all surviving entries keep their positions and values, and removing an absent or already removed key reports absence. Closing the window yields exactly the survivors in their original order, fully usable afterwards.",
 ["histories"],"every interleaving of position-preserving removals (by key and by position), lookups, value updates and window closings over every map content and size",
 "Existing tests exercise one window with a few removals; they do not cover several windows, small maps, colliding hashes at dead positions, or use of the map after compaction.",
 CORE,"dead buckets stay in the entry vector but leave the index; compaction rebuilds the index","lookups of all keys and positions during the window; full content after compaction",
 [("dead buckets","entries replaced by a dead key while a traversal is open")])
p("M04","Entry handles act exactly like the plain operations on the same key",
 "Looking a key up as an occupied or vacant entry handle and then reading, replacing, inserting at a position, moving or removing through that handle has precisely the effect and result of the corresponding direct operation, and reports the correct position.",
 ["histories","inputs"],"every entry operation on every key, map content, size and target position",
 "Tests touch each handle method once on a tiny map of distinct hashes.",CORE,"handles hold a reference into the hash index and the entry vector separately","handle results, then full content and lookups")
p("M05","Reordering, splitting and bulk edits keep order and lookup in agreement",
 "Moving, position-inserting, sorted-inserting, sorting, reversing, retaining, draining, splitting off, truncating and appending produce exactly the documented order and pairs, return exactly the displaced pairs, and afterwards every key is found at its reported position. Out-of-range positions are refused without changing the map.",
 ["histories","inputs"],"every reordering or bulk operation with every argument, at every content, size and hash assignment, followed by any further operations",
 "Each operation has its own small example test; none checks that lookups still agree afterwards for colliding hashes, nor every choice between the index-repair strategies, which depends on the capacity history.",
 CORE+["rubymap/src/map/slice.rs","rubymap/src/util.rs"],"three index repair strategies picked by size heuristics; sentinel positions while moving","content, returned pairs, position of every key")
p("M06","Fast-path inserts and lookups agree with the general ones",
 "Inserting or looking up through the precomputed-hash, symbol-key or caller-supplied-equality shortcuts gives the same result and leaves the same map as the general operation with the same key, and the two kinds may be mixed freely in one history.",
 ["histories","inputs"],"every interleaving of shortcut and general operations over every content, size and hash assignment",
 "The shortcuts are only used by the runtime, which cannot be built here; their unit tests insert a handful of keys through one path only.",CORE,"six copies of the insert/find loop that must stay equivalent","result of each shortcut and full content",)
p("M07","Map equality and bulk construction depend on content only",
 "Two maps are equal exactly when they hold the same keys with equal values, regardless of insertion order, history, size class or capacity; cloning, converting keys, collecting and extending yield maps equal to the sequence of single inserts, and a clone is independent of its source.",
 ["histories","inputs"],"every pair of maps reached by any two histories; every input sequence with duplicates",
 "Tests compare two or three literal maps.",CORE+["rubymap/src/map/iter.rs"],"equality by lookup of each key in the other map; clone copies index and entries separately","eql result in both directions, content of clone after mutating either")
p("M08","Iterators visit every entry once, from either end, with exact sizes",
 "Every iterator over a map, a set or a positional slice of them yields each selected entry exactly once in order, whichever mixture of front and back steps is taken, reports the exact remaining length at each step, and a partly consumed draining iterator still removes exactly its whole range.",
 ["histories","inputs"],"every iterator kind x every interleaving of next / next_back / nth / size queries / early drop",
 "Tests collect iterators forward, rarely backward, and hardly ever drop them midway.",["rubymap/src/map/iter.rs","rubymap/src/set/iter.rs","rubymap/src/map/slice.rs","rubymap/src/set/slice.rs","rubymap/src/macros.rs"],"wrapper iterators delegating to slice iterators","sequence of results of next/next_back/nth/len")
p("M09","Capacity requests never change content and are honoured",
 "Reserving, shrinking, clearing and constructing with a capacity never change which pairs are stored or their order; after a reservation for n more entries the map reports room for them, and reported capacity is never below the length.",
 ["histories"],"every interleaving of capacity operations with content operations at every size",
 "Tests check capacity on fresh maps only.",CORE,"two capacities (entries and index) kept in step, and a small form without index","capacity and content after each step")
p("S01","The ordered set is the key half of the ordered map",
 "After any history the ordered set holds each element class once, in the documented order, and insert, replace, take, remove, positional and bulk operations report exactly what that content implies; subset, superset, disjointness and equality answers are those of mathematical sets.",
 ["histories","inputs"],"every history of set operations and every pair of sets so reached, with colliding hashes",
 "Tests run fixed scripts on a few integers.",["rubymap/src/set.rs","rubymap/src/set/slice.rs","rubymap/src/set/iter.rs"],"set as a map to unit; relation operations loop over one side and look up the other","results and content; relation answers for pairs")
H=["hashbrown/src/raw/mod.rs","hashbrown/src/table.rs"]
p("H01","The hash table holds exactly the bag of elements put in and not taken out",
 "For every history of unique-inserts, finds, entry operations and removals under any hash values, a find succeeds exactly when an element with that hash satisfying the predicate is stored, and returns one such element; the stored bag and its count are exactly what was inserted minus what was removed.",
 ["histories","inputs"],"every history over every hash assignment, including hashes equal in the probed bits, in the tag bits only, in all bits, and long runs of removals and re-insertions at full load",
 "Existing tests use sequential integers with a good hasher; probe chains through deleted markers, wrap-around groups and same-tag different-hash elements hardly occur.",
 H+["hashbrown/src/control/group/mod.rs","hashbrown/src/control/group/sse2.rs","hashbrown/src/control/bitmask.rs","hashbrown/src/control/tag.rs"],"open addressing with per-slot tags, group probing and deleted markers","results of find/find_entry/entry/insert_unique/remove and full content by iteration",
 [("control bytes","EMPTY / DELETED / 7-bit tag"),("growth_left","free slots before a rehash")])
p("H02","Growing, shrinking and in-place rehashing lose and duplicate nothing",
 "Whatever mixture of growth, tombstone clean-up, reservation, shrinking and clearing a table goes through, its elements stay exactly the same and all remain findable; after reserving room for n elements, n inserts neither fail nor report a smaller capacity, and shrinking never goes below the stored count.",
 ["histories"],"every history that reaches each resize/rehash decision at every load, tombstone count and capacity",
 "Whether a rehash happens in place depends on a precise ratio of live to deleted slots that the tests do not steer to.",H,"resize to a fresh allocation vs in-place rehash with element swaps","capacity, content and lookups after each step",[("items, growth_left, bucket_mask","decide which rehash runs")])
p("H03","The hash map behaves as a mathematical finite map",
 "For every history, the hash map's get, insert, remove, entry, replace, retain, extract, drain, extend and equality operations return what a mathematical finite map with the same history returns, keep the first key object unless documented otherwise, and agree with iteration.",
 ["histories","inputs"],"every history of map operations over every hash assignment","Fixed scripts only; entry variants are each tried once.",["hashbrown/src/map.rs"]+H,"map of key/value pairs over the table","operation results, content, lookup of every key")
p("H04","The hash set behaves as a mathematical set",
 "For every history, membership, insertion, replacement, removal, get-or-insert and entry operations of the hash set return what a mathematical set with the same history returns, and subset / superset answers are those of set theory.",
 ["histories","inputs"],"every history of set operations; every pair of sets","Fixed scripts on small integers.",["hashbrown/src/set.rs"]+H,"set as map to unit","operation results and content")
p("H05","Table iteration, draining and filtering visit each element exactly once",
 "Iterating, draining, filtering in place, extracting by predicate or iterating one hash value visits each stored (respectively matching) element exactly once with exact remaining counts, also when stopped early; exactly the visited-and-rejected elements are gone afterwards.",
 ["histories","inputs"],"every table layout reached by any history x every iterator x every stopping point x every predicate","Tests iterate freshly filled tables to the end.",H+["hashbrown/src/map.rs","hashbrown/src/set.rs"],"group-wise scan over control bytes with bit masks","multiset of visited elements, remaining lengths, content afterwards")
p("H06","Every stored value is dropped exactly once, even when callbacks panic",
 "Over the whole life of a map, set or table every element moved in is either handed back to the caller or dropped exactly once — never twice, never zero times — for every history and also when a hash callback, a clone or a predicate panics midway. When a destructor itself panics, elements not yet reached may leak but none is dropped twice. The collection stays usable afterwards.",
 ["fault_sequences","histories"],"every history x every position at which one callback panics","A few tests count drops on simple scripts; panics are injected in clone only.",H+["hashbrown/src/scopeguard.rs","hashbrown/src/map.rs","rubymap/src/map/core.rs"],"scope guards around partially moved state","instrumented elements count their births and drops")
GC=["monoruby/src/alloc.rs"]
p("G01","No reachable object is ever reclaimed",
 "For every history of allocations, reference writes and minor or major collections, an object that can still be reached from the roots keeps its identity and content and its memory is never handed out again.",
 ["histories"],"every object graph, every order of allocation / pointer store / root change / minor and major collection, every age of source and target",
 "The runtime cannot be built by the test set-up, so nothing in the stable tests reaches the collector; and a missed old-to-young edge needs a specific promotion history to matter.",
 GC,"generational mark and sweep: age counters, remembered set, write barrier, mark queue","which objects are freed at each collection, and addresses returned by later allocations",
 [("remembered set","old objects that may point to young ones"),("age","collections survived")])
p("G02","Everything unreachable is reclaimed exactly once by a full collection",
 "A full collection reclaims every object that is unreachable at that moment, running its release action exactly once, and the heap's own figures of live, allocated, freed and old objects and of pages equal what is actually there, after minor collections too; reclaimed slots are reused before new pages are taken.",
 ["histories"],"every heap history and page occupancy pattern, including pages that become empty and cyclic garbage",
 "Collector not reached by any stable test.",GC,"sweep and page salvage, free list, counters","release calls, free/total counters, addresses of later allocations",[("free list","reusable slots"),("pages","64-byte cell arrays with mark bitmaps")])
p("G03","A minor collection reclaims only young garbage and all of it",
 "A minor collection never touches an object that has become old, and it reclaims every young object that is not reachable from the roots or from a live-or-dead old object; an object becomes old only after surviving the promotion number of collections.",
 ["histories"],"every graph and every sequence of minor/major collections and stores","Collector not reached by any stable test.",GC,"sticky mark bits with age nibbles","set of objects reclaimed by each minor collection vs the model's set")
SC=["monoruby/src/scheduler.rs","monoruby/src/value/rvalue/thread.rs"]
p("T01","Green threads run one at a time, in queue order, with no lost wakeup",
 "At most one thread of the interpreter runs at a time; a thread made runnable is eventually dispatched and runnable threads are dispatched in the order they became runnable (with the main thread's documented priority); a wakeup issued to a thread before it parks is not lost; in a forked child only the forking thread goes on.",
 ["schedules","histories"],"every interleaving of spawn, pass, sleep, wakeup, join, kill and exit by up to several threads",
 "The scheduler is part of the crate the tests cannot build; its behaviour is a function of interleavings.",SC,"FIFO ready queue, parked sets, one-shot wake permit","sequence of resumed threads and their blocking results",[("ready","FIFO of runnable threads"),("sleepers","parked with optional deadline"),("park permit","wakeup arrived before parking")])
p("T02","Thread results reach every joiner, and the right one",
 "When a thread finishes, fails or is killed, every thread waiting for it resumes exactly once and observes that thread's own outcome; a join with a time limit reports expiry only if the thread is still alive, and joining a finished thread returns at once.",
 ["schedules"],"every order of finish/kill/fail versus join by any number of joiners, with and without limits","As above: not reachable by stable tests.",SC,"joiner lists and state transitions at thread end","return value of join for every joiner, order of resumption")
p("T03","Asynchronous interrupts arrive once, in order, and only when allowed",
 "Every raise or kill aimed at a live thread is delivered exactly once, in the order issued, never while that thread's mask defers it, and a blocked thread is woken when the interrupt may be delivered while it blocks; a thread killed before it ever ran does not run its body.",
 ["schedules","histories"],"every interleaving of interrupts with the target's blocking, masking and unmasking","Not reachable by stable tests.",SC,"per-thread pending queue and mask stack consulted at delivery points","sequence of delivered interrupts per thread")
p("T04","Sleeping and waiting threads wake on time and deadlock is reported truthfully",
 "A sleeping or waiting thread resumes no earlier than its limit unless it is woken or its descriptor becomes ready, and does resume once one of these happens; a fatal deadlock is reported exactly when no thread can ever run again.",
 ["schedules","inputs"],"every combination of deadlines, wakeups, descriptor readiness and parked threads","Not reachable by stable tests; depends on schedules and time.",SC,"deadline list, poll set, idle loop","resume order relative to the clock, deadlock report",[("io_waiters","threads parked on descriptors")])
p("N01","Each blocking call run in the background hands its result to its own caller",
 "For any number of callers with blocking calls in flight, every caller that is still waiting receives the result of its own call exactly once, no matter in which order calls finish and callers are scheduled, and an abandoned call's result is discarded.",
 ["schedules"],"every completion order, wake order and abandonment order of concurrently outstanding calls","Not reachable by stable tests; needs particular interleavings of workers and waiters.",["monoruby/src/native_pool.rs"],"shared completion table and one shared notification pipe","which waiter resumes with which result; waiters left parked")
p("W01","No safepoint request is lost or leaks between kinds",
 "A collection, preemption or signal request raised by any thread or signal handler at any moment is seen by the next poll of the executing thread, clearing or consuming one kind never drops another kind, and a consumed request is not seen twice.",
 ["schedules"],"every interleaving of request, clear, consume and registration steps of the timer thread, signal handlers and the executing thread","Races between atomic read-modify-write steps; stable tests do not build these files.",["monoruby/src/poll_flag.rs","monoruby/src/preempt.rs"],"one 32-bit word with three lanes changed by atomic operations from several threads","value observed by the poller after each step")
p("W02","Every delivered signal is drained exactly once and maps to its documented action",
 "A drain reports exactly the signals delivered since the previous drain, whenever they arrive; a signal that is waiting keeps the poll word raised; of signals pending together the lowest-numbered one is picked, each maps to its documented interpreter exception, and exactly the documented signals may be trapped or are handled by default.",
 ["inputs","schedules"],"every set of pending signals and every interleaving of delivery with draining","Unit tests of these tables are not built by the stable test run.",["monoruby/src/codegen/signal_table.rs","monoruby/src/poll_flag.rs"],"pending bitmap written in handlers, swapped out by the poller","drained bitmaps and the exceptions produced")
IO_=["monoruby/src/value/rvalue/io.rs","monoruby/src/value/rvalue/io/buf.rs"]
p("B01","Buffered output reaches the descriptor complete, in order, exactly once",
 "For every sequence of writes, flushes and mode changes, and every pattern of partial, would-block, interrupted and failing system writes, the bytes that reach the descriptor are a prefix of the bytes written, in order and without duplication, and the rest is still buffered; a synchronous write, a flush, a close or giving up the stream leaves nothing behind, and a non-blocking write never overtakes buffered output.",
 ["fault_sequences","histories"],"every write history x every sequence of outcomes of the underlying write calls","Not built by stable tests; partial and interrupted writes are not provoked.",IO_,"write buffer drained in a loop over write(2) results","bytes received at the other end, bytes still pending, error kind")
p("B02","Buffered input presents the descriptor's bytes once each, seeks included",
 "For every sequence of reads, line reads, un-reads, seeks and interleaved writes under any chunking and interruption of the underlying reads, the stream delivers exactly the bytes that lie at its logical position (un-read bytes first, none lost by an interrupted call that is repeated), line reads end at the documented separator or limit, the reported position is that logical position, and a write lands there.",
 ["histories","inputs","fault_sequences"],"every history of read sizes, seeks, chunk boundaries and interruptions","Not built by stable tests.",IO_,"read-ahead buffer and put-back bytes whose unread part must be subtracted from the descriptor position","bytes delivered and logical position")
RH=["monoruby/src/value/rvalue/hash.rs"]
p("R01","A Ruby hash keeps Ruby's semantics across all its representations",
 "For every history of stores, deletes, shifts, clears, default changes, identity switches, replacements and copies, a Ruby hash answers lookups, length, order, first and last pairs exactly as an insertion-ordered association with eql? (or identity) keys, in each of its packed, small and large representations and across the changes between them; an operation whose key code raises reports the error and changes nothing, the collector is told of every object the hash refers to and stores, and the layout read by generated code describes the same content.",
 ["histories","inputs"],"every history over every key mix and size, crossing each representation boundary in both directions","The runtime crate is not built by the stable tests, and representation changes depend on the exact history.",RH,"inline packed pairs, boxed ordered map, identity map","every observable of the hash after each operation",[("representation","inline / map / identity map"),("iteration level","open traversals")])
p("R02","Mutating a Ruby hash during iteration is safe and behaves as documented",
 "While a Ruby hash is being iterated, deletions and shifts take effect for every later lookup yet each surviving pair is visited exactly once, adding a new key, clearing and replacing the content and changing the comparison mode are refused, overwriting an existing key is allowed, and when the last iteration ends the hash is compact and fully usable.",
 ["histories","schedules"],"every interleaving of nested iterations with deletes, shifts, overwrites, clears and refused inserts","Not built by stable tests.",RH,"iteration level counter and dead entries","visited pairs, refused operations, content after the iterations")
p("R03","Equal Ruby hashes have equal digests, whatever their history",
 "Two Ruby hashes that are eql? have the same hash digest and equality is independent of insertion order, representation and history, so that either can be used to look up a value stored under the other.",
 ["histories","inputs"],"every pair of hashes reached by any two histories","Not built by stable tests.",RH,"digest computed over entries; equality by lookup","eql result and digest for pairs of hashes")
p("Q01","Sorting returns a stable sorted permutation, and never loses an element",
 "Sorting with any comparator returns a permutation of the input that is sorted and stable when the comparator is a consistent ordering; when the comparator is inconsistent or fails at any point, the failure is reported and the array still holds exactly its original elements, scratch space beyond the advertised amount is never touched, every element can be found in the array, the scratch space or the comparator's arguments during each comparison, and a comparator's result counts by its sign (nil is refused).",
 ["inputs","fault_sequences"],"every input length and pattern, every comparator behaviour, every comparison at which it fails","Not built by stable tests; merge paths need long inputs with particular runs.",["monoruby/src/executor/op/sort.rs"],"insertion sort and run-merging with a caller-supplied scratch buffer","array and scratch content at every comparator call and at return")
p("F01","Glob matching equals the documented pattern language",
 "For every pattern, name and flag combination, matching answers exactly what the documented wildcard, bracket, escape, leading-period, path and globstar rules define.",
 ["inputs"],"every pattern and string over the special characters, every flag set","A table of about a hundred cases, in a crate the stable tests do not build.",["monoruby/src/builtins/fnmatch.rs"],"backtracking matcher with a single remembered star","boolean answer")
p("F02","Brace expansion yields every alternative once, in source order",
 "Brace expansion of any pattern yields exactly the alternatives of its complete groups in depth-first source order, leaves unmatched or escaped braces and commas as they are (an opening brace that is never closed makes the rest literal), and always terminates.",
 ["inputs"],"every string over braces, commas, escapes and letters","Four example cases.",["monoruby/src/builtins/fnmatch.rs"],"recursive expansion of the first complete group","list of expansions")
p("A01","Register allocation preserves the meaning of straight-line arithmetic",
 "For every straight-line run of integer operations, executing the allocator's loads, register operations and stores leaves every live stack slot with the value direct execution gives, never reads a register or slot whose value is stale, guards every load, never puts a result into its right operand's register, and the register file never keeps one slot in two registers or forgets an unsaved value.",
 ["programs"],"every sequence of operations over every operand/result/liveness choice and register pressure","Five examples, not built by stable tests.",["monoruby/src/codegen/jitgen/gp_alloc.rs"],"register file with dirty residents, ages and eviction","emitted action stream interpreted against direct execution")
p("V01","Instance-variable tables grow without losing or inventing values",
 "For every history of pushes, resizes and clones an instance-variable table holds exactly the values stored, newly exposed slots read as unset, and a clone is independent of its source.",
 ["histories"],"every history of push/resize/reserve/clone/write from every initial capacity","Not built by stable tests.",["monoruby/src/value/rvalue/ivar_table.rs"],"hand-written growable vector","content after each operation")
p("I01","Interning is a bijection between names and identifiers",
 "The same name always yields the same identifier and different names (different bytes, or same bytes in an incompatible encoding) different ones, from any thread and in any order, and an identifier always yields back its name; the list of all identifiers has no duplicates or nameless entries, and names derived for operators, instance variables, assignments and special globals are the documented ones.",
 ["histories","schedules"],"every sequence and interleaving of interning and name lookups, including predefined and binary names","Not built by stable tests.",["monoruby/src/id_table.rs"],"global reader/writer-locked table with a reverse vector","identifiers and names returned")
PK=["monoruby/src/value/rvalue/string/pack.rs"]
ST=["monoruby/src/value/rvalue/string.rs"]
p("X01","A string's cached classification is always that of its bytes",
 "For every history of building, slicing, splicing, appending, repeating, reversing, scrubbing, byte stores, re-encoding, copying and sharing of strings in any encoding, the remembered classification of a string (ASCII only, well formed, broken) is either absent or the classification of its present bytes in its present encoding; ascii_only?, valid_encoding?, scrub and the compatibility of two strings (which encoding an append or splice yields, or that it is refused) answer from the bytes, and a refused operation changes nothing.",
 ["histories","inputs"],"every history over strings in every encoding, with the classification asked for at any point or never","The runtime crate is not built by the stable tests; a stale classification shows only if it was cached before the operation and asked for afterwards.",ST,"cached code range carried over operations without looking at the bytes again","classification, encoding and bytes after each operation",[("cr","cached classification or unknown")])
p("X02","Strings that share a buffer stay independent, and the buffer lives as long",
 "However substrings, copies, snapshots, freezes, writes, replacements and minor or full collections interleave, every string shows exactly the bytes and encoding it would have if nothing were shared: a write to one string is never seen through another, a snapshot keeps the bytes and encoding of the moment it was taken, the owner of a shared buffer is kept alive and unmoved while any string views it, and a string given a terminating NUL keeps its content.",
 ["histories","fault_sequences"],"every interleaving of substrings, writes, freezes and collections","Sharing is invisible except through a write or a collection at the wrong moment; the stable tests do not build the runtime.",ST,"shared views of a frozen root buffer, copy-on-write, write barrier on the edge to the root","bytes of all strings after each operation, liveness of the roots",[("root","object owning the shared buffer")])
p("X03","Characters, their offsets and their order follow the encoding",
 "For every byte string in every supported encoding, the number of characters, their boundaries, the byte range of any character index or span (also counted from the end), the translation between byte and character offsets, reversal and single-character substrings agree with one division of the bytes into characters, in which every ill-formed byte stands alone as the encoding prescribes; fast paths for ASCII, single-byte and fixed-width strings never answer differently.",
 ["inputs","histories"],"every byte string in every encoding, with and without a cached classification","Examples use well-formed text; the fast paths depend on encoding, classification and length together, and the runtime crate is not built by the stable tests.",ST,"per-encoding character walking with fast paths chosen by encoding and classification","counts, offsets, ranges and characters")
p("K01","Array#pack writes what the directives say and String#unpack reads it back",
 "For every template of directives, modifiers and counts and every list of values, Array#pack writes exactly the bytes each directive prescribes (width, sign, byte order, padding, repetition, position) into a new string of the prescribed encoding or onto the given buffer, String#unpack reads from any bytes exactly the values each directive prescribes, with nil where numbers of fixed width run out, and unpack1 gives the first value the whole template produces; what was packed in range is what is unpacked. Too few arguments, values of the wrong type or range, unknown directives, misplaced modifiers, excessive counts and positions outside the string are refused with the prescribed class of error, never answered.",
 ["inputs"],"every template, every list of values, every byte string","Examples pack one value with one directive; interactions of counts, stars, movements, buffers and early ends need systematic combination, and the runtime crate is not built by the stable tests.",PK,"template parsing, byte cursor with short reads, buffer seeding, native and explicit byte order","bytes, encoding, values, error classes")
p("K02","Text and variable-length forms of pack are exact and malformed input is refused",
 "Base 64, uuencode, quoted-printable, UTF-8, BER, ULEB128 and SLEB128 forms written by pack are the standard ones (line lengths floored to whole groups, shortest form, no trailing blanks) and are read back to the same data for every input up to integers of more than 64 bits; a count of 0 makes base 64 strict, so that exactly the canonical texts are accepted, while without it blanks are skipped, padding ends the data and an incomplete last group still counts; truncated, overlong or misformed UTF-8 is refused, and each directive leaves the position right behind what it read.",
 ["inputs"],"every byte string, every data length, every integer","Decoders are tried on the output of their encoders; malformed input, line boundaries and the limits of integer widths are not, and the runtime crate is not built by the stable tests.",PK,"hand-written encoders and decoders sharing one cursor","decoded data, encoded text, refusals")
CL=["monoruby/src/globals/store/class.rs","monoruby/src/value/rvalue/module.rs"]
p("L01","Ancestor lists follow include, prepend, extend, dup and clone",
 "For every history of creating classes, modules, objects and singleton classes and of include, prepend, extend, dup and clone, the ancestors of each class or module are its prepended modules, itself, its included modules and then the ancestors of its superclass; a mixed in module comes with its own ancestors in their order and is not repeated behind a place where it already stands, an included module never comes in front of the class, prepending to a module reaches everybody who already has the module mixed in, mixing in to one class changes no other class's list except through inheritance, a copy has the same list as its original and is independent of it from then on, a cyclic inclusion is refused and changes no list, and kind_of?, <=, superclass and subclasses agree with the lists.",
 ["histories"],"every history of mixing and copying over any number of classes, modules and objects","Examples mix in one module at one place; the order of the list depends on the history, and the runtime crate is not built by the stable tests.",CL,"chain of inclusion nodes with an origin node, spliced in place and propagated to those who have the module mixed in","ancestor lists, kind_of? and <= answers, direct subclasses of every class after each step",[("pre","modules prepended"),("inc","modules included")])
p("L02","Method lookup and super follow the ancestors and are never stale",
 "After every history of defining, redefining, removing and undefining methods, changing visibilities and mixing in or copying classes and modules, with lookups in between that fill the method cache, a name resolves for each class and object to the first entry in the order of its ancestors, with the nearest visibility and the right owner; an undefined method ends the search, an entry that only changes the visibility stands for what is inherited at the time of the call, and super from any position of a body in the ancestors, also of one that occurs several times, goes to what a lookup behind that very position finds; what a class remembers of such answers (no to_str, the default !=, the =~ method) is right too.",
 ["histories"],"every history of method definitions and mixing, with lookups cached at any point before","A stale answer needs a lookup before the change and one after it, through every kind of change; the runtime crate is not built by the stable tests.",CL,"global method cache keyed by class, name and a global version; visibility entries that copy the function they stand for","function, visibility and owner found for every class, object and name; super target of every position",[("tab","method table of a class"),("cache","remembered answers")])
p("L03","Method lists and method_defined? say what a call would find",
 "After every history as for L02, instance_methods and its public, private and protected variants (own, inherited, up to Object, of singletons), undefined_instance_methods and method_defined? (inherited or own) contain exactly the names whose nearest entry in the order of the ancestors, prepended modules first, is defined with such a visibility; names undefined or differently visible nearer are left out.",
 ["histories"],"every history of method definitions, visibility changes and mixing","Lists are tried on one class with one method; shadowing between prepended modules, the class and what is included needs combination, and the runtime crate is not built by the stable tests.",["monoruby/src/globals/store/class.rs"],"walks over the same chain written separately from the lookup","fifteen lists and both forms of method_defined? of every class after each step")
p("L04","Refinements apply exactly where they are activated, the latest first",
 "For every history of refine, using, method changes and mixing, each scope's set of activated refinements is what it was plus what the used module and its ancestors offer, the used module's own in front, each refinement once; equal sets get the same identity and no set changes later; a lookup under a set prefers, at each class of the ancestors, the activated refinements of that class in order over the class's own method, continues with the unrefined class if they do not define the name, and is unaffected for other scopes and classes, however the cache was filled.",
 ["histories"],"every history of refinements, activations, definitions and lookups under any of the sets","Examples activate one refinement once; order, re-activation and caching under several sets are not tried, and the runtime crate is not built by the stable tests.",["monoruby/src/globals/store/refinement.rs","monoruby/src/globals/store/class.rs"],"interned activation sets used as cache keys","identity of every set, function found under each set for every class and name",[("sets","activation sets by identity")])
FO=["monoruby/src/executor/format.rs"]
p("P01","sprintf shows every integer exactly as its flags, width and precision say",
 "For every integer and every d, i, u, b, B, o, x and X directive, the text is the sign, the prefix of the # flag and the digits of the number, at least as many as the precision asks for, padded to the width: with blanks in front, with blanks behind under -, or with zeros behind sign and prefix under 0 when there is neither - nor a precision. + and blank give non-negative numbers a sign; without them a negative number in base 2, 8 or 16 is two dots and its two's complement digits, filled with the digit that goes on for ever. Zero has no prefix but one 0 in octal, and no digits with precision 0.",
 ["inputs"],"every integer, every set of flags, every width and precision","Examples try a flag or two on a few numbers; the rules are about their combinations, and the runtime crate is not built by the stable tests.",FO,"strings assembled branch by branch for each conversion letter","text of the field")
p("P02","sprintf shows every float correctly rounded in the notation asked for",
 "For every float and every precision, f, e and E give the decimal number nearest to the exact value (of two the even one), a and A a hexadecimal number nearest to it, and g and G the notation that the exponent of the rounded number decides on, without trailing zeros unless # asks for them; an Integer in f keeps all of its digits. The sign, also of negative zero, comes first, zeros of the 0 flag follow sign and hexadecimal prefix, and Inf and NaN are padded with blanks only.",
 ["inputs"],"every float, every set of flags, every width and precision","Rounding errors show only near ties and where a carry changes the number of digits; the runtime crate is not built by the stable tests.",FO,"formatting delegated to format! and corrected afterwards; hand-written rounding of hexadecimal digits","text of the field")
p("P03","Widths and precisions of text fields in sprintf count characters",
 "For every string and every s, p, c or {name} directive the field is the first characters of the text, no more than the precision (one for c), padded with blanks to the width in characters on the side that the - flag says, whatever the number of bytes of each character, in UTF-8 as in binary strings; c of an integer is that character of the encoding or an error if there is none.",
 ["inputs"],"every string, width and precision","Examples are ASCII or not padded; the runtime crate is not built by the stable tests.",FO,"formatter working on a character view of byte strings","text of the field, class of error")
p("P04","sprintf takes each argument from where the directive says or refuses",
 "For every format string and argument list, directives take their values, and * their widths and precisions, from the next argument, the numbered one or the named one; a negative * width means -, a negative * precision none. Mixing these ways, a second value for one directive, flags behind a width, widths behind a precision, numbers out of range, unknown directives, missing arguments and missing names are refused with the prescribed class of error, and unused arguments under $DEBUG; no format string makes the program panic or run out of memory by a number alone. Everything outside directives is copied.",
 ["inputs"],"every format string, every list of arguments","Malformed format strings are endless; examples try one of each kind, and the runtime crate is not built by the stable tests.",FO,"hand-written scanner that accepts each part at fixed places","whole result or class of error")
KO=["monoruby/src/executor/constants.rs","monoruby/src/globals/store/class/constants.rs","monoruby/src/globals/store/class.rs"]
p("L05","A constant is looked up, autoloaded and listed as its scopes and tables say",
 "For every history of assignments, autoload registrations, removals, visibility changes, deprecations and inclusions, reading a constant asks the enclosing scopes from the innermost one outward and then the class and its ancestors in their order, modules prepended to an ancestor before it, and for a module those of Object behind its own; a qualified read asks the class and its ancestors but never Object's own table behind another class. The first entry decides. An autoload entry loads its file once: while it is loading, and after it was loaded in vain, the entry does not answer; when the file raises, the entry can be tried again; when it gave no value, the entry is gone and the search goes on. Private and deprecated marks stay with the name over a change of its value, a deprecated constant warns at each read, const_defined? and autoload? tell what a read would find without loading, and Module#constants lists the names whose nearest entry is not private.",
 ["histories"],"every history of changes to the tables of classes related in any way, and every reading in between","Examples change one table and read it once; the order of scopes, ancestors and prepended modules with autoloads in different states is not tried, and the runtime crate is not built by the stable tests.",KO,"states of autoload entries kept beside values in per-class tables; several walks over the superclass chain","value, error or absence, files loaded, warnings, who had the constant, lists of names after every step")
p("L06","A class variable is shared by all below its owner, and overtaking is an error",
 "For every history of assignments, removals, inclusions and prependings, a class variable read in a class or module is that of the one among it and its ancestors that has it; if two of them have it the read is an error. Assigning changes the table of the class it is given to alone, removing answers the value and forgets it, and the names of a class are listed in the order of definition. Singleton classes have the class variables of the class they are attached to.",
 ["histories"],"every history of class variable changes and changes to the ancestors","Examples have one owner; owners that come to be ancestors of each other later are not tried, and the runtime crate is not built by the stable tests.",KO,"walk over the superclass chain that goes on behind the first owner","owner and value or error, lists of names after every step")
p("L07","A module is named once for good when a constant path leads to it from Object",
 "For every history of assigning classes and modules to constants of Object and of each other, removing constants, copying modules and giving temporary names: a module that is made a constant of Object or of a permanently named module gets the path as its permanent name, and with it everything reachable from it over constants gets the path of one of these constants. A permanent name never changes, whatever is assigned or removed later, and cannot be replaced by a temporary one. Until then a module has no name if it was never a constant, and otherwise one ending in the constant it was made first or the temporary name it was given; a copy has no name. Asking for a name ends, also when modules are constants of each other or of themselves.",
 ["histories"],"every history of constant assignments among any number of modules, cycles included","Examples name a module and one constant of it; cycles, second names and removed constants are not tried, and the runtime crate is not built by the stable tests.",KO,"names assembled from parent pointers and promoted in place","name of every module and whether it is permanent after every step")
RA=["monoruby/src/value/rvalue/rational.rs"]
p("E01","Rationals are kept in lowest terms; arithmetic and order are exact",
 "For all integers n and d with d not 0, the rational n/d is kept with a positive denominator and no common factor; sum, difference, product and quotient of two rationals are the exact ones in that form and dividing by zero is an error; comparison and equality agree with the order of the numbers; negation, absolute value, to_i (toward zero), the tests for zero and negative, to_s and inspect follow from numerator and denominator.",
 ["inputs"],"all pairs of rationals","Examples take a few positive fractions; the signs of denominators and quotients are not tried in combination, and the runtime crate is not built by the stable tests.",RA,"numerator and denominator normalized after each operation","numerator and denominator, order, equality, text")
p("E02","Rounding a rational gives the due multiple of the unit, for every mode and sign",
 "For every rational and every number of digits k, floor, ceil and truncate give the greatest multiple of 10**-k that is not above it, the least that is not below it, and the one of these two nearer to zero; round gives the nearest multiple, and of two equally near ones the one away from zero by default and for half: :up, the one nearer to zero for :down and the even multiple for :even. The result is an Integer for k <= 0 and a Rational for k > 0, and the whole value decides, not its integer part alone.",
 ["inputs"],"all rationals, digit counts and half modes","Examples round a few positive values without digits; negative values, tens and halves are not combined, and the runtime crate is not built by the stable tests.",RA,"four roundings, each with three cases of digits and a shortcut for values that have few enough","integer or rational given")
p("E03","A Float is its exact rational, and rationalize gives the simplest one in range",
 "The rational made from a finite Float is its exact value in lowest terms and turns back into the same Float. For every rational and tolerance, the simplest rational is the one with the smallest denominator, and of those the one nearest to zero, among all whose distance from the value is no more than the tolerance, both ends included; it is 0 when 0 is among them, the value itself when the tolerance is 0, and that of the negated value is its negation. The search ends.",
 ["inputs"],"all finite Floats; all rationals and tolerances","Examples rationalize decimal fractions; intervals that end at a simple number or include 0 are not tried, and the runtime crate is not built by the stable tests.",RA,"accelerated walk over mediants; repeated doubling","numerator and denominator, Float turned back")
p("U01","Seeded random numbers are MT19937's, and draws within a limit are uniform",
 "For every integer seed the words drawn are those of MT19937, seeded with the word itself when the absolute value of the seed has one word of 32 bits and by array otherwise, over any number of refills of the state. A Float in [0, 1) takes the upper 27 and 26 bits of two words; one in [0, 1] is the number of 64 bits times 2**53 + 1 over 2**64; bytes are those of the words, the lowest first, and a last word of which a part is used is used up. A number from 0 to a limit takes one word for each place from the highest that is not 0 down, masked to the bits of the limit there, and starts again as soon as it shows to be beyond the limit, so every number up to the limit is equally likely and no other comes; the count of words drawn is kept.",
 ["histories"],"all seeds and all histories of draws","Examples draw from two seeds; limits of several words, seeds of several words and refills in the middle of a draw are not tried, and the runtime crate is not built by the stable tests.",["monoruby/src/globals/prng.rs"],"state of 624 words renewed at once; rejection of draws word by word","numbers, bytes and Floats drawn, words used")
p("J01","Optimised code behaves exactly like the interpreter",
 "Every Ruby program produces the same results, output, exceptions and side-effect order whether its methods are interpreted, compiled, de-optimised midway or re-compiled after class changes.",
 ["programs","histories"],"every program and every point of compilation, invalidation and de-optimisation","No test can enumerate programs; and the JIT cannot be built in this environment.",["monoruby/src/codegen","monoruby/src/executor.rs"],"template JIT with speculative guards","program output",hook=True)
p("J02","Method lookup always reflects the current class definitions",
 "A call resolves to the method that the current class, module, refinement and visibility definitions designate, however many caches were filled before the last redefinition.",
 ["histories"],"every history of definitions, inclusions, redefinitions and calls","Inline caches depend on history; the crate cannot be built here.",["monoruby/src/globals/store","monoruby/src/codegen"],"global and inline method caches with versions","called method",hook=True)
p("J03","ensure blocks run exactly once however a frame is left",
 "Cleanup clauses run exactly once, innermost first, whether a frame is left normally, by exception, by throw, break or return, or by an asynchronous kill.",
 ["programs","fault_sequences"],"every control-flow exit at every point","Crate cannot be built here.",["monoruby/src/executor.rs","monoruby/src/bytecodegen"],"exception tables","order of cleanup effects",hook=True)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
