"""What each check establishes and under which bounds (MANIFEST level_note)."""
_MAP = ("spec/OrderedMap.tla. Quick: every transition of the small scope (12 key objects with equal, colliding and "
        "unrelated hashes; maps of 0..10 entries around the linear/indexed switch at 8; depth %s) replayed in the real code, "
        "plus %s recorded random histories of 40 operations over up to 60 key objects. Holds for those bounds; key eql/hash consistency is assumed.")
NOTES = {
    "M01": {"note": _MAP % ("2", "1800")},
    "S01": {"note": _MAP.replace("OrderedMap", "OrderedSet") % ("2", "1800") + " A third of the histories plan hash or eql failures."},
    "M02": {"note": "spec/OrderedMap.tla with planned failures of hash and eql of chosen key objects; 2500 recorded histories of 40 operations, half of the operations with a failure planned. The specification computes which failures must surface and that nothing changes.", },
    "M03": {"note": _MAP % ("4", "1500") + " Inserting new keys in an open window is barred by the code's documented contract and not exercised."},
    "M04": {"note": _MAP % ("2", "1500")},
    "M05": {"note": _MAP % ("2", "1500")},
    "M06": {"note": _MAP % ("3", "1500")},
    "M07": {"note": _MAP % ("3", "1500")},
    "M08": {"note": _MAP % ("3", "1000")},
    "M09": {"note": _MAP % ("3", "1500")},
}
_HASH = ("spec/%s.tla decides %s recorded random histories of 43 operations over up to 60 keys (unrelated, same-bucket, same-tag, wrapping and equal hashes); "
         "elements are tracked from birth to drop. Holds for those bounds; equality/hash consistency is assumed.")
NOTES.update({
    "H01": {"note": _HASH % ("HashTable", "700") + " spec/RawTable.tla (control bytes, probing, tombstones) is checked exhaustively for small tables with groups of 2 and 4 and refines the bag; 40 steered walks of it with 16-byte groups are replayed in the real table."},
    "H02": {"note": _HASH % ("HashTable", "800") + " Histories are steered to full tables and in-place clean-ups."},
    "H03": {"note": _HASH % ("HashMap", "900")},
    "H04": {"note": _HASH % ("HashSet", "900")},
    "H05": {"note": _HASH % ("HashTable and HashMap", "500 + 500")},
    "H06": {"note": _HASH % ("HashTable, HashMap and HashSet", "500 + 400 + 400") + " Half of the operations plan a failure of one callback (comparison error or panic, hash, predicate, clone or destructor panic)."},
})
_GC = ("spec/GcHeap.tla decides %s recorded histories of 60-70 operations (groups of 1 to 8100 cells, interleaved pages, references, roots, minor and full collections) and %s of 500; "
       "spec/GcMark.tla (remembered set, barrier, ageing) is checked exhaustively for 3 objects and refines it; 60 steered walks of it are replayed. The allocator is the real one; the object is a 64-byte stand-in, since the runtime cannot be built.")
NOTES.update({
    "G01": {"note": _GC % (700, 35)}, "G02": {"note": _GC % (500, 25)}, "G03": {"note": _GC % (700, 35)},
})
NOTES.update({
    "F01": {"note": "spec/Glob.tla defines the pattern language (as the module documents it). Every pattern and name over five small alphabets up to the lengths in the evidence, and 2500 random patterns with 12 derived names and 6 flag sets each. Where CRuby might differ from the module's own text, the text is followed."},
    "F02": {"note": "spec/Glob.tla defines expansion. Every text over { } , backslash and a letter up to length 6 and 4000 random longer ones."},
    "A01": {"note": "spec/GpAlloc.tla interprets the emitted actions against direct execution: all programs of two instructions over 2 slots, 20000 random programs of up to 14 instructions over up to 9 slots, 1000 register-file histories of 50 operations. spec/MC_GpAlloc.tla checks the scheme for programs of any length over small slot and register counts. The online driver inside the code generator cannot be built; its register file is exercised directly."},
    "Q01": {"note": "spec/Sort.tla decides all arrays of up to 5 elements of 3 keys with a failure at every comparison, 1500 arrays of up to 70 and 60 of up to 400 elements with consistent, arbitrary and failing comparators. spec/MergeSort.tla checks the method exhaustively for small arrays, any comparator, a failure at any comparison."},
    "V01": {"note": "spec/IvarTable.tla decides all histories of 3 operations from capacities 0 to 3 and 1000 random histories of 40 operations on up to 4 tables, with memory that is junk when fresh, always moves and is guarded. spec/GrowTable.tla checks the growing scheme."},
    "I01": {"note": "spec/Interning.tla decides 60 single-threaded histories of 150 operations and 60 four-thread ones of 480, each followed by a sweep over all identifiers. spec/InternRace.tla checks the locking scheme for 3 threads. Thread interleavings of the real code are those the machine happens to produce."},
})
_SCHED = " The code runs under a controlled scheduler (harness/vstd) that decides every interleaving of its atomic, lock, thread and timer steps; sequential consistency is assumed."
NOTES.update({
    "W01": {"note": "spec/PollFlag.tla decides, through spec/Linear.tla, the histories of 16 lane, 40 registration and 192 timer programs of 2-4 threads: every interleaving with at most 2-3 forced switches and 1-2 timer expiries. spec/PreemptTimer.tla checks the timer's start/stop scheme for 8 changes." + _SCHED},
    "W02": {"note": "spec/PollFlag.tla decides every interleaving (2 forced switches) of 16 programs of signal handlers with a draining poller, and the tables for every signal number and many pending sets. spec/MC_PollFlag.tla checks the record-then-arm / clear-then-take protocol exhaustively, liveness included." + _SCHED},
})
_IO = (" value/rvalue/io.rs and io/buf.rs are compiled as they are; read, write and lseek of the stream's descriptor are answered by the harness "
       "following plans of short counts, EINTR with and without a signal, EAGAIN and hard failures; the retry loop of the built-in methods is repeated by the harness.")
_TH = (" The scheduler runs unchanged, with real stack switches, around stand-ins for the interpreter; the clock and descriptor readiness are the "
       "harness's. Fibers inside threads, timeslice preemption points inside Ruby code and forks from other threads than main are not exercised.")
NOTES.update({
    "T01": {"note": "spec/Sched.tla states what each scheduler call may do and which thread runs next; it decides every program of 4 (thorough 5) calls from a menu of sleep/wake calls, and 4000 random programs of up to 5 threads. spec/MC_Sched.tla explores the specification itself with 3 threads." + _TH},
    "T02": {"note": "spec/Sched.tla decides every program of 4 (thorough 5) join/kill/raise/sleep calls from a menu and 3200 random programs; spec/MC_Sched.tla explores the specification with 3 threads." + _TH},
    "T03": {"note": "spec/Sched.tla decides every program of 4 (thorough 5) calls from two menus of interrupts and masks and 2800 random programs; spec/MC_Sched.tla explores the specification with 3 threads." + _TH},
    "T04": {"note": "spec/Sched.tla decides every program of 4 (thorough 5) calls from a menu of descriptor waits, limits and wakeups and 3600 random programs; spec/MC_Sched.tla explores the specification with 3 threads and one descriptor." + _TH},
    "N01": {"note": "spec/NativePool.tla checks the announce/drain/take scheme for 3 callers with 2 calls each and abandonment, liveness included; spec/Trace_Native.tla decides 128 programs under up to 100 interleavings each of callers with workers." + _SCHED},
    "B01": {"note": "spec/IoBuffers.tla checks the buffering scheme (read-ahead, put-back, write buffer, one descriptor offset) against spec/IoStream.tla for all sequences of 5 (thorough 8) operations with short and refused calls; spec/Trace_IoStream.tla decides every short history of written streams and 8000 random ones of 20 operations." + _IO},
    "B02": {"note": "spec/IoBuffers.tla as for B01; spec/Trace_IoStream.tla decides every short history of read streams and 8000 random ones of 20 operations, lines, paragraphs, limits, un-reads and seeks included." + _IO},
})
_RH = (" value/rvalue/hash.rs is compiled as it is on top of the real rubymap; Value, RValue, the write barrier and the collector are stand-ins. Keys are immediates, strings and objects "
       "whose hash and eql? are user code that collides and may raise; key objects are not mutated while they are keys, and user code does not itself change the hash.")
NOTES.update({
    "R01": {"note": "spec/HashRep.tla (inline pairs, boxed entries, dead entries, traversal bits) refines spec/RubyHash.tla over its whole state space with 4 keys; spec/Trace_RubyHash.tla decides every history of 2 (thorough 3) of 23 operations from 10 first states and 4000 random ones of 40 operations over 3 hashes and up to 32 keys: answers, all pairs, lookups of every key, defaults, modes, what is marked, written back and read by generated code." + _RH},
    "R02": {"note": "spec/HashRep.tla as for R01, with nested traversals; spec/Trace_RubyHash.tla decides 4000 random histories of 40 operations with up to 6 nested traversals, ended innermost first." + _RH},
    "R03": {"note": "spec/Trace_RubyHash.tla compares the digests of all hashes of a history that the specification calls equal, eql? answers, and lookups in a hash keyed by hashes; 4000 random histories of 40 operations." + _RH},
})
_ST = (" value/rvalue/string.rs (with its encoding and pack submodules) is compiled as it is; objects live in a stand-in two-generation collector with a write barrier that poisons freed "
       "buffers, and the inline capacity is 6 bytes so that sharing starts early. The builtins above the string type (builtins/string.rs) are not built. UTF-16 and UTF-32 are units of two and four bytes as in the code: surrogates are not paired.")
NOTES.update({
    "X01": {"note": "spec/StrRange.tla takes every pair of strings (3 and 2 bytes, thorough 4 and 3) over ASCII, lead and trail bytes in 5 kinds of encodings with right caches through every rule that carries a cache over; spec/Trace_RString.tla decides 1600 random histories of 40 operations over 5 strings in 12 encodings, with the cached class read after every step." + _ST},
    "X02": {"note": "spec/StrShare.tla (owners, views, hidden roots, freezing, copy-on-write, write barrier, minor and full collections) is explored completely for 4 objects and 2 names; spec/Trace_RString.tla decides 4000 random histories of 40 operations with collections after any of them: bytes and encoding of every string, roots alive and unmoved." + _ST},
    "K01": {"note": "spec/Pack.tla states both directions as functions; spec/Trace_Pack.tla decides 1600 batches of 40 calls with random templates, values and bytes. spec/MC_Pack.tla checks the round trip for every template of up to 2 (thorough 3) of 21 directives with values at the limits of their widths, and single floats for edge bytes. The pointer directives p and P, the U0/C0 modes, @* in unpack, integers beyond 64 bits in directives of fixed width, results below the normal singles, and bit strings shorter than their count are left out. The conversions of foreign objects are stand-ins."},
    "K02": {"note": "spec/Pack.tla and spec/Trace_Pack.tla decide the reading of every short string over six alphabets (base 64 of up to 5 letters, UTF-8 of up to 3 of 15 edge bytes, and so on; one longer in thorough), integers around every power of two up to 2^77, lines of 21 counts and 19 data lengths, and 800 random batches of 40 calls. Of quoted-printable it is only required that the text is printable, short-lined and leads back to the data. Malformed quoted-printable and uuencode input, and an incomplete last BER or LEB number are left open."},
    "X03": {"note": "spec/Trace_RString.tla decides length, characters, reversal and scrubbing of every string of up to 2 (thorough 3) of 22 edge bytes in 10 encodings, of every lead byte followed by 2 (thorough 3) of them in the multi-byte encodings, and 1600 random histories of 40 operations with character and byte offsets, spans from either end and single-character substrings." + _ST},
})
_CL = (" globals/store.rs, class.rs and its submodules, refinement.rs, basic_op.rs and value/rvalue/module.rs are compiled as they are; functions, Value and RValue are stand-ins without a collector, and the builtins' "
       "argument handling is not built. Including into a module that is already included elsewhere is a snapshot, as in the code (CRuby since 3.0 propagates it); singleton classes of classes are copied by dup but not driven further; removing the entry left by undef is left open.")
NOTES.update({
    "L01": {"note": "spec/Classes.tla states the lists as regions; spec/MC_Classes.tla checks over every history of 3 (thorough 5) inclusions and prependings among 3 modules, a class, its subclass and a singleton class that nothing is lost or moved, superclass lists stay tails, prepended modules come before and included ones behind. spec/Trace_Classes.tla decides every sequence of 3 (thorough also 4) of 24 mixing operations and 800 random histories of 30 steps." + _CL},
    "L02": {"note": "spec/MC_Classes.tla checks over every history of 2 (thorough 3) definitions, removals, visibility changes and inclusions that the answer is the nearest entry and that super goes downward; spec/Trace_Classes.tla decides 480 random histories of 30 steps, each followed by the lookup of every name for every class and object, partly repeated through the cache, super from every position of every body, and what each class remembers about !=, to_str and =~." + _CL},
    "L03": {"note": "spec/MC_Classes.tla (invariant Agree): the lists are what the lookup says; spec/Trace_Classes.tla decides 800 random histories of 30 steps with fifteen lists and method_defined? of every class and name after each step." + _CL},
    "L04": {"note": "spec/MC_Refine.tla checks over every history of 5 (thorough 6) refinements, activations and definitions that sets are fixed and distinct, the last used module wins, and nothing else is affected; spec/Trace_Classes.tla decides 800 random histories of 30 steps with the lookup of every name under every set." + _CL},
})
_FO = (" executor/format.rs is compiled as it is; values, hashes, encodings and the conversions of foreign objects are stand-ins (strings are not parsed as numbers, Rationals and Float#to_s are not driven).")
NOTES.update({
    "P01": {"note": "spec/Format.tla states sprintf as a function of format string and arguments, with numbers as bits. spec/MC_Format.tla checks that all texts of small integers (every flag set, widths up to 6, precisions up to 4; thorough 9 and 6) read back as the number, are as wide as asked for and lie on the right side. spec/Trace_Format.tla decides every flag set with four widths, five precisions and five letters on twelve integers (38 400 calls) and 32 000 random calls with integers of up to 80 bits." + _FO},
    "P02": {"note": "Floats are exact decimal numbers in spec/Format.tla (digits of m * 5^k). spec/MC_Format.tla checks for all m * 2^e with m up to 12, e from -5 to 4 (thorough 80, -6) and precisions up to 4 that the text is nearest, g shows the same digits as e and widths and signs are right. spec/Trace_Format.tla decides 32 000 random calls: few and many digits, ties, nearly ties, numbers just below powers of ten, all ones, the ends of the range, Inf, NaN. How a halfway case of a with a precision is rounded, and whether its carry is shown as 0x2 or as 0x1 with the next exponent, is left open." + _FO},
    "P03": {"note": "spec/MC_Format.tla (TextField) checks all texts of up to 3 (thorough 5) characters; spec/Trace_Format.tla decides 64 000 random calls with characters of one to four bytes, combining ones and binary strings, some found by name. c of surrogates and the EUC-JP and Shift_JIS forms of c are left out." + _FO},
    "P04": {"note": "spec/MC_Format.tla checks for every format string of up to 5 (thorough 6) of 12 characters and every sequence of up to 4 whole directives that arguments are taken one way, spare arguments make no difference and text behind is copied; spec/Trace_Format.tla decides 32 000 random calls with several directives in each way, partly mixed, 32 000 format strings of random pieces, and numbers beyond 31, 32 and 64 bits and fields of 65 540 characters. Left open: a directive cut off at the end, a percent sign in front of a line end, flags or a precision behind N$ that others precede, surplus arguments beside a hash of names, and which error comes first when ways are mixed." + _FO},
})
_KO = (" executor/constants.rs and the tables are compiled as they are; files, warnings and the evaluation of required code are stand-ins that follow a plan drawn for each read.")
NOTES.update({
    "L05": {"note": "spec/Constants.tla states tables, autoload states and the order of search over the ancestors of spec/Classes.tla. spec/MC_Constants.tla checks over every history of 3 steps in a class, its subclass, a module and Object that a found value stays found, files are loaded at most once, failures can be retried and lists agree with lookups. spec/Trace_Constants.tla decides 400 random histories of 40 steps with all probes of every class and name after each; const_missing and threads are left out." + _KO},
    "L06": {"note": "spec/MC_Constants.tla (What = var) checks over every history of 5 (thorough 6) steps that the owner is among the ancestors, overtaking is found exactly when there are two and nobody else's table changes; spec/Trace_Constants.tla decides 400 random histories of 30 steps, read in every class and through objects after each. Class variables of Object itself are not driven: the code lets modules see them, which Ruby does not." + _KO},
    "L07": {"note": "spec/Naming.tla states which names are prescribed and which are left open; spec/MC_Naming.tla checks with three modules over every history of 6 (thorough 8) steps, taking every choice, that names for good are kept, closed under constants, lead to their modules, are distinct when given and no longer than there are modules. spec/Trace_Naming.tla decides 1200 random histories of 30 steps. Of makeshift names only the end is prescribed, and what several constants of one module make of the name is left open." + _KO},
})
_RA = (" rational.rs is compiled as it is with a 128-bit stand-in for BigInt, so numbers beyond that are not driven.")
NOTES.update({
    "E01": {"note": "spec/Rational.tla states the numbers and their arithmetic; spec/MC_Rational.tla checks lowest terms, the laws of a field and the order for every two rationals with |n| <= 12, d <= 6 (thorough 30 and 12). spec/Trace_Rational.tla decides all operations on every two with |n| <= 6, d <= 5 (thorough 12, 8) and 50000 (thorough a million) random ones with |n| <= 1500, d <= 60." + _RA},
    "E02": {"note": "spec/MC_Rational.tla checks for |n| <= 60, d <= 12 (thorough 300, 40) and k in -2..2 that the results are multiples of the unit on the due sides, nearest, odd and tie-broken as the mode says. spec/Trace_Rational.tla decides every rounding with |n| <= 60, d <= 10 (thorough 400, 20), k in -2..2 and 50000 (thorough a million) random ones with k in -4..3." + _RA},
    "E03": {"note": "spec/Rational.tla takes the first denominator with a numerator in range; spec/MC_Rational.tla checks it against the continued fractions of both ends for |n| <= 30, d <= 8 (thorough 60, 12). spec/Trace_Rational.tla decides every small value and tolerance and 50000 (thorough a million) random ones, and Floats m * 2**e with e down to -115. The default tolerance of Float#rationalize is computed outside this module and not covered; nor is to_f of numbers over 1020 bits." + _RA},
})
NOTES.update({
    "U01": {"note": "spec/Prng.tla states MT19937 with words of two 16-bit halves; spec/MC_Prng.tla checks its published outputs (the first and the 10000th by seed 5489, the first four by array) and, with words of 2 bits, that for every limit of three words each number comes from equally many draws. spec/Trace_Prng.tla decides 24 (thorough 288) random histories of 40 draws, through the global generator and through the functions used by Random, refills included. Seeds of several words of which the highest is 1 are left out: Ruby drops that word, the code does not say so. builtins/random.rs itself is not compiled; prng.rs is, with a 128-bit stand-in for BigInt."},
})
_JIT = ("The interpreter, compiler and code generator cannot be built offline (git dependencies monoasm, onigmo-regex and prism are "
        "not in the cache), so no execution can be recorded or replayed; a specification without binding to the code would decide nothing.")
NOT_APPLICABLE = {"J01": _JIT, "J02": _JIT + " The class tables themselves, their lookup and their global cache are decided by L02; what remains here is the inline caches and guards of generated code.", "J03": _JIT}
