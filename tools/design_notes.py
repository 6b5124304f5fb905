"""Hand-written parts of DESIGN.md (assembled by gen_design.py)."""
INTRO = """# Model checking libswoc

Generated by tools/gen_design.py from tools/design_notes.py (hand-written), properties, check table, harness suites, planted
bugs and known findings.

## Approach

libswoc is a sequential C++17 library without threads, locks or persistent protocols of its own (its users do have threads: C37). What a test cannot settle is
therefore the *history* (which sequence of operations led here), the *input* (which of the many texts, sizes, addresses) and,
for the file code, the *fault* (which system call fails or is cut short). The deciding step of every check is the exhaustive
enumeration of these within stated bounds, **on the real code**: there is no separate model whose binding would have to be argued.

* **Explorer** (`mc/mc.h`, `mc/mc.cc`). A harness body takes each decision through `c.choose(n)` (next operation, argument,
  size, failing call). The explorer executes the body once for every possible sequence of answers (depth first, replaying the
  prefix: stateless exploration of the implementation). A suite is sharded on its first decisions and the shards run in
  worker processes; a crash, an ASan/UBSan report, a hang (25 s without progress) or an escaped exception is a violation
  with the decision sequence as replay file. `check.py <id> --replay FILE` executes just that sequence and prints the trace.
* **Two kinds of suites.** `MC_HISTORIES`: operation histories; every executed operation is a transition, and the
  state after it (a canonical description of everything that influences the future: contents, tree shape, block layout, ...)
  is recorded. Suites may call `c.prune(state, remaining depth)`: a history that reaches a state already explored with at least
  as many remaining operations is cut (explicit-state search with state matching on the implementation's state). Suites
  without state matching exist beside these, so that a wrong canonical form cannot hide everything. `MC_INPUTS`: products of
  input choices (bounded exhaustive input enumeration); the number of distinct outcomes guards against vacuity.
* **Oracle.** Each harness contains an independent reference model written from the documentation (sets of points, vectors of
  bytes, 128 bit integers, an own parser of each grammar, the exact decimal expansion, a model file tree...), never the
  code under test. After every operation the *whole* observable state is compared, not only the operation's result.
  Each trace of the model is therefore validated against the implementation at every step (evidence: `traces_validated_against_impl`).
* **Memory.** Everything is compiled with AddressSanitizer and bounds checks from /repo's current sources; texts and buffers are placed in storage of
  exact size, and the heap balance is measured, so that reads outside, leaks and double destruction are found as part of every property.
* **No sampling.** There is no random choice anywhere; VERIF_SEED only goes to the evidence file. A run that would exceed its deadline reports
  `capped` in the evidence rather than pretending (quick tiers take 5-60 s on 8 cores, far from the deadline).
* **Tiers.** The quick and the thorough tier run the same suites; bounds in parentheses below are those of the thorough tier.

Why this reaches what the tests cannot: the tests sample a few hand-picked histories; the bounds below cover all of them up to a depth where
every branch combination of the code has been taken (tools/mutate.py measures that: see *Mutation analysis*). Beyond
the bound the argument is symmetry (the code compares metric values, counts bytes, etc.), and is only an argument.

C37 adds schedules: a monitor of all memory accesses and a coroutine scheduler that switches between two users at accesses to shared memory.
Nothing in /repo is instrumented (no hooks; C37's instrumentation is done by the compiler); the file code's system calls are replaced at link time inside the harness of C32.

Every property is decided by this technique; none is listed as not applicable.
"""

NOTES = {
"C01": "Oracle: an array with one optional color per point. Histories from *every* content (any coloring of the metric built in three orders), so one operation explores every overlap pattern; the tree shapes suite adds every shape of the index. Lookups before the operation (none, one, all) must not matter: a planted cache of the last node found was missed until they were interleaved.",
"C02": "Oracle: the maximal runs of equal color in the array. Payload objects count constructions and destructions.",
"C03": "Oracle: cells between boundary points in both families. Boundary points include both ends of both spaces and the carry from the low to the high 64 bit word. Suite `between`: lookups, then two changes without a look, then everything (hidden caches survive a suite that looks after every step or matches states by content).",
"C04": "Oracle: sets of points. Decisions: hull, intersection and the assigning forms with any empty range form are specified; subset and adjacency of non-canonical empty ranges (max < min) are not.",
"C05": "Oracle: a sequence; the invariants (order, parent links, black height, no red-red, hull hook of every subtree) are checked in every state.",
"C06": "Oracle: list of live spans with their bytes. Sizes are chosen relative to the remaining space of the current block, so each block boundary case occurs.",
"C07": "Oracle: counters of the model and mc::heap_bytes(). Decision: static block sizes between sizeof(Block) and the rounded minimum may be refused or accepted. Discarding from an arena that no longer owns the memory is outside the contract.",
"C08": "Oracle: set of live objects, construction and destruction counts, address reuse. Constructors and destructors that use the arena themselves (nested trees) are included.",
"C09": "Oracle: std::vector, and a tracker of every element object that detects bytewise copies. Decision: a plain move of dynamic storage must keep element addresses. Assignment with throwing moves is not explored. `reserve` promises capacity and unchanged content, nothing about its exact size. `allocator_histories`: with a counting allocator of its own, which must be the one that frees.",
"C10": "Oracle: plain sequences; state matching by arrangement makes the search complete for the given number of elements (closure).",
"C11": "Oracle: per key sequence in insertion order. Hash values are chosen so that all collision patterns occur.",
"C12": "Oracle: offsets into the text. Decisions: prefix_at/suffix_at without delimiter are empty, remove_prefix_* without delimiter leaves the view unchanged, remove_suffix_* without delimiter clears it; split_prefix(n) needs n < size, split_suffix(n) needs n <= size. `octets`: every pair of octets as delimiter and text.",
"C13": "Oracle: the definition by a loop over characters.",
"C14": "Oracle: lexicographic order of unsigned octets.",
"C15": "Oracle: 128 bit value of the longest prefix of the grammar. Decisions: \"0x\" without digits is the number 0 with \"0\" parsed; base 1 is out of contract.",
"C16": "Oracle: strtod on the prefix found by a grammar automaton; tolerance 4 units in the last place. Decisions: \"5.\" is consumed with the dot, \".\" alone is no number, leading space is not skipped. `octets`: every octet at every place; a planted bug that took 0xE5 as exponent letter showed that a small alphabet is not enough for code that tests bits of characters. C26, C28, C30, C31 have suites of the same kind.",
"C17": "Oracle: index arithmetic. Decision: the position of empty spans is unspecified; of an ordering only the sign of the result counts.",
"C18": "Oracle: a byte array. Decisions: aux_data of an exactly full writer may be non-null; bytes copied from beyond the capacity are unspecified; restoring more than was restricted is out of contract.",
"C19": "Oracle: the output to a large buffer, cut. Every buffer size from 0 to the length + 1 is tried for every case. `own_arguments`, `scale`: arguments that live in the buffer written, and long outputs.",
"C20": "Oracle: a field-wise model. Decisions: sign ' ' prints no sign; octal zero with # prints \"00\"; text with numeric alignment may fill on either side; limits of UnHex/Pattern apply before alignment. `scale`: widths, precisions and texts around 2^8, 2^15, 2^16.",
"C21": "Oracle: an independent parser of the documented grammar. Decisions: the index of an unnamed specifier counts only unnamed specifiers (the tests pin that); for texts outside of the grammar only that the direct and the compiled way agree, and memory safety. One false alarm on the way: the harness's own 600 byte buffer clipped long outputs differently; it now compares the clipped text. `lengths`: every part of a format in every length up to 300 (1100).",
"C22": "Oracle: exact decimal expansion by big integer arithmetic. Decisions: integral values print without fraction and {:.0} truncates (tests pin); subnormals print a word and are excluded; the sign of zero is insignificant.",
"C23": "Oracle: list of definitions. Decisions: a rejected definition may keep the names before the duplicate; a moved-from lexicon is not examined; {:s} prints lower-case names. `handlers`: handlers for unknown names and values that keep state, throw, or define the name asked for.",
"C24": "Oracle: 128 bit integers. Exclusions: results not representable in the counter type, mixes of 64 bit unsigned with negatives; division of negatives may truncate or floor. `a.assign(round_up(other scale))` does not compile and is left.",
"C25": "Oracle: lists of annotations and expected sink calls. Decisions: move assignment over content discards it without calling sinks (pinned by tests); note(Errata const &) updates the severity (pinned); the documentation says the default failure threshold is 1, the code has 2: not specified. `busy_sinks`: sinks that create, drop and copy errata or register sinks while called; it found a defect (sinks added while the list was walked).",
"C26": "Oracle: own parser (inet_aton forms, RFC 4291) and printer (RFC 5952). Decisions: single numbers or first octets longer than 4 characters as generic address, \"0b\" numbers, bracketed IPv4, quads of more than 4 digits may be rejected but not misread; the dotted form within IPv6 is not supported and rejected.",
"C27": "Oracle: 128 bit integers. Decisions: shifts by the width or more out of contract; in_addr_t is host order in the constructor and network order in operator= (as implemented and tested).",
"C28": "Oracle: own range parser and integer intervals. Decisions: masks in other bases, with zeros or space may be rejected, never out of range; a backwards range is empty whether accepted or not; an empty range prints \"*-*\"; ends of different families make the range invalid.",
"C29": "Oracle: greedy minimal decomposition over exact integers; the quantity of networks, their masks and order are compared.",
"C30": "Oracle: own parser and raw socket address structures. Decisions: tokens of text with an unclosed bracket are unspecified; IPv4 in brackets and inner space may be rejected; a failed load leaves the value unspecified; comparing different families, only consistency (a strict order, not equal) is required. `reused`: an assignment leaves no byte of what was there before.",
"C31": "Oracle: string operations. Decisions: the parent of a bare name is empty; join keeps existing separators; relative_path strips all leading separators.",
"C32": "Oracle: a model file tree; after every operation the whole scratch tree is compared. Runs as uid 61234 in a scratch directory of its own; the C library functions that reach the file system are replaced in the harness by ones that fail or return short counts on demand, so every single (pair of) fault(s) of every operation is explored, including the requirement that a failed operation reports an error. A planted bug (c32-short-write) showed a hole of the first version: cases whose fault hit after the operation had begun were skipped as \"not fresh\"; they are compared now. Decisions: remove_all of a missing path may be ok or an error; create_directory of an existing one may return either; copying a file on itself leaves it unchanged. Not explored: close errors, concurrent changes, fifos, paths ending in dots.",
"C33": "Oracle: a model of path resolution with stat/realpath semantics. Decisions: type after ENOTDIR unspecified; \"dir/..\" of an unsearchable dir is C library specific.",
"C34": "Oracle: FNV-1a by multiplication over octets; published values; element-wise transformation.",
"C35": "Oracle: the C library's names and times, and a model of the field. Decisions: names of unused error numbers 41 and 58, the case of messages (not names) with type s; the empty date format; limits of Pattern and UnHex before or after placing are unspecified.",
"C36": "Oracle: a model of the documented extension letters. Decisions: radix prefixes and signs of elements, invalid families together with a port, parts selected for values that lack them are unspecified.",
    "C37": "Oracle: the result of the same operation run alone, and the record of every load and store of the real code (compiled with -fsanitize=thread against the runtime of mc/monitor.cc, which replaces the sanitizer's): two operations of different users must not touch the same byte with one of them writing, unless both are atomic, both hold the same mutex or one is the guarded initialisation of a static. The controlled scheduler also executes each pair with the first one preempted at every one of its accesses to memory not private to it, the second running to its end (quick) or also only up to four places (thorough). Decisions: memory first allocated inside a guarded initialisation is shared; library functions are intercepted with the range they write in the caller's memory and, for those that keep hidden state (localtime, getpwnam ..), with that state; the documented global settings (default format names, default severity, annotation) are set before and never during.",
    "C38": "Oracle: each scope of the harness remembers the model value to return to. The programs are real nested scopes (recursion), so exceptions really unwind them.",
}
