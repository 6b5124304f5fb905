"""Table of checks: property id -> harness sources, level, bounds.  MANIFEST.json is generated from it (tools/gen_manifest.py)."""
CHECKS = {}
NOT_APPLICABLE = {}


def check(id, sources, level, technique, bound, note, rule=None, assumptions=()):
    CHECKS[id] = dict(sources=sources, level=level, technique=technique, bound=bound, note=note, rule=rule, assumptions=list(assumptions))


check("C01", ["c01_space.cc"], "model_checking",
      "explicit-state exploration of the real DiscreteSpace over all operation histories within bounds, pointwise reference model",
      "metric of 3-8 values (15 for tree shapes), 2 colors, 6 blend functions; 1 operation from every content, 3-4 operations from empty, 2 on native types at their limits",
      "Every content of a small metric and every operation on it is executed on the real code; larger metrics and histories are covered by the "
      "symmetry argument only (the code compares and steps metric values).")


check("C02", ["c02_space.cc"], "model_checking",
      "explicit-state exploration of the real DiscreteSpace; full listing, all range queries and payload lifetime compared with a reference model in every state",
      "metric of 3-6 values (13 for tree shapes), 2 colors, 6 blend functions; 1 operation from every content, 3 operations from empty, 2 operations from every insertion order of 5-6 ranges",
      "All contents and all operations within the bound run on the real code with all queries; larger spaces only by the symmetry argument.")


check("C03", ["c03_ipspace.cc"], "model_checking",
      "explicit-state exploration of the real IPSpace/IPRangeSet over all histories on boundary addresses, cell model of both address spaces as oracle",
      "3-6 boundary points per family, histories of 2-4 (5 thorough) operations, state matching by content",
      "All histories within the bound on addresses at the ends of both spaces and at the 64 bit carry; find is checked in every cell.")


check("C04", ["c04_range.cc"], "exploration",
      "exhaustive enumeration of all pairs and triples of small ranges, set-of-points oracle",
      "metric of 5-8 values wrapping at its limits, int8_t and uint32_t at their limits",
      "Exhaustive over all order types of two ranges, including both ends of the metric.",
      rule="all ranges, pairs and triples of ranges over a small universe of metric values; a case is non-trivial and distinct by its end points and classification")


check("C05", ["c05_rbtree.cc"], "model_checking",
      "explicit-state exploration of the real tree node code over all insert/remove histories, matched by tree shape; invariant checked in every state",
      "all trees of up to 12 (15) nodes reachable in 26 (32) operations; larger trees of up to 40 (64) nodes with all pairs of removals",
      "Exhaustive over all reachable shapes within the node bound; the nodes are driven the way the range space drives them.")


check("C06", ["c06_arena.cc"], "model_checking",
      "explicit-state exploration of the real MemArena over all operation histories within bounds, matched by block layout; every live span re-read after each operation",
      "histories of 5 (6) out of 18 and 4 (5) out of 29 operations over 5 arenas; all sizes up to 130 and page boundaries with alignments 1 to 64",
      "Exhaustive within the bound on the real code; sizes are chosen relative to the remaining space so that each block boundary case occurs.")


check("C07", ["c07_arena.cc"], "model_checking",
      "explicit-state exploration of the real MemArena over all operation histories within bounds; counters compared with a reference model and the heap measured",
      "histories of 5 (6) out of 18 and 4 (5) out of 29 operations over 5 arenas, 6 (7) on a self contained arena, 45 x 45 size hints",
      "Exhaustive within the bound on the real code, including heap use at the end of every history.")


check("C08", ["c08_fixed.cc"], "model_checking",
      "explicit-state exploration of the real FixedArena over all make/destroy histories, matched by the arrangement of live and reusable storage",
      "8 (9) operations on two pools in one arena, 12 (14) operations with up to 5 (6) live objects on one, 6 (8) on owning pointers",
      "Exhaustive within the bound; constructions and destructions are counted per object.")


check("C09", ["c09_vectray.cc"], "model_checking",
      "explicit-state exploration of the real Vectray over all operation histories on two containers, std::vector as model, every element tracked from construction to destruction",
      "6 (7) of 20 operations with inline capacities 1 and 2, 5 (6) with 3 and over-aligned elements, 4 (5) of 24 with throwing element constructors",
      "Exhaustive within the bound on the real code with element types that detect bytewise copies and unbalanced destruction.")


check("C10", ["c10_dlist.cc"], "model_checking",
      "explicit-state exploration of the real IntrusiveDList to closure over all arrangements of a few elements in two lists, plain sequences as model",
      "4 (5) elements, two lists, histories up to 11 (12) operations with state matching; all histories of 4 (5) operations on 3 elements without",
      "Every operation is executed from every reachable arrangement; links, counts, both iteration directions and kept iterators are checked after each.")


check("C11", ["c11_hashmap.cc"], "model_checking",
      "explicit-state exploration of the real IntrusiveHashMap over all operation histories with chosen hash values, per-key insertion order as model",
      "5 elements, 3 keys, 5 hash patterns, 4 table sizes: histories of 5 (6) of 13 operations with state matching, 4 (5) of 9 without; all insert orders of 6 (8) elements under 6 expansion policies",
      "Exhaustive within the bound; hash values are chosen so that every bucket collision pattern of the keys occurs before and after expansion.")


check("C12", ["c12_slice.cc"], "model_checking",
      "explicit-state exploration of the real TextView: every operation and operation sequence on every short text, offsets into the text as model",
      "all texts of up to 5 (6) characters over 4 with 18 operation families and all sizes, delimiters and predicates; all sequences of 3 (4) operations on texts of up to 4 (5) characters over 2",
      "Exhaustive within the bound; texts lie in exactly sized storage so that a read outside is detected.")


check("C13", ["c13_trim.cc"], "exploration",
      "exhaustive enumeration of all short texts with every trim, search, prefix/suffix test, transform view and stream width, direct definition as oracle",
      "texts of up to 5-7 (7-9) characters over 4; all character pairs; all widths up to 30",
      "Exhaustive within the bound on the real code; texts lie in exactly sized storage so that a read outside is detected.",
      rule="all texts up to a length over an alphabet with blanks, letters, nul and high bytes, times every operation argument; a case is distinct by text, operation and argument")


check("C14", ["c14_compare.cc"], "exploration",
      "exhaustive enumeration of all pairs and triples of short texts and spans, lexicographic order of unsigned bytes as oracle",
      "pairs of texts of up to 3 (4) characters over 7, all pairs of bytes, all triples of texts of up to 2 characters, spans of up to 3 elements of 1-8 bytes",
      "Exhaustive within the bound on the real code.",
      rule="all pairs (triples) of texts up to a length over an alphabet with both cases, nul and high bytes; a case is distinct by its operands")


check("C15", ["c15_toint.cc"], "exploration",
      "exhaustive enumeration of numeric texts, digits, bases and limits against a wide integer grammar model",
      "texts of up to 4 (5) characters over 14 with 8 bases, up to 6 (8) over 6 without base; all 256 characters as digit of all 35 bases; all values around the limits in every base",
      "Exhaustive within the bound on the real code.",
      rule="all texts up to a length over blanks, signs, prefixes and digits, and all renderings of values around every limit in every base; a case is distinct by text and base")


check("C16", ["c16_todouble.cc"], "exploration",
      "exhaustive enumeration of decimal texts from a grammar, the correctly rounded value of strtod and a grammar automaton as oracle",
      "texts of up to 5 (7) characters over 9; all combinations of 16 whole parts, 10 fractions, 31 exponents; 24 mantissas with all exponents -345..310; digit pairs at distances up to 25 (40)",
      "Exhaustive within the bound; values must be within 4 units in the last place, infinities included.",
      rule="all texts up to a length and all combinations of lists of sign, whole, fraction, exponent and tail; a case is distinct by text")


check("C17", ["c17_memspan.cc"], "model_checking",
      "explicit-state exploration of the real MemSpan: all slicing sequences, and all small spans with every re-typing, alignment, copy and construction, index arithmetic as model",
      "2 (3) of 11 slicing operations with 9 sizes on spans of up to 4 elements of 7 types; all spans of up to 33 bytes re-typed, up to 70 bytes at 34 offsets aligned, 6-element copies",
      "Exhaustive within the bound on the real code; storage is of exact size so that an access outside is detected.")


check("C18", ["c18_writer.cc"], "model_checking",
      "explicit-state exploration of the real buffer writers over all operation histories, a byte array (fixed) or the full output (local, arena) as model",
      "13 operation kinds with all arguments on capacities 0..4 (5), 4 (5) operations with state matching; 4-6 operations on local writers, 4 (5) on arena writers in 16 arena states",
      "Exhaustive within the bound on the real code; every byte of the buffer is compared after each operation and the storage is of exact size.")


check("C20", ["c20_format.cc"], "exploration",
      "exhaustive enumeration of the product of specifier fields with boundary values of every type, a field-wise model of the output as oracle",
      "11 fill/alignments x 4 signs x prefix x zero x 4 widths x 3 precisions x 3 maxima x 12 types (5 widths and maxima in the thorough tier) on 5-12 boundary values of 5 (10) integer types, 7 texts, booleans, characters, pointers, spans; all 8 and 16 bit integers in 18 styles",
      "Exhaustive over the listed values of each field, all combinations; exact text expected, where numeric alignment of text may fill on either side.",
      rule="the product of listed values for each specifier field, times boundary values of each type; a case is distinct by its style text")


check("C22", ["c22_float.cc"], "exploration",
      "exhaustive enumeration of decimal and binary fraction grids, magnitudes and specifier fields; the exact decimal expansion as oracle",
      "all decimal fractions of up to 4 (5) digits with 8 whole parts and 8 precisions, all binary fractions of up to 7 (10) bits with 22 precisions, values around all powers of two and ten with 20 precisions up to 1075, 39600 styles on 15 values",
      "Exhaustive within the bound; the text has to be the exact value cut at, or one unit above, the last place.",
      rule="grids of values times precisions, and the product of specifier fields; a case is distinct by grid row or style")


check("C19", ["c19_clip.cc"], "exploration",
      "exhaustive enumeration of formats and values printed to buffers of every size; the output to a large buffer as oracle",
      "1920 styles on 7 core types, 21 styles on 28 types, formats of up to 3 (4) of 12 parts in 4 ways of printing, each with every buffer size from 0 to the length plus 1, two start positions, restricted capacity and 4 arena states",
      "Exhaustive within the bound; buffers are of exact size, withheld bytes are compared.",
      rule="the product of specifier fields times types, and all part sequences; each case is run on every buffer size; a case is distinct by format and value")


check("C21", ["c21_parse.cc"], "exploration",
      "exhaustive enumeration of format strings, printed directly and compiled, against an independent parser of the documented grammar; all assignment histories of name maps",
      "all format strings of up to 6 (7) characters over 8, of up to 4 (5) of 17 parts with 0-2 arguments, all style texts of up to 5 (6) characters over 14, all byte pairs in 8 places, 19 indexes at integer limits, 4 (5) name assignments",
      "Exhaustive within the bound; for texts outside of the grammar only agreement of both ways and memory safety is required.",
      rule="all texts over an alphabet of the grammar's characters up to a length, and all byte pairs; a case is distinct by its text")

check("C23", ["c23_lexicon.cc"], "model_checking",
      "exhaustive enumeration of all definition, default and move histories of the real lexicon against a list of definitions, all lookups, iterations and counts checked after every step",
      "all sequences of 2 definitions with up to 3 of 4 (6) names, of 3 with up to 2, 4 (6) operations with defaults and moves; all constructors and pairs of default kinds; all sizes up to 160 (400) values with 3 names; all pairs of name characters",
      "Exhaustive within the bound; a rejected definition may keep the names before the duplicate.")

check("C24", ["c24_scalar.cc"], "exploration",
      "exhaustive enumeration of counts around zero, multiples of scale ratios and type limits for all pairs of 10 scaled types, every operation against exact 128 bit integer arithmetic",
      "10 x 10 scale and counter types, all pairs of about 200 (300) counts each plus the counts next to equality; all operations with 7 operands; rounding of plain integers of 5 types",
      "Exhaustive within the bound; results that the counter type cannot hold are excluded.",
      rule="all pairs of types and counts of the first; within a case all counts of the second; a case is distinct by types and count")

check("C25", ["c25_errata.cc"], "model_checking",
      "exhaustive enumeration of all operation histories of two real errata and of results with errata against lists of annotations and expected sink calls, all observers checked after every step",
      "all sequences of 4 (5) of 21 operations on either of two errata (3 in two more settings of thresholds), all constructors with all severities, codes and thresholds, notes of all lengths up to 600 (1200) twice, all glue settings with up to 2 (3) notes of 4 kinds and 3 levels, 4 (5) operations of 16 on results",
      "Exhaustive within the bound; two sinks record what they get, compared after every step.")

check("C26", ["c26_iptext.cc"], "exploration",
      "exhaustive enumeration of texts and of address bit patterns, loaded and printed, against an independent parser of the address grammars and an independent canonical printer",
      "all texts of up to 6 (7) characters over 9 and up to 7 (8) over 8, all bytes at all places of 6 addresses, all sequences of up to 4 (5) of 20 numbers and of up to 9 (10) of 4 quads, all addresses with octets of 12 (20) and quads of 4 values in all compressed forms",
      "Exhaustive within the bound; forms outside of the standards (single numbers or long octets as generic address, bracketed IPv4, quads with more than 4 digits) may be rejected, but not be misread.",
      rule="all texts and part sequences up to a length, and the product of field values; a case is distinct by text or address")

check("C27", ["c27_ipops.cc"], "exploration",
      "exhaustive enumeration of addresses around all powers of two, all pairs, all shift and mask widths, all classes of networks, against exact 32 and 128 bit integers",
      "all IPv4 addresses around every power of two and their pairs, IPv6 addresses around every one of 128 powers of two and their pairs, addresses with any two bits set paired with these (with each other), all shift and mask widths, 37 generic addresses of both families and invalid in all pairs, all 65536 first 16 bits for classification",
      "Exhaustive within the bound; shifts by the width of the address or more are out of contract as for integers.",
      rule="grid of values around powers of two, in all pairs; a case is distinct by its first address")

check("C28", ["c28_iprange.cc"], "exploration",
      "exhaustive enumeration of range texts and of pairs of addresses, loaded, printed and probed, against an independent parser of the range grammar and exact integer intervals",
      "all texts of up to 6 (7) characters over 8 and up to 7 (8) over 7, all texts of two of 20 addresses with 8 separators and 7 tails, all masks of up to 4 (5) digits or of up to 4 (5) other characters on 8 addresses, mask numbers around powers of two in 4 bases, all pairs of addresses around octet boundaries of either family with 11 probes and addresses of the other family, all mask widths",
      "Exhaustive within the bound; masks in other bases, with leading zeros or space may be rejected, but not be out of range; a backwards range is empty, accepted or not.",
      rule="all texts and compositions up to a length, grid of addresses in all pairs; a case is distinct by text or first address")

check("C29", ["c29_ipnet.cc"], "exploration",
      "exhaustive enumeration of ranges, masks and network texts, against a greedy minimal decomposition over exact integers and an independent parser",
      "all ranges in windows of 256 (1024) addresses at 7 places of the IPv4 space and of 160 (640) at 8 places of the IPv6 space, all ranges between addresses around powers of two, all networks with their ends moved by one, all masks with all shifts, masks of all addresses with up to 3 bits set, all widths on these addresses as network value, all texts of up to 6 (7) characters over 8 and up to 7 (8) over 6, all masks of 4 octets of 12 values",
      "Exhaustive within the bound; numbers as mask address or in other bases may be rejected; masks wider than the family given as value are out of contract.",
      rule="windows of adjacent addresses and grids around powers of two in all pairs; all texts up to a length; a case is distinct by address, width or text")

check("C30", ["c30_endpoint.cc"], "exploration",
      "exhaustive enumeration of texts and of addresses and ports, split, loaded, converted and printed, against an independent parser and the raw socket address structures",
      "all texts of up to 7 (8) characters over 7 and up to 5 (6) over 11, 16 hosts with 8 forms of brackets, 28 ports and 8 endings, all ports up to 70000 with and without leading zeros, all IPv4 and IPv6 addresses around powers of two with 10 ports through all conversions, all address families",
      "Exhaustive within the bound; IPv4 in brackets and space within the text may be rejected, but not be misread; the parts of text with an unclosed bracket are not specified.",
      rule="all texts and compositions up to a length, grid of addresses times ports; a case is distinct by text or by address and port")


check("C31", ["c31_path.cc"], "exploration",
      "exhaustive enumeration of path texts, alone, in pairs and as sequences of components, against string operations on the text",
      "all texts of up to 6 (7) characters over 7; all pairs of texts of up to 4 and 3 (5 and 4) characters over 4 in 7 ways of joining; all sequences of up to 6 (8) components of 7; every part of a path appended to itself",
      "Exhaustive within the bound; the code only distinguishes the separator and emptiness.",
      rule="all texts, pairs of texts and component sequences up to a length; a case is distinct by its texts")


check("C32", ["c32_file.cc"], "model_checking",
      "explicit-state exploration of the real file operations on real files over all histories within bounds, and of every failing or incomplete system call, against a model of the file tree",
      "all sequences of 2 operations out of 456 on a tree of 15 entries, of 3 (4) out of a reduced set; every operation with every single (every two) failed or short system calls; files of 17 sizes to 8 destinations; all 8 owner permissions of two directories and a file; all trees of up to 4 (5) entries of 7 kinds; directories of up to 3000 entries and depth 200",
      "The whole scratch tree is compared after every operation, including a part outside of the named tree that symbolic links lead to. Runs as an unprivileged user in a scratch directory; "
      "faults are injected by replacing the C library functions. Concurrent changes by other processes, close errors and other file systems are not explored.",
      assumptions=["the replaced C library functions are the ones through which the code reaches the system (a call that is not replaced is executed without faults)"])


check("C33", ["c33_status.cc"], "model_checking",
      "exhaustive enumeration of paths, file kinds, permissions, times and environment settings on real files against a model of path resolution; explicit-state exploration of file descriptor owners",
      "all paths of up to 4 (5) components out of 18 names in a tree with links of all kinds; 5 kinds of files with all permission bits; 65 times; nested directories of up to 5000 characters; all settings of 4 environment variables; all histories of 6 (7) operations on 3 descriptor owners",
      "Runs as an unprivileged user in a scratch directory. Paths longer than the system supports may be reported as errors; empty environment variables are not explored.")


check("C34", ["c34_hash.cc"], "exploration",
      "exhaustive enumeration of texts, divided in all ways, against the definition of FNV-1a by multiplication and an element by element transformation",
      "all texts of up to 5 (6) characters over 7 in all divisions into three parts, all texts of two bytes, published values; 10 kinds of transformed views iterated in 5 ways",
      "Exhaustive within the bound; the code works octet by octet.",
      rule="all texts up to a length; a case is distinct by its text")


check("C35", ["c35_system.cc"], "exploration",
      "exhaustive enumeration of system and standard library values in all field styles, printed to writers of all kinds and sizes, against the C library's names and times and a model of the field",
      "error numbers and codes -3 to 135 and extreme ones in 4 categories, 22 times with 16 formats in 5 time zones, every hour of three years in these zones, patterns of up to 300 repetitions, hexadecimal texts of up to 34 bytes and all pairs of digits, bit sets, atomic, duration, time point and exception values, all choices of up to 4 texts of 4 kinds, optional and nested texts; each in up to 144 (180) combinations of alignment, width and maximum and all types; printed to a string, an arena and buffers of 6 sizes",
      "Exhaustive within the bound. Names of unused error numbers, the case of error messages printed with type s, limits of patterns and hexadecimal text before or after placing are not specified; date formats must be terminated by a zero character as documented.",
      rule="grid of values times field styles; a case is distinct by value and style")
check("C36", ["c36_ipprint.cc"], "exploration",
      "exhaustive enumeration of network values in all combinations of selected parts, internal fill, radix and field, printed to writers of all kinds and sizes, against a model built from the documented rules",
      "endpoints and socket addresses of 5 families (8 IPv4, 9 IPv6 addresses, 5 ports), addresses, services, ranges of 5 shapes and 9 (13) widths per address, networks and masks of every width; 8 fills of the elements times 16 selections of parts, 8 types, up to 144 (180) combinations of alignment, width and maximum; printed to a string, an arena and buffers of 6 sizes; streams",
      "Exhaustive within the bound. Radix prefixes and signs of address elements, the text of invalid families together with a port, and parts selected for values that do not have them are not specified.",
      rule="grid of values times extensions times field styles; a case is distinct by value and style")


check("C37", ["c37_shared.cc"], "model_checking",
      "stateless exploration of the real code under a controlled scheduler: every operation a thread on a stack of its own, preempted at every access to memory that is not its own, "
      "each access of the library observed; absence of conflicting accesses makes all further interleavings equivalent (partial order reduction)",
      "all pairs of const operations of spaces after 2 changes and of trees of up to 7 (15) ranges, lexicons, errata after 2 (3) notes, containers of up to 5 (12) elements, printing, parsing and file queries; "
      "two objects of 9 kinds after up to 1 operation with all pairs of operations (2 operations against 1); every point of preemption of one operation by another (plus 4 points of preempting the other)",
      "Exhaustive within the bound. Accesses inside the C library are observed only where it writes memory of its caller; atomic accesses and accesses under a lock or in guarded initialisation count as synchronised.",
      assumptions=["the compiler's access instrumentation reports every access of the library to memory another thread could know"])
CHECKS["C37"]["watched"] = True

check("C38", ["c38_scope.cc"], "exploration",
      "exhaustive enumeration of programs of nested scopes, assignments, exits and failing copies on the real code, against a model that keeps the value to return to per scope",
      "all programs of up to 4 (5) scopes and assignments of two variables of a tracked type, entered with a constant, a temporary, the other variable or the variable itself, with the first or second copy failing, left by return or by an exception caught at any level; the same up to 3 (4) for numbers, strings, vectors, optionals and move only pointers",
      "Exhaustive within the bound. Moves that throw and scopes that end out of order are not specified.",
      rule="all programs up to a length; a case is distinct by its decisions")
