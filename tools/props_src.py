"""Source of properties.jsonl.  Run: python3 tools/props_src.py  (writes ../properties.jsonl)"""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": hook},
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


I = "code/include/swoc/"
S = "code/src/"

p("C01", "A range space gives every point the payload its update history dictates",
  """After any sequence of mark, erase, fill and blend operations over non-empty ranges, looking up any point of
  the metric yields exactly the payload obtained by applying those operations one point at a time: mark
  overwrites, erase removes, fill only writes points without a payload, and blend gives each point the result of the
  blend function (or of the plain color where there was no payload) and removes points for which the function says so.
  This holds for every relative position of the ranges, including ranges that touch the smallest or the largest value of
  the metric.""",
  ["histories", "inputs"],
  "All operation sequences, all ranges of the metric, all payloads, all blend functions including ones that reject.",
  "Tests apply a few dozen hand-picked ranges; the update code has a separate branch for each overlap pattern and each sequence of neighbours, which only an enumeration reaches.",
  [I + "DiscreteRange.h", I + "RBTree.h"],
  [("DiscreteSpace::mark/erase/fill/blend", I + "DiscreteRange.h"), ("DiscreteSpace::find", I + "DiscreteRange.h")],
  ["DiscreteSpace::find", "iteration of DiscreteSpace"],
  [("ranges", "disjoint ranges with payloads, kept both as a tree and as an ordered list", I + "DiscreteRange.h")])

p("C02", "A range space lists its ranges sorted, disjoint, coalesced and complete",
  """At every point of its history, iterating a range space (in either direction) lists non-empty, disjoint, strictly
  increasing ranges that cover exactly the points with a payload, with no two touching ranges of equal payload, and
  their number equals the reported count. Asking for the ranges intersecting a given range yields
  exactly those listed ranges that have a point in common with it, and lookup by iterator or by point agree with the list. Clearing or
  destroying a space leaves no payload behind: every payload created is destroyed exactly once.""",
  ["histories", "inputs"],
  "All sequences of mark, erase, fill, blend and clear; all query ranges and points.",
  "Coalescing, list linkage and payload lifetime depend on the exact neighbourhood each operation meets; tests check a few final listings.",
  [I + "DiscreteRange.h", I + "RBTree.h", S + "RBTree.cc"],
  [("insert_before/insert_after/remove/prepend/append", I + "DiscreteRange.h"), ("DiscreteSpace::intersection", I + "DiscreteRange.h")],
  ["begin/end", "count", "intersection", "payload constructor and destructor calls"])

p("C03", "An IP space maps every IPv4 and IPv6 address as its updates say, per family",
  """After any sequence of mark, fill, blend, erase and clear operations with IPv4, IPv6 or family-agnostic arguments, looking
  up any address yields the payload dictated by the operations on addresses of its own family only. Iteration forwards and
  backwards lists all IPv4 ranges then all IPv6 ranges in address order, the counts (total and per family) match, and the
  intersecting sequence for a range lists exactly the stored ranges sharing an address with it. The same holds for range
  sets without payload.""",
  ["histories", "inputs"],
  "All sequences of operations on both families, addresses at both ends of both address spaces and around 64-bit carry boundaries.",
  "Tests load sample lists; they do not interleave families, boundary addresses and both iteration directions exhaustively.",
  [I + "IPRange.h", I + "DiscreteRange.h", I + "IPAddr.h"],
  [("IPSpace", I + "IPRange.h"), ("IPSpace::const_iterator", I + "IPRange.h"), ("IPRangeSet", I + "IPRange.h")],
  ["IPSpace::find", "IPSpace iteration", "IPSpace::count", "IPSpace::intersection", "IPRangeSet::contains"])

p("C04", "Discrete range predicates agree with sets of points",
  """For any two closed ranges over a discrete metric, the set predicates (contains, subset, superset, adjacency, overlap, empty, singleton,
  the relationship classifications) hold exactly when they hold for the sets of points, hull and intersection
  are the smallest covering range and the common points, and clipping operations keep exactly the points that
  satisfy the clip. Comparison of ranges is a strict weak order consistent with equality.""",
  ["inputs"],
  "All pairs and triples of ranges, including empty and inverted ones where the operation accepts them, and the ends of the metric.",
  "Tests check a few pairs; the classification has a dozen cases and boundary arithmetic that wraps at the metric limits.",
  [I + "DiscreteRange.h"],
  [("DiscreteRange", I + "DiscreteRange.h")],
  ["DiscreteRange member functions"])

p("C05", "The search tree stays ordered and balanced under every insert/remove history",
  """After any sequence of insertions and removals, in-order traversal of the search tree yields exactly the inserted and not yet
  removed nodes in order, links between parent and child agree in both directions, the tree satisfies the red-black rules (so
  no path from the root to a leaf is more than twice as long as any other), and subtree data maintained through the
  structure change hook is current in every node.""",
  ["histories"],
  "All interleavings of insertions at any position and removals of any node.",
  "Nothing in the tests looks at the tree shape; a missed rotation or recolouring only costs time until a later removal corrupts the links.",
  [I + "RBTree.h", S + "RBTree.cc"],
  [("RBNode::rebalance_after_insert", S + "RBTree.cc"), ("RBNode::remove", S + "RBTree.cc"), ("RBNode::rebalance_after_remove", S + "RBTree.cc")],
  ["RBNode links", "RBNode::validate"])

p("C06", "Arena allocations are aligned, disjoint, inside the arena and keep their bytes",
  """Every span returned by an arena has the requested size and alignment, lies entirely in memory owned by the arena, and overlaps no
  other live span; its bytes never change until the memory is released by thaw, clear or destruction. This holds
  for any sequence of allocations, aligned allocations, object construction, reserve, freeze, thaw, discard, clear and moves,
  for arenas with or without an initial static block.""",
  ["histories", "inputs"],
  "All sequences of arena operations over sizes around the block and page boundaries, alignments 1 to 64.",
  "Tests exercise a handful of allocation sizes in one order; block hand-over, the remnant and alignment padding interact across sequences.",
  [I + "MemArena.h", S + "MemArena.cc"],
  [("MemArena::alloc", S + "MemArena.cc"), ("MemArena::Block::alloc", I + "MemArena.h"), ("MemArena::freeze/thaw/require/make_block", S + "MemArena.cc")],
  ["MemArena::alloc", "MemArena::contains", "bytes of allocated spans"])

p("C07", "Arena accounting is exact and frozen memory lives until it is thawed",
  """The reported allocated size equals the sum of the sizes handed out since the last freeze or clear plus what is frozen where documented, reserved
  size covers allocated size, a remnant of the reported size can be allocated without new memory, and requiring space makes the next
  allocation of that size possible in the current block. Discarding the most recent allocation gives its bytes back, discarding everything
  leaves all active blocks empty and they are used before new memory is. Freezing keeps all previous memory readable and starts
  fresh allocation; thaw releases exactly the frozen memory, and destruction or clearing returns every block to the system exactly once.""",
  ["histories"],
  "All sequences of arena operations up to the bound, with and without static block, including moves and self-hosted arenas.",
  "Tests compare a few numbers after fixed sequences; releases and double accounting only show across freeze, thaw, discard and move orders.",
  [I + "MemArena.h", S + "MemArena.cc"],
  [("_active_allocated/_active_reserved/_frozen_*", I + "MemArena.h")],
  ["MemArena::size", "allocated_size", "reserved_size", "remaining", "heap usage"])

p("C08", "A fixed object arena never hands out an object that is still live",
  """For any sequence of make and destroy calls, the objects made and not yet destroyed are distinct, aligned, properly constructed with the given
  arguments and unaffected by other makes and destroys; destroyed storage is reused before new storage is taken; every
  object is constructed and destroyed exactly once. The owning pointer of an arena placed in its own memory destroys it exactly once and returns all of its memory.""",
  ["histories"],
  "All interleavings of make, destroy of any live object, and clear.",
  "Tests make and destroy one fixed pattern; free-list corruption needs a particular order.",
  [I + "MemArena.h"],
  [("FixedArena", I + "MemArena.h")],
  ["FixedArena::make", "FixedArena::destroy"])

p("C09", "A small-buffer vector behaves like a vector across its fixed/dynamic switch",
  """For any sequence of push, emplace, pop, reserve, copy, move and assignment the container has the same size, element order and
  values as an ordinary vector given the same operations, whether its elements are in the inline buffer or on the
  heap. Every element is constructed and destroyed exactly once, including non-trivial element types, and views of the
  content expose exactly the current elements. Reserving room for a number of elements keeps the elements where they are until there are more than that.""",
  ["histories"],
  "All operation sequences crossing the inline capacity in both directions for several inline capacities.",
  "Tests push a fixed number of trivial elements; lifetime errors and moves between differently sized containers are not covered.",
  [I + "Vectray.h"],
  [("Vectray", I + "Vectray.h"), ("Vectray::transition_to_dynamic", I + "Vectray.h")],
  ["Vectray public methods", "element constructor/destructor calls"])

p("C10", "An intrusive list is always the sequence its operations describe",
  """After any sequence of prepend, append, insert before/after, erase, take, partial or whole list splicing, clear and move, forward and backward iteration of an
  intrusive list yield the sequence a plain list would hold, and the count, emptiness, head and tail agree with it.
  Membership queries are exact, removed elements are fully unlinked and can be inserted again, and iterators to
  elements that were not removed remain valid.""",
  ["histories"],
  "All operation sequences over a few elements and two lists.",
  "Tests run one scenario; link corruption depends on which end, neighbour or list an operation meets.",
  [I + "IntrusiveDList.h"],
  [("IntrusiveDList", I + "IntrusiveDList.h")],
  ["begin/end", "count", "head/tail", "contains"])

p("C11", "An intrusive hash map is always the multimap its operations describe",
  """After any sequence of inserts, erases, lookups, clears, expansions and policy changes an intrusive hash map contains exactly the inserted and
  not erased elements; lookup by key and equal range find all and only the elements with that key, as one contiguous run in iteration, for any distribution of
  hash values over buckets. The count matches, and automatic expansion follows the configured policy without
  losing or reordering equal keys.""",
  ["histories", "inputs"],
  "All operation sequences over elements with colliding, equal and distinct keys, all expansion policies.",
  "Tests insert many distinct words; collisions of different keys in one bucket with removals at each end of a bucket run are not enumerated.",
  [I + "IntrusiveHashMap.h", I + "IntrusiveDList.h"],
  [("IntrusiveHashMap::insert/erase/expand", I + "IntrusiveHashMap.h"), ("Bucket", I + "IntrusiveHashMap.h")],
  ["find", "equal_range", "iteration", "count", "bucket_count"])

p("C12", "Splitting and slicing a text view never loses, adds or reads other characters",
  """For any text, position, delimiter or predicate, prefix and suffix accessors, split, take, remove and clip operations return exactly the
  documented part of the text, leave exactly the documented rest, and prefix, delimiter and rest always
  re-assemble to the original. If the position is out of range or the delimiter is absent they do what is documented for that case (split
  returns empty and leaves the view, take returns everything), and no operation touches memory outside the view.""",
  ["inputs", "histories"],
  "All texts over a small alphabet up to the bound including empty, all positions including out of range, all delimiters; chained calls.",
  "Tests use typical strings; edge positions (empty, first, last, beyond the end) for every variant of every accessor are not covered.",
  [I + "TextView.h"],
  [("TextView::split_prefix*/take_prefix*/split_suffix*/take_suffix*", I + "TextView.h"), ("TextView::prefix*/suffix*/remove_*/clip_*", I + "TextView.h")],
  ["return value and remaining view"])

p("C13", "Trimming, searching and matching of text views equal their textbook definition",
  """Left, right and two sided trimming by character, character set or predicate removes the maximal run and
  nothing else; searches by predicate return the first or last satisfying position; starts-with, ends-with (with and without case) and
  containment agree with the definition. The stateless transform and tokenizing helpers built on them visit
  every character exactly once and in order, and no operation reads memory outside the view.""",
  ["inputs"],
  "All texts up to the bound over an alphabet of delimiters, letters of both cases, digits, zero and non-ASCII bytes.",
  "Tests use a few strings; empty, all-delimiter and non-ASCII inputs to each variant are not enumerated.",
  [I + "TextView.h", I + "string_view_util.h", S + "TextView.cc"],
  [("TextView::ltrim/rtrim/trim*", I + "TextView.h"), ("TextView::find_if/rfind_if", I + "TextView.h"), ("TransformView", I + "TextView.h")],
  ["resulting view", "returned index"])

p("C14", "Text and memory comparison is one consistent total order",
  """Three-way comparison of views (by bytes, by text, ignoring case, and for memory spans) returns negative, zero or positive consistently with
  byte-wise lexicographic order with the shorter of two otherwise equal views first, is antisymmetric and transitive, and agrees with the
  equality and less-than operators and functors, including case-insensitive equality. Comparison never reads
  beyond either view.""",
  ["inputs"],
  "All pairs and triples of views up to the bound, over bytes of both cases, zero and high bytes.",
  "Tests compare a handful of pairs; prefix pairs, empty views and bytes above 127 in each variant are not covered.",
  [I + "TextView.h", I + "string_view_util.h", S + "TextView.cc", S + "string_view_util.cc", I + "MemSpan.h"],
  [("memcmp/strcmp/strcasecmp", I + "TextView.h"), ("TextView::operator==/isNoCase", I + "TextView.h")],
  ["return values"])

p("C15", "Text to integer conversion returns the value of the longest numeric prefix",
  """Conversion of text to signed or unsigned integers in any base from 2 to 36 returns the value of the longest valid numeric prefix
  (after optional leading white space and, where signed, a sign and radix prefix) and reports exactly which characters were used, with an empty report
  when there is no number. Values beyond the range of the type clamp to the nearest representable value, and digits
  of either case are accepted exactly when they are below the base.""",
  ["inputs"],
  "All texts up to the bound over digits, letters, signs, blanks and radix prefixes; all bases; all digit boundaries around overflow.",
  "Tests convert a few dozen constants; every base/digit pair and each overflow boundary need enumeration.",
  [I + "TextView.h", S + "TextView.cc"],
  [("svtoi/svtou/svto_radix", S + "TextView.cc"), ("svtonum tables", S + "TextView.cc")],
  ["return value", "parsed view"])

p("C16", "Text to floating point conversion is accurate and reports what it parsed",
  """Conversion of decimal text with optional sign, fraction and exponent to a double yields the correctly rounded value or
  a value within a few units in the last place of it, with the right sign, and reports exactly the consumed numeric text; text
  without a number yields zero and reports nothing consumed. It never reads outside the view.""",
  ["inputs"],
  "All texts up to the bound over digits, sign, point, exponent marker and other characters.",
  "Tests check about twenty constants; interactions of leading zeros, long fractions, exponents and truncated forms are not covered.",
  [I + "TextView.h", S + "TextView.cc"],
  [("svtod", S + "TextView.cc")],
  ["return value", "parsed view"])

p("C17", "Memory span slicing, conversion and copying never leave the span",
  """For typed and untyped memory spans, every slicing operation (prefix, suffix, subspan, remove, clip, find) returns exactly the documented elements
  clipped to the span, re-typing changes the element count exactly by the size ratio or reports the error, alignment
  returns the largest aligned part, and copy and set operations change exactly the common extent of both operands. Equality
  compares all elements of both spans, comparison orders by the bytes of the common extent and then by the size.""",
  ["inputs"],
  "All span sizes and all counts and offsets up to the bound, for element sizes 1 to 8 and untyped memory.",
  "Tests slice one or two fixed arrays; out of range counts and mixed sizes in each operation are not covered.",
  [I + "MemSpan.h"],
  [("MemSpan<T>", I + "MemSpan.h"), ("MemSpan<void>", I + "MemSpan.h")],
  ["returned spans", "memory contents around the span"])

p("C18", "A buffer writer never writes outside its buffer and counts every character",
  """For any sequence of writes, restricts, restores, commits, discards, copies and clears, a buffer writer modifies only bytes inside its buffer, its content
  is always the leading part of the full output that fits, its extent is the length of the full output, and size, remaining
  and error status follow from those two numbers. This holds for fixed, local, measuring and arena backed writers, the latter never
  losing output.""",
  ["histories", "inputs"],
  "All operation sequences over buffer sizes 0 upward and write sizes around the remaining space.",
  "Tests write short strings to large buffers; each operation at each clipped state is not covered.",
  [I + "BufferWriter.h", I + "ArenaWriter.h", S + "ArenaWriter.cc"],
  [("FixedBufferWriter", I + "BufferWriter.h"), ("ArenaWriter", I + "ArenaWriter.h")],
  ["view", "extent", "size", "error", "bytes around the buffer"])

p("C19", "Formatted output does not depend on the size of the buffer it is written to",
  """Printing any format with any arguments to a buffer of any size reports the same full length, and the buffer content is that same full output
  cut to the buffer, byte for byte, including fill, alignment, maximum width and nested values; nothing outside
  the buffer is touched. Printing to a string resizes it to exactly the output.""",
  ["inputs", "configurations"],
  "All combinations of alignment, width, precision, maximum and type with representative values, for every buffer size from 0 to the full length.",
  "Tests print to buffers large enough, or check one truncated case; overflow in the alignment adjustment needs a particular size.",
  [I + "BufferWriter.h", I + "bwf_base.h", S + "bw_format.cc"],
  [("bwf::Format / print_nfv", I + "bwf_base.h"), ("Adjust_Alignment", S + "bw_format.cc"), ("FixedBufferWriter::copy", I + "BufferWriter.h")],
  ["view", "extent", "bytes around the buffer", "bwprint result"])

p("C20", "Integer, text and pointer formatting obeys every combination of specifier fields",
  """For every combination of fill, alignment, sign, radix prefix, zero padding, width, precision, maximum width and type letter, formatting an integer, boolean, character,
  text, pointer or memory span prints the value in the requested radix and case such that it parses back to the same value,
  padded to at least the minimum and cut to the maximum width on the requested side.""",
  ["inputs", "configurations"],
  "All combinations of specifier fields, with boundary values of every integer width and short texts.",
  "Tests check a few combinations; interaction of the fields over boundary values is not enumerated.",
  [I + "bwf_base.h", S + "bw_format.cc"],
  [("Format_Integer", S + "bw_format.cc"), ("Adjust_Alignment", S + "bw_format.cc"), ("bwf::Spec::parse", S + "bw_format.cc")],
  ["printed text"])

p("C21", "Format strings mean the same parsed at once or compiled, and never misread",
  """For every format string, printing directly and printing through a precompiled format give the same output or both reject it; literal
  text and doubled braces are copied verbatim, arguments are taken by explicit index or in order, and named
  values come from the binding. A malformed format string or index out of range never reads outside the format or
  the arguments; unbalanced braces, a percent fill without two hex digits and an alignment, and a precision or maximum mark without number
  are rejected.""",
  ["inputs"],
  "All format strings up to the bound over braces, colon, digits, letters, fill and alignment characters.",
  "Tests use well formed examples; the parser is run on arbitrary prefixes and brace nestings only by enumeration.",
  [I + "bwf_base.h", S + "bw_format.cc"],
  [("bwf::Format::TextViewExtractor::parse", S + "bw_format.cc"), ("bwf::Spec::parse", S + "bw_format.cc"), ("bwf::Format", S + "bw_format.cc")],
  ["printed text", "exceptions"])

p("C22", "Floating point formatting prints the decimal value to the requested precision",
  """For every finite value in the supported range and every precision, formatting a floating point number prints sign, integral part and exactly the requested number of fraction digits (default
  two when not given), and the printed number differs from the value by at most one unit of the last printed place. Width, fill,
  alignment and sign specifiers act as for integers; zero, infinities and not-a-number print as documented.""",
  ["inputs", "configurations"],
  "All values k/2^m and k/10^m of a grid and boundary values, all precisions up to the supported one, all specifiers.",
  "Tests print about ten constants; leading zeros in the fraction and rounding carry are not covered.",
  [S + "bw_format.cc"],
  [("Format_Float", S + "bw_format.cc")],
  ["printed text"])

p("C23", "A lexicon maps values and names both ways consistently",
  """After any sequence of definitions (single or multiple names, duplicates rejected), a lexicon maps each value to its primary name
  and each of its names (ignoring case) back to the value, unknown names and values yield the configured default or are reported, and iteration, by value or by name, lists every definition
  exactly once with matching counts. Rejected definitions leave the mapping consistent; moves and defaults behave the same.""",
  ["histories", "inputs"],
  "All definition sequences over a few values and names, including duplicates in every position, and all default kinds.",
  "Tests define fixed tables without conflicts in every position.",
  [I + "Lexicon.h"],
  [("Lexicon::define", I + "Lexicon.h"), ("Lexicon::operator[]", I + "Lexicon.h")],
  ["operator[]", "iteration", "count"])

p("C24", "Scaled quantities convert, compare and add as exact rational numbers",
  """For quantities in any two commensurable scales, comparison agrees with the exact values, lossless conversions preserve the
  value, and round-up and round-down conversions give the smallest scaled quantity not below and the largest not
  above the value, for positive, zero and negative counts. Addition, subtraction and scaling act on the exact value.""",
  ["inputs"],
  "All counts of a range around zero and around multiples, all pairs of a family of scales including non-multiples.",
  "Tests use positive constants and a few scale pairs.",
  [I + "Scalar.h"],
  [("Scalar", I + "Scalar.h"), ("detail::scale_conversion_round_up/down", I + "Scalar.h")],
  ["count", "comparison results"])

p("C25", "Errata keep every note in order, the worst severity, and reach sinks once",
  """An errata holds exactly the annotations noted into it, in order, with their text, nesting and severity, subject to the configured filter; its
  overall severity is the maximum noted and its success state is determined by the failure threshold. Copying and moving transfer
  content completely, appending keeps the order, and each errata with content reaches every registered sink exactly
  once when it is abandoned. A result-plus-errata wrapper preserves both parts.""",
  ["histories"],
  "All sequences of note, append, move, clear, sink over two errata objects and all severities and thresholds.",
  "Tests follow a few straight-line scenarios; moves and sinks interact over sequences.",
  [I + "Errata.h", S + "Errata.cc"],
  [("Errata::note", I + "Errata.h"), ("Errata::sink", S + "Errata.cc"), ("Rv", I + "Errata.h")],
  ["annotations", "severity", "is_ok", "sink calls"])

p("C26", "IP addresses round trip through text and only valid text is accepted",
  """Every IPv4 and IPv6 address printed in its default format (also upper case or zero filled for IPv6) parses back to the same address, and every standard textual form
  of an address (full, zero compressed anywhere, upper or lower case, bracketed for IPv6) parses to its value. Text that is not an
  address is rejected and leaves the address invalid or unchanged as documented; parsing never reads outside the text.""",
  ["inputs"],
  "All texts up to the bound over the address alphabet; all zero/non-zero quad patterns; boundary values of each field.",
  "Tests parse about fifty constants; zero compression at each position and malformed neighbours of valid text are not enumerated.",
  [I + "IPAddr.h", S + "swoc_ip.cc", S + "bw_ip_format.cc"],
  [("IP4Addr::load", S + "swoc_ip.cc"), ("IP6Addr::load", S + "swoc_ip.cc"), ("bwformat(in6_addr)", S + "bw_ip_format.cc")],
  ["load result", "address value", "printed text"])

p("C27", "IP address order, arithmetic, bit and family operations act as on integers",
  """Comparison, increment and decrement, bitwise operations, shifts, masking by prefix length and conversion to and from host and network byte order and socket
  structures act on IPv4 and IPv6 addresses exactly as on 32 and 128 bit integers; the family-agnostic address agrees with the specific type
  and orders families consistently. Address classification (loopback, multicast, private, link local, any)
  depends only on the documented ranges.""",
  ["inputs"],
  "All pairs of addresses from a grid around octet, quad and 64 bit boundaries, all shift and mask widths.",
  "Tests check a few values; carries across the 64 bit halves and widths 0, 64 and 128 in every operation are not covered.",
  [I + "IPAddr.h", S + "swoc_ip.cc"],
  [("IP4Addr, IP6Addr, IPAddr operators", I + "IPAddr.h"), ("IP6Addr::operator<<=/>>=", S + "swoc_ip.cc")],
  ["operator results"])

p("C28", "IP range text forms parse to exactly the addresses they denote",
  """Text in singleton, dash and prefix length form loads the range of exactly the addresses it denotes, for both families, and anything else (mixed
  family, out of range prefix length, incomplete text) is rejected with the range left empty; a range given backwards has no addresses. A non-empty range prints, in
  plain and compact form, as text that loads back to the same range. Containment, emptiness and equality, specific or family agnostic, agree with the set of addresses.""",
  ["inputs"],
  "All texts composed from address, separator and suffix alphabets; all prefix lengths including out of range.",
  "Tests load a few dozen texts; out of range prefix lengths, mixed families and partial texts are not enumerated.",
  [I + "IPRange.h", S + "swoc_ip.cc"],
  [("IP4Range::load, IP6Range::load, IPRange::load", S + "swoc_ip.cc"), ("IPMask::load", S + "swoc_ip.cc")],
  ["load result", "min/max", "printed text"])

p("C29", "Decomposing a range into networks covers it exactly with maximal networks",
  """For every range, the network sequence lists in increasing order disjoint networks whose union is exactly the range, with the minimal
  number of networks. A range that is a single network reports its mask, and masks convert between width and address form without
  loss; text of an address with a prefix length or netmask loads exactly that network, text with a mask that is not one is rejected; networks built from an address and mask contain exactly the addresses that agree with the address under the mask.""",
  ["inputs"],
  "All ranges over a grid of addresses at both ends of the space and around boundaries, all mask widths.",
  "Tests decompose about ten ranges; every alignment pattern and the ends of the address space need enumeration.",
  [I + "IPRange.h", S + "swoc_ip.cc"],
  [("IP4Range::NetSource, IP6Range::NetSource", S + "swoc_ip.cc"), ("network_mask", S + "swoc_ip.cc"), ("IPMask, IPNet", I + "IPRange.h")],
  ["networks()", "network_mask()", "IPNet accessors"])

p("C30", "Endpoints and services split and rebuild address and port without loss",
  """Splitting text into host, port and rest yields exactly the parts for IPv4, IPv6 (bracketed or not), bare names and missing
  ports; loading an endpoint or service gives the address and port that the text denotes or fails. Conversion between socket address
  structures, endpoints, services and addresses preserves family, address and port and keeps
  nothing else of what was there before, printing and loading round trip, a generic
  service is never equal to or ordered with a service or address of another family, and no byte outside the text is read.""",
  ["inputs"],
  "All texts up to the bound over brackets, colons, digits and letters; all families; boundary ports.",
  "Tests tokenise about ten texts.",
  [I + "IPEndpoint.h", I + "IPSrv.h", S + "swoc_ip.cc", S + "bw_ip_format.cc"],
  [("IPEndpoint::tokenize", S + "swoc_ip.cc"), ("IPEndpoint::parse", S + "swoc_ip.cc"), ("IPSrv::load", S + "swoc_ip.cc")],
  ["tokenize results", "addr and port", "printed text"])

p("C31", "Path manipulation composes and decomposes paths consistently",
  """Joining, parent, file name, relative path and absoluteness of file paths follow the documented rules for every path text: joining
  an absolute path replaces, joining a relative one inserts exactly one separator if there is none yet (also if it is part of the path itself),
  parent and file name re-assemble to the path, the relative path is not absolute, and equal paths compare and hash equal.""",
  ["inputs"],
  "All path texts up to the bound over separator, dot and letters.",
  "Tests check a few absolute and relative examples.",
  [I + "swoc_file.h", S + "swoc_file.cc"],
  [("file::path", I + "swoc_file.h")],
  ["path::string"])

p("C32", "File operations change exactly the files they name and report failure",
  """Copying, creating directories, removing single entries and trees and loading files change exactly the named entries: a copy has
  the same bytes as its source, recursive removal deletes the named tree and nothing outside of it (never the target of a symbolic
  link) and returns the number of removed entries, and loaded text equals the file. A failed operation reports an error and changes nothing but the
  named files, a successful one clears the error; also when system calls fail or transfer less than requested. No file descriptor is leaked.""",
  ["histories", "fault_sequences"],
  "All sequences of operations over a small tree of files, directories and links, with every single system call failure.",
  "Tests use one temporary directory without links, longer targets or failing calls.",
  [I + "swoc_file.h", S + "swoc_file.cc"],
  [("file::copy/remove/remove_all/create_directories/load", S + "swoc_file.cc")],
  ["file system content", "error_code"])

p("C33", "Status queries and path resolution describe the actual file system",
  """For every path, also through symbolic links, doubled separators, dots, trailing separators, missing or unreadable components, status
  reports the kind, size, permission and times of the file the path leads to, or an error if there is none; the canonical path is the
  absolute path of that file without links, dots or doubled separators; the absolute path names the same file from any directory; current and
  temporary directory follow the process and its environment. A file descriptor owner closes every descriptor it owned exactly once.""",
  ["inputs", "histories"],
  "All paths up to the bound in a tree with links of all kinds, all kinds of files and permissions, all short histories of descriptor owners.",
  "Tests look at a few existing files; loops, dangling links, missing parts and long paths are not tried.",
  [I + "swoc_file.h", S + "swoc_file.cc"],
  [("file::status, exists, is_readable, file_size, modify_time", S + "swoc_file.cc"), ("file::canonical, absolute, current_path, temp_directory_path", S + "swoc_file.cc"), ("unique_fd", I + "swoc_file.h")],
  ["file_status", "path::string", "error_code", "open descriptors"])

p("C34", "Hashes equal the published functions, transformed views are exact",
  """The FNV-1a hashes of 32 and 64 bits equal the published function of the octets of the text, for any division of the text into updates,
  after any number of reuses and through transformations; a transformed view yields exactly the transformed elements of its source in order,
  no more and no fewer, in whatever way it is iterated or compared.""",
  ["inputs"],
  "All texts up to the bound over octets below and above 127, in all divisions.",
  "Tests hash a few ASCII texts in one piece.",
  [I + "ext/HashFNV.h", I + "TextView.h"],
  [("Hash32FNV1a, Hash64FNV1a", I + "ext/HashFNV.h"), ("TransformView", I + "TextView.h")],
  ["hash value", "elements of the view"])

p("C35", "System and standard library values are printed completely and as one field",
  """Error numbers print name, description and number as selected by type and extension, error codes their name or message and value, dates the
  given format in GMT or local time for any length, patterns the exact number of repetitions, hexadecimal text its bytes, optional and nested
  text its expansion or nothing, atomics, durations, time points, bit sets and exceptions their value. Each is placed in the
  field as a whole by width, alignment and maximum, to a buffer of any size, a string or an arena alike.""",
  ["inputs"],
  "All error numbers, times around boundaries in several zones, formats of all lengths, all field styles, all buffer sizes around the text.",
  "Tests print a few values with the default style into large buffers.",
  [I + "bwf_ex.h", I + "bwf_std.h", S + "bw_format.cc"],
  [("bwformat(Errno/Date/Pattern/UnHex/error_code)", S + "bw_format.cc"), ("bwf::If, Optional, SubText, FirstOf", I + "bwf_ex.h"), ("bwformat(bitset/duration/time_point/exception)", I + "bwf_std.h")],
  ["printed text", "extent"])

p("C36", "Network values print exactly the selected parts, radix, fill and field",
  """An endpoint, socket address or address prints the parts selected by the extension (address, port, family; in this order, in any case) or the default
  ones, IPv6 in brackets when a port follows; elements in the radix of the type, right aligned with the internal fill if given and otherwise
  with the longest run of zero quads compressed. Services add a non-zero port, ranges print both ends or with 'c' the single address or
  network when it is one, networks their address and mask width, invalid and empty values their mark. The text is placed as a whole by width,
  alignment and maximum, for a buffer of any size, and streams print the default form.""",
  ["inputs"],
  "All combinations of parts, internal fill, radix, alignment, width and maximum for addresses with and without runs of zeros.",
  "Tests print a few addresses with a dozen formats.",
  [I + "bwf_ip.h", S + "bw_ip_format.cc"],
  [("bwformat(sockaddr/IPAddr/IP4Addr/in6_addr)", S + "bw_ip_format.cc"), ("bwformat(IP4Range/IP6Range/IPNet/IPSrv)", S + "bw_ip_format.cc"), ("operator<<", I + "bwf_ip.h")],
  ["printed text", "extent"])

p("C37", "Readers do not disturb each other and distinct objects share nothing",
  """An operation that only reads its objects (search, iteration, counting, comparison, access, printing to a writer of the caller, parsing of a
  text, queries about paths and files) writes nothing that another thread could read, so any number of threads may use the same space,
  lexicon, errata, container, compiled format or value at the same time and each gets what it would get alone. Operations on distinct objects,
  also when one was copied from or moved to the other, access no common memory that either writes, and objects may be destroyed in any order.
  Documented process wide settings (error severities and sinks, global names) and properly locked or atomic state are excepted.""",
  ["schedules", "histories"],
  "Every pair of operations in every state within the bound, every point of preemption; the absence of conflicting accesses covers all other schedules.",
  "All tests run in one thread; hidden caches and static buffers do not show in it.",
  [I + "DiscreteRange.h", I + "IPRange.h", I + "Lexicon.h", I + "Errata.h", I + "IntrusiveHashMap.h", I + "MemArena.h", I + "Vectray.h", S + "bw_format.cc", S + "bw_ip_format.cc", S + "swoc_ip.cc", S + "swoc_file.cc"],
  [("DiscreteSpace::find, IPSpace::find", I + "DiscreteRange.h"), ("Lexicon::operator[]", I + "Lexicon.h"), ("BufferWriter::print_nfv, Format_Integer, Format_Float", S + "bw_format.cc"), ("MemArena, Errata, FixedArena", S + "MemArena.cc"), ("file::status, load, canonical", S + "swoc_file.cc")],
  ["memory accesses", "results of operations"])

p("C38", "A value changed for a scope is the new one within it and the original after it",
  """Within the scope of a meta::let the variable has the given value, whether that was a constant, a temporary, another variable or the variable
  itself, and arguments given as constants are not changed; when the scope ends, by return or by exception, the variable has exactly the value it had before,
  whatever was assigned to it in between, for any nesting of scopes over any variables of any copyable or move only type. If the scope can not be
  entered because copying the value fails, the variable keeps its value. Nothing is lost or destroyed twice.""",
  ["histories"],
  "All programs of nested and successive scopes and assignments up to the bound, all exits, all failing copies.",
  "Tests enter two scopes and leave them normally.",
  [I + "swoc_meta.h"],
  [("let::let, let::~let", I + "swoc_meta.h")],
  ["value of the variable"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
