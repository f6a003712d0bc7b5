PTA = "trusts go/types, go/ssa and the points-to analysis (inclusion-based, context per call chain, one abstract object per type for data that existed before the call); the standard library is modelled, not analysed. "
CLAIMS = {
 "C01": ("points-to based write-effect analysis with a lock-state dataflow",
         "Sound for every event and pattern set up to: " + PTA + "User-supplied flatteners and pattern stores are outside it."),
 "C02": ("points-to based write-effect analysis, forward dataflow of published objects, alias rule for scratch memory",
         "Shows that no instruction can write matcher data of a published type that existed before the call, nor newly published memory in the same activation. " + PTA + "Filling in a nil epsilon closure is carved out in the statement."),
 "C03": ("lock-state dataflow with critical-section identity over all calling contexts",
         "Shows that each read-change-publish sequence is within one exclusive section. " + PTA + "That the change itself is right is not covered."),
 "C04": ("lockset (Eraser-style) analysis over all entry points, computed statically",
         "Shows a common lock for each shared location that is written. " + PTA),
 "C05": ("lock-state dataflow (must and may sets, deferred calls) and lock-order graph",
         "Shows balance, no re-acquisition and acyclic order on every path; callbacks from user-supplied implementations are outside it. " + PTA),
 "C06": ("points-to based effect analysis of package-level memory",
         "Shows that package-level memory is written only during initialisation or under a package-level lock, and never becomes part of memory that instances write. " + PTA),
 "C07": ("points-to based ownership analysis of Copy, field-by-field",
         "Shows that a copy shares only the matcher and takes over each setting that methods read. " + PTA),
 "C10": ("points-to based write-effect analysis of the event's memory",
         "Shows that no instruction can write event memory. " + PTA),
 "C11": ("points-to based escape analysis of the result",
         "Shows that the returned slice is allocated in the call and kept nowhere. " + PTA),
}
CLAIMS.update({
 "C16": ("constant propagation through package initialisation, and abstract interpretation of the builder of monocase automata for every class of the table",
         "Every entry of the table is compared with Unicode 17.0.0's CaseFolding.txt (frozen in tool/unicode_oracle.go); the builder is interpreted for each character of each class, ASCII, the ends of the gaps and 100 pairs, and the language accepted compared with the class. Longer strings rest on the builder treating each character alike."),
 "C17": ("constant propagation and value-set abstract interpretation of the regexp reader",
         "Covers all 37 categories and their complements with symbolic names, against Unicode 17.0.0's tables frozen in tool/unicode_oracle.go. Trusts go/ssa and the models of a dozen library functions. How ranges become automata is outside it."),
 "C18": ("value-set abstract interpretation (disjunctive, sets of code points) of the regexp reader, compared with a grammar oracle",
         "Covers each place in the 120 templates for every code point at once, not every nesting of the grammar. Trusts go/ssa and the models of a dozen library functions."),
 "C25": ("constant propagation of the automaton, product construction with the UTF-8 automaton",
         "The automaton for '.' is compared in all its states and for all bytes; the loops that wildcards make are compared for patterns of four shapes. How automata are merged and traversed is outside it."),
})
CLAIMS.update({
 "C20": ("reachability over a rapid-type-analysis call graph and an allow-list of standard packages and functions",
         "Every function and every import of the package that can be reached from the public API is checked for goroutines, timers, channels, I/O, environment, randomness, process control, unsafe and linkname. The standard library's own bodies aren't analysed: which of its packages are free of side effects is a list."),
})
CLAIMS.update({
 "C13": ("abstract interpretation of the calls that add a pattern, with failing readers, and points-to based write-effect analysis of the reader",
         "Each failing path of the core matcher's and the pruner's addPattern is interpreted from symbolic previous states; the reader's writes are checked in every calling context. " + PTA + "Patterns stores supplied by the user are outside it."),
 "C15": ("abstract interpretation of the value matcher with automata as terms (typestate: closed, deterministic)",
         "Every kind of value, previous content and build mode is interpreted with builders, merges, closures and determinisation as uninterpreted terms; that closures are complete is checked on sample automata. Trusts go/ssa and the models of a dozen library functions."),
 "C22": ("abstract interpretation of adding a pattern, for each constant of the type of value kinds",
         "Covers each kind, previous content and build mode, with values' texts symbolic, and patterns of up to two fields with up to two values. Trusts go/ssa and the models of a dozen library functions."),
 "C24": ("abstract interpretation of the deleting matcher's methods with symbolic X, matches and live sets",
         "Every path of the four methods from symbolic states with up to three live patterns and three matches; the loops aren't shown to be uniform in the number of elements. Interleavings are C03-C05."),
 "C26": ("abstract interpretation with an inductive contract for merges, field-by-field comparison of what is published with what was",
         "The merge is shown for all pairs of local shapes of states, which is an induction over its recursion; determinisation and cloning are interpreted on sample automata that have each local shape. Trusts go/ssa and the models of a dozen library functions."),
 "C27": ("abstract interpretation of the pattern reader over all sequences of JSON tokens within bounds, against a reference reader",
         "141,000 token sequences (five values or brackets, three members, depth five; texts symbolic), and all glob texts of five symbolic characters. Trusts encoding/json, go/ssa and the models of a dozen library functions."),
})
ZONE = "The numeric domain (differences, sums, byte sets, relative positions) is exact for what it states and widens elsewhere. "
CLAIMS.update({
 "C08": ("abstract interpretation with difference bounds and facts about bytes, interprocedural summaries, object invariant of the flattener computed to a fixed point",
         "Every index, slice, allocation, division, shift, assertion and panic that Flatten reaches, for every event, tracker and previous event. " + ZONE + "Nil dereferences and stack overflow by nesting are outside it; the code that matches the fields is not part of it. Trusts go/ssa and models of a few library functions."),
 "C21": ("ranking by abstract interpretation: per-round change of difference bounds, call-graph cycles with a consumption measure",
         "Every loop and every recursive call that Flatten reaches, for every event. " + ZONE + "Trusts that functions of the standard library return."),
})
EV = "A bounded claim: events of the listed kinds (templates), some of them hundreds of bytes or dozens of elements or levels long, in each of which up to twelve bytes are sets of values, explored for all of these values at once; others rest on the reader having no counters of how much it has read. Trusts go/ssa and the models of strconv and unicode/utf16."
CLAIMS.update({
 "C19": ("value-set abstract interpretation (disjunctive, sets of bytes) of the flattener, compared with a reference reader of RFC 8259 that reads the same sets", EV),
 "C28": ("value-set abstract interpretation (disjunctive, sets of bytes and of UTF-16 codes) of the flattener, compared with a reference reader of RFC 8259 that reads the same sets", EV),
 "C29": ("value-set abstract interpretation (disjunctive, sets of bytes) of the flattener, compared with a reference reader that tracks paths, arrays and elements", EV),
})
SYS = "A bounded claim about values, unbounded in none of its parts: the listed patterns and event templates, in each of which up to eight bytes are sets of values that are explored as sets. The oracle is a reference reader and matcher written from the documentation. Trusts go/ssa and the models of library functions (tokens of encoding/json, strconv, sync). "
AI = "value-set abstract interpretation (disjunctive, sets of bytes) of the package's SSA form, from New to MatchesForEvent, "
CLAIMS.update({
 "C12": (AI + "of two events after each other, compared with a reference that doesn't know the first one", SYS + "First events are cut off or changed at each byte; longer histories aren't explored."),
 "C30": (AI + "for one pattern of each kind, compared with a reference matcher", SYS + "78 values of the nine kinds."),
 "C31": (AI + "for sets of patterns in both build modes, compared with the union of a reference matcher's answers", SYS + "All pairs of 21 values, and random sets of 3 to 6 patterns (more of them in the thorough run)."),
 "C32": (AI + "for pairs of patterns with several fields, compared with a reference matcher", SYS + "All pairs of 43 patterns with up to four fields, 31 shapes of events."),
 "C33": (AI + "for numbers with symbolic digits and exponents, compared with equality of float64", SYS + "30 sets of numbers, 21 shapes of numbers in events; digits are split into single texts before strconv.ParseFloat."),
 "C34": (AI + "over histories of operations on an instance with deletion, compared with a reference that knows the live patterns", SYS + "40 histories of up to 14 operations; the thorough run adds all histories of four out of nine operations."),
 "C35": (AI + "for events with symbolic white space, orders of members and escapes, compared with a reference that sees what is denoted", SYS),
})
CLAIMS.update({
 "C09": ("abstract interpretation with difference bounds and facts about bytes, interprocedural summaries",
         "Every index, slice, allocation, division, shift, assertion and panic that reading a pattern reaches, for every text; one lower bound (the regexp reader's position isn't negative) is left to C18's interpretation. " + ZONE + "Building the automaton is not part of it. Trusts go/ssa and models of a few library functions."),
 "C14": ("path-sensitive dataflow over the SSA form: each error is followed, with what is known to be nil, true or false, to the returns it can reach",
         "Every call with an error result and every error made in what the API reaches, on all paths; it doesn't judge whether the branch for a specific error answers it rightly. A short list of tolerated drops, each with its reason, is in the code. Trusts go/ssa."),
})
NOT_APPLICABLE = {
 "C23": "what it is about inside the code (lists and counters that are pushed and popped) has no name that survives a change of representation; what a user would see of it is decided by C12, C29 and C32.",
 "N07": "linearizability of histories; its locking and publication parts are claimed as C02, C03 and C04.",
 "N10": "cost bounds are about running time and heap sizes.",
}
