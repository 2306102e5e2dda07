"""What check.py runs for each property: configurations per tier, level, technique and notes (also the source of MANIFEST.json)."""

MC = "stateless explicit-state model checking of the implementation"
PROPS = {
    "C01": dict(
        level="model_checking", quick=["checked", "release", "miri", "compiler"], thorough=["checked", "release", "miri", "compiler"],
        technique=MC + " (all histories of operations on a pool of containers, iterators and loose elements, with an ownership registry)",
        rule="Every history of operations (moves, clones, overwrites, iteration from both ends, chunking, reshaping, arithmetic, drops) "
             "up to the stated depth from every initial object; after every step the number of live elements equals what the pool owns, "
             "no element is owned twice and none was touched when dead; at the end nothing is left.  Every pair of a way to borrow and an action that ends the life of the borrowed part is refused "
             "by the compiler.",
        note="Exhaustive within the bounds on the real code; the registry sees every creation, read and drop; Miri re-executes a smaller "
             "bound to detect undefined behaviour."),
    "C02": dict(
        level="model_checking", quick=["checked0", "release0", "miri"], thorough=["checked", "release", "miri"],
        technique=MC + " with exhaustive fault injection (a panic at every call of caller-supplied code, and at every destructor)",
        rule="Every operation that runs caller-supplied code, on every length 0..=32 and the stated shapes: once to count the calls and "
             "destructors, then once for each of them with a panic injected there; after unwinding nothing is dead twice, lost or "
             "unusable.  Thorough: also every pair of a call and a call of the following operation.",
        note="Exhaustive over all fault points of the enumerated scenarios; after a panicking destructor only double drops are judged."),
    "C03": dict(
        level="model_checking", quick=["checked0", "release0", "miri"], thorough=["checked", "release", "miri"],
        technique=MC + " (all operation histories of a double-ended iterator against a queue)",
        rule="All histories of next/next_back/nth/nth_back/adaptor calls up to the stated depth, each ended in every way, for "
             "lengths 0..=4; from every (front, back) state of lengths 0..=32 every next call with every distance.",
        note="Exhaustive within the bounds on the real code; model = VecDeque; element ownership checked by a registry; Miri "
             "re-executes a smaller bound to detect undefined behaviour."),
    "C04": dict(
        level="model_checking", quick=["checked", "release"], thorough=["checked", "release", "miri"],
        technique=MC + " (all operation histories of five iterator kinds against queues of rows/columns)",
        rule="As C03 for rows, columns (by value and by reference) and column entries, on all shapes up to 4x4; larger shapes from "
             "every (front, back) state.",
        note="Exhaustive within the bounds; element addresses are compared for by-reference items."),
    "C05": dict(
        level="model_checking", quick=["checked0", "release0", "miri"], thorough=["checked", "release", "miri"],
        technique=MC + " (all histories of chunk iterators for every divisor pair)",
        rule="All chunk-iterator histories for lengths 0..=8 and every divisor, every (front, back) state for larger lengths; every "
             "reshape with at most 32 elements.",
        note="Exhaustive within the bounds; elements are tracked, so loss and duplication are seen directly."),
    "C06": dict(
        level="model_checking", quick=["checked0", "release0", "miri"], thorough=["checked", "release", "miri"],
        technique=MC + " (all source-iterator and generator behaviours over all lengths and shapes)",
        rule="Every constructor for every length 0..=32 and the stated shapes; sources of every length around the required one with "
             "every kind of size hint.",
        note="Exhaustive within the bounds; with too many elements release builds keep the first ones, as stated."),
    "C07": dict(
        level="model_checking", quick=["checked0", "release0", "miri"], thorough=["checked", "release", "miri"],
        technique=MC + " (write histories through every access path; compile-time index acceptance for every index/length pair)",
        rule="Writes through every access path at every position, followed by reads through every path; all out-of-range indices of "
             "a boundary set; compile-time indices decided by trait probing.",
        note="Exhaustive within the bounds; acceptance of a compile-time index is observed as the availability of the impl."),
    "C08": dict(
        level="model_checking", quick=["checked0", "release0"], thorough=["checked", "release"],
        technique=MC + " (symbolic elements: the expression computed for every component is compared with the definition)",
        rule="Every operator in every by-value/by-reference form on every length 0..=32 and the stated shapes; the elements are "
             "distinct symbols of a term algebra, so each component's expression and operand order is decided for all values.",
        note="Exhaustive over lengths/shapes; the value space is covered by a free term algebra instead of sampled numbers."),
    "C09": dict(
        level="model_checking", quick=["checked0", "release0"], thorough=["checked", "release"],
        technique=MC + " (products over free non-commutative rings with all zero patterns, against the definition)",
        rule="dot, cross, matrix*matrix, matrix*vector for all shapes/zero patterns in bounds over the free non-commutative ring.",
        note="Exhaustive over shapes and zero patterns; polynomial identity over a free ring covers all values."),
    "C10": dict(
        level="model_checking", quick=["checked0", "release0"], thorough=["checked", "release"],
        technique=MC + " (all matrices over small finite rings; powers decided by the eventually periodic sequence)",
        rule="Every matrix of the stated finite spaces with 260 exponents up to usize::MAX, every zero pattern over the free ring.",
        note="Exhaustive within the bounds."),
    "C11": dict(
        level="model_checking", quick=["checked", "release"], thorough=["checked", "release"],
        technique=MC + " (all matrices over small finite fields, all leading-zero patterns over the rationals, free commutative ring)",
        rule="Every square matrix of the stated finite spaces against the permutation sum; all zero patterns and permuted triangular "
             "families for larger sizes; the free commutative ring for sizes up to three.",
        note="Exhaustive within the bounds; exact arithmetic only."),
    "C12": dict(
        level="model_checking", quick=["checked", "release"], thorough=["checked", "release"],
        technique=MC + " (all matrices of small finite spaces at every position, every rejected position of a boundary set)",
        rule="Every matrix of the stated finite spaces, every position, against the signed minor; every out-of-range position pair of a "
             "boundary set must panic.",
        note="Exhaustive within the bounds; exact arithmetic only."),
    "C13": dict(
        level="model_checking", quick=["checked", "release"], thorough=["checked", "release"],
        technique=MC + " (all matrices of small finite spaces, all pivot patterns of structured families)",
        rule="Every matrix of the stated finite spaces: Some iff the independently computed determinant is non-zero, and both products "
             "with the inverse are the identity.",
        note="Exhaustive within the bounds; exact arithmetic only."),
    "C14": dict(
        level="model_checking", quick=["checked0", "release0"], thorough=["checked", "release"],
        technique=MC + " (all shapes with identified entries, every predicate table, every callback history)",
        rule="Every structural operation on all shapes in bounds with identified entries; every truth table of predicates up to the stated size.",
        note="Exhaustive within the bounds; operations depend on entry identity only, so identified entries decide all values."),
    "C15": dict(
        level="model_checking", quick=["checked0", "release0"], thorough=["checked", "release"],
        technique=MC + " (all order types of entries up to the stated length, all placements of bounds)",
        rule="Every weak order of the entries up to the stated length, every position of the extreme for longer ones, every comparison of a set.",
        note="Exhaustive over order types within the bounds."),
    "C16": dict(
        level="model_checking", quick=["checked0", "release0"], thorough=["checked", "release"],
        technique=MC + " (all agreement patterns of the entries, every single differing position of larger shapes)",
        rule="Every subset of agreeing entries for small shapes, every single and pair of differing positions for larger ones, tolerances "
             "on both sides of the difference.",
        note="Exhaustive within the bounds; entries that record the tolerances they are given decide the forwarding."),
    "C17": dict(
        level="model_checking", quick=["checked", "release", "checked0+std"], thorough=["checked", "release", "checked+std"],
        technique=MC + " (all assignments of entry texts of a small alphabet to shapes, every failing write)",
        rule="Every assignment of entry texts from a set (empty, narrow, wide, multi-line, non-ASCII, failing) to every small shape; the "
             "output is parsed by an independent reader.",
        note="Exhaustive within the bounds; the failing writer fails at every possible write."),
    "C18": dict(
        level="model_checking", quick=["checked0", "release0"], thorough=["checked", "release"],
        technique=MC + " (enumeration of all lengths, shapes, element types, aliases and operations)",
        rule="Size, alignment, element addresses, array round trips and Copy for every length/shape/element type in bounds, every alias "
             "by type identity, and an allocation count for every non-formatting operation.",
        note="Exhaustive over the finite set of lengths and aliases; allocations are counted by a global allocator."),
    "C19": dict(
        level="model_checking", quick=["checked0", "release"], thorough=["checked", "release"],
        technique=MC + " (symbolic real entries for every length; every vector of an exactly representable grid)",
        rule="norm and normalized over a symbolic Float (all reals at once) for every length, and every vector of the stated float grids.",
        note="Exhaustive within the bounds; float comparisons use small relative tolerances so that summation order is free.",
        assumptions=["an implementation that leaves the symbolic fragment (e.g. scales by the largest entry) is judged on the float grid only"]),
    "C20": dict(
        level="model_checking", transcripts=True,
        quick=["release", "checked0", "release0+std", "release0+none", "checked0+none", "checked0+unicode_width",
               "release0+std+unicode_width+use_needs_drop"],
        thorough=["release", "checked", "release0", "checked0", "release+std", "checked+std", "release+none", "checked+none", "release+unicode_width",
                  "checked+unicode_width", "release+std+unicode_width+use_needs_drop", "checked+std+unicode_width+use_needs_drop"],
        technique=MC + " (the same enumeration of operations and inputs in every build configuration; the transcripts are compared)",
        rule="Every operation on enumerated inputs, including rejected calls and all iterator histories up to a depth, is executed in every "
             "build configuration; the outcome of each must be the same in all of them.",
        note="Exhaustive over the listed configurations and the enumerated inputs; the outcome in one configuration is the model of the others."),
    "C21": dict(
        level="model_checking", quick=["checked0", "release0", "miri"], thorough=["checked", "release", "miri"],
        technique=MC + " under a controlled scheduler (all pairs of operations, interleaved on two threads at the calls of caller code, nested, and in sequence)",
        rule="Every ordered pair of 73 operations: on two threads, the scheduler deciding how many calls of caller code each passes before the "
             "other runs; nested in every call of the first; one after the other; each 5000 times in a row.  Results and operands are those of "
             "the operation run alone.",
        note="Exhaustive within the bounds on the real code; switches happen at the calls of caller code, which are dense; Miri watches for data races "
             "between them.",
        assumptions=["switches inside a stretch of library code that calls nothing of the caller's are seen only by Miri's data-race detector"]),
    "C22": dict(
        level="model_checking", quick=["compiler"], thorough=["compiler"],
        technique="explicit enumeration of all shape combinations within bounds; each is one transition (accept or refuse) of the real "
                  "compiler on the real library, compared with an explicit model of shapes",
        rule="For every combination of shapes within the bounds, the program that combines them compiles if linear algebra gives the "
             "combination a meaning (and the result has the shape it prescribes), and is refused otherwise.",
        note="Exhaustive over the enumerated combinations, decided by the compiler on the current tree; type checking is per program, so no "
             "run-time behaviour is involved.",
        assumptions=["shapes beyond the bounds behave like those within: the trait bounds the compiler resolves are generic in the lengths"]),
}
