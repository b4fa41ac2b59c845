"""What each check covers (quick tier, thorough tier) and what stays outside."""
LARGER = "larger shapes than those listed"
LARGE = "; 11 listed larger shapes (1x20, 20x1, 2x9, 9x2, 6x7, 8x9, 17x3, 3x17, 1x40, 67x1, 2x130) with positional arguments at both ends, in the middle and one past the end"
TLARGE = "; 20 listed larger shapes (up to 16x17, 67x1, 1x70, 2x130)"
WITH_LARGE = {"C01", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19"}
B = {
    "C03": (
        "every call sequence of 5 arbitrary calls (next, next_back, nth, nth_back, len, size_hint; outer and inner iterators interleaved; 4 calls for the other element sizes, 6 on shapes up to 2x2) over every shape up to 3x3 in both orders, then a full drain; element sizes 0, 1, 3, 4 and 24; zero-sized elements: every thin shape of any 64-bit length and the listed extreme shapes, prefix and suffix of the iteration; 3 calls of nth/nth_back skipping up to 2 items",
        "shapes up to 4x4, 6 calls, 4 skipping up to 3",
        "larger shapes of elements with a size; the middle of huge zero-sized iterations"),
    "C04": (
        "all 2^128 (row, col) pairs of every index type on every shape up to 4x4 (3x3 for the secondary element types), both orders; index types whose accessors change their answer from call to call; zero-sized elements on thin and huge shapes (any 64-bit extent, listed pairs)",
        "shapes one larger each way", LARGER),
    "C05": (
        "chains of 3 operations (transpose, switch_order, switch_order_without_rearrangement, set/with order) on shapes up to 4x4, of 2 up to 6x6, one transpose or switch on every shape up to 16x16, lines of up to 40 elements; symbolic 64-bit payloads; element sizes 0, 1, 2, 3, 4, 8, 16, 24, 160; any 64-bit extents for zero-sized thin shapes",
        "chains of 4; 2 up to 8x8; one up to 30x30; lines up to 100", LARGER),
    "C06": (
        "every direction sequence (next/next_back) of every row/column view on shapes up to 4x4 (sized and zero-sized elements); nth views with any 64-bit n; the methods of the returned iterators",
        "shapes up to 5x5", LARGER),
    "C07": (
        "binary operations on all pairs of shapes up to 3x3 with at most 6 elements in all order combinations, unary operations and comparison up to 3x3; symbolic 64-bit payloads; elements u64, u8, f64, (), and a never-equal type",
        "binary operations with at most 12 elements, shapes up to 4x4", LARGER),
    "C08": (
        "any pair of 64-bit extents (all 2^128) for the constructors, reshape, resize and size queries, and lists of critical values for products of more than two quantities; element sizes 0, 1, 2, 3, 4, 8, 16, 24, 131072; requests that fit are carried out when at most 6 elements or above 64 KiB (the latter end at the allocation, after its size has been asserted)",
        "as quick", "allocation failure; valid requests of 7 elements to 64 KiB (covered at other shapes by the other checks)"),
    "C09": (
        "reshape of every shape up to 4x4 to any of the 2^128 shapes, resize from every shape up to 4x4 to every shape up to 5x5, two successive resizes up to 3x3 (also with elements without a destructor, spare capacity and a clear in between), failing operations with their arguments unchanged; both orders; symbolic payloads; drop ledger",
        "one larger each way", LARGER),
    "C11": (
        "n, k, m up to 3 and inner dimension up to 8 for a single row by a single column; elements as symbolic numbers, as owned ledger values and as free terms; all order combinations; every pair of shapes including those without elements",
        "n, k, m up to 4", "larger shapes; closures of multiply_like_operation that are not deterministic"),
    "C12": (
        "every pair of shapes up to 4x4 with at most 12 elements for the generic operation family (owned/borrowed/assign), 27 named forms up to 3x3, all order combinations, symbolic payloads and ledger; any 64-bit extents for zero-sized thin and empty shapes; any result size above isize::MAX bytes",
        "5x5 with 25 elements; named forms up to 4x4", LARGER),
    "C13": (
        "all 2^128 isize pairs on every shape up to 5x3 and every n x 1, 1 x n up to 13, shapes without elements, and listed huge zero-sized shapes; both orders; swap of two wrapping indices",
        "shapes up to 6x6, lines up to 24", "larger shapes of elements with a size"),
    "C14": (
        "every pair of destination and source shape up to 5x5, all order combinations, symbolic payloads, clone/drop ledger; element sizes 0, 1, 2, 4, 16, 24 and 160; two successive overwrites up to 3x3",
        "shapes up to 6x6", LARGER),
    "C15": (
        "every consumption sequence of every element iterator on shapes up to 4x4 (parallel ones: up to 6 elements, every fork-join schedule, pools of 1 to 3 threads), after a history of transposes, order switches and reshapes; two nth/nth_back calls followed by each of 6 internal-iteration methods on shapes up to 3x3; element sizes 0 to 160; the first and last 5 indices of matrices of up to usize::MAX zero-sized elements",
        "shapes up to 5x5, 8 elements", "rayon's own scheduler and splitter state beyond fork-join schedules (a stand-in replaces rayon-core; rayon's producers/consumers are the real code)"),
    "C16": (
        "every fork-join schedule (execution order and migration of every join) for every shape up to 6 elements, pools of 1 to 3 threads; schedules chosen per nesting level for 12, 17 and 24 elements with pools of 1 to 5 threads, schedules chosen for the first join and for all others for 35, 71 and 132 elements with pools of 1 to 3; result sizes that overflow for any 64-bit element count",
        "8 elements, 4 threads; per level up to 133 elements and 16 threads; first join and others up to 259 elements and 16 threads", "rayon-core itself (work stealing, latches) is replaced by a sequential fork-join stand-in; caller code that communicates between invocations"),
    "C17": (
        "22 element types covering every (Send, Sync) class x 4 iterator types; race check on every shape up to 4x4 and up to 2x6, 3 threads, any assignment of rows/columns to threads, 2 freely interleaved steps then round-robin, vector-clock style access sets",
        "5x5, 2x7, 4 threads, 3 free steps", "weak memory (no atomics are involved); more threads"),
    "C18": (
        "all values of all 14 primitive types x 5 operations x 18 forms (owned/borrowed matrix, owned/borrowed scalar, scalar left or right, assign) on shapes 1x1, 1x2, 2x1, 0x2 in both orders; negation 8 types x 4 forms; NaN results count as one value",
        "additionally 2x2, 2x0, 0x0", "larger shapes; % on floats is an uninterpreted function (same argument order and values), with concrete witnesses for fmod itself"),
    "C19": (
        "every list of up to 4 rows of up to 3 elements each through 7 conversion forms, const arrays and nested arrays of listed shapes, all macro forms, with_value/with_default/with_initializer up to 4x4, rows of zero-sized elements of any 64-bit length",
        "5 rows of up to 4; 6x6", LARGER),
    "C20": (
        "every combination of 6 kinds of rendering (empty, 1 to 3 characters with symbolic content, 2- and 3-byte characters with symbolic content) on every shape up to 4 elements; one exceptional rendering (12 kinds, including blanks, 4-byte characters, 10 characters) at every position of every shape up to 4x4 with 9 elements; index labels of 2 and 3 digits on 19 shapes (up to 110 elements); one or two exceptional renderings at listed positions of 6 larger shapes (up to 105 elements); 8 kinds of multi-line rendering up to 2x2 (no panic, same in all configurations and orders); element width around 65535; format flags; a writer failing after any number of bytes; feature sets default, none and full, with 4 surroundings in which colours are not supported (not a terminal, NO_COLOR, dumb terminal)",
        "8 kinds; 16 elements; 12 larger shapes (up to 270 elements); multi-line up to 3x3",
        "r x 0 and 0 x c matrices may print as []; element renderings whose own Display/Debug fails; surroundings in which colours are supported"),
}
XL = ("; 17x18, 33x34, 1x1030, 520x2, 65x66 with listed arguments, symbolic payloads", "; also 3x342, 34x33, 1030x1, 130x131, 1x4100")
FURTHER = {k: XL for k in ("C03", "C04", "C05", "C06", "C07", "C09", "C10", "C12", "C13", "C14", "C15", "C18")}
FURTHER.update({
    "C01": ("; every operation with listed arguments on 17x18", "; on 33x34"),
    "C02": ("; the panic at the 1st, 17th, 34th, 65th or 72nd invocation on 9x8 and 2x36", "; 10 points on 9x8, 2x36, 70x1, 1x131"),
    "C11": ("; n, k, m of 17x18x19, 33x34x3, 3x5x130, 130x5x3, 2x513x2", "; 33x34x35, 65x2x66, 1x1030x1"),
    "C16": ("; 33x34 with pools of 1 and 2 threads, one schedule bit for the first join and one for all others", "; 17x18, 1x1030, 1030x1, 3x342"),
    "C17": ("; 17x18 and 3x342", "; 33x34, 520x2, 65x66"),
    "C19": ("; 17x18, 33x34, 520x2 with one row of another length", "; 2x520, 65x66"),
})
SPECIAL = {
    "C11": ("; 12 larger n, k, m (inner dimension up to 67, extents up to 70, 5x5x5)", "; 17 larger ones (up to 9x9x9, 33x1x2)"),
    "C15": (LARGE + " and 6 direction patterns (parallel: the first two, pools of up to 2 threads, one schedule bit per level)", TLARGE),
    "C17": ("; 2x9, 9x2, 6x7, 7x6, 1x20, 20x1, 8x9, 2x65 with 3 threads, vectors dealt in two ways", "; also 8x8, 3x17, 17x3, 40x1"),
    "C18": ("; 1x17, 5x7 and 2x130 with one element of any value (first or last) among others of restricted value", "; 8 larger shapes, 5 places; owned generic elements on the 20 shapes"),
    "C19": ("; 9x5, 5x9, 1x20, 20x1, 2x17, 17x2, 1x260, 70x1 with no, one or two rows (first, second, middle, last) of another length", "; also 1x65, 65x1, 12x11"),
}
