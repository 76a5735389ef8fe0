prop("C01", "Dyadic arithmetic agrees with the scalar definitions for all operands",
     "For every pair of numeric or character arguments, 𝕨 f 𝕩 for the arithmetic functions + - × ÷ ⋆ √ ⌊ ⌈ | ∧ ∨ ¬, logarithm ⋆⁼ and the dyadic functions of •math is the scalar definition applied at every leaf, with leading-axis agreement of the two shapes; anything else (non-matching shapes, wrong types, characters out of range) is an error. The result does not depend on how wide the elements are stored, and never wraps around or loses precision when a result leaves the narrower type.",
     ["inputs"], "all argument pairs: every scalar pair, shape pair, nesting and stored element type",
     "The tests sample a few dozen argument pairs and default storage; the fast paths (overflow fallback, power-of-two ÷ and |, bit arrays, char arithmetic, leading-axis extension) split the input space by value, position and stored type in ways no test sweeps.",
     [B+"arithd.c", B+"arithm.c", "src/utils/each.c"], [("typed loops with overflow fallback (AR_I_AA, REG_SA)", B+"arithd.c"), ("integer ÷ and | fast paths (divint, modint, stile masks)", B+"arithd.c"), ("leading_axis_arith", B+"cells.c")],
     "stateless exhaustive enumeration of operand pairs and representations against a reference model",
     "Every ordered pair of a 72-value alphabet at all type boundaries × 18 functions × 4 forms × every element type able to hold it; every pair of 15 shapes × 8 item kinds. "+TB)
prop("C02", "Monadic arithmetic and •math agree with the scalar definitions",
     "For every argument, the monadic arithmetic functions + - × ÷ ⋆ √ ⌊ ⌈ | ¬ and the monadic functions of •math apply the scalar definition at every leaf and keep the shape, whatever the nesting, rank or stored element width; a non-number anywhere is an error. Type minima (such as |¯128 or -¯32768) widen instead of wrapping.",
     ["inputs"], "all arguments: every scalar at the type boundaries at any position, shape, nesting and stored type",
     "Tests call each function on a couple of small arrays; the per-type loops and the retry on the type minimum depend on the value, its position and the stored type.",
     [B+"arithm.c", B+"bit.c"], [("GC1i/GC1f per-type loops, minimum check and retry", B+"arithm.c"), ("bit_negate, bit_sel for bit arrays", B+"bit.c")],
     "stateless exhaustive enumeration of operands and representations against a reference model",
     "Every value of a 70-value alphabet at every position class × all functions × all element types × lengths at the word boundaries. "+TB)
prop("C03", "Comparison, match, ordering and hash agree on one equality and order",
     "= ≠ < > ≤ ≥ compare leaf by leaf by the scalar rules, ≡ and ≢ hold exactly when shape and all items match, and •Cmp is one total order (shape and prefixes included) in which 0 means match. Matching values have equal hashes for every seed. None of this depends on the element type, slicing, sharing or fill with which the values are stored.",
     ["inputs"], "all pairs of values, shapes, lengths and stored representations",
     "Tests compare a few values in their default storage; equal values can be stored in many ways and each pair of stored types takes its own loop, with word-sized tails.",
     [B+"cmp.c", B+"compare.c", "src/utils/hash.c", "src/core/stuff.c"], [("typed comparison loops and mixed-type comparison", B+"cmp.c"), ("equal, atomEqual, eequal", "src/core/stuff.c"), ("compare", B+"compare.c"), ("bqn_hash", "src/utils/hash.c")],
     "stateless exhaustive enumeration of value pairs and representations against a reference model",
     "All pairs of a 75-value scalar alphabet × 6 functions × forms × element types; all pairs of ≈310 values for ≡ ≢ •Cmp and hashing; every position of a single difference at lengths around word sizes. NaN ordering is left open. "+TB)
prop("C04", "Structural functions place every element exactly where the spec says",
     "For every argument, reshape, deshape, join, join-to, couple, pair, enlist-merge, take, drop, prefixes, suffixes, range, windows, shift, reverse, rotate, transpose and axis reordering return exactly the array their definition gives: shape, every element and the fill where known, for every rank, length, count and stored type. Invalid arguments are errors; arguments that are still referenced elsewhere are not changed.",
     ["inputs"], "all arrays (shape, length, stored type, sharing) and all counts and axis lists",
     "Tests use small default-typed examples; bit-array shifts, in-place reuse, block transposes, cyclic reshape doubling and append-in-place paths switch on length, offset, alignment and reference count.",
     [B+"sfns.c", B+"transpose.c", "src/utils/mut.c", "src/core/fillarr.c", "src/utils/bits.c"], [("take_impl/drop_impl/reverse/rotate, join, shift", B+"sfns.c"), ("transposes by element width", B+"transpose.c"), ("mut_copy and typed copy routines", "src/utils/mut.c"), ("bit copying at unaligned offsets", "src/utils/bits.c")],
     "stateless exhaustive enumeration of arrays, counts and representations against a reference model",
     "Every length up to 134 for the list functions × 10 element families; all 18² matrix sizes for transpose; every 0–3 item count list in ¯4..4; every reshape source 0–39 against 32 result lengths; chains of 12 appends with sharing at 4 phases. "+TB)
prop("C05", "Select, pick, replicate and indices are exact, with bounds always checked",
     "𝕨⊏𝕩, 𝕨⊑𝕩 and ⊏ ⊑ take exactly the cells or elements that are named, negative indices counting from the end, with one index array per axis, per row under ⎉/˘, or as a tree of picks; any index out of range or not an integer is an error. 𝕨/𝕩, /𝕩 and /⁼𝕩 repeat, locate and count exactly as given for every pattern of counts, and reject negative or fractional counts.",
     ["inputs"], "all index lists, count lists, arrays, cell sizes and stored types",
     "Tests sample few index patterns; range checks run in blocks, index types narrow by length, compress picks an algorithm from density, and cells copy differently by their size in bits.",
     [B+"select.c", B+"slash.c"], [("select by element and cell width, in-block bounds check, compound selection", B+"select.c"), ("where/compress by density, replicate by constant, indices inverse", B+"slash.c")],
     "stateless exhaustive enumeration of index and count lists and representations against a reference model",
     "Every index list of up to 3 items over n+5 values; 23 lengths × 16 index counts × 8 patterns × 10 families; cell sizes 0–129; all count lists of up to 5; 14 bit patterns × 23 lengths around word and block sizes. Compound replicate (one count list per axis) is implemented only by the BQN runtime, which this build does not contain. "+TB)
prop("C06", "Sort, grade and bins follow the one array order, stably",
     "∧ ∨ put the major cells of any array in ascending or descending order, ⍋ ⍒ give the permutation that does so and keeps equal cells in their original order, and 𝕨⍋𝕩, 𝕨⍒𝕩 count for each cell of 𝕩 how many cells of 𝕨 come before or match it. Unsorted 𝕨 is an error. The result depends only on the values, not on length, value range, stored type or cached sortedness.",
     ["inputs"], "all arrays: length, order, value range, stored type, flags",
     "Tests sort a few lists; each stored type and length range has its own algorithm (insertion, counting, radix with 8/32-bit counters, permutation inversion, bucket, merge sort over runs, table lookup and branchless search).",
     [B+"grade.h", B+"sort.c", B+"sortTemplate.h", B+"radix.h", B+"slash.c"], [("sort/grade/bins for each direction", B+"grade.h"), ("merge sort over runs", B+"sortTemplate.h"), ("prefix sums of counts", B+"radix.h"), ("grade_bool", B+"slash.c")],
     "stateless exhaustive enumeration of lists, orders and representations against a reference model",
     "Every list of up to 8 of 3 values in 9 alphabets at the type limits, all permutations of up to 7 values, every sequence of 2–4 runs of 10 kinds, lengths around every algorithm limit up to 70000, one swapped adjacent pair at every position for the sortedness check. Order of NaN is open. "+TB)
prop("C07", "Searches find exactly the matching cells, first match first",
     "𝕨⊐𝕩 is the index of the first matching cell of 𝕨 or its length, 𝕨⊒𝕩 uses every cell of 𝕨 at most once, 𝕨∊𝕩 tells membership, 𝕨⍷𝕩 marks every occurrence; ⊐ ⊒ ∊ ⍷ with one argument number, count, mark and keep first occurrences. Matching is by value alone: the types in which either side is stored, its length, cell size, and cached flags make no difference.",
     ["inputs"], "all pairs of arrays: values, cell sizes, stored types, lengths, flags",
     "Tests search a few lists; tables, hash tables, single-item scans, bit tricks, small-𝕨 comparison chains and reinterpretation of small cells as integers are chosen by type, length and cell width.",
     [B+"search.c", B+"selfsearch.c", "src/utils/hash.c", "src/utils/hashmapTemplate.h", B+"fns.c"], [("indexOf/memberOf/count with lookup tables", B+"search.c"), ("reinterpreting cells of up to 62 bits", B+"search.c"), ("self-search tables and flag shortcuts", B+"selfsearch.c"), ("find", B+"fns.c"), ("generic hash tables", "src/utils/hashmapTemplate.h")],
     "stateless exhaustive enumeration of lists and representations against a reference model",
     "Every list of up to 6 of 4 values in 9 alphabets; every pair of lists of up to 3 items; the only equal pair at every two positions; the searched item at every position; 24 cell sizes from 0 to 65; lengths up to 66000 around table and index widths. 𝕨⍷𝕩 beyond lists in rows is runtime code and absent. "+TB)
prop("C08", "Group puts every cell into exactly the groups its keys name",
     "𝕨⊔𝕩 and ⊔𝕩 give one group for each key up to the largest (or as many as an extra last item of 𝕨 asks for), in which the cells of 𝕩 with that key stand in their original order; cells with key ¯1 appear nowhere; with a list of key lists each leading axis of 𝕩 is grouped by its own. Keys that are not integers, below ¯1, or of the wrong length are errors. Types, fills, cell sizes and the lengths of the groups make no difference.",
     ["inputs"], "all key lists and arrays: lengths, number and sizes of groups, cell sizes, stored types, sharing",
     "Tests group a few short lists; sorted keys, Boolean keys, wide cells, groups of bits, dropped cells and arguments longer than a work block each take their own code.",
     [B+"group.c"], [("group_simple, group_simple_u1, chunked counting", B+"group.c"), ("multi-axis group", B+"group.c")],
     "stateless exhaustive enumeration of key lists, arrays and representations against a reference model",
     "Every key list of up to 6 over ¯1..3 × item families, lengths around the block limits × key patterns × cell sizes, all representations of both arguments, wrong arguments. "+TB)
prop("C09", "Fold, insert, scan, table and each apply their operand exactly as defined",
     "𝕨𝔽´𝕩, 𝕨𝔽˝𝕩, 𝕨𝔽`𝕩, 𝕨𝔽⌜𝕩 and 𝕨𝔽¨𝕩 give what applying the operand to elements or cells, in the defined order and pairing, gives, for every operand, with or without 𝕨; empty arguments give the operand's identity or an error. Sums, products, minima and Boolean reductions never wrap around or depend on the stored type, the number of elements or the position of a deciding element. Shared arguments do not change.",
     ["inputs"], "all operands, arrays (length, shape, values, stored type, sharing) and starting values",
     "Tests fold a few lists; every arithmetic operand has its own loop per element type, Boolean lists use word tricks with tails, sums and products switch from integers to floats at some element, and table, each and insert change strategy by shape.",
     [B+"fold.c", B+"scan.c", B+"md1.c", "src/utils/each.c", B+"cells.c"], [("fold_c1, fold_c2, insert_c1, insert_c2, insert_scal", B+"fold.c"), ("scan_c1, scan_c2 and the Boolean scans", B+"scan.c"), ("tbl_c2, each_c1, each_c2", B+"md1.c"), ("eachd_fn, eachm_fn in-place reuse", "src/utils/each.c")],
     "stateless exhaustive enumeration of operands, lists, shapes, starting values and representations against a reference model",
     "Every list of up to 4–7 items in 11 alphabets × 27 operands × 18 starting values; a deciding bit at every position up to 66; a type-limit value at every position; 27 shapes for insert and scan; every pair of 14 shapes for table and each; sums of up to 4.3 million numbers. "+TB)
prop("C10", "Cells and rank apply their operand to every cell and merge the results",
     "𝔽˘ and 𝔽⎉k with one or two arguments give the merged results of applying the operand to each cell or each pair of cells, for every operand, whether or not there is a special way to do it on all cells at once: leading axes of the frames must agree and the shorter frame is repeated, ranks count from either end, and 𝔾 is one to three whole numbers or a function giving them. Doing so leaves shared arguments and every shared value as they were.",
     ["inputs"], "all operands, arrays (shape, values, stored type, sharing) and ranks",
     "Tests apply a few functions to a few matrices; over forty operands have their own implementation on cells, chosen by shape, element type, row length and number of rows.",
     [B+"cells.c", B+"fold.c", B+"scan.c", B+"select.c", B+"transpose.c"], [("for_cells_c1, for_cells_AS, for_cells_SA, for_cells_AA, cell_c1, rank_c1", B+"cells.c"), ("fold_rows, fold_rows_bit, insert_cells_join, insert_cells_identity", B+"fold.c"), ("scan_rows_bit", B+"scan.c"), ("join_cells", B+"transpose.c")],
     "stateless exhaustive enumeration of operands, shapes, ranks and representations against a reference model that applies the operand cell by cell",
     "82 functions and derived functions × 30 shapes × 10 families × every cell rank × representations; 29 dyadic functions × 15 × 15 shapes × 9 family pairs × 25 pairs of ranks; 17 bound arguments on either side; row lengths 1–70 (140 in the thorough tier); blocks of up to 60000 cells; 30 valid and invalid ranks; ≡ and ≢ of rows with a difference at every place. "+TB)
prop("C11", "Under changes exactly the positions its structural function selects",
     "𝔽⌾𝔾𝕩 (and 𝕨𝔽⌾𝔾𝕩), for a 𝔾 that only selects and rearranges parts of 𝕩, gives 𝕩 with the selected positions replaced by the corresponding results of 𝔽 and everything else as it was, whatever the stored types of 𝕩, of the selection and of the replacement, and whether or not 𝕩 can be changed in place. A replacement of the wrong shape is an error, and so is giving one position two different values. If 𝕩 is used elsewhere it does not change.",
     ["inputs"], "all structural functions, arguments, replacements and their stored types and sharing",
     "Tests replace a few items of short lists; there is one assignment path per element type of the list, each with its own rule for when the replacement fits, in-place reuse that depends on reference counts, and cached properties that must be dropped.",
     [B+"select.c", B+"slash.c", B+"sfns.c", B+"transpose.c", B+"md2.c"], [("select_ucw, select_replace", B+"select.c"), ("slash_ucw", B+"slash.c"), ("pick_uc1, pick_ucw, take_ucw, drop_ucw, shape_uc1, reverse_ucw", B+"sfns.c"), ("transp_uc1", B+"transpose.c"), ("under_c1, under_c2", B+"md2.c")],
     "stateless exhaustive enumeration of structural functions, arguments, replacements and representations against a position-tracking reference model",
     "16 monadic functions and compositions and 8 functions with 36 left arguments × 17 shapes × 10 families × up to 29 replacements × representations; every position of lists up to 66 × 26 values × six ways of replacing it; selections of every length up to 70 (140). Structural functions that only the runtime handles, and 𝔾 with a computational inverse, are absent. "+TB)
prop("C12", "Combinators, trains, Repeat and Choose reduce as defined",
     "Trains F G H and F G, the combinators ∘ ○ ⊸ ⟜ ⊘ ˜ ˙, ◶ ⍟ ⎊ and •while build functions that call their operands with exactly the arguments, in exactly the order and exactly as often as defined, with and without 𝕨 and in whatever nesting, constants as operands standing for functions that return them. Arguments kept elsewhere do not change. A choice or count that does not fit is an error.",
     ["inputs"], "all compositions of functions, constants and blocks; all arguments",
     "Tests use one combinator at a time with pure arithmetic, which hides order and ownership; nested derived functions are built by three routes (compiler, fused opcodes, runtime calls), with special calls for binds and constants.",
     [B+"md2.c", B+"md1.c", "src/core/derv.c", "src/vm.c", "src/utils/calls.h"], [("repeat, cond, before, after, over, atop, val, fillBy/catch", B+"md2.c"), ("swap, const", B+"md1.c"), ("fork and atop functions", "src/core/derv.c"), ("train opcodes", "src/vm.c")],
     "stateless exhaustive enumeration of compositions of uninterpreted functions against a reference reduction",
     "Every combinator and train of 9 leaves, from source and built directly; depth-1 functions on either side of every combinator and in forks; every nesting four deep (five in the thorough tier) of the combinators with a function, constant, block or failing function; 19 choosers × lists of up to 4; 23 counts. Each function returns its name and arguments, so the result is the complete call tree; failing operands show the order. ⚇ other than ⚇0 and ◶ with an array of rank above 1 are runtime code. "+TB)
prop("C13", "Undo inverts, and rejects what has no inverse",
     "𝔽⁼𝕩 and 𝕨𝔽⁼𝕩, and ⍟ with a negative count, give the argument for which the function gives 𝕩 — exactly for rearrangements (⌽ ⍉ with any 𝕨), enclosing (< ⋈ ≍), counts (/) and up to rounding for arithmetic — in all types and representations; 𝕩 that is no result of the function is an error. Counted repetition in both directions passes through each step once.",
     ["inputs"], "all functions with an inverse of their own, all arguments and left arguments",
     "Tests undo a few small values; /⁼ has a method per element type and sortedness, axis permutations are inverted axis by axis with repeated axes rejected, and negative counts walk a list of intermediate results.",
     [B+"inverse.c", B+"slash.c", B+"transpose.c", B+"sfns.c", B+"arithm.c", B+"arithd.c", B+"md2.c"], [("slash_im", B+"slash.c"), ("transp_im, transp_ix", B+"transpose.c"), ("reverse_ix, enclose_im, pair_im, couple_im", B+"sfns.c"), ("arithmetic inverses", B+"arithd.c"), ("repeat", B+"md2.c")],
     "stateless exhaustive enumeration of functions, arguments and representations against a reference model and by undoing",
     "7 functions × 34 arguments × 10 families; 36 left arguments × 32 arguments for ⌽⁼ and ⍉⁼, direct and bound; every list of up to 6 of 4 values in 6 alphabets for /⁼, 25 lengths × 18 maxima × 7 patterns; 8 functions × 15 negative or nested counts. Inverses the runtime computes are absent from this build; numeric ones are compared to 9 digits. "+TB)
prop("C14", "Programs evaluate by lexical scoping, in order, compiled or interpreted",
     "Evaluating a program runs each statement in order and each expression from right to left; a variable is the one of the scope where it was written, each call of a block has variables of its own, a closure keeps those of the call that made it; ← ↩ F↩, destructuring, headers, predicates, namespaces and fields, and the choice among a block's bodies, do what the language defines. The first calls of a block (interpreted) and later ones (compiled to machine code) agree. An error leaves everything done before it in place and the interpreter ready to go on.",
     ["inputs", "histories"], "all programs, all arguments, and every call of a block however often it was called",
     "Tests run short fixed programs mostly once, so the machine code compiled for a body on its third call is hardly run at all; values whose variables are taken at their last use, and errors part-way through assignments, depend on the whole program.",
     ["src/vm.c", "src/vm.h", "src/jit/nvm_x86_64.c", "src/jit/nvm.c", "src/ns.c", "src/load.c"], [("evalBC, block and body calls, v_set/v_get/v_seth", "src/vm.c"), ("optimizer and machine-code generation", "src/jit/nvm_x86_64.c"), ("field names and namespace layout", "src/ns.c"), ("scopes and bodies", "src/vm.h")],
     "stateless exhaustive enumeration of programs and call sequences, run by the real VM and JIT next to a reference evaluator",
     "All sequences of 3 statements of 36 (46656 programs) and 14 further families (nesting, closures, destructuring, headers, modifiers, inverses, namespaces, caught errors, sizes, recursion): 79000 programs, each called up to 8 times so that the interpreter, then compiled code run it. Programs are given as bytecode to •CompObj: the compiler from source is another property. Reading a variable after its announced last use is outside.")
prop("C19", "•HashMap behaves as an insertion-ordered map for every history",
     "A hash map made from a list of distinct keys and a list of values, and then changed by any sequence of Set and Delete, answers Get, Has, Count, Keys and Values as an ordered list of pairs would: one entry for each key by match, last value set, keys in insertion order with a deleted key going to the end when set anew. Missing keys are errors or give the default, duplicate keys are rejected. Neither the lists it was made from nor lists obtained from it before ever change.",
     ["histories", "inputs"], "all sequences of operations on all keys, under every pattern of hash collisions",
     "Tests do a handful of operations; growth, compaction of deleted entries, backward shift on deletion and wrap at the table's end depend on the hash values and on the history.",
     [B+"search.c", B+"sysfn.c"], [("hashmap_build, hashmap_set, hashmap_delete, hashmap_lookup", B+"search.c"), ("•HashMap namespace", B+"sysfn.c")],
     "stateless exhaustive exploration of operation sequences on the real map against a reference model, with controlled hash collisions",
     "6 collision layouts of 5 keys × 4 starting maps × every sequence of up to 4 of 10 operations; sequences of up to 6 with lists held and collections; 17 sizes up to 300 × 6 layouts × deletion patterns; sliding windows of 400 insertions; keys of 22 kinds in all representations. The map is built both with the real hash and with the code base's own TEST_BAD_HASH.")
prop("C15", "Garbage collection at any moment keeps exactly what is reachable",
     "A garbage collection may run at any allocation, in any operation, without changing the outcome: what the program can still reach — through variables, closures, namespaces, maps, lists, derived functions or an unfinished computation — stays intact and working, and everything it can no longer reach, cycles included, is reclaimed, so that once nothing is held the heap is as it was.",
     ["inputs", "histories", "schedules"], "all object graphs and what is held of them, all moments a collection can come at",
     "Tests hardly ever collect; a collection in the middle of building a result must find a half-filled object consistent, and cycles through closures, maps and namespaces are only reclaimed by it.",
     ["src/core/gc.c", "src/core/gstack.h", "src/core/heap.c", "src/h.h", "src/vm.c", "src/utils/mut.c", "src/core/harr.h"], [("gc_forceGC: visit, refcount to roots, free", "src/core/gc.c"), ("protected values on the global stack", "src/core/gstack.h"), ("partial arrays (t_harrPartial, t_freed, NOGC)", "src/core/harr.h"), ("visit functions of every type", "src/vm.c")],
     "exhaustive enumeration of object graphs and histories with collections on the real heap; exploration of a collection at every distinct allocation point",
     "Two nodes (maps, closures, namespaces) with every edge in 6 (10) forms, three nodes with all 512 edge sets × 10 forms × kinds × what is held, four nodes of one kind, histories of linking, releasing, taking again and collecting, chains of 3000: afterwards exactly the reachable objects exist and answer. All of C01–C14 and C19 run again with a collection at each allocation point (call path and argument types) not seen before; quick distinguishes fewer argument types. Reads of memory a collection freed are seen through wrong results, crashes and counts.")
prop("C16", "Running out of memory is an error that leaves everything else intact",
     "Whenever the memory an operation asks for is refused, or would exceed the heap limit, the operation fails with the error Out of memory; values and maps that existed before are as they were, the interpreter's stacks are restored, later operations work, what the failed one left half done is reclaimed or at least never touched again, and the heap limit is never exceeded.",
     ["inputs", "crash_points"], "all operations and every allocation within them that could fail",
     "No test limits memory; every allocation in every primitive is an exit in the middle of building something, with objects half initialized and stacks extended.",
     ["src/opt/mm_buddy.c", "src/opt/mm_buddyTemplate.h", "src/core/gstack.h", "src/vm.c", "src/utils/mut.h", B+"search.c", B+"fold.c"], [("allocation slow path and the heap limit", "src/opt/mm_buddyTemplate.h"), ("error unwinding: thrOOM, popCatch, gsPop", "src/vm.c"), ("half-built results", "src/core/harr.h"), ("hashmap_set, hashmap_delete", B+"search.c")],
     "exhaustive fault injection on the real code: each allocation point of each explored operation fails in turn",
     "All of C01–C14 run again, every call first made on copies of its arguments with each allocation point (call path and argument types; quick distinguishes fewer types) failing in turn, then really; programs are loaded and called, interpreted and compiled, with each failing; every allocation of each map operation for 15 sizes × 4 layouts; 80 programs compiled and run with each failing; 8 growing computations under 3 heap limits. What errors leave behind is not reclaimed by design in several places; required is that it is never touched again.",
     level="model_checking")
prop("C17", "Every value is counted exactly: nothing leaks, nothing is freed twice",
     "Evaluating any operation consumes exactly what it is given and returns exactly one reference to its result: once arguments and result are released, the heap in use is exactly what it was before, every object's and every shape's reference count equals the number of references to it, and no value is reachable after its last reference is gone.",
     ["inputs", "histories"], "all operations on all arguments in all representations, shared or not, and all sequences of them",
     "A missing or extra release changes no result in a short test: it shows as memory growing, or as another value being overwritten much later.",
     [B+"select.c", B+"fold.c", B+"sfns.c", B+"md1.c", B+"md2.c", "src/utils/each.c", "src/utils/mut.c", "src/vm.c", "src/core/stuff.c"], [("reference counting: inc, dec, reusable", "src/h.h"), ("shape objects shared between arrays", "src/core/arrFns.h"), ("in-place reuse when the count is one", B+"arithd.c"), ("variables and stack of the VM", "src/vm.c")],
     "exhaustive enumeration of operations and arguments with exact accounting of the heap and of all reference counts after each",
     "All of C01–C14 and C19 run again: every call is first made on clones of its arguments, after which the heap must hold as many bytes as before; for each new combination of function and argument types all reference counts of the heap, shapes included, are recomputed by visiting every object. Calls that end in errors are excluded, as errors leave temporaries to the collector by design; what they leave does not count against later calls.")
prop("C18", "The allocator hands out disjoint, sufficient blocks and reuses all that is freed",
     "After any sequence of allocating and freeing objects of any sizes and of collecting garbage, every live object has a block of its own of at least its size, overlapping no other, its contents untouched; the blocks in use and the free ones together make up the heap exactly and the count of used bytes is exact. Free memory is split and, after a collection, merged so that it can be used for objects of other sizes; the heap grows only when no free block fits and never beyond its limit.",
     ["histories"], "all sequences of allocations, frees and collections, of all sizes",
     "Tests allocate in one pattern and never look at the heap; a wrong split or merge shows as two values sharing memory long afterwards, or as memory that is never used again.",
     ["src/opt/mm_buddy.c", "src/opt/mm_buddyTemplate.h", "src/opt/mm_buddyTemplate.c", "src/opt/mm_2buddy.c", "src/core/gc.c"], [("allocL, allocS, allocateMore, splitTo, free", "src/opt/mm_buddyTemplate.c"), ("freeFreedAndMerge", "src/opt/mm_buddyTemplate.c"), ("mm_alloc, mm_size, mm_round", "src/opt/mm_buddyTemplate.h"), ("gc_forceGC calling the merge", "src/core/gc.c")],
     "stateless exhaustive exploration of sequences of allocator operations on the real heap, with its invariants checked by walking it after each",
     "5 sets of 4 sizes × every sequence of up to 6 (7) of 8 operations; 3 regions of 8 pieces, all 256 subsets freed × 3 orders × 4 continuations; every object size from 33 to 134000 and around (3×) powers of two up to 2⋆24 (2⋆27); after 1024 histories, all free memory in pieces of one size; 3 heap limits × sequences of up to 5 (6). For both allocators that the code base has (MM=1, the default, and MM=2; reuse across sizes is required of the former only).")
prop("C20", "Values never change and results do not depend on their history",
     "After any sequence of operations, every name still holds exactly the value it was given, whatever was done through other names holding the same array or parts of it, and including after errors; and an operation gives on such values, which may share storage, be slices, keep spare room, or carry flags about sortedness and range left by earlier operations, the same result or error as on equal values built afresh. Flags an array carries describe it correctly.",
     ["histories", "inputs"], "every history of operations",
     "In-place reuse happens when a reference count happens to be 1, and flags and stored types are left behind by earlier operations, so an error needs a particular order of operations and sharing that the tests of one primitive at a time do not form.",
     ["src/utils/mut.h", B+"md2.c", B+"sfns.c"], [("reusable, inplace_add, arr_join_inline", "src/utils/mut.h"), ("FL_KEEP, FL_SET", "src/h.h"), ("under (⌾) paths", B+"md2.c"), ("select, take, drop, reverse, join, shift", B+"sfns.c")],
     "stateless exhaustive exploration of all histories over shared names in the real code, against the same operation on fresh values and an immutable model of every name",
     "11 initial values (stored as bits, small and large integers, floats, characters, nested, empty, units): all histories of 3 (4) of 84 operations on one name; pairs of names, shared or not, all histories of 2 operations with every source and destination, an operand whose name is reassigned being given away; all histories of 3 of the 14 operations that reuse storage (thorough: of all operations, within the time). After every step every name is compared with the model and its form validated. "+TB)
prop("C22", "Source text means what the grammar says, or is rejected",
     "A text is split into tokens and parsed by BQN's grammar — roles given by names' first letter and by primitives, modifiers binding left to right before functions, functions right to left, assignment, trains, lists, parentheses, separators, fields, blocks with 𝕨 and 𝕩 — and running it gives what that parse means. A text that is no program (unbalanced, wrong roles, misplaced assignment, unknown characters, unclosed literals, Nothing where a value is needed) is an error and never runs. Number, character and string literals denote exactly what is written.",
     ["programs", "inputs"], "all texts",
     "Tests contain correct programs in familiar forms; what happens to the combinations nobody writes, including every wrong one, is decided by a hand-written parser juggling roles.",
     ["src/opt/comp.c", "src/vm.c", "src/load.c", "src/ns.c"], [("nc_tokenize", "src/opt/comp.c"), ("nc_parseStatements, nc_generate", "src/opt/comp.c"), ("variables and blocks: nc_parseBlock, nativeComp_c2", "src/opt/comp.c"), ("loading and checking of bytecode", "src/vm.c")],
     "stateless exhaustive enumeration of token and character strings, compiled and run by the real compiler and VM, against a recursive-descent parser and a reference evaluator",
     "Every string of up to 5 (6) of 18 tokens and of 16 tokens inside a block called with and without 𝕨 (also compiled to machine code); of up to 6–9 (7–11) tokens from eight smaller alphabets; every string of up to 5 (6) of two sets of 17 characters and of up to 7 (8) of 7 with quotes; fields of a namespace; all Unicode characters in literals. The compiler built here is the native one: nested blocks, headers, destructuring, ‿ and decimals are outside, which it may only reject.")
prop("C23", "Text is converted to and from UTF-8 without loss, and read and printed exactly",
     "•ToUTF8 and •FromUTF8 are inverse for every text: each character becomes its UTF-8 form, in order, whatever the stored types, and bytes given as characters or as signed or unsigned numbers give back the text. Bytes that start no character or end inside one are an error, as is anything that is not a list of characters or bytes. •Out prints exactly the text and a newline; •GetLine gives the lines of the input one after another, without their ends, then @.",
     ["inputs"], "all texts, byte strings and representations",
     "Tests use a handful of characters; lengths of 1 to 4 bytes, the six storage types and buffer boundaries combine, and an off-by-one at a class boundary only touches one character.",
     ["src/utils/utf.c", B+"sysfn.c"], [("utf8_p, utf8_w, utf8Decode, utf8lenB, toUTF8", "src/utils/utf.c"), ("fprintsB, fprintsU32", "src/utils/utf.c"), ("•FromUTF8, •ToUTF8, •Out, •GetLine", B+"sysfn.c")],
     "stateless exhaustive enumeration of texts, byte strings and representations against a reference codec",
     "All 1114112 characters alone and among others, both ways; all byte strings of up to 2 bytes, 3.6 million (all 16.7 million) of 3 bytes, 4 and 5 bytes from 24 values; every text of up to 4 (5) of 11 boundary characters and long texts in all representations; printing around the buffer size; all inputs of up to 5 (7) of 5 characters read by lines. Continuation bytes, overlong forms and surrogates are not validated by the code base by its own statement.")
prop("C27", "Reading and writing files is complete or an error, and changes nothing else",
     "•FBytes, •FChars and •FLines give exactly the file's contents, or are an error when any step of reading fails or the file ends early; writing succeeds only when every byte of 𝕩 has been accepted, the last buffer and closing included. A value that is no file content is refused before the file is touched. Lines end at \\n, \\r or \\r\\n. Renaming never replaces an existing file; renaming, removing, creating directories, listing, types, sizes and memory-mapped files behave as in a tree of files, a failed operation changing nothing, and no file stays open. Path functions work on the text alone: a name is what follows the last slash, a parent what precedes it, and joining the two gives the path back.",
     ["fault_sequences", "histories", "inputs"], "every failing or short step, every file operation in every state of a small tree, every short path",
     "Tests read small files that exist on a disk with room; what happens at a failing flush, a stream that breaks off, a file that reports no size or a directory in place of a file needs a fault at one particular step.",
     ["src/utils/file.c", B+"sysfn.c"], [("path_bytes, stream_bytes, path_lines", "src/utils/file.c"), ("file_openWriteClose, path_wChars, path_wBytes", "src/utils/file.c"), ("path_rel, path_parent, path_name", "src/utils/file.c"), ("path_rename, path_remove, path_list, mmap_file", "src/utils/file.c"), ("fchars_c2, fbytes_c2, flines_c2", B+"sysfn.c")],
     "stateless exhaustive exploration of fault schedules of the I/O calls under the real code; enumeration of all operations in all states of a file tree against a model",
     "11–13 sizes around buffer boundaries × 3–4 contents × seekable, non-seekable and size-less files × every schedule of up to 2 (3) faults among open, read (error, short, early end), write (error, cut short) and close; every text of up to 7 (9) of 4 characters by lines; all 5461 (21845) short paths; all 13 kinds of operations on 6 paths in each of 72 trees, and pairs of them in 24 (72); directories with every name of up to 3 (4) characters, longest names and up to 1400 entries. Files are replaced by streams with injected faults below stdio; the trees are real, in a scratch directory.")
prop("C25", "•bit casts and operations are exact on the bits",
     "𝕨•bit._cast 𝕩 reinterprets the bits of each row of 𝕩, lowest first, as numbers or characters of another width and gives back the original when cast the other way; •bit._not _neg _and _or _xor _add _sub and _mul give, for every operation width, the bits that two's complement arithmetic gives on each group, in the asked result width, with one-group arguments extended. Rows that do not divide into groups, unknown widths and elements that are no numbers (or characters) of the source type are errors; nothing depends on how 𝕩 is stored.",
     ["inputs"], "all combinations of widths, shapes, stored types and bit patterns",
     "Tests cast a few short lists; each combination of operation, argument and result width with a length around a machine word takes its own path, and generically stored elements take none of them.",
     [B+"bit.c"], [("bitcast_impl, bitcast_im", B+"bit.c"), ("bitops: not, neg, and, or, xor, add, sub, mul", B+"bit.c"), ("argument conversion and width checks", B+"bit.c")],
     "stateless exhaustive enumeration of width combinations, shapes, patterns and representations against a reference model on bits",
     "All pairs of 7 widths × 5 kinds × 14 shapes for casts, forwards and inverted; 8 operation widths × 36 width pairs × 12 shapes for one argument; 6 operations × 7 operation widths × 125 width triples × 144 shape pairs for two. NaN patterns are avoided and numbers outside of the source width left open.")
prop("C28", "A process run by •SH gets its input and gives its output and status whole",
     "•SH gives the exit status and everything the process wrote to standard output and standard error, and the process can read all of the given input, however reading, writing, blocking, partial transfers, interrupted calls and closing of the streams interleave. A process that does not read its input neither ends nor hangs the interpreter. When a step fails, the result is an error; whatever happens, no descriptor stays open, no child stays unreaped, no call waits in a loop without a reason to, and values that are no command are refused before anything is started.",
     ["schedules", "fault_sequences", "inputs"], "every interleaving of the two processes, every partial transfer and every failing call",
     "Tests run a couple of commands with tiny output; a full pipe in either direction, an early exit, a partial write or an interrupted call needs a particular schedule.",
     [B+"sysfn.c"], [("sh_core: pipes, spawning, poll loop, waiting", B+"sysfn.c"), ("sh_c2: arguments and result", B+"sysfn.c")],
     "stateless exhaustive exploration of all schedules of the real code against a simulated kernel and process (pipes, poll, spawn, wait), bounded numbers of faults; conformance of the simulation by real processes",
     "Every process of up to 3 (4) of 14 actions × no input and 4 (6) sizes, lagging behind or running ahead, and every departure of 1 (2) from that at any system call (partial transfers, early wakeups, interruptions); of up to 4 (6) of 7 actions in raw mode; every 3 (5) departures of 10 processes; each starting step failing. Pipes of the simulated kernel hold 3000 bytes; every real process of up to 2 (3) of 12 actions × 4 inputs gives what the simulation gives.")
prop("C30", "The embedding interface gives and takes exactly the values",
     "Arrays made with bqn_make… equal the data and shape given, whose buffers are the caller's again at once; bqn_read…Arr fills the buffer, and nothing else, with exactly the elements for every stored form of an array whose elements fit; bound, rank, shape, pick, type, fields and direct access agree with the value. bqn_call, bqn_eval and bound functions act as the function called from BQN, arguments remaining the caller's. Every handle keeps its value until it is freed, and once all are freed nothing is left.",
     ["inputs", "histories", "programs"], "every value in every stored form, and every history of handles",
     "The test calls each function once; that every stored form of a fitting value must be readable, that ownership is right for each parameter and that a handle survives what happens to its parts depends on representation and order.",
     ["src/ffi.c", "include/bqnffi.h"], [("bqn_make…, bqn_read…, bqn_direct…", "src/ffi.c"), ("bqn_call1, bqn_call2, bqn_eval, bqn_makeBoundFn", "src/ffi.c"), ("bqn_hasField, bqn_getField", "src/ffi.c"), ("BQNV ownership rules", "include/bqnffi.h")],
     "stateless exhaustive enumeration of values in all representations and of all histories of handles against a reference model, with exact heap accounting",
     "8 kinds × 18 shapes × 3 contents made and read, in all representations (every element type able to hold it, slices, shared, flagged, with fills); 18 callables × 97 (290) values × 6; bound functions called 7 ways; 4 namespaces × 12 names; all sequences of 3 of 11 programs; all texts of up to 4 (5) characters of 12 classes; all 234000 histories of 6 (7) operations on up to 3 handles.")
prop("C29", "A C function called with •FFI gets and gives exactly the bytes of its types",
     "Every number, list, struct, array and reinterpreted list given to a foreign function reaches C with exactly the bytes its type means, at the places the C compiler puts them, whichever side and position it comes from and however it is stored; results and changed arguments come back as exactly the values of the bytes C left; the lists passed are never changed themselves. A value outside its type, a list of the wrong length or a wrong count of arguments is an error before the function is called. A type text is accepted exactly if it follows the grammar. Pointer objects read and write exactly the bytes of the element they address, and only those, after every history of casts, offsets and fields.",
     ["inputs", "histories", "programs"], "every combination of types, values and stored forms",
     "The FFI test (not part of the test suite) calls each sample once and compares what is printed; ranges, layouts, widths and stray writes depend on the combination of type, value, position and history.",
     ["src/ffi.c"], [("genObj: arguments to memory", "src/ffi.c"), ("readAny, readUpdatedObj: memory to results", "src/ffi.c"), ("ffi_parseType: type texts and struct layout", "src/ffi.c"), ("ptrobjRead/Write/Cast/Add/Sub/Field", "src/ffi.c")],
     "stateless exhaustive enumeration of type texts, argument lists, structs and pointer histories against functions and layouts compiled by the C compiler and a model of memory",
     "All lists of up to 3 of 10 scalar types × edge values × sides, 24 arguments; 10 types × 45 edge numbers; 10 types × 16 bit patterns × 9 forms of result; 8 element types × 110 list contents × 5 ways of passing, in all representations; 11 types × 8 reinterpretations × 15 lengths × 5 defects; every struct of up to 2 of 14 field types and 3 of 4 (7), by value, returned, behind a pointer, changed, and with any one item wrong; all histories of 3 (4) operations on pointer objects of 9 types; all texts of up to 5 (6) of 19 tokens. Signalling NaNs, documented as undefined, are left out.")
prop("C26", "Random generators give valid results, each equally often, fixed by their seed",
     "For every sequence of draws, 𝕨 Range 𝕩 has the requested shape and only natural numbers below 𝕩 (numbers from 0 to below 1 when 𝕩 is 0), Deal is a permutation, 𝕨 Deal 𝕩 has 𝕨 distinct numbers below 𝕩 and 𝕨 Subset 𝕩 has them sorted. Over all draws every such result occurs, all equally often, for every method chosen by size. A generator is a function of its seed and its own history: equal seeds and histories give equal results, whatever other generators do in between, and every reference to it shares its state. Invalid sizes are errors.",
     ["inputs", "histories"], "every sequence of draws",
     "A test sees one outcome of one draw, and the bias, the repeated element or the missing one needs particular draws or sizes; the tests only check shapes of a few results.",
     [B+"sysfn.c"], [("rand_deal_c1, rand_deal_c2, rand_subset_c2, rand_range_c1, rand_range_c2", B+"sysfn.c"), ("makeRand_c1, getRandNS", B+"sysfn.c"), ("wyrand, wy2u0k, wy2u01", "src/utils/wyhash.h")],
     "stateless exhaustive exploration of the real code with every random draw a choice of the explorer: all sequences of draws, with outcomes counted exactly; all histories of interleaved generators",
     "All draws of Deal up to 9 (10) elements, of k Deal and k Subset up to 7 elements and of 60 further pairs up to 256 (every method: dense, hashed, bit set, inverted, sorted hash): validity, reachability and equal counts. 70 sizes up to 2⋆20 with 9 patterns of draws and one differing draw. Range: 33 shapes × 29 limits × 10 patterns, and every value of every lane of a draw. All interleavings of 4 (5) of 10 operations on two generators, 16 pairs of seeds.")

prop("C21", "Errors reach the nearest ⎊, whole, and leave everything else as it was",
     "An error ends everything up to the nearest enclosing 𝔽⎊𝔾, which then gives 𝔾 of the original arguments; errors of 𝔾 pass on outwards. In 𝔾, •CurrentError is the message raised, any value given to ! included, the enclosing one again after an inner ⎊ is done, and an error outside of any. Nothing evaluated after the error runs, nothing before it is undone, arguments keep their values, and evaluation goes on as if nothing had happened, after running out of stack too. Every failing call of a built-in gives a message that is proper text and can be printed.",
     ["programs", "inputs"], "all nestings of raising, catching and passing on, and all failing calls",
     "Tests check that a call fails, with an outermost catch; unwinding through nested catches, loops, blocks and half-finished results, and the text of the hundreds of messages, are never looked at.",
     ["src/vm.c", B+"md2.c", B+"sysfn.c", "src/core/stuff.c"], [("prepareCatch, popCatch, throwImpl, unwindEnv", "src/vm.c"), ("catch_c1, pushRe, re_freeO", B+"md2.c"), ("•CurrentError", B+"sysfn.c"), ("thrF: do_fmt", "src/core/stuff.c")],
     "stateless exhaustive enumeration of functions built from raising, catching, looping and calling forms, run on the real VM, against a reference evaluator with exceptions",
     "Every function of up to 6 (7) nodes from 7 leaves, 6 unary and 4 binary forms (compiled and interpreted blocks), on 3 arguments: results, messages, calls made and stack depths; 110 functions and derived functions on every pair of 22 (32) values: messages are text, are printed as they are, and ⎊ gives the same one; every value raised; 12 endless recursions, caught or not. Temporaries an error leaves are collected only when the process ends, by the code base's own statement, and are not counted.")
prop("C32", "•Import runs each file once and gives the same value ever after",
     "•Import runs a file when it is first imported, in whatever spelling or through whatever link it is named, with names in it relative to its own place; every later import, from anywhere, gives the very value of that run, though the file may have changed. A file importing itself, directly or through others, is an error. A file whose run fails, or that cannot be read or is no program, is not remembered: the next import tries again. 𝕨•Import always runs the file, with 𝕨 as its •args, and is not remembered either. Clearing the import cache forgets all of it.",
     ["histories", "programs"], "every graph of imports and every history of importing over it",
     "There is no test of •Import at all; whether a failure deep in a graph leaves a file marked as running, or an earlier catch hides a cycle, depends on the graph and on the order of imports.",
     [B+"sysfn.c", "src/load.c", "src/utils/file.c"], [("import_c1, import_c2", B+"sysfn.c"), ("m_importMap, clearImportCache, bqn_execFileRe", "src/load.c"), ("path_abs, path_rel", "src/utils/file.c")],
     "stateless exhaustive exploration of all import graphs and histories in the real code against a model of the cache; file contents are given at fopen",
     "Three files in two directories and a link: up to 2 imports each, plain, caught, with arguments, through •BQN, twice or missing, failing or not (75816 graphs; thorough: all); every history of 3 of 7 (4 of 8) imports, edits, clearings over all graphs of one import per file; files that are no program or cannot be read; 3 spellings of each import. Order of all runs, results, identity of values and kinds of errors are compared.")
prop("C34", "A size, count or index too large for memory is an error, never a wrong result",
     "Whatever number is given where a length, shape, count, position or index is expected — beyond 32, 53 or 64 bits, with products that wrap around, negative, infinite, fractional or NaN — a function gives its proper result, or an error when the result could not be held or the number has no meaning there. It never crashes, writes out of bounds or gives an array of another size.",
     ["inputs"], "all numbers at each place that takes a size",
     "Tests of errors use small wrong numbers; arithmetic on sizes wraps only for particular products of huge ones, and every function computes its own.",
     ["src/utils/mut.c", "src/h.h", B+"sfns.c", B+"slash.c", B+"fns.c"], [("CHECK_IA, m_arrUnchecked, mut_make_arr", "src/utils/mut.c"), ("take, drop, reshape, windows", B+"sfns.c"), ("replicate, indices", B+"slash.c"), ("range, group", B+"fns.c")],
     "stateless exhaustive enumeration of edge numbers in every position of the arguments, against the size of the result and the reference model",
     "55 (107) magnitudes around powers of two of both signs, infinities, NaN, fractions × 12 forms (atom, list, rows, nested, units …) × 6 partners × 15 values on the other side, 18 functions both ways round; 23 functions of one argument. Results of up to 9000 elements are compared, of 2⋆31 or more must be errors; the heap is limited to 24 MB above its use. Large cells: 6 arrays of 2⋆17 elements × 18 functions × 12 forms. Empty arrays of huge shapes: 28, under 64 functions and derived functions and with each other: size and shape of what comes back belong together. "+TB)
prop("C35", "The command line runs what it is given in order, with its output and exit code",
     "Options, files, code and standard input given to the program are taken in the order they stand: -e runs code, -p runs and prints it formatted, -o prints a string as it is, -M sets the heap limit, a file (or -f, or - for the input) is run with all later words as •args, and -r or -s or no word at all starts the interactive mode, which runs line after line, whatever the line ends, and goes on after an error. The first error among the words stops the program with status 1 and a message; •Exit stops it with its code; otherwise the status is 0. •GetLine gives every line of the input, then @. Unknown options, missing arguments and words that are no numbers are refused. What was printed before the end is not lost.",
     ["inputs", "histories"], "every sequence of words and lines",
     "Tests run single files; which word is an option, an option's argument, code or an argument of the program depends on all words before it.",
     ["src/main.c", "src/load.c", B+"sysfn.c"], [("main: options, -e -p -o -M -f -r -s -", "src/main.c"), ("cbqn_runLine0: commands and output of the interactive mode", "src/main.c"), ("bqn_exit, bqn_execFile, gsc_exec_inplace", "src/load.c")],
     "stateless exhaustive exploration of the sequences of words and input lines under the real main, each in a process of its own, against a model of the documented usage",
     "every sequence of up to 2 of 32 words and of 3 of 22, 4 contents of the input where any part reads it; 12 ways to start a program with up to 4 (5) words after it, and 300; 6 options followed by every 3 (4) of 14 words; every sequence of up to 3 (4) of 21 interactive lines with each kind of line end; •GetLine on every text of up to 5 (7) characters with line ends and NULs, and from interactive lines that read the lines after them. Output, error stream (whether anything was said) and exit status are compared. The compiler of this build keeps no names from one program to the next, so those sequences are not judged, nor are heap limits below 16 MB, and -r without replxx is what is explored.")
prop("C36", "A known fill element is the one the array's making defines",
     "Wherever an array's fill is known — seen when it is overtaken or shifted — it is the one that follows from how the array was made: functions that move, repeat, select or reshape elements keep their argument's fill; ∾ ≍ » « and their like have a fill only where both sides have the same; arithmetic, ¨ and ⌜ have the result of the function on the fills; index and comparison results have 0. Fills consist of zeros and spaces only. It makes no difference how the argument is stored, how long it is, whether it is empty, or what was done before; and no function changes the fill of an array someone else holds.",
     ["inputs", "histories"], "all arrays of all kinds and shapes, all chains of functions",
     "Tests compare elements; a lost or wrong fill shows only when the result is empty or padded later, after further steps.",
     ["src/core/fillarr.h", "src/core/fillarr.c", B+"sfns.c", B+"md1.c", B+"select.c", B+"slash.c"], [("getFillN, getFillR, fill_both, withFill, qWithFill", "src/core/fillarr.h"), ("join_c1, join_c2, couple_c2, take, drop, shiftb_c2", B+"sfns.c"), ("tbl_c2, each_c2", B+"md1.c"), ("select_c2, slash_c2", B+"select.c")],
     "stateless exhaustive enumeration of functions × arguments × representations, and of chains of functions, against rules for the fill of each result",
     "about 200 arrays (9 shapes × 10 element families and 6 kinds of boxes with and without recorded fills), all representations: 112 functions of one argument, 28 of two on all pairs, ¨ and ⌜ of 10 functions directly and in blocks on all pairs, ∾ and > of all arrays of up to four items of four kinds, every chain of two or three of 20 functions. Run on the default configuration and with EACH_FILLS. A fill may be unknown except after functions that only move elements of an array with a known one, or that give numbers; where unknown, the default configuration pads with 0, which is not judged.")
prop("C24", "Numbers are printed and read exactly, as the shortest text and nearest value",
     "•Repr gives every number as the shortest decimal that is read back as the same number, of those the nearest to it, written without an exponent from 0.0001 to below 10⋆15 and with one otherwise, 0, ∞, ¯∞ and NaN by name; •ParseFloat gives for every decimal of up to 17 significant digits, with any zeros around them and any exponent, the number nearest to it (ties to even, ∞ and zeros where out of range), for longer ones a number next to it, and an error for every other text or value. So •Repr followed by •ParseFloat is the identity. How the text is stored makes no difference.",
     ["inputs"], "all numbers, all texts",
     "Tests print and read a handful of numbers; rounding errors hide at single values among 2⋆64, at neighbours of powers of two, at the ends of the exponent range and at particular counts of digits.",
     ["src/utils/ryu.c", B+"sysfn.c"], [("ryu_d2s, d2d, to_chars", "src/utils/ryu.c"), ("ryu_s2d_n", "src/utils/ryu.c"), ("repr_c1, parseFloat_c1", B+"sysfn.c")],
     "stateless exhaustive enumeration of bit patterns and of texts, against exact decimal expansions",
     "all 2048 exponents × 220 (1800) mantissas × both signs printed and read again; integers to 2⋆19 and near powers of two, fractions, all decimals of 3 digits × 45 exponents with both neighbours; reading of all numbers to 3000 (100000) × 760 exponents in several spellings; the 15-, 16- and 17-digit decimals on each side of every boundary between neighbours of those patterns, also written out with zeros; 15 digit strings × up to 5000 zeros on 4 sides × exponents to ±5010 and seven enormous ones; every text of up to 6 (7) of 11 characters against the grammar. The full 2⋆64 patterns are not enumerated: mantissas are those of the patterns.")

prop("C31", "Functions and namespaces tell truly what they are made of",
     "•Type names the kind of every value; •Glyph gives every primitive's character and •primitives pairs each of them once with that character. •Decompose gives for every data value, primitive, train and modified function its kind and exactly the parts it was built from, so that building again from them gives a function that matches. Functions match, alone or inside of arrays, exactly when they were built alike from matching parts; ≡, ≢, ⊐ and ∊ agree on it; a namespace matches itself alone. •ns.Keys gives exactly the exported names of a namespace, and •ns.Has and •ns.Get find exactly those, in any letter case and with underscores anywhere, however the text of the name is stored, with the value defined; other names and arguments of the wrong kind are errors.",
     ["inputs"], "all functions built from values, modifiers and trains; all namespaces and names",
     "Tests decompose a handful of functions and read a few fields; kinds of derived functions, boundaries of types, orders of names and spellings multiply.",
     [B+"sysfn.c", "src/core/derv.h", "src/core/stuff.c", "src/ns.c"], [("decp_c1, type_c1, glyph_c1, primitives", B+"sysfn.c"), ("m_fork, m_atop, m_md1D, m_md2D", "src/core/derv.h"), ("atomEqual: matching of functions", "src/core/stuff.h"), ("nGet_c2, nHas_c2, nKeys_c1, name_normalize", B+"sysfn.c"), ("ns_getNU", "src/ns.c")],
     "stateless exhaustive enumeration of built functions, of pairs of them, and of namespaces with all spellings of names, in the real code against their construction",
     "3712 functions: every one of a single step over 10 values, 5 1-modifiers, 7 2-modifiers and trains, and of two steps over 13 of them; every pair of them (13.8 million), and one in 64 of those in lists; all 64 primitives; 22 kinds of arrays and atoms in all representations; 972 namespaces of up to 5 names, hidden or exported, in two orders, asked 50 names in all representations. What •Glyph gives for anything but a primitive is not judged.")
prop("C33", "Programs given to •BQN get only what is granted; a session keeps its names",
     "A program run by •BQN, or by the result of •ReBQN, sees exactly the system values it was granted: with system⇐\"none\" none, with \"all\" or nothing said those of the program that calls •ReBQN, with a list the names in it, inherited from the caller — an error if the caller has none of that name — or with the values paired with them, the first counting where a name stands twice. •listSys gives that list. Nothing run before, beside or within adds to it, and what a program passes on is at most what it has. •state, •path, •name and •args are those given by 𝕨, or absent. A session (repl⇐\"strict\" or \"loose\") keeps variables and functions from line to line, shared with the functions that use them and apart from other sessions, also after lines that fail to compile or to run; names defined before the failure stay. What a session gave away works after it is gone.",
     ["inputs", "histories"], "all grants and chains of grants; all sequences of lines",
     "There is no test of •ReBQN or of sessions; whether a grant leaks through a second level, or a variable is lost when its scope grows, depends on the history.",
     ["src/load.c", B+"sysfn.c", "src/vm.c"], [("init_comp, rebqn_exec, repl_exec, comps_push", "src/load.c"), ("sys_c1, prep_state, rebqn_c1, bqn_c2", B+"sysfn.c"), ("compileBlock: scope extension; v_set, v_get and EXT instructions", "src/vm.c")],
     "stateless exhaustive exploration of grants, chains of grants and sequences of session lines in the real code against a model of environments",
     "every list of up to 3 (4) of 9 grants in 4 modes, looked at through 13 names; every pair of lists of up to 2, and a third level of 1, with \"all\", \"none\", nothing and •BQN between them; states of 0 to 4 items, arguments of the wrong kind, programs in all representations; every sequence of 3 (4) of 24 session lines that define, change, take, destructure, fail, call functions that read, write and nest, with collections at some; two sessions in turns with 3 lines (in both modes). Run with compiled and interpreted blocks. The compiler that sessions call is the harness's own, since this build has none that keeps names. primitives⇐ needs the self-hosted compiler and is not explored.")
