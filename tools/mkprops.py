#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V, M, I, A, O = "src/vector.rs", "src/matrix/mod.rs", "src/matrix/iter.rs", "src/matrix/arith.rs", "src/matrix/ops.rs"

prop("C01", "By-value iteration hands out or drops every element exactly once",
 "When a vector is turned into a by-value iterator, each of its elements is either returned to the caller or dropped, exactly once, whatever mixture of front steps, back steps, skips, counting and early dropping of the iterator is used. If an element's destructor panics, no element is afterwards returned or dropped a second time.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of operations on the iterator, every length, every element type (including ones whose destructor panics)",
 "Tests use Copy integers and two histories (nth(1); rev); a double drop or a leak needs a non-Copy element type and a particular interleaving of both ends, over-long skips, or a panicking destructor.",
 [V], [("IntoIter::{next,next_back,nth,count,drop}", "src/vector.rs impl Iterator/DoubleEndedIterator/Drop for IntoIter"), ("drop-inhibiting buffer", "src/vector.rs struct IntoIter.arr: NoDrop<_>")],
 [("front cursor", "index of the first element still owned by the iterator", "IntoIter.next"), ("back cursor", "one past the last element still owned", "IntoIter.back")],
 ["return values of next/next_back/nth", "destructor calls"])

prop("C02", "Collecting into a fixed-size vector is exact and exposes no unfilled slot",
 "Collecting an iterator into a fixed-size vector yields the produced elements in order, one per slot; if the source yields fewer elements than the length, the operation panics after dropping the elements already produced, and in debug builds a source that yields more is rejected with a panic. No slot is read, dropped or made reachable before it has been written, or dropped after it has been given up, even when the source or a destructor panics part-way.",
 ["inputs", "fault_sequences", "programs"],
 "every length, every source iterator (short, exact, long, panicking), every element type",
 "Tests only collect exact-length sources of Copy integers; short sources, sources that panic, and destructors that panic are never exercised, and reading an unfilled slot is not observable for integers.",
 [V], [("FromIterator::from_iter", "src/vector.rs impl FromIterator for Vector")],
 [("staging buffer", "array whose first i slots are initialised", "from_iter local arr")],
 ["the returned vector", "panic", "destructor calls"])

prop("C03", "Unchecked element accesses reachable from safe code are always in bounds",
 "No sequence of calls to the crate's safe public interface, in debug or release builds, reads, writes, moves out of or drops an element outside the storage of a vector or matrix. Every access the library makes without a run-time bounds check is preceded, on every path, by conditions that force the index below the length for every shape.",
 ["inputs", "histories", "programs", "configurations"],
 "every shape (including zero rows/columns), every call history, every argument of every safe function, debug and release builds",
 "Debug builds turn out-of-range unchecked accesses into assertion failures only when a test happens to hit one; tests use 2x2, 2x3 and 3-element shapes and never call the safe constructors with out-of-range arguments.",
 [V, I, M], [("unsafe blocks", "all uses of get_unchecked, get_unchecked_mut, ptr::read, ptr::write, ptr::drop_in_place, uninitialized"), ("length trait trusted by unsafe code", "src/vector.rs trait ArrayLen")],
 None, ["memory accesses"])

prop("C04", "Compile-time indices are range-checked by the types and agree with runtime ones",
 "Indexing a vector with a type-level number, or a matrix with a pair of them, compiles exactly when each index is smaller than the corresponding length, for both shared and mutable access. When it compiles it designates the same element as the run-time index with the same value (row first, column second).",
 ["programs", "inputs"],
 "every length/shape and every type-level index, including zero-length shapes",
 "A unit test cannot contain a program that must fail to compile, and existing tests only use a handful of static indices on 2x2/3x3 matrices.",
 [V, M], [("Index/IndexMut by typenum", "src/vector.rs and src/matrix/mod.rs impl Index<UInt<..>>, Index<U0>, Index<(.., ..)>")])

prop("C05", "Ill-shaped programs are rejected at compile time, well-shaped ones accepted",
 "Adding, subtracting, multiplying, comparing or assigning vectors and matrices type-checks exactly when the shapes agree mathematically, and the result type has the mathematically correct shape; determinants, inverses, powers, identities and in-place transposition exist only for square matrices, cross products only for length 3, chunking only for dividing chunk lengths, reshaping only for matching element counts, extremes only for non-empty values.",
 ["programs"],
 "every program using the public interface with any combination of shapes",
 "Programs that must not compile cannot appear in unit tests, and positive tests fix a few square shapes.",
 [V, M, A, O], [("trait bounds on impls", "all impl headers"), ("ArrayLen", "src/vector.rs")])

prop("C06", "Reported iterator lengths equal the number of remaining items",
 "For every iterator the crate hands out (by-value elements, chunks, rows, columns, by-reference rows, columns and column entries), the exact length, the size hint and the count equal the number of items that would still be produced, after any history of front steps, back steps and skips, including skips past the end. They never wrap around or panic.",
 ["histories", "inputs"],
 "every shape and every interleaving of next/next_back/nth with any skip distance",
 "Tests ask for the length only of fresh or front-exhausted iterators, never after consuming from the back or skipping past the end.",
 [I, V], [("len/size_hint/count", "src/matrix/iter.rs, src/vector.rs")],
 [("front/back cursors", "window of items not yet produced", "iterator structs")])

prop("C07", "Row, column and element iterators visit each item once, in order, from both ends",
 "Stepping an iterator from the front yields the first not-yet-produced row, column or element, stepping from the back the last one, each item exactly once, and after exhaustion every step yields nothing forever. Skipping n items is the same as n discarded steps followed by one step, for any n, and asking for the last item yields the last remaining one.",
 ["histories", "inputs"],
 "every shape, every interleaving of the two ends, every skip distance",
 "Tests walk each iterator once forwards and once backwards on one 2x3 matrix; interleavings, skips and repeated steps after exhaustion are not sampled.",
 [I, V, M], [("next/next_back/nth/last", "src/matrix/iter.rs"), ("IntoIter", "src/vector.rs"), ("iter/iter_mut/rows_iter*/cols_iter*", "src/vector.rs, src/matrix/mod.rs")],
 [("front/back cursors", "window of items not yet produced", "iterator structs")])

prop("C08", "Chunking partitions a vector into consecutive chunks; reshaping is row-major",
 "Splitting a vector of length N into chunks of length I yields N/I chunks, the k-th holding elements k*I to k*I+I-1 in order, from the front or from the back or interleaved, with an exact remaining count. Converting a flat vector into a matrix puts element r*cols+c at row r, column c.",
 ["inputs", "histories"],
 "every length, every dividing chunk length, every interleaving of both ends, every matrix shape",
 "One 6-element vector with 2-element chunks is tested; reshaping is not tested at all.",
 [V, M], [("Chunks::{next,next_back,size_hint}", "src/vector.rs"), ("From<Vector> for Matrix", "src/matrix/mod.rs")])

prop("C09", "Addition, subtraction and negation act element-wise in every form",
 "For vectors and matrices of every shape, the sum (difference, negation) has at each position the element operator applied to the elements at that same position of the operands, left operand on the left. The by-value and by-reference operand forms and the compound-assignment forms all agree, and touch every position exactly once.",
 ["inputs", "programs"],
 "every shape, every element type (including non-commutative or mixed ones), all operand ownership forms",
 "Tests check 3-element vectors and 2x2 integer matrices; matrix compound assignment is never checked and non-commutative or asymmetric element operators are never used.",
 [V, A], [("impl_vector_arith!, AddAssign, SubAssign, Neg", "src/vector.rs"), ("impl_matrix_arith!, AddAssign, SubAssign, Neg", "src/matrix/arith.rs")])

prop("C10", "Scaling by and dividing by a scalar act on every element, operand order kept",
 "Multiplying or dividing a vector or matrix by a scalar, by value or by reference or in place, applies the element operator with the element on the left and the scalar on the right to every position exactly once and leaves shape and positions unchanged. All forms agree.",
 ["inputs", "programs"],
 "every shape, every element and scalar type, all forms",
 "Tests use commuting integers on tiny shapes, so operand order and untouched positions are not observable.",
 [V, A], [("Mul/Div/MulAssign/DivAssign scalar", "src/vector.rs, src/matrix/arith.rs")])

prop("C11", "Matrix products and powers are the row-by-column sums of products in every form",
 "Entry (i, k) of a product of two matrices is the sum over j of left(i, j) times right(j, k), with the left factor on the left, for every compatible shape and for all by-value, by-reference and compound-assignment forms; entry i of a matrix-vector product is the sum over j of matrix(i, j) times vector(j). The n-th power is the n-fold product, the identity for n = 0.",
 ["inputs", "programs"],
 "every compatible triple of shapes, every element type, all forms",
 "Tests multiply 2x2 by 2x2 and 2x2 by 2x1 with integers; most forms are checked on at most one example and non-commuting elements never.",
 [A, M], [("Mul impls, MulAssign<Matrix>", "src/matrix/arith.rs"), ("pow, One", "src/matrix/mod.rs")])

prop("C12", "Constructors put the specified element at every position",
 "Generating from a function calls it exactly once per position and stores the result for (row, column) at that position; default, zero, minimum and maximum values are uniform; the identity has one on the diagonal and zero elsewhere; the diagonal constructor places the k-th given element at (k, k) and zero elsewhere for every (also non-square) shape; wrapping an array, unwrapping it and cloning preserve every position.",
 ["inputs", "programs"],
 "every shape, every generating function, every element type",
 "Tests look at 2x2 and 3x3 (the diagonal constructor once, square); non-square shapes and call multiplicity are not checked.",
 [V, M], [("new/generate/default/zero/bounded/identity/diag/clone/into_inner", "src/vector.rs, src/matrix/mod.rs")])

prop("C13", "Access, traversal, mapping and transposition use each element's own position",
 "Run-time indexing (shared and mutable), slices, reference iterators, mapping and the all/any searches associate every element with its own (row, column) position, visit each position in row-major order at most once (mapping: exactly once), and out-of-range run-time indices always panic. Transposition, in place or not, moves element (i, j) to (j, i); conjugation conjugates each entry in place.",
 ["inputs", "programs"],
 "every shape, every index, every callback",
 "Mapping with its index argument, searching, mutable iteration and non-square transposition are untested or tested on one shape; out-of-range indices are never tested.",
 [V, M], [("Index/IndexMut/iter/iter_mut/as_slice*", "src/vector.rs"), ("map/all/any/transposed/transpose/conjugate/Index", "src/matrix/mod.rs")])

prop("C14", "Determinants and cofactors are the algebraic ones for every size",
 "Over a field with exact arithmetic, the determinant of a square matrix of every size equals its Leibniz expansion, including for matrices whose leading entries are zero, and the cofactor at (i, j) is (-1)^(i+j) times the determinant of the matrix without row i and column j. A cofactor index outside the matrix panics.",
 ["inputs"],
 "every square size, every matrix over an exact field, every index pair",
 "Tests sample six matrices; most have special structure (rank deficient) and one comparison is not even asserted; no cofactor is tested for sizes above 3.",
 [O], [("Determinant impls (1,2,3,n)", "src/matrix/ops.rs"), ("Cofactor impls (2,3,n)", "src/matrix/ops.rs")])

prop("C15", "An inverse is returned exactly for invertible matrices and is the inverse",
 "Over a field with exact arithmetic, inverting a square matrix of every size returns nothing exactly when the matrix is singular, and otherwise returns the matrix whose product with the original is the identity. The original is not modified.",
 ["inputs"],
 "every square size, every matrix over an exact field, including invertible ones with zero pivots",
 "Three well-conditioned matrices with non-zero leading pivots are tested; singular inputs and zero pivots never are.",
 [O], [("Inverse impls (1,2,3,n)", "src/matrix/ops.rs")])

prop("C16", "Dot, cross, norm, normalisation and sums follow their definitions",
 "The dot product is the sum of the products of corresponding elements, the cross product has the standard three components with standard signs, the norm is the square root of the sum of squared elements, normalisation divides every element by the norm, and the sum of a vector or matrix adds every element exactly once; all of this for every length, empty values giving zero sums.",
 ["inputs"],
 "every length/shape and all element values",
 "One example each, with 2 or 3 elements.",
 [V, M], [("dot/cross/norm/normalized/sum", "src/vector.rs"), ("sum", "src/matrix/mod.rs")])

prop("C17", "Extremes are true extremes and clamping is element-wise limiting",
 "The maximum (minimum) is an element that no other element exceeds (undercuts) under the ordering or the supplied comparison, taken over all elements. Values that compare as equal are not told apart. Clamping to [min, max] with min <= max replaces each element below min by min and above max by max and leaves the others unchanged, and the in-place and copying forms agree at every position.",
 ["inputs"],
 "every non-empty shape, every total order or comparison function, all bounds",
 "Sorted 3-element and 2x2 examples only; the position of the extreme, ties and boundary elements vary over inputs the tests never sample.",
 [V, M], [("max/min/max_by/min_by/clamp/clamped", "src/vector.rs, src/matrix/mod.rs")])

prop("C18", "Equality, zero tests and approximate equality consider every element pair",
 "Two vectors or matrices are equal exactly when all corresponding elements are, a value is reported zero exactly when all elements are zero, and the approximate comparisons hold exactly when they hold with the given tolerances for every corresponding pair. Full (reflexive) equality is promised only for element types that promise it themselves.",
 ["inputs", "programs"],
 "every shape, all element values (including NaN-like ones), all tolerances",
 "Approximate matrix comparison is only used with equal values, zero tests on one matrix; that a trait is NOT implemented cannot be unit-tested.",
 [V, M, I], [("PartialEq/Eq/Zero::is_zero", "src/vector.rs, src/matrix/mod.rs"), ("ApproxEq", "src/matrix/mod.rs")])

prop("C19", "No operation panics or overflows because of a legal shape or history",
 "Apart from the documented cases (run-time index or cofactor index out of range, collecting a wrong number of elements, and panics raised by element operations or callbacks), no public operation panics or computes a wrapped-around size or index, for any shape including zero rows or columns and any history. In particular values documented as never failing never fail, and internal conversions always receive exactly the right number of elements.",
 ["inputs", "histories", "programs", "configurations"],
 "every public operation, every shape up to the largest supported one, any history, debug and release builds",
 "Each test fixes one shape; empty shapes are only constructed, not printed, iterated or searched.",
 [V, M, I, A, O], [("index arithmetic and unwraps", "all modules"), ("Debug/Display", "src/matrix/mod.rs")])

prop("C20", "Formatting shows every element once, in order, and propagates sink errors",
 "Debug output of a vector or matrix shows every element exactly once in row-major order, with a separator between consecutive rows and none before the first or after the last, for every shape. If writing to the output fails, formatting stops and the failure is returned, for Debug and Display alike.",
 ["inputs", "fault_sequences"],
 "every shape, every element rendering, a failure at any write",
 "One 2x2 matrix is formatted with a sink that never fails.",
 [M, V], [("Debug for Vector", "src/vector.rs"), ("Debug/Display for Matrix", "src/matrix/mod.rs")])

prop("C21", "Named aliases, length table and auto traits mean what they say",
 "Every provided alias names a vector or matrix with the element type and the dimensions its name states, and the storage for each provided type-level length 0 to 32 is an array of exactly that length. Vectors and matrices are copyable, sendable and shareable exactly when their elements are, and unsafe code's trust in the length-to-storage mapping cannot be subverted from safe code.",
 ["programs", "configurations"],
 "every alias, every supported length, every element type",
 "No test names most aliases or lengths; negative facts (not Copy, not Send, implementation rejected) cannot be unit-tested.",
 ["src/prelude.rs", V, M], [("type aliases", "src/prelude.rs"), ("impl_arraylen!", "src/vector.rs"), ("Copy impls", "src/vector.rs, src/matrix/mod.rs")])

prop("C22", "The construction macros count and place their arguments correctly",
 "The vector and matrix macros accept any number of element expressions up to the supported length, evaluate each once in order, and produce the value whose type-level dimensions are the numbers of rows and columns written; ragged rows do not compile. They work in any downstream crate, with or without the standard library, without further imports.",
 ["programs"],
 "every argument list (0 to 32 elements, any expression form), every calling crate",
 "Tests use at most three arguments inside the crate itself, and cannot contain the rejected programs or a no_std caller.",
 ["src/macros.rs", "src/lib.rs"], [("vector!, matrix!", "src/macros.rs")])

prop("C23", "Every feature combination builds; without std only core is used, no heap",
 "The library builds with every combination of its optional features, without the standard-library feature it uses nothing outside the core library, and apart from textual display no operation allocates on the heap. The public interface other than textual display is the same in all combinations.",
 ["configurations", "programs"],
 "every subset of the cargo features usable on the toolchain",
 "The test run compiles exactly one configuration (default features).",
 ["src/lib.rs", "Cargo.toml", M], [("cfg attributes", "src/lib.rs, src/matrix/mod.rs")])

prop("C24", "Floating-point determinants and inverses are numerically accurate",
 "For floating-point matrices the computed determinant and inverse are within a small relative error of the exact ones whenever the problem is well-conditioned.",
 ["inputs"],
 "every floating-point matrix of every size",
 "Tests compare three floating-point matrices.",
 [O], [("Gaussian elimination", "src/matrix/ops.rs")])

prop("C25", "Display draws the matrix as an aligned grid showing each element's own text",
 "Displaying a matrix writes, row by row, each element's own Display text unaltered. Every matrix row takes as many text lines as its element with most lines; in each text line every column shows the corresponding line of its element (nothing for shorter elements), preceded by half (rounded down) of the spaces by which the widest line of the element falls short of the widest line of its column, filled with spaces to the column's width, columns one space apart. Widths are byte lengths, or display widths with the unicode_width feature. The very first text line (first line of the first row) is enclosed in \u23a1 and \u23a4, otherwise the last line of the last row in \u23a3 and \u23a6, every other one in \u23a2 and \u23a5; every line except one closed by \u23a6 ends in a newline, and nothing else is written.",
 ["inputs", "configurations"],
 "every shape (0 to 32 rows and columns), every element text (empty, several lines, wide characters), both width rules",
 "Tests display two matrices.",
 [M], [("Display::fmt", "src/matrix/mod.rs")])

prop("C26", "Borrowed views borrow the value, exclusively when mutable, and not the iterator",
 "Slices, references, rows, columns and iterators handed out for a vector or matrix keep exactly that value borrowed: programs that change, move or drop the value while a view is still used, or that hold two mutable views or a mutable and a shared one, do not compile, while programs in which items are used after the iterator they came from is gone, or in which several shared views coexist, do. By-value operations consume the value, a shared reference gives no mutable access, unchecked access requires an unsafe block, and elements that themselves borrow keep their own lifetime.",
 ["programs"],
 "every program using views of vectors and matrices",
 "A test cannot contain a program that must not compile, and an over-long lifetime is invisible until memory is reused.",
 [V, M, "src/matrix/iter.rs"], [("as_slice, iter, iter_mut, index", "src/vector.rs"), ("rows_iter_ref, cols_iter_ref, ColsIterRefInner", "src/matrix/iter.rs")])

prop("C27", "Operations ask no more of the elements than their definition uses",
 "Building, generating, collecting, taking apart, indexing, slicing, iterating by value or reference, chunking, reshaping, mapping and searching work for every element type. Cloning, transposing, iterating over copied rows and columns and extremes by a comparison need only Clone; equality only equality of the two element types; extremes and clamping only a total order and Clone; sums, products, determinants, cofactors and inverses only Clone and the arithmetic operations of their definition (Signed for cofactors and inverses, and determinants above size 3). Element-wise vector operators, negation and scaling of vectors accept mixed operand and result types, and need Clone of the scalar only.",
 ["programs"],
 "every element type, every shape",
 "Tests use numeric element types, which satisfy every bound.",
 [V, M, "src/matrix/iter.rs", "src/matrix/ops.rs", "src/matrix/arith.rs"], [("trait bounds of every impl", "src/vector.rs, src/matrix/")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
