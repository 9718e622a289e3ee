#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in step with MANIFEST by tools/gen_manifest.py).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
SM="include/sparsematrix.hpp"; DM="include/densematrix.hpp"; DC="src/densematrix.cpp"
CO="include/coomatrix.hpp"; LI="include/lilmatrix.hpp"; VV="include/vectorview.hpp"; VE="include/vector.hpp"
p("C01","Every sparse matrix the library builds is well-formed CSR",
 "Every sparse matrix produced by a constructor, an assembly, a product, a transpose, a submatrix extraction, a block combination or an elimination has a row-pointer array of rows+1 non-decreasing entries that starts at 0 and ends at the number of stored entries, index and value arrays of that same length, and every column index inside [0, cols). The reported rows, columns and number of nonzeros agree with the arrays and with the operands' sizes, and the per-row accessors return exactly that row's slice.",
 ["inputs"],"every sparsity pattern (including empty matrices, empty rows and zero rows or columns) and every value assignment within the stated size bound",
 "The tests build a handful of small matrices and print them; nearly nothing is asserted about the arrays, and empty rows or matrices hardly occur.",
 [SM,CO,LI,"include/blockmatrix.hpp","src/sparsematrix.cpp"],
 [("array constructor and its assertions",SM),("counting-sort transpose / two-pass product",SM),("assembly conversion",CO)])
p("C02","Sparse matrix-vector products equal the mathematical product",
 "For every sparse matrix A and compatible vector x, multiplying gives A x and transposed multiplying gives A^T x, through every overload (returned vector, resized vector, view, through the base operator interface, operator syntax, other element types), including duplicate stored entries, unsorted indices, empty rows and zero dimensions. The previous contents of the output never influence the result, the output has exactly rows (columns) entries, and neither the matrix nor the input vector is modified.",
 ["inputs"],"every pattern, every index order, every value and every previous output content within the size bound",
 "Each overload is tested on one or two fixed matrices whose output is freshly zeroed, mostly by printing.",
 [SM,"src/operator.cpp","include/operator.hpp"],[("row loop accumulation",SM),("scatter loop with zeroed output",SM),("base-class forwarding",'src/operator.cpp')])
p("C03","Sparse times dense products equal the mathematical product",
 "For every sparse matrix A and compatible dense matrix B, the plain, transposed and transposed-result products return exactly A B, A^T B and (A B)^T with the corresponding dimensions, in both the returning and the output-argument forms. A used output matrix of any previous size and content is fully overwritten, and the operands are unchanged.",
 ["inputs"],"every pattern, value and shape within the bound, including rectangular and zero-dimension operands",
 "Tests multiply fixed matrices and print.",[SM],[("column loops over the dense operand",SM)])
p("C04","Sparse times sparse product equals the mathematical product",
 "For every pair of compatible sparse matrices the sparse product represents exactly A B, has A's rows and B's columns, holds no column twice in a row and omits positions no pair of stored entries contributes to, including with duplicate or unsorted stored entries, mixed element types and empty rows. The form taking a reusable workspace gives the same result and can be called again with the same workspace, and the operands are unchanged.",
 ["inputs","histories"],"every pair of patterns and values within the bound; every sequence of two products sharing a workspace",
 "A few fixed products are printed; patterns that make rows collide or come out empty are not exercised.",
 [SM],[("symbolic then numeric pass over a column marker",SM)])
p("C05","Transposing and densifying preserve every entry",
 "The sparse transpose has swapped dimensions and represents exactly A^T with each row's indices in increasing source-row order, transposing twice represents the original, and the dense and dense-transposed conversions hold A(i,j) at (i,j) and (j,i) with zero elsewhere whatever size or content the reused output had (for matrices without duplicate stored positions). Conversions to another element type preserve values, and the source is unchanged.",
 ["inputs"],"every pattern and value within the bound, rectangular and empty shapes included",
 "Tests transpose one or two fixed matrices.",[SM],[("counting transpose",SM),("densification",SM)])
p("C06","Submatrix extraction picks exactly the requested rows and columns",
 "Extracting rows r and columns c from a sparse matrix gives the |r| x |c| matrix whose entry (i,j) is A(r_i, c_j), for every list of rows (repeats allowed) and every list of distinct columns in any order, empty lists included. The caller's reusable marker workspace is left ready for another extraction, so any sequence of extractions sharing one workspace gives the same results as fresh ones, and the source is unchanged.",
 ["inputs","histories"],"every pattern, row list, column list within the bound; sequences of extractions sharing a workspace",
 "Tests extract a few fixed lists and print.",[SM],[("column marker set and reset",SM)])
p("C07","Sorting indices orders each row without changing the matrix",
 "Sorting the indices of a sparse matrix leaves every row's column indices non-decreasing, keeps each row's multiset of (column, value) pairs, changes no other row, and leaves the row pointers and dimensions alone.",
 ["inputs"],"every index order and value within the bound, rows up to a few dozen entries with symbolic order for short rows",
 "One fixed matrix is sorted.",[SM],[("per-row permutation sort",SM)])
p("C08","Eliminating rows, columns and small entries changes only what it should",
 "Eliminating a row, a column, or a marked set zeroes exactly the entries of those rows or columns, the row-and-column form additionally sets an existing stored diagonal entry of an eliminated index to one, and the form with a known solution also subtracts the eliminated columns' contribution from the right-hand side; all other entries, the pattern and the dimensions are unchanged. Dropping entries by tolerance removes exactly the stored entries whose magnitude does not exceed the tolerance, keeps the others' order and values, and leaves a well-formed matrix.",
 ["inputs"],"every pattern, value, marker and tolerance within the bound",
 "Tests eliminate one fixed index in one fixed matrix and print.",[SM],[("marker loops",SM),("compaction",SM)])
p("C09","Scaling, permuting, diagonal and scalar operations act entrywise as documented",
 "Row and column scaling (by vector or by diagonal matrix, direct or inverse) multiply or divide each stored entry by exactly its row's or column's factor; column permutation moves column j to its image; adding to the diagonal adds to the stored diagonal entries only and reading it returns them with zero where none is stored; multiplying or dividing by a nonzero scalar and assigning a scalar act on every stored entry. The sum is that of all stored values and the maximum norm the documented one, and pattern, dimensions and operands are otherwise unchanged.",
 ["inputs"],"every pattern, value, factor, permutation within the bound",
 "Tests use constant factors on fixed small matrices and print.",[SM],[("row loops",SM)])
p("C10","Coordinate assembly sums duplicates and converts exactly",
 "For every sequence of insertions into a coordinate matrix, single, symmetric, and dense-block forms with or without scale and with index lists, the converted sparse matrix and dense matrix hold at (i,j) the sum of everything inserted there, have no duplicate column in a row, have the requested size or, if none was set, the smallest size containing all entries, and permutations of rows and columns and zero elimination behave as documented. Converting does not change later results, so inserting more and converting again is the same as doing it in one go.",
 ["inputs","histories"],"every sequence of insertions within the bound, all orders of duplicates",
 "Tests insert a few fixed entries; order and duplicate patterns are not explored.",[CO],[("sort and merge of triples",CO)])
p("C11","List-of-lists assembly sums duplicates and converts exactly",
 "For every sequence of insertions into a list-of-lists matrix, single, symmetric and block forms, the converted sparse matrix and dense matrix hold at (i,j) the sum of everything inserted there, no duplicate column in a row, have the requested size or, if none was set, the smallest size containing all entries, and zero elimination behaves as documented. Rows that received no entry are empty rows of the result.",
 ["inputs","histories"],"every sequence of insertions within the bound",
 "Tests insert a few fixed entries.",[LI],[("row lists sort and merge",LI)])
p("C12","Assembly matrices act as the matrix they assemble",
 "Multiplying by a coordinate or list-of-lists matrix, plain or transposed, directly or through the operator interface, gives the same vector as multiplying by its converted sparse matrix, with duplicates summed and the output's previous contents ignored. This holds for rectangular matrices and for empty ones.",
 ["inputs"],"every entry list and vector within the bound",
 "Only square fixed cases are multiplied.",[CO,LI],[("triple loop",CO)])
p("C13","Dense products equal the mathematical product for every shape",
 "For every shape and content, dense matrix-vector and transposed matrix-vector products and the four dense matrix-matrix products (A B, A^T B, A B^T, A^T B^T) return exactly the mathematical result with the right dimensions, in returning and output-argument forms and for other vector element types. Previous output contents never influence the result and operands are unchanged.",
 ["inputs"],"every shape up to the bound including rectangular, 1xn, nx1; every content",
 "Tests use one or two fixed small matrices where wrong leading dimensions or transposes coincide with right ones.",[DM,DC],[("BLAS argument wiring",DC),("template mat-vec loops",DM)])
p("C14","Dense element access, arithmetic and reductions are entrywise correct",
 "Element (i,j) of a dense matrix is the one stored at column-major position; sums, differences, scalar products and quotients in either operand order, scalar assignment, row and column scaling, transposition, sum, maximum and minimum give the mathematical entrywise result. Resizing, with or without a fill value, yields the requested shape, and operands passed by const reference are never modified.",
 ["inputs"],"every shape and content within the bound",
 "Tests check a few fixed 2x2/3x3 cases.",[DM,DC],[("entry loops",DC)])
p("C15","Dense slices, blocks and stacks move exactly the addressed entries",
 "Reading rows, columns, ranges, index lists and contiguous or indexed submatrices from a dense matrix returns exactly the addressed entries (ranges include their start and exclude their end), writing them changes exactly the addressed entries and nothing else, scattered block accumulation adds exactly the block, and horizontal stacking concatenates in order. Column views alias the matrix: writes through the view are visible in it and nowhere else.",
 ["inputs"],"every shape, range, index list and content within the bound, including empty ranges",
 "A few fixed slices are printed.",[DM,DC],[("range loops",DC)])
p("C16","Dense factorizations call the numerical kernel correctly for every shape",
 "Inverse, QR and SVD of a dense matrix pass the kernel matrices, leading dimensions and workspaces of the required sizes for every shape they accept, never let the kernel touch memory outside them, and deliver the kernel's outputs in the documented shapes and positions (an orthogonal factor with as many columns as the smaller dimension, singular values, inverse). Input matrices passed as const are unchanged and a solver object reused for different sizes gives the same results as a fresh one.",
 ["inputs","histories"],"every shape and content within the bound under any kernel that meets its documented contract",
 "Tests decompose fixed matrices; a workspace or leading-dimension error only shows for particular shapes.",[DC,"src/eigensolver.cpp","include/eigensolver.hpp"],[("workspace query and call",DC)])
p("C17","Vectors own their data; views alias exactly what they were made from",
 "Copying, constructing or assigning an owning vector copies the values so later writes to either are invisible to the other, moving or swapping transfers them without loss, and self-assignment is harmless; a view reads and writes exactly the elements it was made from, assigning to a view writes through, and iteration, indexing and size agree. Resizing keeps the leading values, fills new ones with the requested value, and leaves no view inside the vector pointing at released memory.",
 ["histories","inputs"],"every short sequence of construct/copy/move/swap/assign/resize/write operations within the bound",
 "Tests never observe aliasing after a sequence of operations, and stale internal pointers read plausible values.",[VV,VE],[("data pointer refreshed on every reallocation",VE)])
p("C18","Vector arithmetic and reductions equal their mathematical definitions",
 "Entrywise addition, subtraction, multiplication, division with vectors and scalars on either side, scaled add, subtract and set, inner products, norms, sum, mean, max, min, absolute versions, subvector extraction, normalisation, mean removal, equality and comparison helpers give the exact mathematical result for every length including zero-length where defined. In-place forms modify only the target, and value-returning forms modify neither operand.",
 ["inputs"],"every length up to the bound and every content",
 "Tests use a few fixed vectors of length five.",[VV,VE,"src/vectorview.cpp"],[("std algorithms over begin/end",VE)])
p("C19","A block matrix acts as the matrix its blocks assemble",
 "For every grid of blocks, set or unset, of compatible sizes, block-matrix multiplication and transposed multiplication, combination into one sparse matrix, and transposition all agree with the single matrix that has each block at its offsets and zeros elsewhere. Setting and getting a block returns the same matrix, copies are independent, and previous output contents do not matter.",
 ["inputs"],"every block grid, offsets, patterns and values within the bound, with any subset of blocks unset",
 "One fixed 2x2 grid of equal square blocks is printed; a transpose that leaves the blocks untransposed is not noticed.",["include/blockmatrix.hpp"],[("offset arithmetic over the block grid","include/blockmatrix.hpp")])
p("C20","Block operators and block vectors address the right sub-blocks",
 "Applying a block operator, plain or transposed, equals summing each set block's action between its offsets, unset blocks acting as zero, with previous output contents irrelevant and blocks referenced rather than copied. A block vector's block view covers exactly the elements between its offsets and writes through it are visible in the vector, copies and moves keep the offsets and are independent.",
 ["inputs","histories"],"every grid, offsets and contents within the bound",
 "One fixed grid is applied.",["src/blockoperator.cpp","include/blockoperator.hpp","include/blockvector.hpp"],[("accumulating apply","src/blockoperator.cpp")])
p("C21","Vector and list files round-trip",
 "Writing a vector as text and reading it back gives the same values in order to sixteen significant digits, and writing and reading a binary vector or binary matrix gives a bitwise identical one, for every length, value and element type. A file that cannot be opened, and a binary file that is truncated, is refused instead of returning partial data.",
 ["inputs"],"every length and content within the bound",
 "Tests read fixed files.",["include/parser.hpp"],[("stream loops","include/parser.hpp")])
p("C22","Matrix text formats round-trip and honour the symmetric flag",
 "Writing a sparse matrix in coordinate, adjacency, table, CSR or Matrix Market form and reading it back gives the same matrix (same entries; the same dimensions where the format records them and the smallest containing dimensions otherwise), and the symmetric flag on writing stores each pair once and on reading restores both, values to sixteen significant digits. Hand-written files with the documented index base, comments and ordering read to the matrix they describe.",
 ["inputs"],"every pattern and value within the bound; every file with the documented grammar within the bound",
 "Tests read fixed files and compare a few entries.",["include/parser.hpp"],[("readers and writers","include/parser.hpp")])
p("C23","Command-line parsing assigns exactly what was given",
 "For every command line, parsing a flag sets the variable to the value that follows that flag (negative numbers included), leaves the default when the flag is absent, and treats a flag registered with a boolean as value-less, its presence flipping the default. The object reports itself good exactly when help was not asked for and no flag was entered or parsed more than once, and the reported options show the value in force after parsing.",
 ["inputs"],"every argument list of up to a few tokens drawn from an alphabet of flags, values and malformed tokens",
 "One fixed command line is parsed.",["src/argparser.cpp","include/argparser.hpp"],[("token scan","src/argparser.cpp")])
p("C24","Preconditioned conjugate gradients honours its contract",
 "Conjugate gradients, with or without preconditioner, returns a vector whose residual meets the stated tolerance or uses exactly the allowed number of iterations, never more, stops as soon as the tolerance is met, uses the given initial guess in the in-place form and, for a solver object, zero in the returning form, leaves the right-hand side and operators unmodified, and on symmetric positive definite systems reaches the exact solution within as many steps as the dimension in exact arithmetic. The tolerance test uses the supplied inner product, an already converged guess is returned unchanged, and the reported iteration count equals the iterations performed, also on a reused, copied or reconfigured solver.",
 ["inputs","histories"],"every operator behaviour, inner product, right-hand side, guess and limit within the bound (operators and inner products as arbitrary functions), exact small SPD systems",
 "Tests run fixed systems to loose tolerances, which hides off-by-one limits, stale state and wrong stopping tests.",["src/solvers.cpp","include/solvers.hpp"],[("PCG loop","src/solvers.cpp")])
p("C25","Minimal residual solvers honour their contract",
 "The minimal residual method, with or without preconditioner, stops only on meeting the tolerance or after exactly the allowed number of iterations, never more, uses the given initial guess in place and, for a solver object, zero in the returning form, leaves right-hand side and operators unmodified, and on small symmetric nonsingular systems reaches the exact solution within as many steps as the dimension in exact arithmetic. An already converged guess (zero residual) is returned unchanged, and the reported iteration count equals the iterations performed.",
 ["inputs","histories"],"as for conjugate gradients; indefinite symmetric systems included",
 "Tests run fixed systems only.",["src/solvers.cpp","include/solvers.hpp"],[("MINRES loop","src/solvers.cpp")])
p("C26","The eigensolver returns the requested lowest eigenpairs",
 "For every symmetric matrix, sparse or dense, the eigensolver returns the smallest eigenvalues with their eigenvectors as the kernel delivers them, in matching order and shape: at least one eigenvector, at most the requested number and the dimension, and only as many as the relative tolerance admits. The input is unchanged and reuse of a solver object for other sizes is as good as a fresh solver.",
 ["inputs","histories"],"every size, tolerance, requested count within the bound, under any kernel meeting its documented contract",
 "Tests decompose fixed matrices.",["src/eigensolver.cpp","include/eigensolver.hpp"],[("selection of eigenpairs","src/eigensolver.cpp")])
p("C27","Random fills respect range and seed",
 "Filling a vector with random values gives every entry within the requested range, fills every entry, and with a given non-negative seed is reproducible: two fills of equal length, type, range and seed are identical, whatever happened in between.",
 ["inputs","histories"],"every length, range and seed within the bound and every generator output",
 "Tests print random vectors.",[VV,"src/vectorview.cpp",VE],[("seeded generator","src/vectorview.cpp")])
p("C28","Partitioning returns a valid, gap-free partition of the vertices",
 "Partitioning a square matrix's graph returns one part number per vertex, each in [0, number of parts used), with no empty part number below the maximum, never more parts than requested, and all zero for one part; unconnected, diagonal-only and empty-diagonal graphs are accepted. The graph handed to the partitioner is exactly the off-diagonal pattern, with absolute values as weights only when weighting is requested.",
 ["inputs"],"every pattern and value within the bound, every partitioner answer",
 "One fixed graph is partitioned.",["modules/partition/include/partition.hpp"],[("adjacency extraction and renumbering","modules/partition/include/partition.hpp")])
p("C29","The direct sparse solver wraps the factorization safely",
 "A direct solver built from a square sparse matrix solves A x = b and A^T x = b through the kernel with the arrays and orientation the kernel expects, and copies, moves, swaps, assignments and empty solvers never leak, double-free or use a released factorization and keep solving with their own matrix.",
 ["histories","inputs"],"every matrix within the bound and every short sequence of copy/move/swap/assign/destroy, under any kernel meeting its documented contract",
 "One solver is built and applied.",["modules/sparsesolver/src/sparsesolve.cpp","modules/sparsesolver/include/sparsesolve.hpp"],[("factorization handle ownership","modules/sparsesolver/src/sparsesolve.cpp")])
p("C30","Matrices have value semantics under copy, move, swap and assignment",
 "For sparse, dense, coordinate, list-of-lists and block matrices, a copy equals its source and is independent of it, a move or swap transfers the complete value including dimensions, assignment (self-assignment included) gives the target the source's complete value, and destroyed or moved-from objects can be destroyed or assigned again without leak or invalid access.",
 ["histories"],"every short sequence of copy, move, swap, assign and modify operations on every matrix type within the bound",
 "Tests copy and print; they do not modify afterwards.",[SM,DM,DC,CO,LI,"include/blockmatrix.hpp"],[("copy-and-swap","include/sparsematrix.hpp")])
p("C31","The operator interface is consistent across all operators",
 "Through the abstract operator interface, any operator reports its dimensions, the returning and resizing forms produce a vector of exactly the right length equal to the in-place form whatever a matrix operator's output held before, the operator inner product is y^T A x, and an operator without transposed action throws instead of returning. Helpers that total rows or columns of a list of operators give the sum.",
 ["inputs"],"every operator behaviour and dimension within the bound",
 "Tests use the interface on a few fixed matrices.",["src/operator.cpp","include/operator.hpp"],[("default implementations","src/operator.cpp")])
p("C32","Timers report the elapsed intervals between clicks",
 "For every non-decreasing sequence of clock readings, the i-th interval is the time between click i and click i+1, the total is the time from the first to the last click, and starting on construction counts as the first click.",
 ["histories"],"every clock sequence of up to six readings",
 "Tests only print times.",["src/timer.cpp","include/timer.hpp"],[("click list","src/timer.cpp")])
p("C33","Invalid requests are refused, not executed",
 "Requests the interface declares invalid, mismatched dimensions, out-of-range indices, negative sizes, files that cannot be opened, operations an operator does not define, are always refused by assertion or exception before any memory outside the objects is read or written and before a wrong result is returned.",
 ["inputs"],"every wrong dimension or index within the bound, for every operation with a declared precondition",
 "Tests never pass invalid arguments.",[SM,DM,DC,CO,LI,VV,VE,"include/blockmatrix.hpp","include/parser.hpp"],[("assertions and verify helpers","include/utilities.hpp")])
p("C34","Distributed assembly helpers combine the local and remote parts exactly",
 "Adding or subtracting two distributed matrices with scales gives on every rank exactly the scaled sum of the local and of the remote parts, with the remote columns' global numbering sorted, without duplicates and consistent; offsets generated for a distribution partition the global range in rank order; and splitting or sorting a column map permutes without loss.",
 ["inputs","configurations"],"every local pattern, value, column map and rank count within the bound, with message passing replaced by a contract stub",
 "The module is not built by the tests here (its solver library is absent).",["modules/parlinalgcpp/src/parutilities.cpp","modules/parlinalgcpp/include/parutilities.hpp"],[("merge of off-diagonal maps","modules/parlinalgcpp/src/parutilities.cpp")])
p("C35","The numerical kernels themselves meet their accuracy",
 "Results of dense factorizations, direct sparse solves and graph partitions have the accuracy and balance their algorithms promise: small backward error, near-orthogonal factors, small edge cut.",
 ["inputs"],"every input",
 "Floating-point accuracy over all inputs cannot be sampled.",[DC,"modules/sparsesolver/src/sparsesolve.cpp","modules/partition/include/partition.hpp"],[("LAPACK, UMFPACK and METIS",DC)])
p("C36","Distributed matrices and vectors equal their serial counterparts",
 "Applying a distributed matrix or its transpose, transposing it, multiplying distributed matrices, forming the triple product P^T A P, scaling, negating, shifting the diagonal, eliminating rows, row weights and norms, and inner products, sums and norms of distributed vectors give on every rank exactly the part of the serial result on the gathered operands that this rank owns, for every distribution over ranks (every rank owns at least one row) and every order in which the ranks run. Results are well formed: sorted column map without duplicates or own columns, consistent distribution, no entry stored twice, and the library's view of the matrix is the matrix's own arrays. No rank waits forever and no message is lost. Copies, moves, swaps and assignments of distributed matrices and vectors keep standing for the same matrix or vector, independently of each other.",
 ["inputs","configurations","schedules","histories"],"every pattern, value, distribution and rank order within the bound, with MPI and hypre replaced by contract models",
 "The module is not built by the tests here (hypre is absent), and its own test uses one distribution.",["modules/parlinalgcpp/src/parmatrix.cpp","modules/parlinalgcpp/src/hypre_ops.cpp","modules/parlinalgcpp/src/parvector.cpp","modules/parlinalgcpp/src/paroperator.cpp"],[("multiplication, transpose","modules/parlinalgcpp/src/hypre_ops.cpp"),("application, scaling, copies","modules/parlinalgcpp/src/parmatrix.cpp"),("vectors","modules/parlinalgcpp/src/parvector.cpp")])
p("C37","Distributed solvers hand hypre the caller's problem",
 "A distributed solver, preconditioner or smoother solves with its own copy of the matrix it was given, the right hand side and output of the call, and the options of its constructor; options are set before the setup they influence and the setup is done exactly once before solving; a preconditioned solver applies its preconditioner (any solver or smoother of the module, after the preconditioner's own setup) to what hypre passes. Copies, moved-to, swapped and assigned solvers, also in containers that grow and shrink, act exactly like the solver they came from and outlive it; default-constructed and moved-from ones are empty. Smoothers use the row weights of their type. The eigensolver uses the caller's operator, preconditioner and starting vectors, and returns values and vectors in order, one value per vector.",
 ["inputs","configurations","schedules","histories"],"every entry, right hand side, option, distribution and rank order within the bound, with MPI and hypre replaced by contract models",
 "hypre is absent here, so the module's tests do not run; they use one solver at a time and never copy it.",["modules/parlinalgcpp/src/parsolvers.cpp","modules/parlinalgcpp/src/parsmoother.cpp"],[("solvers and eigensolver","modules/parlinalgcpp/src/parsolvers.cpp"),("smoothers","modules/parlinalgcpp/src/parsmoother.cpp")])
p("C38","Printed forms show every entry in its place",
 "Printing a dense matrix, or a sparse or block matrix in dense form, shows exactly one line per row with the row's entries in column order, zeros included, to the requested number of decimals (for entries that fit the column width). Printing a sparse, coordinate or list-of-rows matrix shows one line with row, column and value for every stored entry and nothing else; a block matrix shows every block under its block position; vectors, views and lists show every element in order. The argument parser's reports show every option once with its value in force and description, every flag in the help, and every error. Printing starts with the label and changes neither the object nor the format of the stream.",
 ["inputs"],"every pattern, value and size within the bound",
 "Tests print without looking at what was printed.",[SM,DM,DC,CO,LI,VV,"include/blockmatrix.hpp","include/argparser.hpp","src/argparser.cpp"],[("entry and dense listings",SM),("dense printing",DC),("reports","src/argparser.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
