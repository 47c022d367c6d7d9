import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/C-interface/"+f if not f.startswith(("src/","tests/")) else f for f in files],
        state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
FM="dense, ellpack, ellblock and csr"
p("C01","Element, row and diagonal writes and reads behave like a dense array",
 "After any sequence of bml_set_element, bml_set_element_new (on an entry not yet set), bml_set_row, bml_set_diagonal and bml_clear on a dense, ellpack, ellblock or csr matrix of any precision, every reader (bml_get_element, bml_get_row, bml_get_diagonal, bml_export_to_dense) returns exactly the last value written for each (i,j), or zero if it was never written or was dropped by the threshold argument of the write. Entries that were not addressed by a write keep their value. Overwriting an entry with any value, including zero, replaces it.",
 ["histories","inputs","configurations"],"for every write history, format, precision, matrix size N>=1, row capacity M large enough for the entries, and threshold",
 "Tests write each entry once in row order into 12x12 matrices and read it back; overwrites, interleavings of writers, rows at capacity, empty rows and clear-then-reuse are never reached.",
 ["bml_setters.c","bml_getters.c","dense/bml_setters_dense_typed.c","ellpack/bml_setters_ellpack_typed.c","ellblock/bml_setters_ellblock_typed.c","csr/bml_setters_csr_typed.c","dense/bml_getters_dense_typed.c","ellpack/bml_getters_ellpack_typed.c","ellblock/bml_getters_ellblock_typed.c","csr/bml_getters_csr_typed.c","bml_allocate.c"],
 [("search-then-append of the row's index list","ellpack/bml_setters_ellpack_typed.c, csr/bml_setters_csr_typed.c, csr/bml_allocate_csr_typed.c"),("block lookup and lazy block allocation","ellblock/bml_setters_ellblock_typed.c")],
 ["bml_get_element_*","bml_get_row","bml_get_diagonal","bml_export_to_dense"],
 [dict(name="nnz/index/value",meaning="per-row stored entries of ellpack and csr",where="ellpack/bml_types_ellpack.h, csr/bml_types_csr.h"),dict(name="nnzb/indexb/ptr_value",meaning="stored blocks of ellblock",where="ellblock/bml_types_ellblock.h")])
p("C02","Dense import and export round-trip in both orders",
 "bml_import_from_dense followed by bml_export_to_dense returns the original N x N array, for row-major and column-major order independently chosen on either side (a change of order is a transposition of the raw array), in every format and precision. With an import threshold t, ellpack and csr keep exactly the elements with |a|>t, ellblock keeps at least these (it decides by block) and dense keeps everything; what is kept is unchanged and the rest reads as zero. The exported array belongs to the caller and is independent of the matrix.",
 ["inputs","configurations"],"for every array content, N, order combination, format, precision, capacity M that holds the kept entries, and threshold",
 "The import/export tests use one random dense array and threshold 0 or one value, with the same order on both sides.",
 ["bml_import.c","bml_export.c","dense/bml_import_dense_typed.c","dense/bml_export_dense_typed.c","ellpack/bml_import_ellpack_typed.c","ellpack/bml_export_ellpack_typed.c","ellblock/bml_import_ellblock_typed.c","ellblock/bml_export_ellblock_typed.c","csr/bml_import_csr_typed.c","csr/bml_export_csr_typed.c"],
 [("ROWMAJOR/COLMAJOR index mapping","src/macros.h"),("threshold test while importing","*/bml_import_*_typed.c")],["bml_export_to_dense","bml_get_element_*"])
p("C03","Conversion between formats preserves the matrix",
 "bml_convert of a matrix A to any of dense, ellpack, ellblock, csr (same precision) yields a new matrix of the requested type whose elements all equal A's, and whose later modification does not affect A (nor the other way round). Chains of conversions that end in the original format return an equal matrix, and A is left unchanged.",
 ["inputs","histories","configurations"],"for every source content (including empty rows, full rows, explicitly stored zeros), pair or chain of formats, precision, N and sufficient M",
 "The convert test converts one random matrix once per pair; chains, matrices with stored zeros or produced by other operations, and independence of the result are not exercised.",
 ["bml_convert.c","dense/bml_convert_dense_typed.c","ellpack/bml_convert_ellpack_typed.c","ellblock/bml_convert_ellblock_typed.c","csr/bml_convert_csr_typed.c"],
 [("row-by-row or export/import conversion","*/bml_convert_*_typed.c")],["bml_get_type","bml_get_element_*","bml_export_to_dense"])
p("C04","Copies are faithful and independent of their source",
 "bml_copy_new(A) returns a matrix of the same type, precision, N and M with elements equal to A's; bml_copy(A,B) makes B's elements equal to A's whatever B held before. After the copy, any modification or deallocation of one of the two leaves the other unchanged.",
 ["histories","inputs","configurations"],"for every content of A and previous content of B (same type, precision, N and adequate M), and every later operation on either",
 "Tests copy once into a fresh zero matrix and compare; pre-filled targets and mutation or deallocation after the copy are not covered.",
 ["bml_copy.c","dense/bml_copy_dense_typed.c","ellpack/bml_copy_ellpack_typed.c","ellblock/bml_copy_ellblock_typed.c","csr/bml_copy_csr_typed.c"],
 [("deep copy of values and index arrays","*/bml_copy_*_typed.c")],["bml_get_element_*","bml_export_to_dense"])
p("C05","Addition family computes the stated linear combinations",
 "For every format and precision, bml_add replaces A by alpha*A+beta*B, bml_add_identity by A+beta*I and bml_scale_add_identity by alpha*A+beta*I; bml_add_norm (dense, ellpack, ellblock) additionally returns the sum of the squared elements of the difference between the input matrices A-B. Elements may differ from the exact result only by rounding or, in sparse formats, by dropping entries that do not exceed the threshold (by whole blocks in ellblock). B is unchanged.",
 ["inputs","configurations"],"for every pair of matrices with any overlap of sparsity patterns, alpha, beta (including 0 and negative), threshold, N and sufficient M",
 "Tests add two random full matrices with fixed alpha and beta and look at a few norms; disjoint, nested or cancelling patterns, empty rows, thresholds that split rows, and repeated accumulation are not covered.",
 ["bml_add.c","dense/bml_add_dense_typed.c","ellpack/bml_add_ellpack_typed.c","ellblock/bml_add_ellblock_typed.c","csr/bml_add_csr_typed.c"],
 [("scatter of row entries by column with a per-row marker","ellpack/bml_add_ellpack_typed.c"),("hash table of columns","csr/bml_add_csr_typed.c, csr/bml_types_csr.h"),("per-block accumulation","ellblock/bml_add_ellblock_typed.c")],["bml_export_to_dense","return value of bml_add_norm"])
p("C06","General multiplication computes alpha*A*B+beta*C",
 "bml_multiply(A,B,C,alpha,beta,threshold) leaves alpha*A*B+beta*C in C for every format and precision, also when A and B are the same matrix, whatever C held before. With threshold 0 the result is exact up to rounding; with threshold t>0 a sparse result may differ per element by no more than what dropping intermediate entries not exceeding t explains, and stores no off-diagonal entry (ellblock: no block) smaller than t. A and B are unchanged.",
 ["inputs","configurations"],"for every A, B, C (square N x N; any sparsity; non-symmetric; complex), alpha, beta, threshold, N and sufficient M",
 "Tests multiply random matrices for one alpha/beta/threshold; A==B aliasing, beta with non-overlapping C pattern, empty rows and columns, zero alpha, and non-symmetric sparse patterns are sampled at one point or not at all.",
 ["bml_multiply.c","dense/bml_multiply_dense_typed.c","ellpack/bml_multiply_ellpack_typed.c","ellblock/bml_multiply_ellblock_typed.c","csr/bml_multiply_csr_typed.c"],
 [("xGEMM call with swapped operands for row-major data","dense/bml_multiply_dense_typed.c"),("row-merge sparse product","ellpack/bml_multiply_ellpack_typed.c"),("hash accumulated sparse product","csr/bml_multiply_csr_typed.c"),("block product","ellblock/bml_multiply_ellblock_typed.c")],["bml_export_to_dense"])
p("C07","Squaring and fused products agree with the plain product",
 "bml_multiply_x2(X,X2,threshold) leaves X*X in X2 and returns the traces of X and of X*X; bml_multiply_AB and bml_multiply_adjust_AB leave A*B in C, each up to rounding plus dropping of the off-diagonal entries (ellblock: blocks) not exceeding the threshold, of which a sparse result keeps none; bml_multiply_adjust_AB (ellpack, ellblock) raises the threshold, no further than to twice what is needed, until the product fits the result's row capacity. Whatever the result matrix held before is replaced. Inputs are unchanged.",
 ["inputs","configurations"],"for every X, A, B, previous content of the result, threshold, format (adjust: dense and ellpack), precision, N and sufficient M",
 "Tests square one symmetric banded or random matrix and compare with a dense product; non-symmetric inputs, non-empty targets and returned traces are barely covered.",
 ["bml_multiply.c","dense/bml_multiply_dense_typed.c","ellpack/bml_multiply_ellpack_typed.c","ellblock/bml_multiply_ellblock_typed.c","csr/bml_multiply_csr_typed.c"],
 [("per-row sparse accumulation keeping the diagonal","ellpack/bml_multiply_ellpack_typed.c"),("trace pair","*/bml_multiply_*_typed.c")],["bml_export_to_dense","returned trace array"])
p("C08","Element-wise product is the Hadamard product",
 "bml_element_multiply_AB(A,B,C,threshold) leaves in C the element-wise product of A and B, with zero wherever either is zero, for dense, ellpack and csr and every precision; off-diagonal entries not exceeding the threshold are dropped in sparse formats. C's previous content does not influence the result and A and B are unchanged.",
 ["inputs","configurations"],"for every pair of sparsity patterns and values, previous content of C, threshold, N and sufficient M",
 "The only test multiplies one random pair of full matrices; differing sparsity patterns, repeated use of the same result matrix and thresholds are not reached.",
 ["bml_element_multiply.c","dense/bml_element_multiply_dense_typed.c","ellpack/bml_element_multiply_ellpack_typed.c","csr/bml_element_multiply_csr_typed.c"],
 [("pattern intersection","ellpack/bml_element_multiply_ellpack_typed.c, csr/bml_element_multiply_csr_typed.c")],["bml_export_to_dense"])
p("C09","Scaling multiplies every element by the factor",
 "bml_scale_new(alpha,A) returns, bml_scale(alpha,A,B) stores in B, and bml_scale_inplace(alpha,A) stores in A the matrix alpha*A, for every format and precision, with alpha of the matrix' own (possibly complex) element type. A is unchanged by the first two, the result shares no storage with A, and B's earlier content does not survive.",
 ["inputs","configurations","histories"],"for every matrix content, alpha (0, 1, negative, complex), previous content of B, format, precision and N",
 "Tests scale one random matrix by one real factor into a fresh target.",
 ["bml_scale.c","dense/bml_scale_dense_typed.c","ellpack/bml_scale_ellpack_typed.c","ellblock/bml_scale_ellblock_typed.c","csr/bml_scale_csr_typed.c"],
 [("xSCAL over the stored values","*/bml_scale_*_typed.c")],["bml_export_to_dense"])
p("C10","Transposition and triangle mirroring move every element correctly",
 "bml_transpose_new(A) returns and bml_transpose(A) leaves in A the matrix with element (j,i) of A at (i,j), for every format and precision; transposing twice restores A. bml_transpose_triangle (dense) mirrors the chosen triangle onto the other one, and bml_adjungate_triangle (dense, ellpack) does the same with complex conjugation, the diagonal and the chosen triangle staying as they were.",
 ["inputs","configurations"],"for every sparsity pattern (one-sided pairs, empty and full rows), triangle, format, precision, N and sufficient M",
 "Tests transpose one random full matrix, where the sparse code never meets entries whose mirror image is absent.",
 ["bml_transpose.c","bml_transpose_triangle.c","bml_adjungate_triangle.c","dense/bml_transpose_dense_typed.c","ellpack/bml_transpose_ellpack_typed.c","ellblock/bml_transpose_ellblock_typed.c","csr/bml_transpose_csr_typed.c","dense/bml_transpose_triangle_dense_typed.c","dense/bml_adjungate_triangle_dense_typed.c","ellpack/bml_adjungate_triangle_ellpack_typed.c"],
 [("swap of mirrored entries, insertion and removal when one side is absent","ellpack/bml_transpose_ellpack_typed.c, ellblock/bml_transpose_ellblock_typed.c, csr/bml_transpose_csr_typed.c")],["bml_export_to_dense"])
p("C11","Thresholding drops exactly the small elements",
 "bml_threshold(A,t) and bml_threshold_new(A,t) keep unchanged every element with |a|>t and turn every element with |a|<=t into zero, for every format and precision. The operation is idempotent, and bml_threshold_new leaves A unchanged.",
 ["inputs","configurations"],"for every content including ties |a|==t, negative and complex values, threshold t>=0, format, precision and N",
 "Tests threshold one random matrix at one value and compare counts; ties, rows that become empty, all-dropped and none-dropped cases are missed.",
 ["bml_threshold.c","dense/bml_threshold_dense_typed.c","ellpack/bml_threshold_ellpack_typed.c","ellblock/bml_threshold_ellblock_typed.c","csr/bml_threshold_csr_typed.c"],
 [("row compaction","ellpack/bml_threshold_ellpack_typed.c, csr/bml_threshold_csr_typed.c")],["bml_export_to_dense","bml_get_row_bandwidth"])
p("C12","Sums of squares and Frobenius norms have their stated value",
 "bml_sum_squares(A) is the sum of the squared elements of A, bml_sum_squares2(A,B,alpha,beta,threshold) that of alpha*A+beta*B, bml_sum_AB(A,B,alpha,threshold) is alpha times the sum of the element-wise products, bml_sum_squares_submatrix(A,n) that of the leading n x n block, bml_fnorm(A) the Frobenius norm of A and bml_fnorm2(A,B) the Frobenius norm of A-B, for each format that implements them and every precision, counting |a|^2 for complex elements. The values do not depend on format or storage order and the arguments are unchanged.",
 ["inputs","configurations"],"for every pair of matrices with any overlap of patterns, alpha, beta, threshold (entries of magnitude not exceeding it may be left out), format, precision, N",
 "Tests evaluate norms of random full matrices with a loose tolerance in two formats.",
 ["bml_norm.c","dense/bml_norm_dense_typed.c","ellpack/bml_norm_ellpack_typed.c","ellblock/bml_norm_ellblock_typed.c","csr/bml_norm_csr_typed.c"],
 [("accumulation over stored entries","*/bml_norm_*_typed.c")],["returned values"])
p("C13","Traces have their mathematical value",
 "bml_trace(A) is the (real part of the) sum of the diagonal elements of A and bml_trace_mult(A,B) the (real part of the) trace of the matrix product A*B, for every format and precision. Both leave their arguments unchanged, and bml_trace_mult agrees with bml_trace applied to the product.",
 ["inputs","configurations"],"for every pair of square matrices (non-symmetric, differing patterns, missing diagonal entries), format, precision and N",
 "Tests use one random (trace) or symmetric-by-construction (trace_mult) pair.",
 ["bml_trace.c","dense/bml_trace_dense_typed.c","ellpack/bml_trace_ellpack_typed.c","ellblock/bml_trace_ellblock_typed.c","csr/bml_trace_csr_typed.c"],
 [("diagonal lookup","*/bml_trace_*_typed.c"),("pairing of row entries of A with B","*/bml_trace_*_typed.c")],["returned values"])
p("C14","Gershgorin bounds enclose the spectrum; normalize maps into [0,1]",
 "For a real symmetric or Hermitian matrix, the interval [min,max] returned by bml_gershgorin is the union hull of the Gershgorin discs min(a_ii - r_i), max(a_ii + r_i) and therefore contains every eigenvalue; bml_gershgorin_partial (dense, ellpack, csr) does so for the leading rows asked for, and bml_accumulate_offdiag returns each row's sum of off-diagonal magnitudes. bml_normalize(A,mineval,maxeval) replaces A by (maxeval*I-A)/(maxeval-mineval), so that with Gershgorin bounds all eigenvalues land in [0,1].",
 ["inputs","configurations"],"for every symmetric/Hermitian matrix (positive, negative and indefinite; missing diagonal entries; zero rows), format, precision and N",
 "Tests run on random non-negative matrices only, which can never expose a wrong bound for negative spectra.",
 ["bml_normalize.c","dense/bml_normalize_dense_typed.c","ellpack/bml_normalize_ellpack_typed.c","ellblock/bml_normalize_ellblock_typed.c","csr/bml_normalize_csr_typed.c"],
 [("row radius accumulation and min/max reduction","*/bml_normalize_*_typed.c"),("scale_add_identity","*/bml_add_*_typed.c")],["returned bounds","bml_export_to_dense"])
p("C15","Diagonalization returns an eigendecomposition",
 "For a real symmetric or Hermitian matrix A, bml_diagonalize returns eigenvalues in ascending order and a matrix of eigenvectors V stored column by column such that A*V = V*diag(w) and V^H*V = I within rounding. A itself is unchanged.",
 ["inputs","configurations"],"for every symmetric/Hermitian matrix including degenerate, clustered, diagonal, negative and badly scaled ones, every format with full row capacity, precision and N",
 "Tests diagonalize one well-conditioned random matrix per type and compare the reconstruction at one size.",
 ["bml_diagonalize.c","dense/bml_diagonalize_dense.c","ellpack/bml_diagonalize_ellpack_typed.c","ellblock/bml_diagonalize_ellblock_typed.c","csr/bml_diagonalize_csr_typed.c"],
 [("LAPACK xSYEV(D)/xHEEV(D) call and transposition of the eigenvector array","dense/bml_diagonalize_dense.c"),("export/import around the dense solver","ellpack/ellblock/csr bml_diagonalize_*_typed.c")],["eigenvalue array","bml_export_to_dense"])
p("C16","Inverse is a two-sided inverse",
 "For a non-singular matrix A, bml_inverse(A) returns a matrix X of the same type and precision with A*X = X*A = I within a bound governed by the condition number; A is unchanged.",
 ["inputs","configurations"],"for every well-conditioned A (non-symmetric, needing pivoting, permuted, complex), format with full row capacity, precision and N",
 "Tests invert one fixed matrix per type.",
 ["bml_inverse.c","dense/bml_inverse_dense_typed.c","ellpack/bml_inverse_ellpack_typed.c","ellblock/bml_inverse_ellblock_typed.c","csr/bml_inverse_csr_typed.c"],
 [("xGETRF/xGETRI","dense/bml_inverse_dense_typed.c"),("conversion to dense and back","ellpack/ellblock/csr bml_inverse_*_typed.c")],["bml_export_to_dense"])
p("C17","Introspection reports the matrix that is there",
 "bml_get_type, bml_get_precision, bml_get_N and bml_get_M report what the matrix was created with; bml_get_row_bandwidth(A,i) and bml_get_bandwidth(A) report (dense, ellpack, csr) the number of entries held in row i and its maximum over rows (dense: non-zero entries), and bml_get_sparsity(A,t) equals 1 - count(|a|>t)/N^2. None of them modifies the matrix, and the values follow every modification.",
 ["histories","inputs","configurations"],"for every content and write history, threshold, format that implements the query, precision, N, M",
 "Tests query freshly made random, banded or identity matrices only.",
 ["bml_introspection.c","dense/bml_introspection_dense.c","dense/bml_introspection_dense_typed.c","ellpack/bml_introspection_ellpack.c","ellpack/bml_introspection_ellpack_typed.c","ellblock/bml_introspection_ellblock.c","ellblock/bml_introspection_ellblock_typed.c","csr/bml_introspection_csr.c","csr/bml_introspection_csr_typed.c"],
 [("entry counters","*/bml_introspection_*")],["returned values"])
p("C18","Constructors build the matrix they name",
 "bml_zero_matrix has all elements zero, bml_identity_matrix is the identity, bml_banded_matrix has entries only within its band, bml_random_matrix fills up to M entries per row with finite values of magnitude at most 1 per component, and bml_clear returns a matrix to zero; each result has the requested type, precision, N and M, is immediately usable by every operation and independent of every other matrix. bml_deallocate releases the matrix and sets the handle to NULL.",
 ["inputs","configurations","histories"],"for every format, precision, N>=1, 1<=M<=N and order of creation, use, clearing and deallocation",
 "Tests create each kind at one size (M=N) and check the values only.",
 ["bml_allocate.c","dense/bml_allocate_dense_typed.c","ellpack/bml_allocate_ellpack_typed.c","ellblock/bml_allocate_ellblock_typed.c","csr/bml_allocate_csr_typed.c"],
 [("zero-initialised allocation and per-format fill","*/bml_allocate_*_typed.c")],["bml_get_element_*","bml_export_to_dense"])
p("C19","Writing a matrix to a file and reading it back restores it",
 "bml_write_bml_matrix followed by bml_read_bml_matrix into an empty matrix of the same N, format and precision restores every element within the printed precision, for every format and precision, and a file written from one format can be read by any other format of the same precision. The file is a MatrixMarket coordinate file whose header (banner, N, N, number of entries) matches the lines that follow; a file with a symmetric banner is read as the full symmetric matrix.",
 ["inputs","configurations"],"for every content (empty, single entry, full, tiny and huge magnitudes, complex), pair of writer and reader format, precision and N",
 "The I/O test round-trips one random matrix per type into the same type.",
 ["bml_utilities.c","dense/bml_utilities_dense_typed.c","ellpack/bml_utilities_ellpack_typed.c","ellblock/bml_utilities_ellblock_typed.c","csr/bml_utilities_csr_typed.c"],
 [("header and coordinate lines","*/bml_utilities_*_typed.c")],["file content","bml_export_to_dense after reading"])
p("C20","Core-halo submatrix extraction and reassembly are consistent",
 "For an ellpack matrix, bml_matrix2submatrix_index (and its graph variant) returns the given core nodes first and then, without repetition, exactly the halo the documentation describes (columns connected to the core rows, and with the double-jump flag their neighbours in the second matrix); bml_matrix2submatrix gathers exactly the elements at those indices into a dense matrix. bml_submatrix2matrix writes the core rows back so that a core row of the big matrix holds exactly the submatrix row's elements exceeding the threshold at their core/halo columns, and rows outside the core are unchanged.",
 ["inputs","configurations"],"for every sparse pattern, core set, jump flag, threshold, precision and N",
 "Tests run the cycle on one random matrix with fixed core sizes.",
 ["bml_submatrix.c","ellpack/bml_submatrix_ellpack_typed.c","ellpack/bml_submatrix_ellpack.c"],
 [("node marking and index list construction","ellpack/bml_submatrix_ellpack_typed.c")],["core_halo_index, vsize","bml_export_to_dense"])
p("C21","Block extraction and assignment address the right block",
 "bml_extract_submatrix(A,irow,icol,n,m) returns an n x n matrix whose element (i,j) is A(irow+i,icol+j), and bml_assign_submatrix(A,B,irow,icol) puts B(i,j) at A(irow+i,icol+j) of a so far empty block, leaving every element outside of the block unchanged, for every format (ellblock: at block boundaries) and every precision. Cutting a matrix into blocks and assembling them into an empty matrix restores it.",
 ["inputs","configurations"],"for every content, block position and size within the matrix, format, precision",
 "Used only indirectly by distributed tests at one size.",
 ["bml_submatrix.c","dense/bml_submatrix_dense_typed.c","ellpack/bml_submatrix_ellpack_typed.c","ellblock/bml_submatrix_ellblock_typed.c","csr/bml_submatrix_csr_typed.c"],
 [("index offset arithmetic","*/bml_submatrix_*_typed.c")],["bml_export_to_dense"])
p("C22","Adjacency and group matrices describe the stored graph",
 "For an ellpack matrix, bml_adjacency returns, in the requested index base, a compressed adjacency list whose neighbours of row i are exactly the columns j != i held in row i, sorted ascending; bml_adjacency_group does so for a list of nodes, naming the neighbours by their position in that list. bml_group_matrix(A,hindex,ngroups,threshold) returns an ngroups x ngroups matrix with entry (g,h) one exactly when g equals h or A links a row of group g to a row of group h by an element exceeding the threshold (structurally symmetric A), and zero otherwise.",
 ["inputs","configurations"],"for every sparse pattern, grouping, base flag, threshold, precision and N",
 "Tests check one small fixed graph.",
 ["bml_submatrix.c","ellpack/bml_submatrix_ellpack_typed.c","ellpack/bml_adjacency_ellpack.c"],
 [("row scan, sort and prefix sum","ellpack/bml_submatrix_ellpack_typed.c")],["xadj, adjncy","bml_export_to_dense of the group matrix"])
p("C23","Reordering is a simultaneous row and column permutation",
 "bml_reorder(A,perm) moves element (i,j) of A to (perm[i],perm[j]) for dense and ellpack matrices, and block (i,j) to block position (perm[i],perm[j]) for ellblock, keeping all values; applying the inverse permutation afterwards restores A. Trace, norm and spectrum do not change.",
 ["inputs","configurations"],"for every permutation, content, precision and N",
 "Reordering is not covered by the C test-suite with a checkable result.",
 ["bml_copy.c","dense/bml_copy_dense_typed.c","ellpack/bml_copy_ellpack_typed.c"],
 [("row move and column relabelling","*/bml_copy_*_typed.c")],["bml_export_to_dense"])
p("C24","Histories of operations keep every format equal to the dense model",
 "A program of bml calls (construct, import, set, add, multiply, scale, transpose, threshold, copy, convert, clear, submatrix, deallocate) on a pool of matrices yields at every step the same elements as the mathematical operations on dense arrays, in every format and precision. No step reads or writes outside of the storage of its matrices, modifies a matrix it only reads, or leaves a matrix in a state from which a later valid operation fails.",
 ["histories","programs","configurations"],"for every finite program of valid calls with sufficient row capacity and for every format, precision and N",
 "Each unit test performs one operation on freshly built matrices; state left behind by one operation and met by the next is never explored.",
 ["dense","ellpack","ellblock","csr","bml_allocate.c"],
 [("storage invariants: per-row counts within capacity, unique columns, valid blocks","format directories")],["bml_export_to_dense","bml_get_element_*","AddressSanitizer"])
p("C25","Results do not depend on the number of OpenMP threads",
 "Every operation gives, for any number of OpenMP threads and any scheduling of them, the same matrix and scalar results as with one thread, up to rounding from reordered sums. No operation has a data race that can change a result.",
 ["schedules","inputs","configurations"],"for every operation, input, format, precision and thread count",
 "Tests run at one fixed thread count, on one schedule, and never compare with a serial run.",
 ["dense","ellpack","ellblock","csr"],
 [("omp parallel for with private/reduction clauses and per-row independence","*_typed.c"),("row locks in the ellpack transpose","ellpack/bml_transpose_ellpack_typed.c")],["bml_export_to_dense and returned scalars at 1..8 threads"])
p("C26","Operations release every byte they allocate",
 "Any operation that returns no new matrix leaves the amount of allocated memory as before, apart from growth of the result's own storage, and once every matrix and array handed to the caller is released, a program of bml calls has returned all memory it took. This holds for every format and precision, on repeated execution, and also for programs on distributed matrices, which give back their MPI communicators as well.",
 ["histories","inputs","configurations"],"for every operation, input, format and precision, and any number of repetitions",
 "The tests deallocate what they make but nothing observes leaks inside of operations.",
 ["bml_allocate.c","dense","ellpack","ellblock","csr"],
 [("bml_allocate_memory / bml_free_memory pairing","bml_allocate.c")],["allocator statistics of the process"])
p("C27","Matrices survive message passing unchanged",
 "A matrix sent with bml_mpi_send and received with bml_mpi_recv, bml_mpi_irecv/bml_mpi_irecv_complete or bml_mpi_recv_matrix, or broadcast with bml_mpi_bcast_matrix, arrives on every receiving rank equal to the sender's, replacing whatever the receiver held, for every format and precision. The sender's matrix is unchanged and both remain fully usable.",
 ["inputs","configurations","schedules"],"for every content (including empty matrix and empty or full rows), sender/receiver/root pair, format, precision, N, M",
 "The send/receive test exchanges one random matrix between two ranks into an empty target.",
 ["bml_parallel.c","dense/bml_parallel_dense_typed.c","ellpack/bml_parallel_ellpack_typed.c","ellblock/bml_parallel_ellblock_typed.c","csr/bml_parallel_csr_typed.c"],
 [("packed buffers or struct datatypes per format","*/bml_parallel_*_typed.c")],["bml_export_to_dense on the receiver"])
p("C28","Distributed matrices give the same results as sequential ones",
 "For a square process grid, every operation the distributed 2D format supports (import, export, set row/diagonal, get row, copy, convert, add, add identity, scale, multiply, multiply_x2 and its traces, transpose, threshold, norms, trace, sparsity, Gershgorin and normalize, diagonalize, print, write and read) returns on all ranks the same matrix and scalars as the same operation on an undistributed matrix, whatever the format of the local blocks. The parallel sum/min/max reductions return the reduction over all ranks on every rank.",
 ["inputs","histories","configurations"],"for every content (non-symmetric as well), operation sequence, local format, precision, N divisible by the grid dimension and grid of 1, 4 or 9 ranks",
 "MPI tests run the unit tests at one size on 4 ranks with symmetric or element-wise insensitive data.",
 ["distributed2d","bml_parallel.c"],
 [("block ownership by (row,column) rank","distributed2d/bml_allocate_distributed2d.c"),("Cannon-style exchange of blocks","distributed2d/bml_multiply_distributed2d.c"),("scatter/gather","distributed2d/bml_import_distributed2d.c, bml_export_distributed2d.c")],["bml_export_to_dense on the root rank","returned scalars on all ranks"])
p("C29","Gathering row domains rebuilds the full matrix on every rank",
 "When the rows of a dense or ellpack matrix are partitioned over ranks by its domain and each rank holds its own rows (set, or computed by operations that work on a rank's own rows, such as scale, add, threshold, trace and sum of squares), bml_allGatherVParallel leaves on every rank the matrix consisting of all ranks' rows. Domain bounds partition 0..N-1 without gap or overlap for every N and rank count, and saving, updating and restoring the domain returns it to the saved partition.",
 ["inputs","configurations"],"for every N, number of ranks (also N smaller than or not divisible by it), content, format and precision",
 "No test calls the gather; domain arithmetic is only executed for one rank.",
 ["bml_allocate.c","bml_parallel.c","dense/bml_parallel_dense_typed.c","ellpack/bml_parallel_ellpack_typed.c"],
 [("default domain and update domain","bml_allocate.c")],["bml_export_to_dense on each rank"])
p("C30","The Fortran interface does what the C interface does",
 "Every procedure of the Fortran module bml performs the same operation as its C counterpart on the same matrices, with one-based indices, column-major arrays and the documented defaults for optional arguments, for every precision and format. Function results and array arguments have the values the C interface would return. Array sections are accepted like whole arrays, and an unknown type, element, kind or mode name stops the program.",
 ["inputs","configurations"],"for every wrapped procedure, argument value, presence or absence of optional arguments, format and precision",
 "The Fortran tests cover part of the wrappers with one random matrix and mostly compare the wrapper with itself.",
 ["src/Fortran-interface/bml_c_interface_m.F90","src/Fortran-interface/bml_add_m.F90","src/Fortran-interface/bml_multiply_m.F90","src/Fortran-interface/bml_setters_m.F90","src/Fortran-interface/bml_getters_m.F90","src/Fortran-interface/bml_import_m.F90","src/Fortran-interface/bml_export_m.F90","src/Fortran-interface/bml_submatrix_m.F90"],
 [("bind(C) interfaces and index/order translation","src/Fortran-interface/*.F90")],["values read through the C interface"])
p("C31","The built-in GEMM equals the BLAS specification",
 "The library's own matrix-matrix product used when no optimized BLAS is selected computes op(A)*op(B)*alpha+beta*C with op in {N,T,C}, for all dimensions m,n,k (including 0 and rectangular shapes), leading dimensions and scalars, in all four precisions. It writes nothing but the m x n result and reads C only if beta is non-zero.",
 ["inputs","configurations"],"for every m,n,k, lda,ldb,ldc allowed by BLAS, transpose flags, alpha, beta, precision",
 "The gemm test compares one square random product per precision.",
 ["src/internal-blas/bml_gemm.c"],
 [("reference loops","src/internal-blas/bml_gemm.c")],["output array"])
p("C32","Invalid requests and overflowing results are diagnosed, never silent",
 "A request the library documents or checks as invalid (copy between different types, sizes or too small capacity, element reads out of range, an unknown triangle or matrix type, an operation not available for a format, a NULL operand) ends in an error report and a failing exit status rather than in a result. A sparse operation (writes, import, add family, products, transposition, conversion, copy) whose result does not fit the row capacity M either completes with the correct result or stops with such an error; it never returns a wrong matrix or corrupts memory.",
 ["inputs","configurations"],"for every invalid argument of the listed kinds and every ellpack or ellblock operation whose result exceeds the row capacity",
 "Tests never pass invalid arguments and always allocate M=N.",
 ["bml_copy.c","bml_logger.c","ellpack/bml_multiply_ellpack_typed.c","ellpack/bml_add_ellpack_typed.c","ellpack/bml_element_multiply_ellpack_typed.c","ellpack/bml_getters_ellpack_typed.c","bml_introspection.c"],
 [("LOG_ERROR and assertions","bml_logger.c, call sites")],["exit status and message of the process"])
p("C33","Damaged matrix files are rejected",
 "Reading a matrix file that is missing, truncated before its last value, lacks a header or entry field, holds a non-number, an index out of range or a number of columns not matching the precision, or whose size differs from the matrix being read into, ends in an error report and a failing exit status; it never returns a partially read matrix as if it were complete, never hangs and never writes outside of the matrix.",
 ["inputs","crash_points","fault_sequences"],"for every truncation point and line-level corruption of a valid file, format and precision",
 "The I/O test reads only files it just wrote.",
 ["dense/bml_utilities_dense_typed.c","ellpack/bml_utilities_ellpack_typed.c","ellblock/bml_utilities_ellblock_typed.c","csr/bml_utilities_csr_typed.c"],
 [("fscanf return value checks","*/bml_utilities_*_typed.c")],["exit status of the process"])
p("C34","Purification built on the library reproduces the exact density matrix",
 "For a symmetric Hamiltonian with a gap, the SP2 iteration composed of the library's own Gershgorin, normalize, multiply_x2, add and trace calls converges in every format and precision to the projector onto the occupied eigenvectors: it is idempotent, symmetric, commutes with the Hamiltonian, has the occupation as trace, and equals the density matrix assembled from bml_diagonalize.",
 ["programs","inputs","configurations"],"for every gapped symmetric Hamiltonian (banded, sparse, dense, block structured), occupation, format, precision and N",
 "No test composes operations into the algorithm the library is written for.",
 ["ellpack/bml_multiply_ellpack_typed.c","csr/bml_multiply_csr_typed.c","ellblock/bml_multiply_ellblock_typed.c","dense/bml_multiply_dense_typed.c","bml_normalize.c","bml_trace.c","bml_add.c"],
 [("composition of the public operations","bml.h")],["bml_export_to_dense"])
p("C35","Printing shows exactly the requested window of a matrix",
 "bml_print_bml_matrix, bml_print_dense_matrix (row or column major) and bml_print_dense_vector write one line per requested row (one line for a vector) holding exactly the elements of the half-open window [i_l,i_u) x [j_l,j_u) in column order, each rounded to three decimals, complex values as real and imaginary part, zeros included for sparse formats. The printed object is left unchanged.",
 ["inputs","configurations"],"for every format, precision, content, window and array order",
 "Tests print to the log and nobody reads it.",
 ["bml_utilities.c","dense/bml_utilities_dense_typed.c","csr/bml_utilities_csr_typed.c","bml_utilities_typed.c"],
 [("formatting loops","bml_utilities_typed.c, bml_utilities.c")],["standard output"])
p("C36","Build options that swap an implementation keep the behaviour",
 "A library built with the ellblock memory pool, with the built-in GEMM in place of BLAS, with the plain eigensolver in place of the divide-and-conquer one, or without aligned allocation gives the results that the properties on contents, arithmetic, norms, spectra, files and memory state for the default build: the same elements within rounding for every call and program of calls, no memory error, no memory kept, and overflow diagnosed.",
 ["configurations","programs","inputs"],"for every operation, format and precision (ellblock for the memory pool), under each of the options",
 "The test suite is run on one configuration; code behind the other settings is compiled out of it.",
 ["ellblock/bml_allocate_ellblock_typed.c","ellblock/bml_transpose_ellblock_typed.c","../internal-blas/bml_gemm.c","dense/bml_diagonalize_dense.c","bml_allocate.c"],
 [("blocks of different shape reuse the slots of the pool","ellblock/bml_allocate_ellblock_typed.c: bml_allocate_block, bml_free_block"),("same LAPACK results from SYEV and SYEVD","dense/bml_diagonalize_dense.c"),("calloc/malloc in place of posix_memalign","bml_allocate.c")],["bml_export_to_dense","status and memory reports of the process"])
p("C37","Running out of memory ends the call; it never corrupts or deceives",
 "When any one memory request of a bml call is refused, the process ends there: a request made by the library's allocation functions is reported as an error with a failing exit status, any other request ends at worst in an access to the null page. No call writes through a stale or uninitialised pointer, and no program of calls goes on to return contents that differ from those it would have returned with memory available.",
 ["fault_sequences","programs","configurations"],"for every position of the failing request in every program of calls, format and precision",
 "No test makes an allocation fail.",
 ["bml_allocate.c","bml_logger.c","ellpack/bml_allocate_ellpack_typed.c","ellblock/bml_allocate_ellblock_typed.c","csr/bml_allocate_csr_typed.c"],
 [("checks after each request","bml_allocate.c: bml_allocate_memory, bml_noinit_allocate_memory, bml_reallocate_memory")],["exit status and messages of the process"])
p("C38","Sparse matrices keep every law at orders whose square exceeds an int",
 "For the sparse formats, every operation gives the same results at large orders, where N*N, and for N above 65535 also N itself, no longer fit narrower integer types, as at small ones: a matrix built as a multiple of the identity plus few further elements, and taken through any program of element and row writes, sums, products, squares, transposes, copies, thresholds, scaling, normalisation, reordering, extraction of core-halo submatrices and files, holds exactly the elements the mathematics gives, and its trace, norms, sparsity, bandwidth, diagonal and Gershgorin bounds are those of that matrix.",
 ["programs","configurations","input_values"],"for every sparse format, precision, order up to 92700 and program of calls within the storage given",
 "Tests use orders of at most a few hundred, where no index or count comes near the limits of its type.",
 ["ellpack/","csr/","ellblock/"],
 [("counts and denominators","{ellpack,csr,ellblock}/bml_introspection_*_typed.c"),("row markers and index arithmetic","{ellpack,csr,ellblock}/bml_{multiply,add,transpose,submatrix,trace,norm}_*_typed.c")],["elements read back","results of trace, norm, sparsity and bandwidth calls"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in P))
print(len(P)); assert all(len(x['title'])<=80 for x in P),[x['title'] for x in P if len(x['title'])>80]
