"""One entry per claimed property: which driver decides it, how cases are made."""
SQ = ("A case is a matrix configuration (format dense/ellpack/ellblock/csr, precision, N, row capacity M, ellblock block sizes), "
      "contents drawn from shape families (empty, diagonal, banded, random sparse, full rows, blocks, one-sided pairs) and the operation's arguments, "
      "all drawn from one choice sequence by a seeded generator; every case runs in its own process under ASan+UBSan. ")
def e(variant, rule, note, technique="property-based testing: generated matrices and arguments against a dense reference model", quick=60000, thorough=900000):
    return dict(variant=variant, rule=rule, note=note, technique=technique, quick=quick, thorough=thorough)
N0 = "Generated-input search, no proof: exhaustive over nothing, bounded by N<=~24 (single cases up to 60) and the contents the generator makes. Trusts gcc, OpenBLAS/LAPACK where the library calls them, and the dense reference model in src/bmlx.hpp. "
C = {}
C["C01"] = e("asan", SQ + "The case is a history of 1-40 writes, clears and reads compared with a dense array after every step, or rows filled far beyond their first allocation. Non-trivial: at least one element was overwritten or written by two different writers.", N0,
  technique="stateful model-based testing: generated write/read histories against a dense array model")
C["C02"] = e("asan", SQ + "Non-trivial: matrix not symmetric, with at least one zero and one non-zero element, N>1.", N0, technique="property-based testing: import/export round trips in both orders against the source array")
C["C03"] = e("asan", SQ + "The case is a chain of 1-4 conversions with mutations of source and result. Non-trivial: non-symmetric content with zeros.", N0, technique="property-based testing: conversion chains, round trips and mutation independence")
C["C04"] = e("asan", SQ + "The case copies into fresh or pre-filled targets and then mutates or deallocates either side. Non-trivial: non-zero content and pre-filled target or later mutation.", N0, technique="stateful property-based testing: copies followed by generated mutations of either side")
C["C05"] = e("asan", SQ + "Non-trivial: both operands non-zero with alpha and beta non-zero and different patterns or thresholds.", N0)
C["C06"] = e("asan", SQ + "Non-trivial: product non-zero and non-symmetric, alpha non-zero.", N0)
C["C07"] = e("asan", SQ + "Non-trivial: product non-zero and non-symmetric.", N0)
C["C08"] = e("asan", SQ + "Non-trivial: patterns overlap partly.", N0)
C["C09"] = e("asan", SQ + "Non-trivial: matrix non-zero, factor neither 0 nor 1.", N0)
C["C10"] = e("asan", SQ + "The case transposes (in place or into new matrices, up to three times, with writes between) or mirrors a triangle. Non-trivial: N>1 and the expected result differs from the input.", N0)
C["C11"] = e("asan", SQ + "Thresholds are drawn from 0, magnitudes present in the data (ties), and fixed scales. Non-trivial: the threshold keeps at least one element and drops at least one.", N0)
C["C12"] = e("asan", SQ + "Non-trivial: N>1, the quantity summed is non-zero and for the submatrix norm the block is a proper one.", N0)
C["C13"] = e("asan", SQ + "Non-trivial: N>1 and the sum has at least one non-zero term.", N0)
C["C14"] = e("asan", SQ + "Matrices are Hermitian (3/4) or general with real diagonal, unshifted or shifted by +-50. Non-trivial: N>1 and non-zero matrix.", N0)
C["C17"] = e("asan", SQ + "The case reads every introspection function before and after each of 1-5 modifications (set element, set row, threshold, clear, scale). Non-trivial: N>1 and at least one modification.", N0, technique="stateful property-based testing against a dense array model")
C["C18"] = e("asan", SQ + "The case builds two matrices with the same constructor and then writes, scales, clears and deallocates one while watching the other, or up to six matrices of different orders, capacities, formats and precisions alive together. Non-trivial: N>1; for the latter at least three matrices and two orders in one format.", N0)
C["C15"] = e("asan", SQ + "Matrices are Hermitian: sparse, diagonal, with prescribed degenerate, clustered or negative spectrum, or scaled by 1e-6..1e6. Non-trivial: N>1 and not a plain real diagonal matrix.", N0)
C["C16"] = e("asan", SQ + "Matrices are diagonally dominant, row-permuted (pivoting needed), general, monomial or triangular, with bounded condition number. Non-trivial: N>1 and not symmetric.", N0)
C["C31"] = e("asan", "A case is one call of the built-in GEMM: precision, both transposition flags, m,n,k (0..14), leading dimensions with padding, scalars and contents; operand padding is NaN. Non-trivial: m,n,k>1 and a non-zero product.", N0, technique="property-based testing: generated GEMM calls against the BLAS definition")
C["C34"] = e("asan", SQ + "The case is a Hermitian Hamiltonian with a gap at a generated occupation, purified with SP2 built from library calls. Non-trivial: more than 3 iterations.", N0, technique="property-based testing: SP2 programs on generated Hamiltonians against the projector from an independent eigensolver", quick=25000, thorough=400000)
C["C19"] = e("asan", SQ + "The matrix is written, the file parsed by an independent parser, and read back into the same or another format; a quarter of the cases read hand-made files, general or symmetric, with shuffled entries. Non-trivial: at least two entries and (for written files) not symmetric.", N0, technique="property-based testing: file round trips across formats plus an independent parser of the file")
C["C33"] = e("asan", SQ + "The case damages a valid file (cut, word or line deleted, garbage, bad index, wrong sizes, overlong words, other matrix, missing file) or reads it into a matrix with too small a row capacity, in a forked child whose end is observed. Non-trivial: the file has entries.", N0, technique="property-based testing: generated faults injected into files, outcome observed in a child process", quick=20000, thorough=250000)
C["C20"] = e("asan", SQ + "Ellpack only: index list of a core by generated graphs or the matrix, gather into a dense submatrix, edit, scatter back. Non-trivial: the submatrix is proper and holds off-diagonal entries.", N0, technique="property-based testing: gather/scatter round trips against a dense array model")
C["C21"] = e("asan", SQ + "Block extraction and assignment at generated offsets and sizes (block-aligned for ellblock), followed by reads of everything. Non-trivial: a proper block with entries.", N0)
C["C22"] = e("asan", SQ + "Ellpack only: group matrices and adjacency lists of generated sparsity graphs with self links, one-way links and isolated nodes. Non-trivial: at least one link between different nodes.", N0, technique="property-based testing against a graph model of the sparsity pattern")
C["C23"] = e("asan", SQ + "Random permutations (cycles, reversals, swaps, identity) of rows and columns, of blocks for ellblock; inverse permutation restores. Non-trivial: the permutation changes the matrix.", N0, technique="property-based testing: permutation against a dense array model plus inverse round trip")
PG = ("A case is a program of up to 40 calls (60 in the thorough tier) on a pool of up to five matrices of one or two formats: constructors, setters, add, multiply, scale, transpose, threshold, copy, convert, reorder, normalize, traces, norms, file round trips and others, with exactly representable values; after every call every matrix of the pool is compared with its exact dense model. ")
C["C24"] = e("asan", PG + "Non-trivial: at least four calls and N>1.", N0, technique="stateful model-based testing: generated call programs against an exact dense model of all live matrices")
C["C25"] = e([("omp", 0.7), ("ompa", 0.3)], "A case is a program of up to 12 calls on a pool of matrices (N up to 40) against the exact model, or every scalar and matrix result of one pair of matrices compared between one thread and several. Before each call the number of threads (1,2,3,4,5,8,12,17) and the split of loop iterations over threads are drawn anew; the library is compiled by clang with OpenMP onto a small pthread runtime (src/omp_rt.cpp), once under ThreadSanitizer and once under AddressSanitizer. Non-trivial: at least two calls and four parallel regions, or a matrix with at least two entries.", N0 + "Trusts ThreadSanitizer's view of the synchronisation in src/omp_rt.cpp. ",
  technique="property-based testing: generated call programs, thread counts and loop splits under ThreadSanitizer, against an exact model and against one thread", quick=10000, thorough=200000)
C["C26"] = e([("asan", 0.8), ("mpi", 0.2)], PG + "Here programs have up to 12 calls and are repeated four times in one process; the allocator's count of live bytes must not grow from one repetition to the next. A fifth of the cases are programs on distributed matrices, messages between ranks or gathers run under MPI on 1, 4 or 9 ranks, counting heap blocks and MPI communicators on every rank. Non-trivial: at least three calls and N>1.", N0, technique="stateful property-based testing: generated call programs repeated under an allocation counter", quick=30000, thorough=400000)
C["C30"] = e("asan", "Nearly every check of the C interface (C01-C20, C22-C24, C26, C33, C34) run once more with each bml call replaced by a call of the Fortran module (src/fshim.F90), plus names, kinds, modes, block matrices, array sections, dense printing and invalid names that exist in Fortran only. Optional arguments are drawn present or absent, array arguments as whole arrays, sections with stride or arrays with other lower bounds. Non-trivial: by the rule of the check that is repeated. " + SQ, N0 + "Trusts gfortran. ", technique="property-based testing: the C interface's model-based checks executed through the Fortran module", quick=80000, thorough=1000000)
C["C35"] = e("asan", SQ + "A generated window of a matrix, dense array or vector is printed in a forked child whose output is parsed and compared element by element. Non-trivial: N>1 and non-zero elements in the window.", N0, technique="property-based testing: printed windows parsed and compared with the model", quick=25000, thorough=400000)
C["C32"] = e("asan", SQ + "Operations whose result may exceed the row capacity, and invalid requests (out-of-range reads, mismatched operands, unknown names, unavailable operations, NULL operands), each in a forked child whose end is observed: either the right result or a reported error, never a memory error, a hang or a wrong result. Non-trivial: the result does not fit, or an invalid request with N>1.", N0, technique="property-based testing: generated invalid and overflowing requests, outcome observed in a child process against a dense reference model", quick=25000, thorough=300000)
MP = ("A batch of cases runs in one MPI job of 1, 4 or 9 ranks (2 to 9 for messages) on the library built with MPI under ASan+UBSan; all ranks draw the same case from the same seed, and any rank's check failing, abort, memory error or missing answer is a violation. ")
NM = N0 + "The schedule of messages is the one Open MPI and the kernel produce; it is not enumerated. Trusts Open MPI and ScaLAPACK. "
C["C27"] = e("mpi", MP + "A case sends a matrix between a generated pair of ranks (blocking, non-blocking, or as a new matrix), around a ring, or broadcasts it from a generated root on a world, reversed or split communicator, into receivers that hold other content or have other row capacities. Non-trivial: N>1, at least two non-zero elements, and more than one rank for broadcasts and rings.", NM, technique="property-based testing: generated messages between ranks against a dense model on every rank", quick=20000, thorough=200000)
C["C28"] = e("mpi", MP + "A case is a program of up to 25 calls (40 thorough) on a pool of distributed matrices compared block by block with exact dense models after every call, one product or one diagonalization, the reductions, or printing. Non-trivial: at least four calls and N>1; for a product operands with at least two non-zero elements, for a diagonalization a non-zero element off the diagonal.", NM, technique="stateful model-based testing: generated programs on distributed matrices against an exact dense model on every rank", quick=10000, thorough=120000)
C["C29"] = e("mpi", MP + "A case gives every rank its rows of a generated matrix (domains default or updated), applies up to a few row-local operations, gathers and compares the whole matrix on every rank. Non-trivial: more than one rank owns rows and the matrix has at least two non-zero elements.", NM, technique="property-based testing: generated partitions and gathers against a dense model on every rank", quick=16000, thorough=160000)
C["C36"] = e([("pool", 0.55), ("alt", 0.45)], SQ + "The cases of C01-C26, C32 and C35 run on two other builds: one with the ellblock memory pool (ellblock matrices only; cases without an ellblock form are skipped), one with the built-in GEMM, the plain eigensolver and no aligned allocation (half of the cases dense). Non-trivial: by the rule of the check that is repeated.", N0, technique="property-based testing: the model-based checks of the other properties executed on library builds with other implementations selected", quick=40000, thorough=600000)
C["C37"] = e("asan", PG + "Here programs have 3 to 8 calls at N<=8; the program runs once counting memory requests (malloc, calloc, realloc, posix_memalign, intercepted at link time), then again in a forked child in which one of them fails, half of the time one of the last call's. The child's end is observed. Non-trivial: at least two calls after construction and N>1.", N0 + "One failing request per case. ", technique="property-based testing: generated call programs with an injected allocation failure, outcome observed in a child process against the exact model", quick=10000, thorough=150000)
C["C38"] = e("asan", "Programs of 8 calls over up to three matrices of one sparse format, order 46341 to 92700 (N*N above the largest int; a third above 65530), built as d*I plus up to 14 elements on rows and columns of interest (first, last, middle, 32768, 46340, 65535, random). 28 operations; the model is the scalar d and the map of further elements, compared exactly at every stored or touched place after each call, in whole rows at the end; scalar results against the sums over the model. Non-trivial: at least four calls after construction.", "Generated-input search, no proof: exhaustive over nothing. Trusts gcc and the sparse model in src/props_large.cpp. Row capacities up to 20, so element offsets N*M stay below 2^31 (beyond that the memory of several matrices would not fit). ", technique="property-based testing: generated call programs on sparse matrices of large order against an exact sparse model", quick=1000, thorough=15000)
