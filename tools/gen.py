#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, result committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN

P = []
def prop(id, title, statement, over, text, why, files, mech, obs=None, state=None, tech=None, note=None, level="exploration", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs or [], state=state or [],
                  tech=tech, note=note, level=level, na=na))

INP, CFG, SCH, HIS, FLT = "inputs", "configurations", "schedules", "histories", "fault_sequences"
STD = ("Observes real executions only: no alarm means none of the generated cases (counts, shapes and configurations in the evidence) broke the bound; "
       "trusts the long double reference arithmetic, gcc and its sanitizers.")

prop("C01", "Vector operations compute what they document",
     "Every vector operation (dot, axpy, axpby, scale, add, copy, swap, asum, nrm2, amax, iamax and their relatives) returns the documented value to working accuracy, for any length, row, column or strided orientation and scalars, and leaves every element outside its result operand unchanged. Mismatched lengths are refused with an error and no operand changes.",
     [INP, CFG], "vector lengths, orientations, strides, scalars, value ranges, library block configuration",
     "The tests use a couple of lengths in column orientation; unrolled tails, row strides and the recursive splits are exercised for a handful of lengths only.",
     ["src/blas/asum.c", "src/blas/axpy.c", "src/blas/dot.c", "src/blas/nrm2.c", "src/blas/iamax.c", "src/blas/mscale.c", "src/blas/swap.c", "src/blas/mcopy.c"],
     [("unrolled loops with tail switch", "src/blas/axpy.c"), ("recursive pairwise summation", "src/blas/dot.c"), ("scaled sum of squares", "src/blas/nrm2.c")],
     ["return values and operands of the public vector functions"])
prop("C02", "Matrix-vector operations compute what they document",
     "Matrix-vector product, rank-1/rank-2 update, symmetric and triangular variants and the triangular solve give the documented result within a componentwise rounding bound for every shape, triangle, transpose and unit flag and vector orientation. Elements outside the documented result, including the unreferenced triangle and an implicit unit diagonal, are neither read nor written.",
     [INP, CFG], "matrix shapes, leading dimensions, flags, scalars, vector orientation, block configuration",
     "Tests compare two variants of the library with each other on one or two sizes; they do not check unreferenced storage, odd sizes, or recursive splitting at small blocks.",
     ["src/blas/gemv.c", "src/blas/ger.c", "src/blas/symv.c", "src/blas/syr.c", "src/blas/syr2.c", "src/blas/trmv.c", "src/blas/trsv.c", "src/blas/updtrmv.c"],
     [("recursive 2x2 splitting", "src/blas/gemv.c"), ("unblocked axpy/dot kernels", "src/include/nosimd/mvec.h")],
     ["result vectors and matrices, guard elements around every operand"])
prop("C03", "Matrix-matrix operations compute what they document",
     "General, symmetric and triangular products, triangular solve with many right hand sides, and rank-k/rank-2k updates give the documented result within a componentwise rounding bound for every shape and every side, triangle, transpose and unit flag. Earlier operations, whatever their data, never influence a result, and nothing outside the documented result is written.",
     [INP, CFG, HIS], "operand shapes, leading dimensions, flags, scalars, block configuration, previous content of internal buffers",
     "Tests run few sizes with the default blocks, so block edges, odd remainders, the recursive variants and stale buffer content are not reached.",
     ["src/blas/gemm.c", "src/blas/kernel.c", "src/blas/symm.c", "src/blas/trmm.c", "src/blas/trmm_blk.c", "src/blas/trmm_rec.c", "src/blas/trsm.c", "src/blas/trsm_blk.c", "src/blas/trsm_rec.c", "src/blas/syrk.c", "src/blas/syr2k.c", "src/blas/updtrmm.c", "src/include/x86_64/mult_fma_f64.h"],
     [("packing into cache blocks", "src/blas/kernel.c"), ("blocked and recursive traversal", "src/blas/trsm_blk.c")],
     ["result matrices, guard elements, thread global cache buffer filled with NaN between cases"],
     [dict(name="cache buffer", meaning="per thread packing buffer reused across calls", where="src/base/cache.c")])
prop("C04", "Blocking configuration never changes a result",
     "The environment and per-call configuration (block sizes, cache sizes, thresholds, naive/recursive/blocked selection, supplied or local cache memory) may change speed only: for every accepted setting each operation terminates, stays inside the memory it was given, and yields the same result up to rounding. Malformed configuration strings are ignored field by field and never crash the program.",
     [CFG, INP], "values of ARMAS_CONFIG and ARMAS_CACHE, fields of the environment block, option flags, workspace sizes",
     "Tests run with the built-in defaults only.",
     ["src/base/env.c", "src/base/cache.c", "src/blas/kernel.c", "docs/environment.md", "docs/memory.md"],
     [("cache buffer splitting", "src/base/cache.c"), ("environment parsing", "src/base/env.c")],
     ["results under many configurations in fresh processes, guard bytes around supplied buffers, a progress watchdog"],
     [dict(name="environment block", meaning="block sizes and cache sizes", where="src/base/env.c")])
prop("C06", "Extended precision operations are more accurate than working precision",
     "The extended precision vector, matrix-vector and matrix-matrix operations give results whose error is that of a computation in twice the working precision rounded once, for every shape and flag, also on ill-conditioned data where ordinary evaluation has no correct digit. They obey the same operand and storage rules as their ordinary counterparts.",
     [INP, CFG], "operand shapes and flags, condition number of sums up to 1e25, block configuration",
     "Tests use single constructed cases per operation; error growth along block edges and flag combinations is not sampled.",
     ["src/eblas/dot_ext.c", "src/eblas/asum_ext.c", "src/eblas/sumk_ext.c", "src/eblas/axpy_ext.c", "src/eblas/gemv_ext.c", "src/eblas/ger_ext.c", "src/eblas/symv_ext.c", "src/eblas/syr_ext.c", "src/eblas/syr2_ext.c", "src/eblas/trmv_ext.c", "src/eblas/trsv_ext.c", "src/eblas/gemm_ext.c", "src/eblas/symm_ext.c", "src/eblas/trmm_ext.c", "src/eblas/trsm_ext.c", "src/eblas/kernel_ext.c"],
     [("error free transformations", "src/include/eft.h"), ("compensated block kernels", "src/eblas/kernel_ext.c")],
     ["results compared with quad precision references"])
prop("C07", "Accelerated and threaded execution gives the sequential result",
     "For every accelerator (per-call threads, worker pool, transient workers), thread count, scheduling policy and size threshold, every dispatched matrix operation gives the documented result, writes nothing else, and reports success only if the whole result was computed.",
     [SCH, CFG, INP], "accelerator kind and configuration, thread interleavings perturbed by injected delays, operand shapes and flags",
     "Tests run one configuration and size and never vary the interleaving or the block partition.",
     ["src/threaded/entry.c", "src/threaded/gemm.c", "src/threaded/symm.c", "src/threaded/trmm.c", "src/threaded/trsm.c", "src/workers/workers.c", "src/workers/transient.c", "src/workers/gemm.c", "src/base/accel.c"],
     [("block partition among workers", "src/threaded/gemm.c"), ("completion counter", "src/workers/counter.h")],
     ["result matrices of dispatched operations"],
     [dict(name="task queue and completion counter", meaning="tasks submitted and finished", where="src/workers/queue.h")])
prop("C08", "Accelerators are race free, never hang and release what they take",
     "Starting, using and releasing an accelerator in any order and from any number of calling threads completes without deadlock or lost work, without unsynchronised access to shared memory, leaves no thread and no memory behind, keeps worker threads on the configured processors, and uses no processor time while idle.",
     [SCH, HIS], "sequences of init, dispatch and release, number of callers, thread interleavings",
     "A race or a lost wake-up needs a particular interleaving which a single test run does not produce or does not notice.",
     ["src/workers/scheduler.h", "src/workers/workers.c", "src/workers/transient.c", "src/workers/queue.h", "src/workers/counter.h", "src/workers/sync.h", "src/threaded/entry.c", "src/base/accel.c"],
     [("task queue", "src/workers/queue.h"), ("completion counter", "src/workers/counter.h")],
     ["ThreadSanitizer reports, progress watchdog, live allocation and thread counts after release"],
     [dict(name="task queue", meaning="pending tasks of a worker", where="src/workers/queue.h")])
prop("C09", "Concurrent callers on separate data do not disturb each other",
     "Any number of threads may call library operations at the same time on their own operands and configuration blocks, sharing read-only operands, and each call gives the same result as when run alone, without data races (values drawn from the one process-wide random number stream apart).",
     [SCH, INP], "number of threads, mix of operations, first-use races, thread interleavings",
     "All tests are single threaded.",
     ["src/base/cache.c", "src/base/env.c", "src/base/random.c", "src/blas/gemm.c"],
     [("thread local cache buffer", "src/base/cache.c"), ("lazily read environment", "src/base/env.c")],
     ["ThreadSanitizer reports, results against those of a lone run"],
     [dict(name="thread global buffer pointer", meaning="per thread packing buffer", where="src/base/cache.c")])
prop("C10", "LU factorization, solve and inverse are backward stable",
     "For every matrix the LU factorization with partial pivoting has multipliers bounded by one and reproduces the row-permuted matrix to backward-stable accuracy, the pivot record describes that permutation, solves with and without transpose have small backward error, and the inverse is accurate. Matrices without pivot interchange requested factor as documented.",
     [INP, CFG], "matrix shapes, conditioning, special structure (ties, zeros, scaled rows), blocking",
     "Tests use random well-conditioned matrices of one or two sizes with the default blocking.",
     ["src/lapack/lu.c", "src/lapack/inv.c", "src/base/pivot.c"],
     [("blocked right looking factorization", "src/lapack/lu.c"), ("pivot application", "src/base/pivot.c")],
     ["factors, pivots, solutions, inverses"])
prop("C11", "Cholesky factorizations are backward stable and honest about failure",
     "For positive definite matrices the Cholesky factorization (plain and pivoted, lower and upper), its solve, inverse and rank-one update satisfy their defining equation to backward-stable accuracy, using only the named triangle. A matrix that is not positive definite is reported, and the pivoted variant reports the numerical rank.",
     [INP, CFG], "matrix sizes, conditioning, rank, triangle, blocking",
     "Tests use diagonally dominant random matrices of a fixed size.",
     ["src/lapack/chol.c", "src/lapack/cholpv.c", "src/lapack/cholupd.c", "src/lapack/invspd.c"],
     [("blocked factorization", "src/lapack/chol.c"), ("diagonal pivoting", "src/lapack/cholpv.c")],
     ["factors, pivots, return codes, solutions"])
prop("C12", "Symmetric indefinite factorizations are backward stable",
     "The Bunch-Kaufman factorization reproduces the permuted symmetric matrix to backward-stable accuracy and its solve has small backward error for any symmetric matrix, including singular ones and those that need two-by-two pivots. The LDL factorization, solve and inverse (with and without diagonal pivoting) do so relative to their factors whenever no pivot is zero. Only the named triangle is read or written.",
     [INP, CFG], "matrix sizes, definiteness, special structure, triangle, blocking",
     "Tests use one random matrix per size.",
     ["src/lapack/ldl.c", "src/lapack/ldlpv.c", "src/lapack/ldlbk.c", "src/lapack/ldlbkl.c", "src/lapack/ldlbku.c", "src/lapack/invldl.c"],
     [("Bunch-Kaufman pivot choice", "src/lapack/ldlbkl.c"), ("blocked panels", "src/lapack/ldlbk.c")],
     ["factors, pivots, solutions"])
prop("C13", "Orthogonal factorizations are backward stable",
     "QR, LQ, QL and RQ factorizations reproduce their matrix as a product of a triangular factor and an orthogonal factor, orthogonal to working accuracy; building and applying the orthogonal factor (either side, transposed or not) agree with it; and the least-squares and minimum-norm solves satisfy their optimality conditions.",
     [INP, CFG], "matrix shapes, rank, scaling, side and transpose flags, blocking, workspace size",
     "Tests use one tall and one wide size with random data and default blocking.",
     ["src/lapack/qr.c", "src/lapack/lq.c", "src/lapack/ql.c", "src/lapack/rq.c", "src/lapack/qrt.c", "src/lapack/qrbld.c", "src/lapack/lqbld.c", "src/lapack/qlbld.c", "src/lapack/rqbld.c", "src/lapack/qrmult.c", "src/lapack/lqmult.c", "src/lapack/qlmult.c", "src/lapack/rqmult.c", "src/lapack/qrsolve.c", "src/lapack/lqsolve.c", "src/lapack/house.c"],
     [("block reflectors", "src/lapack/qr.c"), ("unblocked Householder sweeps", "src/lapack/house.c")],
     ["factors, applied products, solutions"])
prop("C14", "Two-sided reductions are orthogonal similarity transformations",
     "Hessenberg, tridiagonal and bidiagonal reductions return a condensed matrix that is an orthogonal transformation of the input, and the build and multiply operations for the transforms give matrices orthogonal to working accuracy that reproduce the input.",
     [INP, CFG], "matrix shapes, structure, triangle, side and transpose flags, blocking, workspace size",
     "Tests use single random matrices and compare blocked with unblocked code, so a fault common to both is invisible.",
     ["src/lapack/hess.c", "src/lapack/hessm.c", "src/lapack/trired.c", "src/lapack/tribld.c", "src/lapack/triredm.c", "src/lapack/bired.c", "src/lapack/bibld.c", "src/lapack/biredm.c"],
     [("blocked reductions", "src/lapack/trired.c")],
     ["condensed matrices, built and applied transforms"])
prop("C15", "Symmetric eigenvalue solvers return an eigendecomposition",
     "For every symmetric matrix and every tridiagonal matrix the eigenvalue solvers (all values, selected values, bisection, secular equation) return values sorted as documented and equal to eigenvalues of the input to backward-stable accuracy; returned vectors are orthonormal and satisfy the eigenvalue equation.",
     [INP, CFG], "matrix sizes, spectra (clustered, repeated, graded, zero), triangle, blocking",
     "Tests use a couple of matrices with well-separated random spectra.",
     ["src/lapack/evd.c", "src/lapack/trdevd.c", "src/lapack/trdbis.c", "src/lapack/trdsec.c", "src/lapack/trdsweep.c"],
     [("implicit QR sweeps", "src/lapack/trdsweep.c"), ("Sturm bisection", "src/lapack/trdbis.c"), ("secular equation solver", "src/lapack/trdsec.c")],
     ["eigenvalues and eigenvectors"])
prop("C16", "Singular value solvers return a singular value decomposition",
     "For every matrix and every bidiagonal matrix the singular value solvers return non-negative values in descending order that equal the singular values of the input to the documented accuracy; requested left and right vectors are orthonormal and reproduce the input.",
     [INP, CFG], "matrix shapes, spectra (clustered, graded, zero), requested vectors, blocking",
     "Tests use a few random or constructed matrices with default settings.",
     ["src/lapack/svd.c", "src/lapack/bdsvd.c", "src/lapack/bdsvd_dk.c", "src/lapack/bdsvd_gr.c", "src/lapack/bdsweep.c", "src/lapack/dqds.c"],
     [("implicit zero-shift QR", "src/lapack/bdsweep.c"), ("dqds", "src/lapack/dqds.c")],
     ["singular values and vectors"])
prop("C17", "Elementary transformations are exact in their defining identity",
     "Givens and Householder (ordinary and hyperbolic) transformations annihilate what they should, are orthogonal (or hyperbolic orthogonal) to working accuracy over the whole range of finite inputs without avoidable overflow or underflow, and applying them changes exactly the documented rows or columns. Random butterfly, diagonal and quadratic-root helpers satisfy their defining equations.",
     [INP], "input magnitudes over the whole exponent range, vector lengths and orientations, row and column ranges",
     "Tests use a few values near one.",
     ["src/lapack/givens.c", "src/lapack/house.c", "src/lapack/housem.c", "src/lapack/hhouse.c", "src/lapack/rotate.c", "src/lapack/rbtgm.c", "src/lapack/rbtgu.c", "src/lapack/qdroot.c", "src/lapack/diag.c"],
     [("scaled computation of rotations", "src/lapack/givens.c"), ("rescaling loop", "src/lapack/house.c")],
     ["returned parameters and transformed operands"])
prop("C18", "Misuse is refused without side effects and workspace queries suffice",
     "Calls with inconsistent shapes or too little workspace return a negative code, record the error, and change no operand. A workspace query changes no operand and returns a size with which the same call succeeds, touching only that workspace; larger workspace gives the same result up to rounding.",
     [INP, CFG], "operation, operand shapes, workspace size from zero to more than needed, blocking",
     "Tests check one or two wrong shapes and always supply exactly the queried workspace.",
     ["src/lapack/qr.c", "src/lapack/lu.c", "src/lapack/svd.c", "src/lapack/trired.c", "src/lapack/support.c", "src/base/matrix.c"],
     [("workspace sizing", "src/lapack/qr.c"), ("shape checks at entry", "src/blas/gemm.c")],
     ["return codes, error field, operands and guards around workspace"])
prop("C19", "Memory safety and clean behaviour when memory runs out",
     "No operation reads or writes outside its operands and workspace, uses indeterminate memory in its result, or leaks; and when an allocation fails at any point the operation returns an error (or completes by other means) without crashing, without leaking and without reporting success for a wrong result.",
     [FLT, INP], "every allocation point of every allocating operation, operand shapes",
     "Tests never make an allocation fail and run without sanitizers.",
     ["src/base/cache.c", "src/base/matrix.c", "src/lapack/svd.c", "src/lapack/evd.c", "src/sparse/sparse.c", "src/io/json_reader.c"],
     [("allocation checks", "src/base/cache.c")],
     ["allocator calls, sanitizer reports"], level="fault_enumeration")
prop("C20", "Sparse matrices keep their structure and values through every operation",
     "Creating, appending to, converting, sorting, transposing, copying, adding and multiplying sparse matrices yields exactly the matrix a dense computation gives, in any storage format, with indices in range, pointers monotone and no entry lost or duplicated; the printed pattern shows exactly the stored positions.",
     [INP, HIS], "shapes, sparsity patterns, storage formats, sequences of operations",
     "Tests run one small fixed matrix per operation.",
     ["src/sparse/sparse.c", "src/sparse/convert.c", "src/sparse/sort.c", "src/sparse/copy.c", "src/sparse/add.c", "src/sparse/mult.c", "src/sparse/accum.c", "src/sparse/dense.c"],
     [("format conversion", "src/sparse/convert.c"), ("sparse accumulator", "src/sparse/accum.c")],
     ["row, column and value arrays; dense image"])
prop("C21", "Sparse matrix-vector operations and solves compute what they document",
     "Sparse general, symmetric and triangular products and triangular solves agree with the dense computation for every pattern, storage format, triangle, transpose and unit flag.",
     [INP], "shapes, sparsity patterns, formats, flags, scalars",
     "Tests run small fixed matrices and few flags.",
     ["src/sparse/gemv.c", "src/sparse/symv.c", "src/sparse/trmv.c", "src/sparse/trsv.c", "src/sparse/diag.c"],
     [("row and column compressed loops", "src/sparse/gemv.c")],
     ["result vectors"])
prop("C22", "Iterative solvers report convergence truthfully",
     "Whenever an iterative solver (CG, CGNE, CGNR, GMRES and the preconditioned forms) reports success, the returned vector satisfies the stopping criterion it claims, the reported residual and iteration count are those of the run, and the iteration limit is respected; the incomplete factorizations used as preconditioners reproduce the matrix on its own pattern.",
     [INP, CFG], "matrices (definite, ill-conditioned, non-symmetric), right hand sides, start vectors, tolerances, iteration limits, restart lengths",
     "Tests solve one easy system per method.",
     ["src/sparse/cgrad.c", "src/sparse/cgne.c", "src/sparse/cgnr.c", "src/sparse/gmres.c", "src/sparse/pcgrad.c", "src/sparse/pgmres.c", "src/sparse/icholz.c", "src/sparse/iluz.c"],
     [("residual recurrences", "src/sparse/cgrad.c"), ("restart loop", "src/sparse/gmres.c")],
     ["solution, residual and iteration count"])
prop("C23", "Writing and reading a matrix gives it back",
     "A dense or sparse matrix written in JSON or Matrix Market form is a valid document of that format and, read again, has the same shape, structure and values bit for bit (Matrix Market: also the same symmetry flag, a symmetric matrix keeping its lower triangle), with the stream left right after it so that further records can follow; documents written by others with free white space, comments, member order or coordinate data read the same. Single JSON tokens, strings with any control character included, read back as they were written. Output that does not fit, and values JSON cannot express, are reported as errors.",
     [INP, HIS], "shapes, flags, values including extremes, sequences of matrices in a stream",
     "Tests write and read one small matrix.",
     ["src/io/iomm.c", "src/io/json_writer.c", "src/io/json_reader.c", "src/io/json_base.c", "src/io/json_file.c", "src/sparse/io.c"],
     [("tokenizer", "src/io/json_reader.c"), ("header parsing", "src/io/iomm.c")],
     ["matrices read back"])
prop("C24", "Hostile input files cannot crash or corrupt the program",
     "Reading any byte sequence as JSON or Matrix Market terminates and either yields a well-formed matrix (indices in range, elements present) or an error, with no memory error, no leak and no undefined behaviour, also when the stream fails or memory runs out while reading.",
     [INP], "arbitrary and mutated byte sequences",
     "Tests read only files they have written themselves.",
     ["src/io/iomm.c", "src/io/json_reader.c", "src/io/json_base.c", "src/sparse/io.c"],
     [("tokenizer", "src/io/json_reader.c"), ("header parsing", "src/io/iomm.c")],
     ["sanitizer reports, live allocations, structure of the returned matrix"])
prop("C25", "Standard BLAS entry points behave as the reference ones",
     "The Fortran (dgemm_ ...) and C (cblas_dgemm ...) standard entry points the library exports give the results defined by the reference BLAS for all option characters, increments (including negative and zero where allowed), leading dimensions and sizes, and write nothing else.",
     [INP], "option characters, sizes, increments, leading dimensions, scalars",
     "The compatibility layer has no tests.",
     ["src/compat/gemm.c", "src/compat/gemv.c", "src/compat/trsm.c", "src/compat/axpy.c", "src/compat/dot.c", "src/compat/syr2k.c", "src/include/compat.h"],
     [("mapping of option characters and increments", "src/compat/gemm.c")],
     ["outputs of the standard entry points"])
prop("C26", "Matrix views, element operations, pivots and sorts act on exactly their elements",
     "Rows, columns, submatrices and diagonals are views of exactly the documented elements for every valid request, negative (from the end) indices and lengths included; element-wise operations, copies, norms, comparisons, permutations and sorts act on exactly the elements their flags name and nothing else, permuting forth and back restores a matrix, and printing writes the elements of the matrix and nothing else, on the stream given.",
     [INP], "shapes, view parameters (negative, clipped, degenerate), flags, permutations",
     "Tests use a few shapes and do not look at neighbouring elements.",
     ["src/include/matrix.h", "src/base/matrix.c", "src/blas/mset.c", "src/blas/madd.c", "src/blas/mscale.c", "src/blas/mplus.c", "src/blas/mapply.c", "src/blas/mnorm.c", "src/blas/mcopy.c", "src/base/pivot.c", "src/lapack/sort.c", "src/lapack/qsort.c"],
     [("view construction", "src/include/matrix.h"), ("triangle loops", "src/blas/madd.c")],
     ["views, operands, guard elements"])

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], state=p["state"],
                mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["obs"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in PLAN:
            pl = PLAN[p["id"]]
            checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                technique=pl.get("technique", "randomized workloads on the real code (release and address/undefined sanitizer builds) with reference-arithmetic, containment and leak monitors"),
                level=pl.get("level", "exploration"), level_note=pl.get("note", STD)))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "Not covered yet: its workload and monitor are not written."))
    m = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="none", enable="no hooks are compiled into /repo; allocation is observed by linking with --wrap", source_commits=[]),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print("%d properties, %d checks" % (len(P), len(checks)))
main()
