WR = ("-Wl," + ",".join("--wrap=" + f for f in ("pthread_create", "pthread_join", "pthread_detach", "pthread_mutex_lock", "pthread_mutex_unlock",
      "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast")),)
ACC07 = "mult,mult_sym,mult_trm,solve_trm,acc_faults,acc_wide"
ACC08 = "acc_history,acc_idle,acc_faults,acc_cold,acc_wide"
GL = ("-Wl,--wrap=getline",)
MIS = "mis_qfactor,mis_qbuild,mis_qmult,mis_qsolve,mis_qrt,mis_trd,mis_hess,mis_bd,mis_eigen,mis_svd,mis_sym,mis_ext,mis_housemult,mis_blas,mis_vec,mis_plain"
REJ = "badargs,badargs2,badargs3,ext_badargs,q_reject,eig_reject,svd_reject,sym_reject,red_reject,lusolve_reject,elem_reject,sp_reject,spmv_reject,solver_reject,ifact_reject,sp_add,sp_mult"
PLAN = {
    "C01": dict(
        rule="vector lengths 0..3000 in column, row and diagonal orientation, random scalars and configurations; non-trivial: length >= 2, distinct by operation, shapes, strides, scalars and configuration",
        runs=[dict(harness="vec", variant="rel", quick=1440000, thorough=2000000),
              dict(harness="vec", variant="asan", quick=288000, thorough=300000)],
        require_obs=["values", "rejections"]),
    "C02": dict(
        rule="matrix sizes 0..280, every triangle/transpose/unit combination, row/column/strided vectors, random scalars and block configuration; non-trivial: both dimensions >= 2",
        runs=[dict(harness="blas2", variant="rel", quick=480000, thorough=1000000),
              dict(harness="blas2", variant="asan", quick=96000, thorough=150000)],
        require_obs=["elements", "rejections"]),
    "C03": dict(
        rule="matrix sizes 0..260, all side/triangle/transpose/unit combinations, random leading dimensions, scalars and block configuration; non-trivial: both result dimensions >= 2",
        runs=[dict(harness="blas3", variant="rel", quick=150000, thorough=400000),
              dict(harness="blas3", variant="asan", quick=30000, thorough=80000)],
        require_obs=["elements", "rejections"]),
    "C06": dict(
        rule="extended precision vector, matrix-vector and matrix-matrix operations of dimension 1..90 (vectors to 3000), all flags, data with partial sums cancelling down to the last bit, targets chosen to cancel the product, triangular systems with growth 1..1e24, random block configuration and dirty exact workspaces; non-trivial: both result dimensions >= 2",
        runs=[dict(harness="ext", variant="rel", quick=40000, thorough=800000),
              dict(harness="ext", variant="asan", quick=16000, thorough=200000)],
        require_obs=["elements", "cancelled-elements", "solves", "rejections"]),
    "C26": dict(
        rule="shapes 0..90 (vectors to 400), every part flag, row/column/strided/diagonal vectors, pivots shorter than or equal to the matrix; non-trivial: both dimensions >= 2 (vectors: length > 2)",
        runs=[dict(harness="mat", variant="rel", quick=1600000, thorough=3000000),
              dict(harness="mat", variant="asan", quick=480000, thorough=600000)],
        require_obs=["elements", "views", "values", "printed", "rejections"]),
    "C10": dict(
        rule="matrices 0..100 (thorough 150) of twelve characters (uniform, graded, low rank, tiny pivots, huge and tiny scales...), square and rectangular, with and without pivoting, random block configuration and workspace; non-trivial: both dimensions >= 2",
        runs=[dict(harness="lu", variant="rel", quick=120000, thorough=600000),
              dict(harness="lu", variant="asan", quick=24000, thorough=100000)],
        require_obs=["factorizations", "solves", "rejections"]),
    "C11": dict(
        rule="positive definite, semidefinite of random rank and indefinite matrices of order 0..100 (thorough 150), both triangles, random stopping rules, block configuration and workspace; non-trivial: order >= 2",
        runs=[dict(harness="sym", variant="rel", quick=90000, thorough=400000, ops="chol,chol_notpd,cholpv,cholsolve,cholinverse,cholupdate,sym_reject"),
              dict(harness="sym", variant="asan", quick=18000, thorough=80000, ops="chol,chol_notpd,cholpv,cholsolve,cholinverse,cholupdate,sym_reject")],
        require_obs=["factorizations", "solves", "inverses", "updates", "deficient", "rejections"]),
    "C12": dict(
        rule="symmetric matrices of order 0..100 (thorough 150), both triangles, indefinite, singular, zero-diagonal, graded and scaled; random block configuration and workspace; non-trivial: order >= 2",
        runs=[dict(harness="sym", variant="rel", quick=150000, thorough=400000, ops="ldlfactor,ldlsolve,ldlinverse,bkfactor,bksolve,sym_reject"),
              dict(harness="sym", variant="asan", quick=30000, thorough=80000, ops="ldlfactor,ldlsolve,ldlinverse,bkfactor,bksolve,sym_reject")],
        require_obs=["factorizations", "solves", "inverses", "two-by-two", "rejections"]),
    "C13": dict(
        rule="QR, LQ, QL, RQ of shapes 1..100 (thorough 150) square and rectangular, thirteen characters of matrices including zero columns and rank deficiency, all sides and transposes, partial reflector counts, exact/reduced/oversized workspace; non-trivial: at least two reflectors",
        runs=[dict(harness="qr", variant="rel", quick=120000, thorough=900000),
              dict(harness="qr", variant="asan", quick=24000, thorough=150000)],
        require_obs=["factorizations", "builds", "products", "solves", "block-reflectors", "rejections"]),
    "C14": dict(
        rule="Hessenberg, tridiagonal and bidiagonal reductions of order/shape 1..100 (thorough 150) incl. tall and wide, thirteen characters of matrices, both triangles, partial reflector counts, all sides and transposes, exact/reduced/oversized dirty workspace; non-trivial: order >= 3",
        runs=[dict(harness="red", variant="rel", quick=80000, thorough=600000),
              dict(harness="red", variant="asan", quick=20000, thorough=100000)],
        require_obs=["reductions", "builds", "products", "rejections"]),
    "C15": dict(
        rule="symmetric tridiagonal and dense matrices of order 0..90 (uniform, graded, clustered, zero, scaled to 1e+-100), secular problems with gaps to 1e-15 and rho 1e-3..1e3, index and value selections, random block configuration and workspace; non-trivial: order >= 2",
        runs=[dict(harness="eig", variant="rel", quick=360000, thorough=900000),
              dict(harness="eig", variant="asan", quick=60000, thorough=120000)],
        require_obs=["eigenvalues", "vectors", "selected", "secular", "rejections"]),
    "C16": dict(
        rule="bidiagonal matrices of order 1..90 of 17 kinds (uniform, zero/int/split, graded, clustered, glued, Kahan, zero diagonals, off-diagonals at the deflation threshold, scaled to 1e+-60), both algorithms, absolute and relative tolerance, both directions, square and rectangular dense matrices, random vectors wanted, random block configuration and workspace; non-trivial: order >= 2",
        runs=[dict(harness="svd", variant="rel", quick=320000, thorough=1200000),
              dict(harness="svd", variant="asan", quick=40000, thorough=150000)],
        require_obs=["singular-values", "vectors", "dqds", "rejections"]),
    "C17": dict(
        rule="rotations over the full exponent range, rotation sequences incl. clipped, orthogonal and hyperbolic reflectors of length 0..60 with both sign options and scales 1e-285..1e140, products of reflectors, butterflies of depth 1..4 for all orders, diagonal scalings, 2x2 decompositions and quadratics near a double root; non-trivial: more than one element involved",
        runs=[dict(harness="elem", variant="rel", quick=1600000, thorough=4000000),
              dict(harness="elem", variant="asan", quick=320000, thorough=600000)],
        require_obs=["rotations", "rotation-sequences", "clipped-sequences", "reflectors", "reflectors-degenerate", "hyperbolic-reflectors", "reflector-products", "reflections", "butterflies", "diagonal-scalings", "2x2-problems", "real-roots", "rejections"]),
    "C07": dict(
        rule="matrix product, symmetric and triangular product and triangular solve with every flag combination on operands of 0..260 (some products wider than 2^15), through per-call threads, the worker pool and transient workers with 1..16 items, random scheduling policy, block and threshold settings, random delays at every synchronisation call, and injected allocation and thread creation failures; non-trivial: both result dimensions >= 2",
        technique="real accelerators run under injected delays and faults (release, address/undefined and thread sanitizer builds) with a reference-arithmetic oracle on every dispatched result and a task dispatch monitor",
        runs=[dict(harness="acc", variant="rel", quick=12000, thorough=200000, ops=ACC07, link=WR),
              dict(harness="acc", variant="asan", quick=6000, thorough=60000, ops=ACC07, link=WR),
              dict(harness="acc", variant="tsan", quick=3000, thorough=40000, ops=ACC07, link=WR)],
        require_obs=["elements", "threaded-SIMPLE", "threaded-WORKERS", "threaded-TRANSIENT", "faults", "results", "interleavings"]),
    "C08": dict(
        rule="random histories of accelerator start, dispatch from 1..6 concurrent callers, release and restart of all three kinds, first use from several threads in a fresh process, idle periods, pinning and injected thread creation and allocation failures, with random delays at every synchronisation call; non-trivial: at least one dispatch, distinct by history",
        technique="ThreadSanitizer and a lock/condition/thread life-cycle monitor over wrapped pthread calls, deadlock watchdog, leak accounting, processor-time and pinning monitors on randomly perturbed accelerator histories",
        runs=[dict(harness="acc", variant="tsan", quick=6000, thorough=80000, ops=ACC08, link=WR),
              dict(harness="acc", variant="rel", quick=6000, thorough=100000, ops=ACC08, link=WR),
              dict(harness="acc", variant="asan", quick=3000, thorough=40000, ops=ACC08, link=WR)],
        require_obs=["histories", "interleavings", "idle-checks", "pinning-checks", "threads", "cold-starts", "faults"]),
    "C09": dict(
        rule="teams of 2..8 threads each running a random sequence of checked library operations (170 kinds) with their own operands and configuration, several threads in the same operation, several threads reading the same operands or applying one shared factorization, sparse matrix or preconditioner, and first use of the library from several threads in a fresh process; non-trivial: at least two threads, distinct by the operations mixed",
        technique="ThreadSanitizer plus the per-operation reference oracles running inside concurrent teams, overlap counted",
        runs=[dict(harness="conc", variant="tsan", quick=4000, thorough=60000, ops="concurrent,same_op,shared,shared_factor", link=GL),
              dict(harness="conc", variant="rel", quick=8000, thorough=150000, ops="concurrent,same_op,shared,shared_factor", link=GL),
              dict(harness="acc", variant="tsan", quick=400, thorough=4000, ops="acc_cold", link=WR, name="cold")],
        require_obs=["overlapping-teams", "shared-results", "shared-factor-results", "cold-starts"]),
    "C04": dict(
        rule="every setting ARMAS_CONFIG and ARMAS_CACHE can produce (block sizes 1..2^31-1 and mutually inconsistent, fixed or not, lapack block 1..2048, recursion thresholds 2.., buffers from 4 KB) applied under 123 kinds of operation with their own oracles; the same call compared under three settings; and fresh processes started with well formed, malformed, overflowing and surplus environment strings; non-trivial: a setting differs from the default",
        technique="hostile settings under the reference oracles of every operation, in process and in fresh processes, plus a model of the documented strings compared with the parsed settings, guard bytes, sanitizers and a progress watchdog",
        runs=[dict(harness="cfg", variant="rel", quick=60000, thorough=900000, ops="cfg_hostile,cfg_pair,cfg_env"),
              dict(harness="cfg", variant="asan", quick=24000, thorough=250000, ops="cfg_hostile,cfg_pair,cfg_env")],
        require_obs=["hostile-cases", "compared", "environments", "parsed-fields"]),
    "C20": dict(
        rule="sparse matrices of 1..60 rows and columns (empty, diagonal, banded, arrow, rows and columns without elements, full), all kinds, sorted and unsorted, space exact/short/ample, all transposes, multipliers incl. 0, explicit zeros kept; non-trivial: at least 2x2 with 2 elements",
        runs=[dict(harness="sp", variant="rel", quick=1440000, thorough=2000000),
              dict(harness="sp", variant="asan", quick=360000, thorough=400000)],
        require_obs=["structures", "built", "conversions", "copies", "sorts", "sums", "products", "accumulations", "answers", "printed", "rejections"]),
    "C21": dict(
        rule="sparse operands of 1..60 (products to 400 rows) of nine patterns, both compressed kinds, junk in the triangle that must not be read, row/column/strided vectors, multipliers incl. 0 with NaN targets, absent and zero diagonals; non-trivial: at least 2x2 with 2 elements",
        runs=[dict(harness="spmv", variant="rel", quick=2000000, thorough=4000000),
              dict(harness="spmv", variant="asan", quick=500000, thorough=800000)],
        require_obs=["products", "symmetric-products", "triangular-products", "triangular-solves", "singular", "rejections"]),
    "C22": dict(
        rule="systems of order 1..30 (thorough 50): definite, general, singular, graded, rectangular; both triangles with junk in the other; zero, given and exact starts; absolute, relative, default and combined criteria; iteration limits 1..8 and default; restart lengths beyond the order; exact, reduced and ample workspace; incomplete factorizations with absent, zero and negative pivots; non-trivial: order > 2",
        runs=[dict(harness="spit", variant="rel", quick=1200000, thorough=1500000),
              dict(harness="spit", variant="asan", quick=240000, thorough=300000)],
        require_obs=["incomplete-cholesky", "incomplete-lu", "preconditionings", "breakdowns", "converged", "unconverged", "cg", "pcg", "cgne", "cgnr", "gmres", "pgmres", "rejections"]),
    "C23": dict(
        rule="dense matrices 0..40 and sparse matrices of all kinds (sorted and not) with values over the whole double range incl. denormals and signed zeros, all flags, 1..5 records of mixed forms per stream, through files read in random pieces, work buffers and strings; the same documents as other programs may write them (white space, member order, coordinate data, comments, letter case); output ending at any byte; token sequences; non-trivial: at least 2x2",
        technique="bit-exact read-back oracle, independent JSON and Matrix Market parsers over the written text, stream position monitor, short-output injection, address/undefined sanitizers",
        runs=[dict(harness="io", variant="rel", quick=900000, thorough=4000000, ops="io_roundtrip,io_foreign,io_short_output,io_nonfinite,io_tokens", link=GL),
              dict(harness="io", variant="asan", quick=240000, thorough=800000, ops="io_roundtrip,io_foreign,io_short_output,io_nonfinite,io_tokens", link=GL)],
        require_obs=["json", "dense-mm", "sparse-mm", "texts", "positions", "foreign-texts", "short-outputs", "tokens", "rejections"]),
    "C24": dict(
        rule="valid JSON and Matrix Market documents with 1..4 mutations (truncation, byte and bit changes, word replacement by extremes, line and block duplication and removal, long runs), token soups and random bytes, delivered in exactly sized memory, in random pieces, with read errors and with allocation failures; non-trivial: non-empty input, distinct by content",
        technique="address/undefined sanitizers, allocation balance, structure check of every matrix returned and a progress watchdog over mutated input, read errors and allocation failures",
        runs=[dict(harness="io", variant="asan", quick=800000, thorough=4000000, ops="io_hostile,io_hostile_tokens", link=GL),
              dict(harness="io", variant="rel", quick=800000, thorough=6000000, ops="io_hostile,io_hostile_tokens", link=GL)],
        require_obs=["accepted", "rejections", "faults", "read-errors", "hostile-inputs", "hostile-tokens", "well-formed"]),
    "C25": dict(
        rule="all 27 exported standard entry points (23 Fortran, 4 CBLAS in both storage orders): every option character in both cases incl. conjugate transpose, sizes 0..180 (vectors to 300) and negative counts, increments -5..5 incl. mixed signs and zero where defined, leading dimensions beyond the rows, multipliers 0/1/-1/random with junk in targets and in triangles that must not be read; non-trivial: both dimensions >= 2",
        runs=[dict(harness="blas", variant="rel", quick=600000, thorough=3000000),
              dict(harness="blas", variant="asan", quick=120000, thorough=400000)],
        require_obs=["reductions", "updates", "rotations", "mixed-increments", "zero-increments", "matrix-vector", "matrix-matrix", "row-major", "empty-inner"]),
    "C19": dict(
        rule="every operation of the other harnesses (vectors, matrices, factorizations, eigen, svd, sparse, solvers, text and json i/o) run once under its own oracle, then again with each of its allocation points refused, once and from then on (points sampled beyond ten), address and undefined-behaviour sanitized, and on the optimised code under memcheck with allocations and workspace marked indeterminate; non-trivial: the operation allocates",
        runs=[dict(harness="flt", variant="rel", quick=200000, thorough=3000000, ops="flt_op", link=GL),
              dict(harness="flt", variant="asan", quick=60000, thorough=800000, ops="flt_op", link=GL),
              dict(harness="flt", variant="vg", quick=1500, thorough=30000, ops="flt_op", link=GL, name="memcheck-faults"),
              dict(harness="flt", variant="vg", quick=6000, thorough=100000, ops="!flt_op", link=GL, name="memcheck")],
        require_obs=["allocations", "faults", "reported", "survived", "reporting-operations", "allocating-operations"]),
    "C18": dict(
        rule="every operation taking caller's workspace (13 families), orders 2..48, and 50 functions without one: query, the queried size exactly, up to 1 MB more, space already reserved, every kind of shortage from 1 byte to one byte less, none at all; scalar vectors longer than needed or laid out as rows; one or two dimensions of any operand reduced; plus the rejection cases of every other harness; non-trivial: order >= 2",
        technique="bit images of every operand, guards around the workspace, return and error codes, and comparison of the result with that for the queried workspace, under address and undefined-behaviour sanitizers",
        runs=[dict(harness="mis", variant="rel", quick=150000, thorough=2500000, ops=MIS, name="protocol"),
              dict(harness="mis", variant="asan", quick=40000, thorough=400000, ops=MIS, name="protocol"),
              dict(harness="mis", variant="vg", quick=1500, thorough=20000, ops=MIS, name="memcheck"),
              dict(harness="mis", variant="rel", quick=100000, thorough=1000000, ops=REJ, name="rejections"),
              dict(harness="mis", variant="asan", quick=30000, thorough=200000, ops=REJ, name="rejections")],
        require_obs=["queries", "exact-runs", "larger-runs", "short-refused", "short-accepted", "shape-refused", "longer-accepted", "longer-refused", "row-refused", "results-compared", "null-refused", "rejections"]),
}
