// QR, LQ, QL and RQ factorizations: factor, build, multiply, solve, block reflectors.
// Oracle: the orthogonal matrix assembled in long double from the stored elementary reflectors.
#include "lap.hpp"

enum { QR = 0, LQ, QL, RQ };
static const char *kn[] = {"qr", "lq", "ql", "rq"};
static bool colwise(int k) { return k == QR || k == QL; }
// reflector vector k of a factored m x n matrix
static std::vector<LD> refl(const Mat &A, int kind, int k) {
    int m = A.r, n = A.c, p = colwise(kind) ? m : n; std::vector<LD> v(p, 0.0L);
    switch (kind) {
    case QR: v[k] = 1; for (int i = k + 1; i < m; i++) v[i] = A.get(i, k); break;
    case LQ: v[k] = 1; for (int j = k + 1; j < n; j++) v[j] = A.get(k, j); break;
    case QL: v[m - n + k] = 1; for (int i = 0; i < m - n + k; i++) v[i] = A.get(i, k); break;
    default: v[n - m + k] = 1; for (int j = 0; j < n - m + k; j++) v[j] = A.get(k, j);
    }
    return v;
}
static bool is_refl(int kind, int m, int n, int i, int j) {
    switch (kind) { case QR: return i > j; case LQ: return j > i; case QL: return i < m - n + j; default: return j < n - m + i; }
}
static LMat explicit_q(const Mat &A, const Mat &tau, int kind, int k0, int k1) {
    int p = colwise(kind) ? A.r : A.c; LMat q = LMat::eye(p);
    // product H(k0)..H(k1-1) for qr, rq; reversed for ql, lq: multiply from the right in order
    bool fwd = kind == QR || kind == RQ;
    for (int t = 0; t < k1 - k0; t++) {
        int k = fwd ? k0 + t : k1 - 1 - t; std::vector<LD> v = refl(A, kind, k); LD tv = tau.getv(k);
        if (tv == 0) continue;
        std::vector<LD> w(p, 0.0L);
        for (int j = 0; j < p; j++) if (v[j] != 0) for (int i = 0; i < p; i++) w[i] += q(i, j) * v[j];
        for (int j = 0; j < p; j++) if (v[j] != 0) for (int i = 0; i < p; i++) q(i, j) -= tv * w[i] * v[j];
    }
    return q;
}
static LMat factor_part(const Mat &A, int kind) {   // p x other: [R;0], [0;L], [L 0], [0 R]
    LMat f(A.r, A.c); for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++) if (!is_refl(kind, A.r, A.c, i, j)) f(i, j) = A.get(i, j); return f;
}
static int call_factor(int kind, armas_dense_t *A, armas_dense_t *t, armas_conf_t *cf) {
    switch (kind) { case QR: return armas_qrfactor(A, t, cf); case LQ: return armas_lqfactor(A, t, cf); case QL: return armas_qlfactor(A, t, cf); default: return armas_rqfactor(A, t, cf); }
}
static int call_factor_w(int kind, armas_dense_t *A, armas_dense_t *t, armas_wbuf_t *w, armas_conf_t *cf) {
    switch (kind) { case QR: return armas_qrfactor_w(A, t, w, cf); case LQ: return armas_lqfactor_w(A, t, w, cf); case QL: return armas_qlfactor_w(A, t, w, cf); default: return armas_rqfactor_w(A, t, w, cf); }
}
static int call_build_w(int kind, armas_dense_t *A, const armas_dense_t *t, int K, armas_wbuf_t *w, armas_conf_t *cf) {
    switch (kind) { case QR: return armas_qrbuild_w(A, t, K, w, cf); case LQ: return armas_lqbuild_w(A, t, K, w, cf); case QL: return armas_qlbuild_w(A, t, K, w, cf); default: return armas_rqbuild_w(A, t, K, w, cf); }
}
static int call_build(int kind, armas_dense_t *A, const armas_dense_t *t, int K, armas_conf_t *cf) {
    switch (kind) { case QR: return armas_qrbuild(A, t, K, cf); case LQ: return armas_lqbuild(A, t, K, cf); case QL: return armas_qlbuild(A, t, K, cf); default: return armas_rqbuild(A, t, K, cf); }
}
static int call_mult_w(int kind, armas_dense_t *C, armas_dense_t *A, const armas_dense_t *t, int fl, armas_wbuf_t *w, armas_conf_t *cf) {
    switch (kind) { case QR: return armas_qrmult_w(C, A, t, fl, w, cf); case LQ: return armas_lqmult_w(C, A, t, fl, w, cf); case QL: return armas_qlmult_w(C, A, t, fl, w, cf); default: return armas_rqmult_w(C, A, t, fl, w, cf); }
}
static int call_mult(int kind, armas_dense_t *C, armas_dense_t *A, const armas_dense_t *t, int fl, armas_conf_t *cf) {
    switch (kind) { case QR: return armas_qrmult(C, A, t, fl, cf); case LQ: return armas_lqmult(C, A, t, fl, cf); case QL: return armas_qlmult(C, A, t, fl, cf); default: return armas_rqmult(C, A, t, fl, cf); }
}
static int call_solve(int kind, armas_dense_t *B, armas_dense_t *A, const armas_dense_t *t, int fl, armas_conf_t *cf) { return kind == QR ? armas_qrsolve(B, A, t, fl, cf) : armas_lqsolve(B, A, t, fl, cf); }
static int call_solve_w(int kind, armas_dense_t *B, armas_dense_t *A, const armas_dense_t *t, int fl, armas_wbuf_t *w, armas_conf_t *cf) { return kind == QR ? armas_qrsolve_w(B, A, t, fl, w, cf) : armas_lqsolve_w(B, A, t, fl, w, cf); }

static void shape(Ctx &c, int kind, int &m, int &n) { int a = ldim(c), b = c.rng.chance(25) ? a : ldim(c); m = std::max(a, b); n = std::min(a, b); if (!colwise(kind)) std::swap(m, n); if (m < 1) m = 1; if (n < 1) n = 1; }
struct F { int kind, m, n, k, p; Mat A, tau; LMat a; };
static void fac(Ctx &c, F &f, int kind, int gk = -1) {
    f.kind = kind; shape(c, kind, f.m, f.n); f.k = std::min(f.m, f.n); f.p = std::max(f.m, f.n);
    f.a = gen_mat(c, f.A, f.m, f.n, gk); f.tau.alloc(c, f.k, 1, 0); f.tau.save(); c.D("%s", kn[kind]); c.nontrivial = f.k >= 2;
}
static void check_fac(Ctx &c, const F &f, const LMat &q) {
    LD od = orth_defect(q); within_norm(c, "Q^T*Q-I", od, (8 + 4 * f.k) * EPSD);
    LMat r = factor_part(f.A, f.kind), qa = colwise(f.kind) ? sub(f.a, mul(q, r)) : sub(f.a, mul(r, q));
    LMat bnd(f.m, f.n);   // backward error is column-wise (row-wise for LQ, RQ)
    for (int j = 0; j < f.n; j++) for (int i = 0; i < f.m; i++) { LD s = 0; if (colwise(f.kind)) for (int t = 0; t < f.m; t++) s += f.a(t, j) * f.a(t, j); else for (int t = 0; t < f.n; t++) s += f.a(i, t) * f.a(i, t); bnd(i, j) = sqrtl(s); }
    within(c, "A-Q*R", qa, bnd, 10 + 6 * f.k); c.obs("factorizations");
    for (int i = 0; i < f.k; i++) { double t = f.tau.getv(i); if (!(t == 0 || (t >= 1 - 1e-8 && t <= 2 + 1e-8))) { c.fail("tau", fmt("tau[%d] = %.17g outside {0} and [1,2]", i, t)); break; } }
}
static void do_factor(Ctx &c, int kind) {
    Config cf(c); F f; fac(c, f, kind);
    int rc = run_ws(c, cf, f.k, [&](armas_wbuf_t *w) { return call_factor_w(kind, f.A, f.tau, w, cf); }, [&] { return call_factor(kind, f.A, f.tau, cf); });
    expect_ok(c, rc, cf); f.A.only_outside(c, "A"); f.tau.only_outside(c, "tau"); cf.check(c);
    check_fac(c, f, explicit_q(f.A, f.tau, kind, 0, f.k));
}
OP(qrfactor, 4) { do_factor(c, QR); }
OP(lqfactor, 4) { do_factor(c, LQ); }
OP(qlfactor, 4) { do_factor(c, QL); }
OP(rqfactor, 4) { do_factor(c, RQ); }

static bool prep(Ctx &c, F &f, int kind, Config &cf, int gk = -1) {
    fac(c, f, kind, gk); int rc = call_factor(kind, f.A, f.tau, cf); if (rc) { c.fail("prep", fmt("factorization returned %d", rc)); return false; }
    // the other part of the factored matrix is not an input of build and multiply
    return true;
}
static void poison_factor(F &f) { for (int j = 0; j < f.n; j++) for (int i = 0; i < f.m; i++) if (!is_refl(f.kind, f.m, f.n, i, j)) f.A.at(i, j) = poison(91 + i * 131 + j); f.A.save(); }

static void do_build(Ctx &c, int kind) {
    Config cf(c); F f; if (!prep(c, f, kind, cf)) return; int K = c.rng.chance(40) ? f.k : c.rng.range(c.rng.chance(20) ? 0 : 1, f.k); c.D("K=%d", K);
    // qr, lq: the first K reflectors; ql, rq: the last K (as in LAPACK, where they occupy the last columns or rows)
    int k0 = kind == QR || kind == LQ ? 0 : f.k - K; LMat q = explicit_q(f.A, f.tau, kind, k0, k0 + K);
    if (c.rng.chance(70)) poison_factor(f);
    // reflectors beyond K are not referenced
    for (int k = 0; k < f.k; k++) if (k < k0 || k >= k0 + K) { if (colwise(kind)) for (int i = 0; i < f.m; i++) { if (is_refl(kind, f.m, f.n, i, k)) f.A.at(i, k) = poison(7 + i); } else for (int j = 0; j < f.n; j++) if (is_refl(kind, f.m, f.n, k, j)) f.A.at(k, j) = poison(9 + j); }
    f.A.save(); f.tau.save();
    int rc = run_ws(c, cf, f.k, [&](armas_wbuf_t *w) { return call_build_w(kind, f.A, f.tau, K, w, cf); }, [&] { return call_build(kind, f.A, f.tau, K, cf); });
    expect_ok(c, rc, cf); f.A.only_outside(c, "A"); f.tau.is_const(c, "tau"); cf.check(c);
    LMat ref(f.m, f.n), bnd(f.m, f.n); for (auto &x : bnd.d) x = 1;
    for (int j = 0; j < f.n; j++) for (int i = 0; i < f.m; i++) switch (kind) { case QR: case LQ: ref(i, j) = q(i, j); break; case QL: ref(i, j) = q(i, f.m - f.n + j); break; default: ref(i, j) = q(f.n - f.m + i, j); }
    within(c, "Q", sub(LMat::of(f.A), ref), bnd, 16 + 4 * f.k); c.obs("builds");
}
OP(qrbuild, 3) { do_build(c, QR); }
OP(lqbuild, 3) { do_build(c, LQ); }
OP(qlbuild, 3) { do_build(c, QL); }
OP(rqbuild, 3) { do_build(c, RQ); }

static void do_mult(Ctx &c, int kind) {
    Config cf(c); Rng &r = c.rng; F f; if (!prep(c, f, kind, cf)) return; LMat q = explicit_q(f.A, f.tau, kind, 0, f.k); if (r.chance(80)) poison_factor(f); else f.A.save(); f.tau.save();
    bool right = r.chance(50), tr = r.chance(50); int o = std::max(1, ldim(c)); Mat C; C.init(c, right ? o : f.p, right ? f.p : o); C.save(); int fl = (right ? ARMAS_RIGHT : r.chance(50) ? ARMAS_LEFT : 0) | (tr ? ARMAS_TRANS : 0); c.D("%s trans=%d C=%dx%d/%d", right ? "right" : "left", tr, C.r, C.c, C.step);
    int rc = run_ws(c, cf, o, [&](armas_wbuf_t *w) { return call_mult_w(kind, C, f.A, f.tau, fl, w, cf); }, [&] { return call_mult(kind, C, f.A, f.tau, fl, cf); });
    expect_ok(c, rc, cf); f.A.is_const(c, "A"); f.tau.is_const(c, "tau"); C.only_outside(c, "C"); cf.check(c);
    LMat op = tr ? q.T() : q, c0 = oldmat(C), ref = right ? mul(c0, op) : mul(op, c0), bnd(C.r, C.c);
    for (int j = 0; j < C.c; j++) for (int i = 0; i < C.r; i++) { LD s = 0; if (!right) for (int t = 0; t < C.r; t++) s += c0(t, j) * c0(t, j); else for (int t = 0; t < C.c; t++) s += c0(i, t) * c0(i, t); bnd(i, j) = sqrtl(s); }
    within(c, "op(Q)*C", sub(LMat::of(C), ref), bnd, 16 + 4 * f.k); c.obs("products");
}
OP(qrmult, 4) { do_mult(c, QR); }
OP(lqmult, 4) { do_mult(c, LQ); }
OP(qlmult, 4) { do_mult(c, QL); }
OP(rqmult, 4) { do_mult(c, RQ); }

// QR: no TRANS least squares min|B-AX|, TRANS minimum norm A^T X = B;   LQ: no TRANS minimum norm AX=B, TRANS least squares min|B-A^T X|
static void do_solve(Ctx &c, int kind) {
    Config cf(c); Rng &r = c.rng; F f; if (!prep(c, f, kind, cf, r.pki({GK_UNI, GK_NORMAL, GK_SVD, GK_SCALEBIG, GK_SCALESMALL, GK_INT}))) return;
    bool tr = r.chance(50); int nrhs = r.chance(30) ? 1 : r.range(1, 60); Mat B; B.init(c, f.p, nrhs); bool ls = (kind == QR) != tr;
    LD dmin = 1e300, dmax = 0; for (int i = 0; i < f.k; i++) { LD d = fabsl(f.A.get(i, i)); dmin = std::min(dmin, d); dmax = std::max(dmax, d); } if (!(dmin > 1e-9L * dmax)) { c.obs("rank-deficient"); return; }
    LD sc = f.a.maxabs(); for (int j = 0; j < nrhs; j++) for (int i = 0; i < f.p; i++) B.at(i, j) *= (double)sc;
    // consistent systems sometimes
    if (ls && r.chance(30)) { LMat x(f.k, nrhs); for (auto &v : x.d) v = r.uni(); put(B, mul(kind == QR ? f.a : f.a.T(), x)); }
    // rows of B beyond the right hand side of a minimum norm problem are output only
    if (!ls && r.chance(60)) for (int j = 0; j < nrhs; j++) for (int i = f.k; i < f.p; i++) B.at(i, j) = poison(3 + i + 100 * j);
    B.save(); LMat b0 = oldmat(B); f.A.save(); f.tau.save(); c.D("trans=%d nrhs=%d ldb=%d", tr, nrhs, B.step);
    int rc = run_ws(c, cf, nrhs, [&](armas_wbuf_t *w) { return call_solve_w(kind, B, f.A, f.tau, tr ? ARMAS_TRANS : 0, w, cf); }, [&] { return call_solve(kind, B, f.A, f.tau, tr ? ARMAS_TRANS : 0, cf); });
    expect_ok(c, rc, cf); f.A.is_const(c, "A"); f.tau.is_const(c, "tau"); B.only_outside(c, "B"); cf.check(c);
    LMat q = explicit_q(f.A, f.tau, kind, 0, f.k), tall = kind == QR ? f.a : f.a.T();   // p x k
    LD an = tall.frob(); LMat xb = LMat::of(B);
    for (int j = 0; j < nrhs; j++) {
        if (ls) {
            LMat x(f.k, 1), b(f.p, 1); for (int i = 0; i < f.k; i++) x(i, 0) = xb(i, j); for (int i = 0; i < f.p; i++) b(i, 0) = b0(i, j);
            LMat res = sub(b, mul(tall, x)), g = mul(tall.T(), res); LD tol = (40 + 10 * f.k) * EPSD * (an * res.frob() + an * an * x.frob() + an * b.frob());
            if (!(g.frob() <= tol)) { c.fail("normal-equations", fmt("least squares: |A^T r| = %.3Lg exceeds %.3Lg (column %d)", g.frob(), tol, j)); break; }
            // the remaining rows hold Q2^T b, i.e. the residual sum of squares
            LD s = 0; for (int i = f.k; i < f.p; i++) s += xb(i, j) * xb(i, j); s = sqrtl(s); LD t2 = (60 + 12 * f.k) * EPSD * (b.frob() + an * x.frob());
            if (!(fabsl(s - res.frob()) <= t2)) { c.fail("residual-rows", fmt("rows below the solution have norm %.6Lg, residual is %.6Lg", s, res.frob())); break; }
        } else {
            LMat x(f.p, 1), b(f.k, 1); for (int i = 0; i < f.p; i++) x(i, 0) = xb(i, j); for (int i = 0; i < f.k; i++) b(i, 0) = b0(i, j);
            LMat res = sub(b, mul(tall.T(), x)); LD tol = (40 + 10 * f.k) * EPSD * (an * x.frob() + b.frob());
            if (!(res.frob() <= tol)) { c.fail("min-norm-residual", fmt("minimum norm: residual %.3Lg exceeds %.3Lg", res.frob(), tol)); break; }
            // x must lie in the column space of the tall matrix: Q2^T x = 0
            LMat qq = kind == QR ? q : q.T(); LD s = 0; for (int k = f.k; k < f.p; k++) { LD t = 0; for (int i = 0; i < f.p; i++) t += qq(i, k) * x(i, 0); s += t * t; } s = sqrtl(s);
            if (!(s <= (40 + 10 * f.k) * EPSD * x.frob())) { c.fail("min-norm", fmt("component outside the row space %.3Lg of %.3Lg", s, x.frob())); break; }
        }
    }
    c.obs("solves");
}
OP(qrsolve, 4) { do_solve(c, QR); }
OP(lqsolve, 4) { do_solve(c, LQ); }

// block reflector: the product of the reflectors is I - Y*T*Y^T
static void check_T(Ctx &c, const F &f, const LMat &T, int k0, int k1, const LMat &q, const char *nm) {
    int nb = k1 - k0, p = f.p; LMat y(p, nb); for (int k = k0; k < k1; k++) { auto v = refl(f.A, f.kind, k); for (int i = 0; i < p; i++) y(i, k - k0) = v[i]; }
    LMat e = sub(LMat::eye(p), mul(mul(y, T), y.T())); LMat qq = colwise(f.kind) ? q : q.T();   // row-wise reflectors: T of the product in the stored order
    LMat bnd(p, p); for (auto &x : bnd.d) x = 1; within(c, nm, sub(e, qq), bnd, 30 + 10 * nb); c.obs("block-reflectors");
}
static void do_reflector(Ctx &c, int kind) {
    Config cf(c); Rng &r = c.rng; F f; if (!prep(c, f, kind, cf)) return; LMat q = explicit_q(f.A, f.tau, kind, 0, f.k); poison_factor(f); f.tau.save();
    Mat T(c, f.k, f.k, GEN_ZEROS); for (int j = 0; j < f.k; j++) for (int i = 0; i < f.k; i++) T.at(i, j) = 0; T.save(); int rc;
    switch (kind) { case QR: rc = armas_qrreflector(T, f.A, f.tau, cf); break; case LQ: rc = armas_lqreflector(T, f.A, f.tau, cf); break; case QL: rc = armas_qlreflector(T, f.A, f.tau, cf); break; default: rc = armas_rqreflector(T, f.A, f.tau, cf); }
    expect_ok(c, rc, cf); f.A.is_const(c, "A"); f.tau.is_const(c, "tau"); bool up = kind == QR || kind == LQ;
    T.untouched(c, "T", [&](int i, int j) { return up ? i <= j : i >= j; }); if (rc) return;
    check_T(c, f, LMat::of(T), 0, f.k, q, "I-Y*T*Y^T");
}
OP(qrreflector, 1) { do_reflector(c, QR); }
OP(lqreflector, 1) { do_reflector(c, LQ); }
OP(qlreflector, 1) { do_reflector(c, QL); }
OP(rqreflector, 1) { do_reflector(c, RQ); }

OP(qrtfactor, 4) {
    Config cf(c); Rng &r = c.rng; F f; fac(c, f, QR); int lb = std::max(1, r.chance(30) ? f.k : r.range(1, r.chance(60) ? 12 : 64)); if (r.chance(10)) lb = std::max(1, f.k + r.range(-1, 1));
    Mat T(c, lb, f.n, GEN_ZEROS); for (auto j = 0; j < f.n; j++) for (int i = 0; i < lb; i++) T.at(i, j) = 0; T.save(); c.D("T=%dx%d", lb, f.n);
    int rc = run_ws(c, cf, (lb >= f.n ? f.n : lb * (f.n - lb)), [&](armas_wbuf_t *w) { return armas_qrtfactor_w(f.A, T, w, cf); }, [&] { return armas_qrtfactor(f.A, T, cf); });
    expect_ok(c, rc, cf); if (rc) return; f.A.only_outside(c, "A"); T.untouched(c, "T", [&](int i, int j) { return i <= j % lb; });
    for (int k = 0; k < f.k; k++) f.tau.v(k) = T.get(k % lb, k);
    LMat q = explicit_q(f.A, f.tau, QR, 0, f.k); check_fac(c, f, q);
    for (int k = 0; k < f.k; k += lb) { int nb = std::min(lb, f.k - k); LMat t(nb, nb); for (int j = 0; j < nb; j++) for (int i = 0; i <= j; i++) t(i, j) = T.get(i, k + j); check_T(c, f, t, k, k + nb, explicit_q(f.A, f.tau, QR, k, k + nb), "I-Y*T*Y^T block"); }
}

OP(q_reject, 4) {
    Config cf(c); Rng &r = c.rng; int kind = r.below(4), what = r.below(6); int a = r.range(2, 30), b = r.range(1, a - 1); c.nontrivial = true; int rc = 0; c.D("%s what=%d %dx%d", kn[kind], what, a, b);
    if (what == 0) { // wrong orientation
        Mat A(c, colwise(kind) ? b : a, colwise(kind) ? a : b), t(c, a, 1); A.save(); t.save(); rc = call_factor(kind, A, t, cf); A.is_const(c, "A"); t.is_const(c, "tau");
    } else if (what == 1) { // short tau
        if (b < 2) { rc = -1; cf.cf.error = 1; } else { Mat A(c, colwise(kind) ? a : b, colwise(kind) ? b : a), t(c, b - 1, 1); A.save(); t.save(); rc = call_factor(kind, A, t, cf); A.is_const(c, "A"); t.is_const(c, "tau"); }
    } else if (what == 2) { // order of C does not match
        Mat A(c, colwise(kind) ? a : b, colwise(kind) ? b : a), t(c, b, 1); bool right = r.chance(50); int o = r.range(1, 20), p = a + r.pki({-1, 1, 5}); Mat C(c, right ? o : p, right ? p : o); A.save(); t.save(); C.save(); rc = call_mult(kind, C, A, t, (right ? ARMAS_RIGHT : ARMAS_LEFT) | (r.chance(50) ? ARMAS_TRANS : 0), cf); C.is_const(c, "C"); A.is_const(c, "A");
    } else if (what == 3) { // rows of B
        kind &= 1; Mat A(c, colwise(kind) ? a : b, colwise(kind) ? b : a), t(c, b, 1), B(c, a + r.pki({-1, 1, 4}), 3); A.save(); t.save(); B.save(); rc = call_solve(kind, B, A, t, r.chance(50) ? ARMAS_TRANS : 0, cf); B.is_const(c, "B"); A.is_const(c, "A");
    } else if (what == 5) { // qrtfactor workspace below the minimum
        Mat A(c, a, b), T(c, b, b); A.save(); T.save(); if (b < 2) { rc = -1; cf.cf.error = 1; } else { Work w(c, 8 * (b - 1)); rc = armas_qrtfactor_w(A, T, &w.w, cf); w.check(c); A.is_const(c, "A"); T.is_const(c, "T"); }
    } else { // workspace below the unblocked minimum
        Mat A(c, colwise(kind) ? a : b, colwise(kind) ? b : a), t(c, b, 1); A.save(); t.save(); if (b < 2) { rc = -1; cf.cf.error = 1; } else { Work w(c, 8 * (b - 1)); rc = call_factor_w(kind, A, t, &w.w, cf); w.check(c); A.is_const(c, "A"); t.is_const(c, "tau"); }
    }
    if (rc >= 0) c.fail(fmt("accepted%d", what), "invalid arguments accepted"); else { c.obs("rejections"); if (!cf.cf.error) c.fail("error-code", "no error code recorded"); }
}
