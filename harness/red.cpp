// Hessenberg, tridiagonal and bidiagonal reductions: reduce, build, multiply.
// Oracle: transforms assembled in long double from the stored reflectors.
#include "lap.hpp"

static int dim1(Ctx &c) { int n = c.rng.chance(96) ? ldim(c) : c.rng.range(0, 3); return n < 1 ? 1 : n; }
static void normbound(Ctx &c, const char *nm, const LMat &res, LD an, double k) { LMat b(res.r, res.c); for (auto &x : b.d) x = an; within(c, nm, res, b, k); }

// ---- Hessenberg
static std::vector<Hh> hess_h(const Mat &A, const Mat &tau) {
    int n = A.r; std::vector<Hh> h; for (int k = 0; k + 1 < n; k++) { Hh r; r.v.assign(n, 0.0L); r.tau = tau.getv(k); r.v[k + 1] = 1; for (int i = k + 2; i < n; i++) r.v[i] = A.get(i, k); h.push_back(r); } return h;
}
static bool hess_red(Ctx &c, Config &cf, int n, Mat &A, Mat &tau, LMat &a, bool ws) {
    a = gen_mat(c, A, n, n); tau.alloc(c, std::max(0, n - 1), 1, 0); tau.save(); c.nontrivial = n >= 3;
    int rc = ws ? run_ws(c, cf, n, [&](armas_wbuf_t *w) { return armas_hessreduce_w(A, tau, w, cf); }, [&] { return armas_hessreduce(A, tau, cf); }) : armas_hessreduce(A, tau, cf);
    expect_ok(c, rc, cf); A.only_outside(c, "A"); tau.only_outside(c, "tau"); cf.check(c); return rc == 0;
}
OP(hessreduce, 5) {
    Config cf(c); int n = dim1(c); Mat A, tau; LMat a; if (!hess_red(c, cf, n, A, tau, a, true)) return;
    LMat q = prodH(n, hess_h(A, tau)), h(n, n); for (int j = 0; j < n; j++) for (int i = 0; i <= std::min(j + 1, n - 1); i++) h(i, j) = A.get(i, j);
    within_norm(c, "Q^T*Q-I", orth_defect(q), (8 + 4 * n) * EPSD); normbound(c, "A-Q*H*Q^T", sub(a, mul(mul(q, h), q.T())), a.frob(), 10 + 8 * n); c.obs("reductions");
}
OP(hessmult, 4) {
    Config cf(c); Rng &r = c.rng; int n = dim1(c); Mat A, tau; LMat a; if (!hess_red(c, cf, n, A, tau, a, false)) return; LMat q = prodH(n, hess_h(A, tau));
    for (int j = 0; j < n; j++) for (int i = 0; i <= std::min(j + 1, n - 1); i++) A.at(i, j) = poison(i + 100 * j); A.save(); tau.save();
    bool right = r.chance(50), tr = r.chance(50); int o = std::max(1, ldim(c)); Mat C(c, right ? o : n, right ? n : o, GEN_UNI); C.save(); int fl = (right ? ARMAS_RIGHT : ARMAS_LEFT) | (tr ? ARMAS_TRANS : 0); c.D("%s trans=%d C=%dx%d/%d", right ? "right" : "left", tr, C.r, C.c, C.step);
    int rc = run_ws(c, cf, o, [&](armas_wbuf_t *w) { return armas_hessmult_w(C, A, tau, fl, w, cf); }, [&] { return armas_hessmult(C, A, tau, fl, cf); });
    expect_ok(c, rc, cf); A.is_const(c, "A"); tau.is_const(c, "tau"); C.only_outside(c, "C"); cf.check(c);
    LMat op = tr ? q.T() : q, c0 = oldmat(C); normbound(c, "op(Q)*C", sub(LMat::of(C), right ? mul(c0, op) : mul(op, c0)), sqrtl(n) + 1, 16 + 4 * n); c.obs("products");
}
// ---- tridiagonal. LOWER: column k holds v in rows k+2.., unit at k+1; UPPER: column k+1 holds v in rows 0..k-1, unit at k
static std::vector<Hh> trd_h(const Mat &A, const Mat &tau, int flags, int k0, int k1) {
    int n = A.r; std::vector<Hh> h;
    if (flags & ARMAS_UPPER) for (int k = k1 - 1; k >= k0; k--) { Hh r; r.v.assign(n, 0.0L); r.tau = tau.getv(k); r.v[k] = 1; for (int i = 0; i < k; i++) r.v[i] = A.get(i, k + 1); h.push_back(r); }
    else for (int k = k0; k < k1; k++) { Hh r; r.v.assign(n, 0.0L); r.tau = tau.getv(k); r.v[k + 1] = 1; for (int i = k + 2; i < n; i++) r.v[i] = A.get(i, k); h.push_back(r); }
    return h;
}
static bool trd_isv(int flags, int i, int j) { return flags & ARMAS_UPPER ? i < j - 1 : i > j + 1; }
static bool trd_red(Ctx &c, Config &cf, int n, int f, Mat &A, Mat &tau, LMat &a, bool ws) {
    a = gen_sym(c, A, n, f); tau.alloc(c, n, 1, 0); tau.save(); c.nontrivial = n >= 3;
    int rc = ws ? run_ws(c, cf, n, [&](armas_wbuf_t *w) { return armas_trdreduce_w(A, tau, f, w, cf); }, [&] { return armas_trdreduce(A, tau, f, cf); }) : armas_trdreduce(A, tau, f, cf);
    expect_ok(c, rc, cf); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); tau.only_outside(c, "tau"); cf.check(c); return rc == 0;
}
OP(trdreduce, 6) {
    Config cf(c); int n = dim1(c), f = c.rng.pki({ARMAS_LOWER, ARMAS_UPPER}); Mat A, tau; LMat a; if (!trd_red(c, cf, n, f, A, tau, a, true)) return;
    LMat q = prodH(n, trd_h(A, tau, f, 0, n - 1)), t(n, n); for (int i = 0; i < n; i++) { t(i, i) = A.get(i, i); if (i + 1 < n) t(i, i + 1) = t(i + 1, i) = f & ARMAS_UPPER ? A.get(i, i + 1) : A.get(i + 1, i); }
    within_norm(c, "Q^T*Q-I", orth_defect(q), (8 + 4 * n) * EPSD); normbound(c, "A-Q*T*Q^T", sub(a, mul(mul(q, t), q.T())), a.frob(), 10 + 8 * n); c.obs("reductions");
}
OP(trdbuild, 4) {
    Config cf(c); Rng &r = c.rng; int n = dim1(c), f = r.pki({ARMAS_LOWER, ARMAS_UPPER}); Mat A, tau; LMat a; if (!trd_red(c, cf, n, f, A, tau, a, false)) return;
    int K = n < 2 || r.chance(50) ? n - 1 : r.range(1, n - 1), k0 = f & ARMAS_UPPER ? n - 1 - K : 0; if (r.chance(20)) c.D("K=n"); c.D("K=%d", K); LMat q = prodH(n, trd_h(A, tau, f, k0, k0 + K));
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!trd_isv(f, i, j)) A.at(i, j) = poison(i + 77 * j); A.save(); tau.save(); int KK = K == n - 1 && r.chance(50) ? n : K;
    int rc = run_ws(c, cf, n, [&](armas_wbuf_t *w) { return armas_trdbuild_w(A, tau, KK, f, w, cf); }, [&] { return armas_trdbuild(A, tau, KK, f, cf); });
    expect_ok(c, rc, cf); A.only_outside(c, "A"); tau.is_const(c, "tau"); cf.check(c); normbound(c, "Q", sub(LMat::of(A), q), 1, 16 + 4 * n); c.obs("builds");
}
OP(trdmult, 4) {
    Config cf(c); Rng &r = c.rng; int n = dim1(c), f = r.pki({ARMAS_LOWER, ARMAS_UPPER}); Mat A, tau; LMat a; if (!trd_red(c, cf, n, f, A, tau, a, false)) return; LMat q = prodH(n, trd_h(A, tau, f, 0, n - 1));
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!trd_isv(f, i, j)) A.at(i, j) = poison(i + 77 * j); A.save(); tau.save();
    bool right = r.chance(50), tr = r.chance(50); int o = std::max(1, ldim(c)); Mat C(c, right ? o : n, right ? n : o, GEN_UNI); C.save(); int fl = f | (right ? ARMAS_RIGHT : ARMAS_LEFT) | (tr ? ARMAS_TRANS : 0); c.D("%s trans=%d C=%dx%d/%d", right ? "right" : "left", tr, C.r, C.c, C.step);
    int rc = run_ws(c, cf, o, [&](armas_wbuf_t *w) { return armas_trdmult_w(C, A, tau, fl, w, cf); }, [&] { return armas_trdmult(C, A, tau, fl, cf); });
    expect_ok(c, rc, cf); A.is_const(c, "A"); tau.is_const(c, "tau"); C.only_outside(c, "C"); cf.check(c);
    LMat op = tr ? q.T() : q, c0 = oldmat(C); normbound(c, "op(Q)*C", sub(LMat::of(C), right ? mul(c0, op) : mul(op, c0)), sqrtl(n) + 1, 16 + 4 * n); c.obs("products");
}
// ---- bidiagonal
static std::vector<Hh> bd_q(const Mat &A, const Mat &tq, int K) {
    int m = A.r, o = A.r >= A.c ? 0 : 1; std::vector<Hh> h; for (int k = 0; k < K; k++) { Hh r; r.v.assign(m, 0.0L); r.tau = tq.getv(k); r.v[k + o] = 1; for (int i = k + o + 1; i < m; i++) r.v[i] = A.get(i, k); h.push_back(r); } return h;
}
static std::vector<Hh> bd_p(const Mat &A, const Mat &tp, int K) {
    int n = A.c, o = A.r >= A.c ? 1 : 0; std::vector<Hh> h; for (int k = 0; k < K; k++) { Hh r; r.v.assign(n, 0.0L); r.tau = tp.getv(k); r.v[k + o] = 1; for (int j = k + o + 1; j < n; j++) r.v[j] = A.get(k, j); h.push_back(r); } return h;
}
static int nq(const Mat &A) { return A.r >= A.c ? A.c : A.r - 1; }
static int np(const Mat &A) { return A.r >= A.c ? A.c - 1 : A.r; }
static bool bd_isq(const Mat &A, int i, int j) { return A.r >= A.c ? i > j : i > j + 1; }
static bool bd_isp(const Mat &A, int i, int j) { return A.r >= A.c ? j > i + 1 : j > i; }
static bool bd_red(Ctx &c, Config &cf, Mat &A, Mat &tq, Mat &tp, LMat &a, bool ws) {
    int m = dim1(c), n = c.rng.chance(30) ? m : dim1(c), k = std::min(m, n); a = gen_mat(c, A, m, n); tq.alloc(c, k, 1, 0); tp.alloc(c, k, 1, 0); tq.save(); tp.save(); c.nontrivial = k >= 2;
    int rc = ws ? run_ws(c, cf, m + n, [&](armas_wbuf_t *w) { return armas_bdreduce_w(A, tq, tp, w, cf); }, [&] { return armas_bdreduce(A, tq, tp, cf); }) : armas_bdreduce(A, tq, tp, cf);
    expect_ok(c, rc, cf); A.only_outside(c, "A"); tq.only_outside(c, "tauq"); tp.only_outside(c, "taup"); cf.check(c); return rc == 0;
}
OP(bdreduce, 7) {
    Config cf(c); Mat A, tq, tp; LMat a; if (!bd_red(c, cf, A, tq, tp, a, true)) return; int m = A.r, n = A.c, k = std::min(m, n);
    LMat q = prodH(m, bd_q(A, tq, nq(A))), p = prodH(n, bd_p(A, tp, np(A))), b(m, n); for (int i = 0; i < k; i++) { b(i, i) = A.get(i, i); if (m >= n) { if (i + 1 < n) b(i, i + 1) = A.get(i, i + 1); } else if (i + 1 < m) b(i + 1, i) = A.get(i + 1, i); }
    within_norm(c, "Q^T*Q-I", orth_defect(q), (8 + 4 * m) * EPSD); within_norm(c, "P^T*P-I", orth_defect(p), (8 + 4 * n) * EPSD);
    normbound(c, "A-Q*B*P^T", sub(a, mul(mul(q, b), p.T())), a.frob(), 10 + 8 * std::max(m, n)); c.obs("reductions");
}
OP(bdbuild, 5) {
    Config cf(c); Rng &r = c.rng; Mat A, tq, tp; LMat a; if (!bd_red(c, cf, A, tq, tp, a, false)) return; int m = A.r, n = A.c, k = std::min(m, n); bool wq = r.chance(50);
    int mx = wq ? nq(A) : np(A), K = mx < 2 || r.chance(50) ? mx : r.range(1, mx); c.D("%s K=%d", wq ? "Q" : "P", K);
    LMat q = wq ? prodH(m, bd_q(A, tq, K)) : prodH(n, bd_p(A, tp, K)).T();
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!(wq ? bd_isq(A, i, j) : bd_isp(A, i, j))) A.at(i, j) = poison(i + 55 * j); A.save(); Mat &t = wq ? tq : tp; t.save();
    int f = wq ? ARMAS_WANTQ : ARMAS_WANTP; int KK = K == mx && K == k - 1 && r.chance(50) ? k : K;
    int rc = run_ws(c, cf, k, [&](armas_wbuf_t *w) { return armas_bdbuild_w(A, t, KK, f, w, cf); }, [&] { return armas_bdbuild(A, t, KK, f, cf); });
    expect_ok(c, rc, cf); A.only_outside(c, "A"); t.is_const(c, "tau"); cf.check(c);
    // Q: m x min(m,n) leading columns; P^T: leading min(m,n) rows
    LMat got = LMat::of(A); got = wq ? head(got, m, k) : head(got, k, n); LMat ref = wq ? head(q, m, k) : head(q, k, n); normbound(c, wq ? "Q" : "P", sub(got, ref), 1, 16 + 4 * k); c.obs("builds");
}
OP(bdmult, 6) {
    Config cf(c); Rng &r = c.rng; Mat A, tq, tp; LMat a; if (!bd_red(c, cf, A, tq, tp, a, false)) return; int m = A.r, n = A.c; bool wq = r.chance(50); LMat q = wq ? prodH(m, bd_q(A, tq, nq(A))) : prodH(n, bd_p(A, tp, np(A))); int p = q.r;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!(wq ? bd_isq(A, i, j) : bd_isp(A, i, j))) A.at(i, j) = poison(i + 55 * j); A.save(); Mat &t = wq ? tq : tp; t.save();
    bool right = r.chance(50), tr = r.chance(50); int o = std::max(1, ldim(c)); Mat C(c, right ? o : p, right ? p : o, GEN_UNI); C.save(); int fl = (wq ? ARMAS_MULTQ : ARMAS_MULTP) | (right ? ARMAS_RIGHT : r.chance(70) ? ARMAS_LEFT : 0) | (tr ? ARMAS_TRANS : 0); c.D("%s %s trans=%d C=%dx%d/%d", wq ? "Q" : "P", right ? "right" : "left", tr, C.r, C.c, C.step);
    int rc = run_ws(c, cf, std::max(C.r, C.c), [&](armas_wbuf_t *w) { return armas_bdmult_w(C, A, t, fl, w, cf); }, [&] { return armas_bdmult(C, A, t, fl, cf); });
    expect_ok(c, rc, cf); A.is_const(c, "A"); t.is_const(c, "tau"); C.only_outside(c, "C"); cf.check(c);
    LMat op = tr ? q.T() : q, c0 = oldmat(C); normbound(c, "op*C", sub(LMat::of(C), right ? mul(c0, op) : mul(op, c0)), sqrtl(p) + 1, 16 + 4 * p); c.obs("products");
}
OP(red_reject, 3) {
    Config cf(c); Rng &r = c.rng; int what = r.below(8), n = r.range(2, 30), rc = 0, f = r.pki({ARMAS_LOWER, ARMAS_UPPER}); c.D("what=%d n=%d", what, n); c.nontrivial = true; int o = r.range(1, 9);
    switch (what) {
    case 0: { Mat A(c, n, n + r.range(1, 3)), t(c, n - 1, 1); A.save(); t.save(); rc = armas_hessreduce(A, t, cf); A.is_const(c, "A"); t.is_const(c, "t"); break; }
    case 1: { Mat A(c, n, n), t(c, n - 1 + r.pki({-1, 1}), 1); A.save(); t.save(); rc = armas_hessreduce(A, t, cf); A.is_const(c, "A"); t.is_const(c, "t"); break; }
    case 2: { Mat A(c, n, n + r.range(1, 3)), t(c, n, 1); A.save(); t.save(); rc = armas_trdreduce(A, t, f, cf); A.is_const(c, "A"); t.is_const(c, "t"); break; }
    case 3: { Mat A(c, n, n), t(c, n - 1, 1); A.save(); t.save(); rc = armas_trdreduce(A, t, f, cf); A.is_const(c, "A"); t.is_const(c, "t"); break; }
    case 4: { Mat A(c, n, n), t(c, n, 1); bool right = r.chance(50); int p = n + r.pki({-1, 1, 3}); Mat C(c, right ? o : p, right ? p : o); A.save(); t.save(); C.save(); rc = armas_trdmult(C, A, t, f | (right ? ARMAS_RIGHT : ARMAS_LEFT), cf); C.is_const(c, "C"); A.is_const(c, "A"); break; }
    case 5: { Mat A(c, n, n), t(c, n - 1, 1); bool right = r.chance(50); int p = n + r.pki({-1, 1, 3}); Mat C(c, right ? o : p, right ? p : o); A.save(); t.save(); C.save(); rc = armas_hessmult(C, A, t, right ? ARMAS_RIGHT : ARMAS_LEFT, cf); C.is_const(c, "C"); A.is_const(c, "A"); break; }
    case 6: { int m = r.range(2, 30), k = std::min(n, m); Mat A(c, n, m), t(c, k, 1); bool right = r.chance(50), wq = r.chance(50); int p = (wq ? n : m) + r.pki({-1, 1, 3}); Mat C(c, right ? o : p, right ? p : o); A.save(); t.save(); C.save(); rc = armas_bdmult(C, A, t, (wq ? ARMAS_MULTQ : ARMAS_MULTP) | (right ? ARMAS_RIGHT : ARMAS_LEFT), cf); C.is_const(c, "C"); A.is_const(c, "A"); break; }
    default: { Mat A(c, n, n), t(c, n, 1), t2(c, n, 1); A.save(); Work w(c, 8 * (n - 1)); int k = r.below(3); if (k == 2) k = 1; rc = k == 0 ? armas_trdreduce_w(A, t, f, &w.w, cf) : armas_bdreduce_w(A, t, t2, &w.w, cf); w.check(c); A.is_const(c, "A"); }
    }
    if (rc >= 0) c.fail(fmt("accepted%d", what), "invalid arguments accepted"); else { c.obs("rejections"); if (!cf.cf.error) c.fail("error-code", "no error code recorded"); }
}
