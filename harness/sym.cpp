// Cholesky (plain, pivoted, update, solve, inverse) and symmetric indefinite factorizations.
#include "lap.hpp"

static void nt(Ctx &c, int a) { c.nontrivial = a >= 2; }
static int triflag(Ctx &c) { return c.rng.pki({ARMAS_LOWER, ARMAS_UPPER}); }
// lower factor G with A = G*G^T, whichever triangle was used
static LMat cholL(const Mat &A, int f, int n, int r) {
    LMat l(n, r); for (int j = 0; j < r; j++) for (int i = j; i < n; i++) l(i, j) = (f & ARMAS_UPPER) ? A.get(j, i) : A.get(i, j); return l;
}
// smallest pivot the exact factorization meets (long double), relative to the largest diagonal
static LD chol_min_pivot(const LMat &a0) {
    LMat a(a0); int n = a.r; LD mx = 0, mn = 1; for (int i = 0; i < n; i++) mx = std::max(mx, fabsl(a(i, i))); if (mx == 0) return 0;
    for (int k = 0; k < n; k++) { LD p = a(k, k); mn = std::min(mn, p / mx); if (!(p > 0)) return mn; LD q = 1 / p; for (int j = k + 1; j < n; j++) for (int i = j; i < n; i++) a(i, j) -= a(i, k) * a(j, k) * q; }
    return mn;
}
OP(chol, 5) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = triflag(c); Mat A; LMat a = gen_spd(c, A, n, f); nt(c, n);
    int how = r.below(3); int rc = how == 0 ? armas_cholesky(&A, f, cf) : how == 1 ? armas_cholfactor(&A, ARMAS_NOPIVOT, f, cf) : armas_cholfactor_w(&A, ARMAS_NOPIVOT, f, ARMAS_NOWORK, cf);
    A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); cf.check(c);
    if (chol_min_pivot(a) * 1e-3L < n * EPSD) { c.obs("ill"); return; }
    expect_ok(c, rc, cf); LMat L = cholL(A, f, n, n); for (int i = 0; i < n; i++) if (!(L(i, i) > 0)) { c.fail("diag", "factor diagonal not positive"); break; }
    within(c, "A-L*L'", sub(a, mul(L, L.T())), mul(L.abs(), L.T().abs()), n + 12); c.obs("factorizations");
}
OP(chol_notpd, 3) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c); if (n < 1) n = 1; int f = triflag(c); Mat A; gen_spd(c, A, n, f); int z = r.below(n), kind = r.below(3);
    if (kind == 0) A.at(z, z) = -fabs(A.get(z, z)) - (r.chance(50) ? 1 : 0); else if (kind == 1) for (int k = 0; k < n; k++) { if (k <= z) (f & ARMAS_UPPER ? A.at(k, z) : A.at(z, k)) = 0; else (f & ARMAS_UPPER ? A.at(z, k) : A.at(k, z)) = 0; }
    else { for (int k = 0; k < n; k++) if (k != z) { if (k <= z) (f & ARMAS_UPPER ? A.at(k, z) : A.at(z, k)) *= 1e4; else (f & ARMAS_UPPER ? A.at(z, k) : A.at(k, z)) *= 1e4; } }
    A.save(); LMat a = sym_of(A, f); c.D("kind=%d at=%d", kind, z); nt(c, n);
    LD mn = chol_min_pivot(a); bool bad = kind == 1 || mn < -1e-6L; if (!bad) { c.obs("skipped"); return; }
    int rc = armas_cholfactor(&A, ARMAS_NOPIVOT, f, cf); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); cf.check(c);
    if (rc >= 0) c.fail("unreported", fmt("matrix is not positive definite (pivot %.3Lg) but the factorization returned %d", mn, rc)); else if (!cf.cf.error) c.fail("error-code", "failure without error code"); c.obs("rejections");
}
OP(cholpv, 4) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = triflag(c); Mat A; LMat a; bool deficient = r.chance(50); int rank = n;
    if (deficient && n >= 2) {
        rank = r.range(0, n - 1); LMat g(n, rank); bool in = r.chance(50); for (auto &x : g.d) x = in ? (LD)r.range(-2, 2) : (LD)r.uni();
        LMat s = mul(g, g.T()); if (rank && r.chance(30)) { LD sc = powl(10.0L, r.range(-20, 20)); for (auto &x : s.d) x *= sc; }
        A.init(c, n, n, GEN_UNI); put_tri(A, symmetrize(s), f); A.save(); a = sym_of(A, f); c.D("psd rank<=%d %s n=%d ld=%d", rank, fl(f), n, A.step);
    } else a = gen_spd(c, A, n, f);
    Piv P(c, n); nt(c, n); LD mx = 0; for (int i = 0; i < n; i++) mx = std::max(mx, a(i, i)); LD xstop = mx * n * EPSD / 2; int st = r.below(4);
    if (st == 1) { cf.cf.smult = powl(10.0L, r.range(-11, -7)); xstop = mx * cf.cf.smult; } else if (st == 2) { cf.cf.stop = (double)(mx * powl(10.0L, r.range(-11, -7))); if (cf.cf.stop > 0) xstop = cf.cf.stop; if (r.chance(50)) cf.cf.smult = 0.5; if (!(cf.cf.stop > 0) && cf.cf.smult > 0) xstop = mx * cf.cf.smult; }
    c.D("stop=%g smult=%g", cf.cf.stop, cf.cf.smult); int rc;
    if (r.chance(50)) rc = armas_cholfactor(&A, P, f, cf); else {
        armas_wbuf_t q = ARMAS_WBNULL; rc = armas_cholfactor_w(&A, P, f, &q, cf); expect_ok(c, rc, cf); A.is_const(c, "A(query)"); size_t sz = r.chance(70) ? q.bytes : r.below(q.bytes + 1); if (!sz) sz = 8; Work w(c, sz); rc = armas_cholfactor_w(&A, P, f, &w.w, cf); w.check(c); }
    A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); P.guards(c); cf.check(c); if (!n) return;
    int k = rc == 0 ? n : rc;
    if (rc < 0) { if (mx > 0) c.fail("ret", fmt("returned %d for a positive semidefinite matrix", rc)); else c.obs("rejections"); if (!cf.cf.error) c.fail("error-code", "failure without error code"); return; }
    if (k > n) { c.fail("rank-range", fmt("rank %d of an order %d matrix", k, n)); return; }
    if (mx == 0 && rc == 0) { c.fail("rank", "zero matrix reported as full rank"); return; }
    for (int i = 0; i < k; i++) if (P[i] < i + 1 || P[i] > n) { c.fail("pivot-range", fmt("pivot %d is %d, order %d", i, P[i], n)); return; }
    LMat pa(a); for (int i = 0; i < k; i++) { swap_r(pa, i, P[i] - 1); swap_c(pa, i, P[i] - 1); }
    LMat L = cholL(A, f, n, k), res = sub(pa, mul(L, L.T())), b = mul(L.abs(), L.T().abs());
    // what the stopping rule leaves behind is bounded by the threshold
    LD left = k < n ? (xstop + 4 * n * EPSD * mx) / (EPSD * (n + 12)) : 0; 
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i >= k && j >= k) b(i, j) += left;
    within(c, "P'*A*P-L*L'", res, b, n + 12);
    for (int i = 0; i + 1 < k; i++) if (L(i + 1, i + 1) > L(i, i) * (1 + 1e-6L) + sqrtl(4 * n * EPSD * mx)) { c.fail("pivot-order", fmt("pivot %d is larger than the one before", i + 1)); break; }
    for (int i = 0; i < k; i++) if (!(L(i, i) * L(i, i) > xstop * 0.999L)) { c.fail("stop", fmt("accepted pivot %Lg below the stopping threshold %Lg", L(i, i) * L(i, i), xstop)); break; }
    // trailing block of a rank deficient result is cleared
    for (int j = k; j < n; j++) for (int i = k; i < n; i++) if (in_tri(i, j, f) && A.get(i, j) != 0) { c.fail("trailing", fmt("element (%d,%d) beyond the rank is not zero", i, j)); i = j = n; }
    if (deficient && n >= 2 && xstop > 1e3L * n * EPSD * mx && k > rank) c.fail("rank", fmt("reported rank %d for a matrix of rank %d", k, rank));
    c.obs("factorizations"); if (k < n) c.obs("deficient");
}
OP(cholsolve, 3) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = triflag(c), nrhs = r.chance(30) ? 1 : r.range(0, 30); bool piv = r.chance(50); Mat A; LMat a = gen_spd(c, A, n, f); Mat B; B.init(c, n, nrhs); B.save(); c.D("nrhs=%d piv=%d ldb=%d", nrhs, piv, B.step); nt(c, n); Piv P(c, n);
    int rc = armas_cholfactor(&A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, f, cf); if (rc != 0) { c.obs("skipped"); return; }
    A.save(); auto img = P.image(); rc = armas_cholsolve(&B, &A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, f, cf); expect_ok(c, rc, cf); A.is_const(c, "A"); B.only_outside(c, "B"); cf.check(c); if (img != P.image()) c.fail("changed:P", "solve changed the pivots");
    if (!n || !nrhs) return; LMat L = cholL(A, f, n, n), ll = mul(L.abs(), L.T().abs()); if (piv) for (int k = n - 1; k >= 0; k--) { swap_r(ll, k, P[k] - 1); swap_c(ll, k, P[k] - 1); }
    LMat x = LMat::of(B), b = oldmat(B); within(c, "A*X-B", sub(mul(a, x), b), add(mul(ll, x.abs()), b.abs()), 4 * n + 20); c.obs("solves");
}
OP(cholinverse, 3) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = triflag(c); Mat A; LMat a = gen_spd(c, A, n, f); nt(c, n);
    int rc = armas_cholfactor(&A, ARMAS_NOPIVOT, f, cf); if (rc) { c.obs("skipped"); return; } LMat L = cholL(A, f, n, n); A.save();
    if (r.chance(50)) rc = armas_cholinverse(&A, f, cf); else { armas_wbuf_t q = ARMAS_WBNULL; rc = armas_cholinverse_w(&A, f, &q, cf); expect_ok(c, rc, cf); A.is_const(c, "A(query)"); size_t sz = q.bytes; if (r.chance(30) && n) sz = (size_t)8 * n * r.range(1, 70); c.D("work=%zu", sz); if (!sz) return; Work w(c, sz); rc = armas_cholinverse_w(&A, f, &w.w, cf); w.check(c); if (w.w.offset) c.fail("wpos", "workspace position not restored"); }
    if (n) expect_ok(c, rc, cf); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); cf.check(c); if (!n) return;
    LMat li; if (!linv(L, li)) { c.obs("ill"); return; } LMat la = li.abs(), lt = la.T(), l = L.abs();
    LMat ai = mul(li.T(), li), b = mul(mul(mul(lt, l.T()), lt), la); b = add(b, b.T()); LMat x = symfull(A, f), aa = ai.abs(); b = add(b, mul(mul(aa, mul(l, l.T())), aa)); b = add(b, mul(mul(lt, l.T()), mul(lt, mul(la, mul(l, la)))));
    within(c, "X-inv(A)", sub(x, ai), b, 6 * n + 30); c.obs("inverses");
}
OP(cholupdate, 2) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = triflag(c); Mat A; gen_spd(c, A, n, f); Mat X; mkvec(c, X, n, r.pki({GEN_UNI, GEN_INT, GEN_ZEROS, GEN_WIDE}), "x"); nt(c, n);
    int rc = armas_cholfactor(&A, ARMAS_NOPIVOT, f, cf); if (rc) { c.obs("skipped"); return; } LMat L0 = cholL(A, f, n, n); A.save(); LMat x = loldvec(X); 
    rc = armas_cholupdate(&A, &X, f, cf); expect_ok(c, rc, cf); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); X.only_outside(c, "x"); cf.check(c); if (!n) return;
    LMat L = cholL(A, f, n, n); LMat t = add(mul(L0, L0.T()), mul(x, x.T())); LMat res = sub(mul(L, L.T()), t); LMat b(n, n);
    std::vector<LD> d(n); for (int i = 0; i < n; i++) d[i] = sqrtl(t(i, i)); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) b(i, j) = d[i] * d[j];
    within(c, "L*L'-(A+x*x')", res, b, 8 * n + 30); c.obs("updates");
}
// ---------------------------------------------------------------- LDL
static LMat ldlL(const Mat &A, int f) { return (f & ARMAS_UPPER) ? upart(A, A.r, A.r, true) : lpart(A, A.r, A.r, true); }
static LMat diagm(const Mat &A) { LMat d(A.r, A.r); for (int i = 0; i < A.r; i++) d(i, i) = A.get(i, i); return d; }
static LMat gen_ldl(Ctx &c, Mat &A, int n, int f, bool piv) {
    Rng &r = c.rng; int k = r.below(3);
    if (k == 0) return gen_spd(c, A, n, f);
    // symmetric, dominant diagonal of either sign: every diagonal pivot order is stable
    int kind = r.pki({GK_UNI, GK_INT, GK_NORMAL, GK_SPARSE, GK_SCALEBIG}); gen_sym(c, A, n, f, kind);
    LD mx = 0; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in_tri(i, j, f)) mx = std::max(mx, (LD)fabs(A.get(i, j))); if (mx == 0) mx = 1;
    bool strong = k == 1 || !piv; for (int i = 0; i < n; i++) A.at(i, i) = (double)((r.chance(50) ? 1 : -1) * mx * (strong ? n * (1 + r.u01()) : 1 + r.u01() * 3));
    A.save(); c.D("dominant=%d", strong); return sym_of(A, f);
}
static void ldl_perm(LMat &x, const Piv &P, int f, bool rows, bool cols) {
    int n = (int)P.n; auto one = [&](int k) { if (rows) swap_r(x, k, P[k] - 1); if (cols) swap_c(x, k, P[k] - 1); };
    if (f & ARMAS_UPPER) for (int k = n - 1; k >= 0; k--) one(k); else for (int k = 0; k < n; k++) one(k);
}
static void ldl_unperm(LMat &x, const Piv &P, int f, bool rows, bool cols) {
    int n = (int)P.n; auto one = [&](int k) { if (rows) swap_r(x, k, P[k] - 1); if (cols) swap_c(x, k, P[k] - 1); };
    if (f & ARMAS_UPPER) for (int k = 0; k < n; k++) one(k); else for (int k = n - 1; k >= 0; k--) one(k);
}
static bool ldl_pivots(Ctx &c, const Piv &P, int f) {
    int n = (int)P.n; for (int k = 0; k < n; k++) { bool ok = (f & ARMAS_UPPER) ? P[k] >= 1 && P[k] <= k + 1 : P[k] >= k + 1 && P[k] <= n; if (!ok) { c.fail("pivot-range", fmt("pivot %d is %d, order %d", k, P[k], n)); return false; } } return true;
}
static int ldl_run(Ctx &c, Mat &A, armas_pivot_t *P, int f, Config &cf) {
    Rng &r = c.rng; int rc; if (r.chance(50)) return armas_ldlfactor(&A, P, f, cf);
    armas_wbuf_t q = ARMAS_WBNULL; A.save(); rc = armas_ldlfactor_w(&A, P, f, &q, cf); expect_ok(c, rc, cf); A.is_const(c, "A(query)"); if (q.bytes == 0) return armas_ldlfactor_w(&A, P, f, ARMAS_NOWORK, cf);
    size_t sz = r.chance(60) ? q.bytes : 8 * (size_t)r.range(1, q.bytes / 8); c.D("work=%zu", sz); Work w(c, sz); rc = armas_ldlfactor_w(&A, P, f, &w.w, cf); w.check(c); if (w.w.offset) c.fail("wpos", "workspace position not restored"); return rc;
}
OP(ldlfactor, 4) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = triflag(c); bool piv = r.chance(65); Mat A; LMat a = gen_ldl(c, A, n, f, piv); Piv P(c, n); c.D("piv=%d", piv); nt(c, n);
    int rc = ldl_run(c, A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, f, cf); expect_ok(c, rc, cf); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); P.guards(c); cf.check(c); if (!n) return;
    LMat pa(a); if (piv) { if (!ldl_pivots(c, P, f)) return; ldl_perm(pa, P, f, true, true); }
    LMat L = ldlL(A, f), D = diagm(A); for (int i = 0; i < n; i++) if (D(i, i) == 0) { c.obs("zeropivot"); return; }
    within(c, "P'*A*P-L*D*L'", sub(pa, mul(mul(L, D), L.T())), add(mul(mul(L.abs(), D.abs()), L.T().abs()), pa.abs()), 3 * n + 20);
    c.obs("factorizations");
}
OP(ldlsolve, 3) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = triflag(c), nrhs = r.chance(30) ? 1 : r.range(0, 30); bool piv = r.chance(65); Mat A; LMat a = gen_ldl(c, A, n, f, piv); Piv P(c, n); Mat B; B.init(c, n, nrhs); B.save(); c.D("nrhs=%d piv=%d ldb=%d", nrhs, piv, B.step); nt(c, n);
    int rc = ldl_run(c, A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, f, cf); expect_ok(c, rc, cf); A.save(); auto img = P.image(); 
    rc = armas_ldlsolve(&B, &A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, f, cf); expect_ok(c, rc, cf); A.is_const(c, "A"); B.only_outside(c, "B"); cf.check(c); if (img != P.image()) c.fail("changed:P", "solve changed the pivots");
    if (!n || !nrhs) return; LMat L = ldlL(A, f), D = diagm(A); for (int i = 0; i < n; i++) if (D(i, i) == 0) { c.obs("zeropivot"); return; }
    LMat b = mul(mul(L.abs(), D.abs()), L.T().abs()); if (piv) { if (!ldl_pivots(c, P, f)) return; ldl_unperm(b, P, f, true, true); }
    b = add(b, a.abs()); LMat x = LMat::of(B), bb = oldmat(B); within(c, "A*X-B", sub(mul(a, x), bb), add(mul(b, x.abs()), bb.abs()), 6 * n + 30); c.obs("solves");
}
OP(ldlinverse, 3) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = triflag(c); bool piv = r.chance(70); Mat A; LMat a = gen_ldl(c, A, n, f, piv); Piv P(c, n); c.D("piv=%d", piv); nt(c, n);
    int rc = ldl_run(c, A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, f, cf); expect_ok(c, rc, cf); LMat L = ldlL(A, f), D = diagm(A); for (int i = 0; i < n; i++) if (D(i, i) == 0) { c.obs("zeropivot"); return; } A.save(); auto img = P.image(); armas_pivot_t *pp = piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT;
    if (r.chance(50)) rc = armas_ldlinverse(&A, pp, f, cf); else { armas_wbuf_t q = ARMAS_WBNULL; rc = armas_ldlinverse_w(&A, pp, f, &q, cf); expect_ok(c, rc, cf); A.is_const(c, "A(query)"); size_t sz = q.bytes; if (r.chance(30) && n) sz = (size_t)8 * n * r.range(1, 70); c.D("work=%zu", sz); if (!sz) return; Work w(c, sz); rc = armas_ldlinverse_w(&A, pp, f, &w.w, cf); w.check(c); if (w.w.offset) c.fail("wpos", "workspace position not restored"); }
    if (n) expect_ok(c, rc, cf); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); cf.check(c); if (img != P.image()) c.fail("changed:P", "inverse changed the pivots"); if (!n) return;
    LMat li; if (!linv(L, li)) return; LMat di(n, n); for (int i = 0; i < n; i++) di(i, i) = 1 / D(i, i); LMat ai = mul(mul(li.T(), di), li), la = li.abs(), m = mul(mul(la.T(), di.abs()), la), g = mul(mul(L.abs(), D.abs()), L.T().abs());
    LMat x = symfull(A, f); if (piv) { if (!ldl_pivots(c, P, f)) return; ldl_unperm(ai, P, f, true, true); }
    LD tol = (LD)(20 * n + 100) * EPSD * m.frob() * m.frob() * g.frob(); within_norm(c, "X-inv(A)", sub(x, ai).frob(), tol); 
    within_norm(c, "A*X-I", sub(mul(a, x), LMat::eye(n)).frob(), tol * a.frob()); c.obs("inverses");
}
// ---------------------------------------------------------------- Bunch-Kaufman
// A (full), its componentwise magnitude from the record; false when the pivot record is not legal
static bool bk_expand(Ctx &c, const Mat &A, const Piv &P, int f, LMat &a, LMat &b, int &two) {
    int n = A.r; two = 0; std::vector<std::pair<int, int>> blk; // start,size
    if (f & ARMAS_UPPER) { for (int k = n - 1; k >= 0;) { if (P[k] > 0) { if (P[k] > k + 1) goto bad; blk.push_back({k, 1}); k--; } else { if (k < 1 || P[k] == 0 || P[k] != P[k - 1] || -P[k] > k) goto bad; blk.push_back({k - 1, 2}); two++; k -= 2; } } }
    else { for (int k = 0; k < n;) { if (P[k] > 0) { if (P[k] < k + 1 || P[k] > n) goto bad; blk.push_back({k, 1}); k++; } else { if (k + 1 >= n || P[k] == 0 || P[k] != P[k + 1] || -P[k] < k + 2 || -P[k] > n) goto bad; blk.push_back({k, 2}); two++; k += 2; } } }
    a = LMat(n, n); b = LMat(n, n);
    for (int t = (int)blk.size() - 1; t >= 0; t--) {
        int k = blk[t].first, s = blk[t].second; LMat E(s, s), Ea(s, s);
        for (int j = 0; j < s; j++) for (int i = 0; i < s; i++) { E(i, j) = in_tri(i, j, f) ? A.get(k + i, k + j) : A.get(k + j, k + i); Ea(i, j) = fabsl(E(i, j)); }
        int lo = (f & ARMAS_UPPER) ? 0 : k + s, hi = (f & ARMAS_UPPER) ? k : n, q = hi - lo;
        LMat Lm(q, s); for (int j = 0; j < s; j++) for (int i = 0; i < q; i++) Lm(i, j) = A.get(lo + i, k + j);
        LMat le = mul(Lm, E), lea = mul(Lm.abs(), Ea), s2 = mul(le, Lm.T()), s2a = mul(lea, Lm.T().abs());
        for (int j = 0; j < q; j++) for (int i = 0; i < q; i++) { a(lo + i, lo + j) += s2(i, j); b(lo + i, lo + j) += s2a(i, j); }
        for (int j = 0; j < s; j++) for (int i = 0; i < q; i++) { a(lo + i, k + j) = a(k + j, lo + i) = le(i, j); b(lo + i, k + j) = b(k + j, lo + i) = lea(i, j); }
        for (int j = 0; j < s; j++) for (int i = 0; i < s; i++) { a(k + i, k + j) = E(i, j); b(k + i, k + j) = Ea(i, j); }
        int p = abs(P[k]) - 1, kk = (f & ARMAS_UPPER) ? k : k + s - 1;    // upper: row k of the block, lower: its last row
        swap_r(a, p, kk); swap_c(a, p, kk); swap_r(b, p, kk); swap_c(b, p, kk);
    }
    return true;
bad:
    c.fail("pivot-range", "illegal pivot record"); return false;
}
static LMat gen_bk(Ctx &c, Mat &A, int n, int f, int &kind) { 
    Rng &r = c.rng; if (n < 2 || r.chance(85)) { kind = r.chance(20) ? GK_TINYPIV : pick_gk(c); return gen_sym(c, A, n, f, kind); }
    // a few huge elements off the diagonal, small diagonals: every element matters in the choice of the pivot
    kind = GK_TINYPIV; LMat a = gen_general(c, n, n, GK_UNI); LD big = powl(10.0L, r.range(2, 9)); int w = r.below(3), ns = r.range(1, 1 + n / 4);
    for (int i = 0; i < n; i++) if (w == 0 || (w == 1 && r.chance(50))) a(i, i) *= 1e-6L;
    for (int t = 0; t < ns; t++) { int i = r.below(n), j = r.below(n); if (r.chance(40)) i = r.chance(50) ? n - 1 : 0; if (r.chance(30)) j = i + (r.chance(50) ? 1 : -1); if (i != j && j >= 0 && j < n) a(i, j) = a(j, i) = big * (1 + r.u01()); }
    A.init(c, n, n, GEN_UNI); put_tri(A, symmetrize(a), f); A.save(); c.D("sym-spikes %s n=%d ld=%d", fl(f), n, A.step); return sym_of(A, f);
}
static int bk_run(Ctx &c, Mat &A, Piv &P, int f, Config &cf) {
    Rng &r = c.rng; int rc, n = A.r; if (r.chance(50)) return armas_bkfactor(&A, P, f, cf);
    armas_wbuf_t q = ARMAS_WBNULL; A.save(); rc = armas_bkfactor_w(&A, P, f, &q, cf); expect_ok(c, rc, cf); A.is_const(c, "A(query)"); size_t sz = q.bytes; if (!sz) { if (n) c.fail("query", "query returned no size"); return 0; }
    if (r.chance(30)) sz = 16 * (size_t)n + 8 * (size_t)r.range(0, 64 * n); c.D("work=%zu", sz); Work w(c, sz); rc = armas_bkfactor_w(&A, P, f, &w.w, cf); w.check(c); if (w.w.offset) c.fail("wpos", "workspace position not restored"); return rc;
}
static bool tame(int k) { return k == GK_UNI || k == GK_BLOCK || k == GK_NORMAL || k == GK_INT || k == GK_SCALEBIG || k == GK_SCALESMALL || k == GK_TINYPIV || k == GK_SVD; }
OP(bkfactor, 5) {
    Config cf(c); int n = ldim(c), f = triflag(c), kind; Mat A; LMat a = gen_bk(c, A, n, f, kind); Piv P(c, n); nt(c, n);
    int rc = bk_run(c, A, P, f, cf); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); P.guards(c); cf.check(c); if (!n) return; 
    LMat x, b; int two; expect_ok(c, rc, cf); if (!bk_expand(c, A, P, f, x, b, two)) return;
    LMat res = sub(a, x); within(c, "A-LDL'", res, add(b, a.abs()), 8 * n + 40);
    if (tame(kind)) within_norm(c, "A-LDL' growth", res.maxabs(), 2000.0L * n * EPSD * a.maxabs());
    c.obs("factorizations"); c.obs("two-by-two", two);
}
OP(bksolve, 4) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = triflag(c), nrhs = r.chance(30) ? 1 : r.range(0, 30), kind; Mat A; LMat a = gen_bk(c, A, n, f, kind); Piv P(c, n); Mat B; B.init(c, n, nrhs); B.save(); c.D("nrhs=%d ldb=%d", nrhs, B.step); nt(c, n);
    int rc = bk_run(c, A, P, f, cf); LMat x, b; int two; if (!n) return; expect_ok(c, rc, cf); if (!bk_expand(c, A, P, f, x, b, two)) return; if (rc != 0) { c.obs("skipped"); return; }
    for (int i = 0; i < n; i++) if (A.get(i, i) == 0 && P[i] > 0) { c.obs("zeropivot"); return; }
    A.save(); auto img = P.image(); if (r.chance(50)) rc = armas_bksolve(&B, &A, P, f, cf); else { armas_wbuf_t q = ARMAS_WBNULL; rc = armas_bksolve_w(&B, &A, P, f, &q, cf); B.is_const(c, "B(query)"); Work w(c, q.bytes + 8); rc = armas_bksolve_w(&B, &A, P, f, &w.w, cf); w.check(c); }
    expect_ok(c, rc, cf); A.is_const(c, "A"); B.only_outside(c, "B"); cf.check(c); if (img != P.image()) c.fail("changed:P", "solve changed the pivots"); if (!nrhs) return;
    LMat sx = LMat::of(B), bb = oldmat(B); for (LD v : sx.d) if (!std::isfinite((double)v)) { c.obs("overflow"); return; }
    within(c, "A*X-B", sub(mul(a, sx), bb), add(mul(add(b, a.abs()), sx.abs()), bb.abs()), 40 * n + 100);
    if (tame(kind)) within_norm(c, "A*X-B growth", sub(mul(a, sx), bb).maxabs(), 5000.0L * n * EPSD * (a.norm1() * sx.maxabs() + bb.maxabs()));
    c.obs("solves");
}
OP(sym_reject, 2) {
    Config cf(c); Rng &r = c.rng; int m = r.range(1, 20), n = r.range(1, 20), k = r.range(1, 6), f = triflag(c), w = r.below(7); if (m == n) n++; Mat A(c, m, n), B(c, r.range(1, 20), k); A.save(); int q = r.range(1, 12); Mat S(c, q, q); S.save(); if (B.r == q) { B.init(c, q + 1, k); } B.save(); c.D("%dx%d q=%d rhs=%dx%d which=%d", m, n, q, B.r, k, w); nt(c, 9);
    Piv P(c, std::max(m, n)), Pq(c, q, 1), Ps(c, q + 1, 1); int rc = 0;
    for (int i = 0; i < q; i++) { Pq.d[i + 4] = i + 1; S.at(i, i) = 3; } S.save();
    switch (w) {
    case 0: rc = armas_cholfactor(&A, ARMAS_NOPIVOT, f, cf); break; case 1: rc = armas_cholfactor(&A, P, f, cf); break; case 2: rc = armas_cholsolve(&B, &S, r.chance(50) ? ARMAS_NOPIVOT : (armas_pivot_t *)Pq, f, cf); break;
    case 3: rc = armas_ldlfactor(&A, r.chance(50) ? ARMAS_NOPIVOT : (armas_pivot_t *)P, f, cf); break; case 4: rc = armas_ldlsolve(&B, &S, r.chance(50) ? ARMAS_NOPIVOT : (armas_pivot_t *)Pq, f, cf); break; case 5: rc = armas_bkfactor(&A, P, f, cf); break; case 6: rc = armas_bksolve(&B, &S, Pq, f, cf); break; }
    c.tag = fmt("%d", w); if (rc >= 0) c.fail("accepted", "mismatched shapes accepted"); else { c.obs("rejections"); if (!cf.cf.error) c.fail("error-code", "no error recorded"); } A.is_const(c, "A"); B.is_const(c, "B"); S.is_const(c, "S");
}
