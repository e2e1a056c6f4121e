// LU factorization, solve, inverse, triangular inverse.
#include "lap.hpp"

static void nt(Ctx &c, int a, int b = 9) { c.nontrivial = a >= 2 && b >= 2; }
static LMat rowperm(const LMat &a, const Piv &P, int np) { LMat x(a); for (int k = 0; k < np; k++) swap_r(x, k, P[k] - 1); return x; }

// checks the record of a completed factorization; returns |L||U|
static bool check_lu(Ctx &c, const Mat &A, const Piv &P, LMat &L, LMat &U, LMat &PA, const LMat &a) {
    int m = A.r, n = A.c, k = std::min(m, n);
    for (int i = 0; i < k; i++) if (P[i] < i + 1 || P[i] > m) { c.fail("pivot-range", fmt("pivot %d is %d, rows %d", i, P[i], m)); return false; }
    L = lpart(A, m, k, true); U = upart(A, k, n);
    for (int j = 0; j < k; j++) for (int i = j + 1; i < m; i++) if (!(fabsl(L(i, j)) <= 1 + 4 * EPSD)) { c.fail("multiplier", fmt("multiplier (%d,%d) = %Lg", i, j, L(i, j))); return false; }
    PA = rowperm(a, P, k);
    within(c, "P*A-L*U", sub(PA, mul(L, U)), mul(L.abs(), U.abs()), k + 12);
    // pivot record is the one partial pivoting makes: |u_kk| >= every later candidate; implied by multipliers <= 1
    return true;
}
OP(lufactor, 6) {
    Config cf(c); int m = ldim(c), n = c.rng.chance(40) ? m : ldim(c); Mat A; LMat a = gen_mat(c, A, m, n), L, U, PA; int k = std::min(m, n); Piv P(c, k); nt(c, m, n);
    int rc = armas_lufactor(&A, P, cf); A.only_outside(c, "A"); P.guards(c); cf.check(c);
    if (!k) return;
    if (!check_lu(c, A, P, L, U, PA, a)) return;
    bool zero = false; for (int i = 0; i < k; i++) if (U(i, i) == 0) zero = true;
    if (zero && rc == 0) c.fail("singular-unreported", "an exactly zero pivot occurred but the factorization returned 0");
    if (!zero && rc != 0) c.fail("ret", fmt("returned %d without a zero pivot", rc));
    if (zero && rc < 0 && cf.cf.error == 0) c.fail("error-code", "failure without error code");
    c.obs("factorizations"); if (zero) c.obs("singular");
}
OP(lufactor_nopiv, 2) {
    Config cf(c); int m = ldim(c), n = c.rng.chance(50) ? m : ldim(c), k = std::min(m, n); Mat A; gen_mat(c, A, m, n, c.rng.pki({GK_UNI, GK_INT, GK_SPARSE, GK_SCALEBIG, GK_SCALESMALL}));
    // diagonally dominant by columns: no growth without interchanges
    for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += fabs(A.get(i, j)); if (j < m) A.at(j, j) = (c.rng.chance(50) ? 1 : -1) * (s + 1); }
    A.save(); LMat a = oldmat(A); nt(c, m, n);
    int rc = armas_lufactor(&A, ARMAS_NOPIVOT, cf); A.only_outside(c, "A"); cf.check(c); expect_ok(c, rc, cf); if (!k) return;
    LMat L = lpart(A, m, k, true), U = upart(A, k, n); within(c, "A-L*U", sub(a, mul(L, U)), mul(L.abs(), U.abs()), k + 12); c.obs("factorizations");
}
OP(lusolve, 5) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), nrhs = r.chance(30) ? 1 : r.range(0, 30); bool piv = r.chance(85), tr = r.chance(50);
    int kind = piv ? r.pki({GK_UNI, GK_NORMAL, GK_SVD, GK_TINYPIV, GK_GRADED, GK_SCALEBIG, GK_SCALESMALL, GK_BLOCK}) : GK_UNI;
    Mat A; LMat a = gen_mat(c, A, n, n, kind);
    if (!piv) { for (int j = 0; j < n; j++) A.at(j, j) = (r.chance(50) ? 1 : -1) * (n + 1.0); A.save(); a = oldmat(A); }
    Piv P(c, n); Mat B; B.init(c, n, nrhs); B.save(); c.D("nrhs=%d piv=%d trans=%d ldb=%d", nrhs, piv, tr, B.step); nt(c, n);
    int rc = armas_lufactor(&A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, cf); if (rc != 0) { c.obs("skipped"); return; }
    A.save(); auto img = P.image();
    rc = armas_lusolve(&B, &A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, tr ? ARMAS_TRANS : 0, cf); expect_ok(c, rc, cf);
    A.is_const(c, "A"); B.only_outside(c, "B"); cf.check(c); if (img != P.image()) c.fail("changed:P", "solve changed the pivots");
    if (!n || !nrhs) return;
    LMat L = lpart(A, n, n, true), U = upart(A, n, n), lu = mul(L.abs(), U.abs()); if (piv) for (int k = n - 1; k >= 0; k--) swap_r(lu, k, P[k] - 1);
    LMat b = oldmat(B), x = LMat::of(B); LMat op = tr ? a.T() : a, bb = tr ? lu.T() : lu;
    LMat bnd = add(mul(bb, x.abs()), b.abs()); within(c, "A*X-B", sub(mul(op, x), b), bnd, 4 * n + 20); c.obs("solves");
}
OP(luinverse, 4) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c); bool piv = r.chance(80); Mat A; LMat a = gen_mat(c, A, n, n, piv ? r.pki({GK_UNI, GK_NORMAL, GK_SVD, GK_TINYPIV, GK_SPARSE, GK_SCALEBIG, GK_SCALESMALL, GK_BLOCK}) : GK_UNI);
    if (!piv) { for (int j = 0; j < n; j++) A.at(j, j) = (r.chance(50) ? 1 : -1) * (n + 1.0); A.save(); a = oldmat(A); }
    Piv P(c, n); nt(c, n); int rc = armas_lufactor(&A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, cf); if (rc != 0) { c.obs("skipped"); return; }
    LMat L = lpart(A, n, n, true), U = upart(A, n, n); auto img = P.image();
    bool viawork = r.chance(50); cf.cf.error = 0; A.save();
    if (viawork) {
        armas_wbuf_t q = ARMAS_WBNULL; rc = armas_luinverse_w(&A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, &q, cf); expect_ok(c, rc, cf); A.is_const(c, "A(query)");
        if (n && q.bytes == 0) c.fail("query", "query returned no size"); size_t sz = q.bytes; 
        if (r.chance(30) && n) sz = (size_t)8 * n * r.range(1, 70); if (r.chance(20)) sz += 8 * r.below(100);
        c.D("work=%zu", sz); Work w(c, sz); rc = sz ? armas_luinverse_w(&A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, &w.w, cf) : 0; w.check(c); if (w.w.offset != 0) c.fail("wpos", "workspace position not restored");
    } else rc = armas_luinverse(&A, piv ? (armas_pivot_t *)P : ARMAS_NOPIVOT, cf);
    if (n) expect_ok(c, rc, cf); A.only_outside(c, "A"); cf.check(c); if (img != P.image()) c.fail("changed:P", "inverse changed the pivots");
    if (!n) return;
    // L*U*Y = I with Y = X*P^T; componentwise: |P*A*X' - I| <= c n eps |L||U||X'||L||L^-1|
    LMat x = LMat::of(A), li, ui; LMat xp(x); if (piv) for (int k = 0; k < n; k++) swap_c(xp, k, P[k] - 1);   // X*P^T
    if (!linv(L, li) || !linv(U, ui)) { c.obs("ill"); return; }
    LMat pa = piv ? rowperm(a, P, n) : a; LMat lu = mul(L.abs(), U.abs());
    // (blocks of U are inverted explicitly: another condition factor of U)
    LMat bnd = mul(mul(mul(mul(mul(lu, ui.abs()), U.abs()), xp.abs()), L.abs()), li.abs());
    within(c, "P*A*X-I", sub(mul(pa, xp), LMat::eye(n)), bnd, 6 * n + 30); c.obs("inverses");
}
OP(inverse_trm, 4) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c), f = r.pki({ARMAS_LOWER, ARMAS_UPPER}) | (r.chance(40) ? ARMAS_UNIT : 0); Mat A(c, n, n); solvable(c, A, f); if (!(f & ARMAS_UNIT) && r.chance(25)) { int e = r.range(-90, 90); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A.at(i, j) = std::ldexp(A.get(i, j), e); c.D("*2^%d", e); } poison_tri(A, f); A.save(); c.D("%s n=%d ld=%d", fl(f), n, A.step); nt(c, n);
    LMat t = tri(A, f); int rc = armas_inverse_trm(&A, f, cf); expect_ok(c, rc, cf); cf.check(c);
    A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f) && !(i == j && (f & ARMAS_UNIT)); });
    LMat x = tri(A, f), b = mul(mul(x.abs(), t.abs()), x.abs()); LMat ti; if (!n || !linv(t, ti)) return;
    b = add(b, mul(mul(ti.abs(), t.abs()), ti.abs())); within(c, "X-inv(T)", sub(x, ti), b, 3 * n + 20); c.obs("inverses");
}
OP(inverse_trm_singular, 1) {
    Config cf(c); Rng &r = c.rng; int n = ldim(c); if (n < 1) n = 1; int f = r.pki({ARMAS_LOWER, ARMAS_UPPER}); Mat A(c, n, n); solvable(c, A, f); int z = r.below(n); A.at(z, z) = 0; poison_tri(A, f); A.save(); c.D("%s n=%d zero=%d", fl(f), n, z); nt(c, n);
    int rc = armas_inverse_trm(&A, f, cf); if (rc >= 0) c.fail("singular-unreported", "inverse of an exactly singular triangular matrix returned success");
    A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); }); c.obs("singular");
}
OP(lusolve_reject, 1) {
    Config cf(c); Rng &r = c.rng; int n = r.range(1, 20), m = r.range(1, 20), k = r.range(1, 9), br = r.range(1, 20); if (n == m && br == n) br++; Mat A(c, m, n), B(c, br, k); A.save(); B.save(); Piv P(c, std::min(m, n), 1); c.D("%dx%d rhs %dx%d", m, n, br, k); nt(c, 9);
    int rc = armas_lusolve(&B, &A, P, 0, cf); if (rc >= 0) c.fail("accepted", "mismatched shapes accepted"); else c.obs("rejections"); A.is_const(c, "A"); B.is_const(c, "B"); if (!cf.cf.error) c.fail("error-code", "no error recorded");
}
