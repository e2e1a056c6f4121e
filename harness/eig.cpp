// Symmetric eigenvalue solvers. Oracle: Sturm counts in long double on an independently computed
// tridiagonal form, orthogonality and residual of the vectors.
#include "lap.hpp"

struct Tri { std::vector<LD> d, e; int n() const { return (int)d.size(); }
    LD norm() const { LD m = 0; int n = d.size(); for (int i = 0; i < n; i++) m = std::max(m, fabsl(d[i]) + (i ? fabsl(e[i - 1]) : 0) + (i + 1 < n ? fabsl(e[i]) : 0)); return m; } };
static int sturm(const Tri &t, LD x) {   // eigenvalues < x
    int n = t.n(), cnt = 0; LD q = 1, piv = 1e-4000L; LD nm = t.norm(); if (nm > 0) piv = nm * nm * 1e-80L;
    for (int i = 0; i < n; i++) { LD e2 = i ? t.e[i - 1] * t.e[i - 1] : 0; q = t.d[i] - x - (i ? e2 / q : 0); if (fabsl(q) < piv / (nm > 0 ? nm : 1)) q = -piv / (nm > 0 ? nm : 1); if (q < 0) cnt++; }
    return cnt;
}
static Tri tridiag(const LMat &a0) {      // Householder, long double
    LMat a(a0); int n = a.r; Tri t; t.d.resize(n); t.e.resize(std::max(0, n - 1)); std::vector<LD> v(n), w(n);
    for (int k = 0; k + 2 < n; k++) {
        LD mx = 0; for (int i = k + 2; i < n; i++) mx = std::max(mx, fabsl(a(i, k))); if (mx == 0) continue;
        LD s = 0; for (int i = k + 1; i < n; i++) s += a(i, k) * a(i, k); LD al = sqrtl(s); if (a(k + 1, k) > 0) al = -al; std::fill(v.begin(), v.end(), 0.0L); for (int i = k + 1; i < n; i++) v[i] = a(i, k); v[k + 1] -= al; LD vv = 0; for (auto x : v) vv += x * x; LD tau = 2 / vv;
        for (int i = 0; i < n; i++) { w[i] = 0; for (int j = k + 1; j < n; j++) w[i] += a(i, j) * v[j]; w[i] *= tau; } LD vw = 0; for (int i = 0; i < n; i++) vw += v[i] * w[i]; for (int i = 0; i < n; i++) w[i] -= tau / 2 * vw * v[i];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) -= v[i] * w[j] + w[i] * v[j];
    }
    for (int i = 0; i < n; i++) { t.d[i] = a(i, i); if (i + 1 < n) t.e[i] = a(i + 1, i); } return t;
}
// value v must be eigenvalue number k (ascending, 0-based) within tol
static bool check_eig(Ctx &c, const char *nm, const Tri &t, LD v, int k, LD tol) {
    if (std::isfinite((double)v) && sturm(t, v - tol) <= k && sturm(t, v + tol * (1 + 1e-10L) + 1e-300L) > k) { c.obs("eigenvalues"); return true; }
    LD lo = -t.norm() * 1.1L - 1e-300L, hi = -lo; for (int i = 0; i < 200; i++) { LD m = (lo + hi) / 2; if (sturm(t, m) > k) hi = m; else lo = m; }
    c.fail(std::string("value:") + nm, fmt("%s: eigenvalue %d of %d is %.17Lg, returned %.17Lg (error %.3Lg, tolerance %.3Lg)", nm, k, t.n(), hi, v, fabsl(v - hi), tol)); return false;
}
static void check_all(Ctx &c, const Tri &t, const Mat &D, LD tol) {
    int n = t.n(); for (int k = 0; k + 1 < n; k++) if (!(D.getv(k) <= D.getv(k + 1))) { c.fail("order", fmt("eigenvalues %d,%d not ascending: %.17g %.17g", k, k + 1, D.getv(k), D.getv(k + 1))); return; }
    for (int k = 0; k < n; k++) if (!check_eig(c, "D", t, D.getv(k), k, tol)) return;
}
static const char *tk[] = {"rand", "zero", "diag", "split", "toeplitz", "wilkinson", "graded", "clustered", "zerodiag", "big", "small", "int", "glued", "tinyoff", "ident"};
static Tri gen_tri(Ctx &c, int n) {
    Rng &r = c.rng; int k = r.chance(40) ? 0 : r.below(15); Tri t; t.d.resize(n); t.e.resize(std::max(0, n - 1)); c.D("tri-%s n=%d", tk[k], n);
    for (auto &x : t.d) x = r.uni(); for (auto &x : t.e) x = r.uni(); int e = r.range(1, 6); bool rev = r.chance(50); double cl = pow(10, -r.range(2, 15));
    for (int i = 0; i < n; i++) { LD &d = t.d[i], dummy = 0, &f = i + 1 < n ? t.e[i] : dummy; LD s = powl(10.0L, -e * (LD)(rev ? n - 1 - i : i) / std::max(1, n));
        switch (k) { case 1: d = f = 0; break; case 2: f = 0; break; case 3: if (r.chance(30)) f = 0; if (r.chance(10)) d = 0; break; case 4: d = 2; f = -1; break; case 5: d = fabsl(i - (n - 1) / 2.0L); f = 1; break; case 6: d *= s * s; f *= s * s; break;
        case 7: d = 1 + cl * d; f *= cl; break; case 8: d = 0; break; case 9: d *= 1e60; f *= 1e60; break; case 10: d *= 1e-60; f *= 1e-60; break; case 11: d = r.range(-3, 3); f = r.range(-2, 2); break; case 12: d = fabsl(i % 9 - 4.0L); f = i % 9 == 8 ? cl : 1; break; case 13: f *= cl * 1e-4; break; case 14: d = 1; f = 0; } }
    for (auto &x : t.d) x = (double)x; for (auto &x : t.e) x = (double)x; return t;
}
static void put_v(Mat &m, const std::vector<LD> &v) { for (size_t i = 0; i < v.size(); i++) m.v(i) = (double)v[i]; m.save(); }
static int edim(Ctx &c, int big) { int n = c.rng.chance(40) ? c.rng.range(1, 12) : pick_size(c, big); return n < 1 ? 1 : n; }
static LMat tri_mat(const Tri &t) { int n = t.n(); LMat a(n, n); for (int i = 0; i < n; i++) { a(i, i) = t.d[i]; if (i + 1 < n) a(i + 1, i) = a(i, i + 1) = t.e[i]; } return a; }
static void check_vec(Ctx &c, const LMat &a, const Mat &D, const Mat &V, double tolm) {
    int n = a.r; LMat v = LMat::of(V); within_norm(c, "V^T*V-I", orth_defect(v), (30 + 8 * n) * EPSD);
    LMat r = mul(a, v); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) r(i, j) -= v(i, j) * D.getv(j); LD nr = a.frob(); LMat b(n, n); for (auto &x : b.d) x = nr; within(c, "A*V-V*D", r, b, 30 + 8 * n + tolm); c.obs("vectors", n);
}

OP(trdeigen, 8) {
    Config cf(c); Rng &r = c.rng; int n = edim(c, c.tier ? 200 : 120); Tri t = gen_tri(c, n); Mat D, E; mkvec(c, D, n, GEN_UNI, "D"); mkvec(c, E, n - 1, GEN_UNI, "E"); put_v(D, t.d); put_v(E, t.e); c.nontrivial = n >= 3;
    int tm = 0; if (r.chance(15)) cf.cf.tolmult = tm = r.pki({1, 5, 100, 10000}); int f = r.chance(20) ? ARMAS_FORWARD : 0; c.D("tolmult=%d f=%d", tm, f); Mat V(c, n, n, GEN_UNI); V.save();
    int rc = r.chance(30) ? armas_trdeigen(D, E, r.chance(50) ? (armas_dense_t *)0 : (armas_dense_t *)V, f, cf) : armas_trdeigen_w(D, E, 0, f, ARMAS_NOWORK, cf);
    if (rc < 0 && cf.cf.error == ARMAS_ECONVERGE) { c.fail("converge", "no convergence"); return; }
    expect_ok(c, rc, cf); D.only_outside(c, "D"); E.only_outside(c, "E"); V.is_const(c, "V"); cf.check(c); check_all(c, t, D, (20 + 4 * n + tm * 2.0L * n) * EPSD * t.norm() + 1e-300L);
}
OP(trdeigen_vec, 8) {
    Config cf(c); Rng &r = c.rng; int n = edim(c, c.tier ? 120 : 70); Tri t = gen_tri(c, n); Mat D, E; mkvec(c, D, n, GEN_UNI, "D"); mkvec(c, E, n - 1, GEN_UNI, "E"); put_v(D, t.d); put_v(E, t.e); c.nontrivial = n >= 3;
    int tm = 0; if (r.chance(15)) cf.cf.tolmult = tm = r.pki({1, 5, 100}); int f = ARMAS_WANTV | (r.chance(20) ? ARMAS_FORWARD : 0); bool id = r.chance(50); c.D("tolmult=%d f=%x %s", tm, f, id ? "I" : "Q"); LMat q = LMat::eye(n); if (!id) for (int k = 0; k < 3; k++) rand_reflect_left(r, q);
    Mat V(c, n, n, GEN_UNI); put(V, q); V.save(); q = oldmat(V);
    int rc = run_ws(c, cf, 2 * n, [&](armas_wbuf_t *w) { return armas_trdeigen_w(D, E, V, f, w, cf); }, [&] { return armas_trdeigen(D, E, V, f, cf); });
    if (rc < 0 && cf.cf.error == ARMAS_ECONVERGE) { c.fail("converge", "no convergence"); return; }
    expect_ok(c, rc, cf); D.only_outside(c, "D"); E.only_outside(c, "E"); V.only_outside(c, "V"); cf.check(c); check_all(c, t, D, (20 + 4 * n + tm * 2.0L * n) * EPSD * t.norm() + 1e-300L);
    LMat a = mul(mul(q, tri_mat(t)), q.T()); check_vec(c, a, D, V, tm * 2.0 * n);
}
OP(eigen_sym, 10) {
    Config cf(c); Rng &r = c.rng; int n = edim(c, c.tier ? 110 : 60), f = r.pki({ARMAS_LOWER, ARMAS_UPPER, 0}); bool wv = r.chance(60); Mat A; LMat a = gen_sym(c, A, n, f ? f : ARMAS_LOWER); Mat D; mkvec(c, D, n, GEN_UNI, "D"); for (int i = 0; i < n; i++) D.v(i) = poison(i + 3); D.save(); c.nontrivial = n >= 3; c.D("wantv=%d", wv); int ff = f | (wv ? ARMAS_WANTV : 0);
    int rc = run_ws(c, cf, 3 * n, [&](armas_wbuf_t *w) { return armas_eigen_sym_w(D, A, ff, w, cf); }, [&] { return armas_eigen_sym(D, A, ff, cf); });
    if (rc < 0 && cf.cf.error == ARMAS_ECONVERGE) { c.fail("converge", "no convergence"); return; }
    expect_ok(c, rc, cf); D.only_outside(c, "D"); if (wv) A.only_outside(c, "A"); else A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f ? f : ARMAS_LOWER); }); cf.check(c);
    if (rc) return; Tri t = tridiag(a); check_all(c, t, D, (40 + 8 * n) * EPSD * a.frob() + 1e-300L); if (wv) check_vec(c, a, D, A, 0);
}
static armas_eigen_parameter_t gen_par(Ctx &c, const Tri &t, int &k0, int &k1, int &mode, LD &tau) {
    Rng &r = c.rng; int n = t.n(); armas_eigen_parameter_t p = {-1, -1, 0, 0, 0}; mode = r.below(4); LD nm = t.norm(); k0 = 0; k1 = n; tau = 0;
    if (mode == 1) { k0 = r.below(n); k1 = r.range(k0 + 1, n); p.ileft = k0; p.iright = k1; if (r.chance(20)) { p.iright += r.below(3); k1 = std::min(n, p.iright); } }
    if (mode == 2) { double a = r.uni() * (double)nm, b = r.uni() * (double)nm; if (a > b) std::swap(a, b); p.ileft = p.iright = 0; p.left = a; p.right = b; }
    if (r.chance(25)) { tau = p.tau = (double)(nm * powl(10.0L, -(LD)r.range(2, 16))); }
    c.D("mode=%d [%d,%d) (%g,%g) tau=%g", mode, p.ileft, p.iright, p.left, p.right, p.tau); return p;
}
// absolute positions k0..k1-1 of Y hold eigenvalues k0..k1-1, the rest is unchanged
static void check_sel(Ctx &c, const Tri &t, Mat &Y, int mode, const armas_eigen_parameter_t &p, int k0, int k1, LD tol) {
    int n = t.n();
    if (mode == 2) { int a0 = sturm(t, p.left - tol), a1 = sturm(t, p.left + tol), b0 = sturm(t, p.right - tol), b1 = sturm(t, p.right + tol); k0 = a1; k1 = b0; (void)a0;
        for (int i = 0; i < n; i++) if ((i < a0 || i >= b1) && !bits_eq(Y.getv(i), Y.oldv(i))) { c.fail("outside-range", fmt("Y[%d] set but that eigenvalue is outside the requested range", i)); return; } }
    else for (int i = 0; i < n; i++) if ((i < k0 || i >= k1) && !bits_eq(Y.getv(i), Y.oldv(i))) { c.fail("outside-range", fmt("Y[%d] set but not requested", i)); return; }
    for (int k = k0; k < k1; k++) { if (!check_eig(c, "Y", t, Y.getv(k), k, tol)) return; if (k > k0 && !(Y.getv(k) >= Y.getv(k - 1) - tol)) { c.fail("order", "selected eigenvalues not ascending"); return; } }
    c.obs("selected", std::max(0, k1 - k0));
}
OP(trdbisect, 7) {
    Config cf(c); Rng &r = c.rng; int n = edim(c, c.tier ? 100 : 50); Tri t = gen_tri(c, n); Mat D, E, Y; mkvec(c, D, n, GEN_UNI, "D"); mkvec(c, E, n - 1, GEN_UNI, "E"); mkvec(c, Y, n, GEN_UNI, "Y"); put_v(D, t.d); put_v(E, t.e); for (int i = 0; i < n; i++) Y.v(i) = poison(i + 9); Y.save(); c.nontrivial = n >= 2;
    int k0, k1, mode; LD tau; auto p = gen_par(c, t, k0, k1, mode, tau); int rc = armas_trdbisect(Y, D, E, mode == 3 ? (armas_eigen_parameter_t *)0 : &p, cf); if (mode == 3) tau = 0;
    expect_ok(c, rc, cf); D.is_const(c, "D"); E.is_const(c, "E"); Y.only_outside(c, "Y"); cf.check(c); if (rc) return;
    check_sel(c, t, Y, mode, p, k0, k1, (20 + 4 * n) * EPSD * t.norm() + tau * 1.01L + 1e-300L);
}
OP(eigen_sym_sel, 6) {
    Config cf(c); Rng &r = c.rng; int n = edim(c, c.tier ? 80 : 45), f = r.pki({ARMAS_LOWER, ARMAS_UPPER, 0}); Mat A; LMat a = gen_sym(c, A, n, f ? f : ARMAS_LOWER); Mat D; mkvec(c, D, n, GEN_UNI, "D"); for (int i = 0; i < n; i++) D.v(i) = poison(i + 3); D.save(); c.nontrivial = n >= 2;
    Tri t = tridiag(a); int k0, k1, mode; LD tau; auto p = gen_par(c, t, k0, k1, mode, tau); armas_eigen_parameter_t *pp = mode == 3 ? (armas_eigen_parameter_t *)0 : &p; if (mode == 3) tau = 0;
    int rc = run_ws(c, cf, 2 * n, [&](armas_wbuf_t *w) { return armas_eigen_sym_selected_w(D, A, pp, f, w, cf); }, [&] { return armas_eigen_sym_selected(D, A, pp, f, cf); });
    expect_ok(c, rc, cf); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f ? f : ARMAS_LOWER); }); D.only_outside(c, "D"); cf.check(c); if (rc) return;
    check_sel(c, t, D, mode, p, k0, k1, (60 + 12 * n) * EPSD * a.frob() + tau * 1.01L + 1e-300L);
}
// D + rho*z*z^T with D strictly increasing, z free of negligible entries
OP(trdsec, 7) {
    Config cf(c); Rng &r = c.rng; int n = edim(c, c.tier ? 90 : 50); int kind = r.below(4); std::vector<LD> d(n), z(n); LD x = r.uni() * 2; double gap = pow(10, -r.range(0, kind == 1 ? 8 : 3));
    for (int i = 0; i < n; i++) { d[i] = (double)x; x += (kind == 2 && r.chance(50) ? 1e-7L : 1) * gap * (0.1L + r.u01()); z[i] = (kind == 3 ? powl(10.0L, -(LD)r.range(0, 6)) : 1) * (r.chance(50) ? -1 : 1) * (0.05L + r.u01()); }
    LD s = 0; for (auto v : z) s += v * v; for (auto &v : z) v = (double)(v / sqrtl(s)); double rho = pow(10, r.uni() * 3); Mat D, Z, Y, dl; mkvec(c, D, n, GEN_UNI, "D"); mkvec(c, Z, n, GEN_UNI, "z"); mkvec(c, Y, n, GEN_UNI, "y"); mkvec(c, dl, n, GEN_UNI, "delta"); put_v(D, d); put_v(Z, z); Y.save(); dl.save(); c.nontrivial = n >= 2; c.D("kind=%d gap=%g rho=%g n=%d", kind, gap, rho, n);
    LMat a(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a(i, j) = (i == j ? d[i] : 0) + rho * z[i] * z[j]; LD nm = std::max(fabsl(d[0]), fabsl(d[n - 1])) + rho; Tri t = tridiag(a); LD tol = (100 + 10 * n) * EPSD * nm;
    if (r.chance(40)) { int rc = armas_trdsec_solve(Y, D, Z, dl, rho, cf); if (rc < 0 && cf.cf.error == ARMAS_ECONVERGE) { c.fail("converge", fmt("rc %d", rc)); return; } expect_ok(c, rc, cf); D.is_const(c, "D"); Z.is_const(c, "z"); Y.only_outside(c, "y"); dl.only_outside(c, "delta"); if (!rc) for (int k = 0; k < n; k++) if (!check_eig(c, "y", t, Y.getv(k), k, tol)) return; return; }
    Mat V, Q(c, n, n, GEN_UNI), Q2(c, n, n, GEN_UNI); mkvec(c, V, n, GEN_UNI, "v"); V.save(); Q.save(); Q2.save(); int m = r.below(3); c.D("vec mode=%d", m);
    int rc = armas_trdsec_solve_vec(Y, V, m == 1 ? Q2 : Q, D, Z, rho, cf); if (rc < 0 && cf.cf.error == ARMAS_ECONVERGE) { c.fail("converge", fmt("rc %d", rc)); return; } expect_ok(c, rc, cf); if (rc) return;
    if (m == 1) Q2.save(); V.save(); rc = armas_trdsec_eigen(Q, V, m == 1 ? (armas_dense_t *)Q2 : m == 0 ? (armas_dense_t *)Q : (armas_dense_t *)0, cf); expect_ok(c, rc, cf); D.is_const(c, "D"); Z.is_const(c, "z"); V.is_const(c, "v"); if (m == 1) Q2.is_const(c, "Qd"); Y.only_outside(c, "y"); Q.only_outside(c, "Q"); cf.check(c); if (rc) return;
    for (int k = 0; k < n; k++) if (!check_eig(c, "y", t, Y.getv(k), k, tol)) return;
    LMat v = LMat::of(Q); within_norm(c, "Q^T*Q-I", orth_defect(v), (100 + 20 * n) * EPSD); LMat rs = mul(a, v); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) rs(i, j) -= v(i, j) * Y.getv(j); LMat b(n, n); for (auto &y : b.d) y = nm; within(c, "A*Q-Q*Y", rs, b, 200 + 20 * n); c.obs("secular", n);
}
OP(eig_reject, 3) {
    Config cf(c); Rng &r = c.rng; int what = r.below(9), n = r.range(3, 20), rc = 0, f = r.pki({ARMAS_LOWER, ARMAS_UPPER}); c.D("what=%d n=%d", what, n); c.nontrivial = true;
    switch (what) {
    case 0: { Mat A(c, n, n + 1), D(c, n, 1); A.save(); D.save(); rc = armas_eigen_sym(D, A, f, cf); A.is_const(c, "A"); D.is_const(c, "D"); break; }
    case 1: { Mat A(c, n, n), D(c, n + r.pki({-1, 1}), 1); A.save(); D.save(); rc = armas_eigen_sym(D, A, f | ARMAS_WANTV, cf); A.is_const(c, "A"); D.is_const(c, "D"); break; }
    case 2: { Mat D(c, n, 1), E(c, n + r.pki({0, -2}), 1); D.save(); E.save(); rc = armas_trdeigen(D, E, 0, 0, cf); D.is_const(c, "D"); E.is_const(c, "E"); break; }
    case 3: { Mat D(c, n, 1), E(c, n - 1, 1), V(c, n, n + 1); D.save(); E.save(); V.save(); rc = armas_trdeigen(D, E, V, ARMAS_WANTV, cf); D.is_const(c, "D"); V.is_const(c, "V"); break; }
    case 4: { Mat D(c, n, 1), E(c, n - 1, 1), V(c, n, n); D.save(); E.save(); V.save(); Work w(c, 8 * (2 * n - 1)); rc = armas_trdeigen_w(D, E, V, ARMAS_WANTV, &w.w, cf); w.check(c); D.is_const(c, "D"); V.is_const(c, "V"); break; }
    case 5: { Mat A(c, n, n), D(c, n, 1); A.save(); D.save(); Work w(c, 8 * (3 * n - 1)); rc = armas_eigen_sym_w(D, A, f, &w.w, cf); w.check(c); A.is_const(c, "A"); D.is_const(c, "D"); break; }
    case 6: { Mat A(c, n, n + 1), D(c, n, 1); A.save(); D.save(); rc = armas_eigen_sym_selected(D, A, ARMAS_EIGEN_ALL, f, cf); A.is_const(c, "A"); D.is_const(c, "D"); break; }
    case 7: { Mat d(c, n, 1), z(c, n + 1, 1), y(c, n, 1), dl(c, n, 1); y.save(); rc = armas_trdsec_solve(y, d, z, dl, 1.0, cf); y.is_const(c, "y"); break; }
    default: { Mat Y(c, n - 1, 1), D(c, n, 1), E(c, n - 1, 1); Y.save(); D.save(); E.save(); rc = armas_trdbisect(Y, D, E, 0, cf); Y.only_outside(c, "Y"); D.is_const(c, "D"); } }
    if (rc >= 0) c.fail(fmt("accepted%d", what), "invalid arguments accepted"); else { c.obs("rejections"); if (!cf.cf.error) c.fail("error-code", "no error code recorded"); }
}
