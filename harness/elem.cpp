// Elementary transformations: rotations, reflectors, butterflies, diagonal scaling, quadratic roots.
// Oracle: the dense transformation built in long double from its definition.
#include "lap.hpp"
extern "C" {
int armas_house_vec(armas_dense_t *, armas_dense_t *, int, armas_conf_t *);
void armas_bdsvd2x2_vec(double *, double *, double *, double *, double *, double *, double, double, double);
double armas_bdsvd2x2(double *, double *, double, double, double);
void armas_sym_eigen2x2(double *, double *, double, double, double);
void armas_sym_eigen2x2vec(double *, double *, double *, double *, double, double, double);
}
static int edim_small(Ctx &c) { int n = c.rng.chance(50) ? c.rng.range(1, 14) : pick_size(c, 60); return n < 1 ? 1 : n; }
static double wide(Rng &r, int lo, int hi) { double m = 1 + r.u01(); return (r.chance(50) ? -m : m) * pow(10.0, r.range(lo, hi)); }
static LD nrm(const std::vector<LD> &x) { LD m = 0, s = 0; for (auto v : x) m = std::max(m, fabsl(v)); if (m == 0) return 0; for (auto v : x) s += (v / m) * (v / m); return m * sqrtl(s); }

OP(gvcompute, 8) {
    Rng &r = c.rng; c.nontrivial = true; int bad = 0;
    for (int k = 0; k < 40; k++) {
        double a, b, cs, sn, rr; int w = r.below(6); a = w < 3 ? r.uni() : wide(r, -150, 150); b = w < 2 ? r.uni() : w == 5 ? a * wide(r, -17, 17) : wide(r, -150, 150); if (r.chance(6)) a = 0; if (r.chance(6)) b = 0; if (r.chance(6)) b = r.chance(50) ? a : -a;
        armas_gvcompute(&cs, &sn, &rr, a, b); LD h = nrm({a, b}); const LD t = 16 * EPSD;
        if (!(fabsl((LD)cs * cs + (LD)sn * sn - 1) <= t)) { c.fail("unit", fmt("a=%.17g b=%.17g c=%.17g s=%.17g", a, b, cs, sn)); bad = 1; }
        if (!(fabsl((LD)cs * a + (LD)sn * b - rr) <= t * h)) { c.fail("r", fmt("a=%.17g b=%.17g c=%.17g s=%.17g r=%.17g", a, b, cs, sn, rr)); bad = 1; }
        if (!(fabsl((LD)cs * b - (LD)sn * a) <= t * h)) { c.fail("zero", fmt("a=%.17g b=%.17g c=%.17g s=%.17g r=%.17g", a, b, cs, sn, rr)); bad = 1; }
        if (!(fabsl(fabsl((LD)rr) - h) <= t * h)) { c.fail("r-size", fmt("a=%.17g b=%.17g r=%.17g", a, b, rr)); bad = 1; }
        double y0 = r.uni(), y1 = r.uni(), v0, v1; armas_gvrotate(&v0, &v1, cs, sn, y0, y1);
        if (!(fabsl(v0 - ((LD)cs * y0 + (LD)sn * y1)) <= t && fabsl(v1 - ((LD)cs * y1 - (LD)sn * y0)) <= t)) { c.fail("rotate", "gvrotate"); bad = 1; }
        if (bad) return;
    }
    c.obs("rotations", 40);
}
static void rot(Rng &r, double &cs, double &sn) { int w = r.below(8); double t = r.uni() * M_PI; cs = w == 0 ? 1 : w == 1 ? 0 : cos(t); sn = w == 0 ? 0 : w == 1 ? 1 : sin(t); }
OP(gvrot_vec, 4) {
    Rng &r = c.rng; int n = edim_small(c); c.D("n=%d", n); Mat X, Y; mkvec(c, X, n, GEN_UNI, "X"); mkvec(c, Y, n, GEN_UNI, "Y"); X.save(); Y.save(); double cs, sn; rot(r, cs, sn); c.nontrivial = n > 1;
    armas_gvrot_vec(X, Y, cs, sn); X.only_outside(c, "X"); Y.only_outside(c, "Y");
    for (int i = 0; i < n; i++) { LD x = X.oldv(i), y = Y.oldv(i); if (!(fabsl(X.getv(i) - (cs * x + sn * y)) <= 8 * EPSD && fabsl(Y.getv(i) - (cs * y - sn * x)) <= 8 * EPSD)) { c.fail("value", fmt("element %d of %d", i, n)); return; } }
    c.obs("rotated-elements", n);
}
OP(gvleftright, 8) {     // clipped to the matrix
    Rng &r = c.rng; int m = 1 + edim_small(c), n = 1 + edim_small(c); Mat A(c, m, n, GEN_UNI); A.save(); bool left = r.chance(50); int d1 = left ? m : n, d2 = left ? n : m; int a = r.below(d1), b = r.chance(10) ? a : r.below(d1), st = r.chance(10) ? d2 + r.below(3) : r.below(d2), cnt = r.chance(30) ? d2 + r.below(5) : r.below(d2 + 1);
    double cs, sn; rot(r, cs, sn); c.D("%s %dx%d %d,%d from %d count %d", left ? "left" : "right", m, n, a, b, st, cnt); c.nontrivial = a != b && cnt;
    if (left) armas_gvleft(A, cs, sn, a, b, st, cnt); else armas_gvright(A, cs, sn, a, b, st, cnt);
    int end = std::min(d2, st + cnt); auto in = [&](int i, int j) { int x = left ? i : j, y = left ? j : i; return (x == a || x == b) && y >= st && y < end; };
    A.untouched(c, "A", in); LMat x = oldmat(A), g = LMat::of(A), bb(m, n);
    for (int k = st; k < end; k++) { LD &p = left ? x(a, k) : x(k, a), &q = left ? x(b, k) : x(k, b); if (a == b) { p *= cs; continue; } LD t = cs * p + sn * q; q = cs * q - sn * p; p = t; }
    for (auto &z : bb.d) z = 1; for (size_t i = 0; i < x.d.size(); i++) x.d[i] = g.d[i] - x.d[i]; within(c, "A", x, bb, 8); c.obs("plane-rotations");
}
OP(gvupdate, 10) {
    Rng &r = c.rng; int m = 1 + edim_small(c), n = 1 + edim_small(c); Mat A(c, m, n, GEN_UNI); A.save(); bool left = r.chance(50), back = r.chance(50); int d = left ? m : n, st = r.below(d), most = d - 1 - st; int nr = r.chance(25) ? most + 1 + r.below(4) : r.below(most + 1);
    Mat C, S; mkvec(c, C, std::max(nr, 1), GEN_UNI, "C"); mkvec(c, S, std::max(nr, 1), GEN_UNI, "S"); for (int k = 0; k < nr; k++) { double a, b; rot(r, a, b); C.v(k) = a; S.v(k) = b; } C.save(); S.save();
    c.D("%s %s %dx%d start=%d nrot=%d", left ? "left" : "right", back ? "backward" : "forward", m, n, st, nr); c.nontrivial = nr > 0; int fit = std::min(nr, most);
    int rc = armas_gvupdate(A, st, C, S, nr, (left ? ARMAS_LEFT : ARMAS_RIGHT) | (back ? ARMAS_BACKWARD : r.pki({0, ARMAS_FORWARD}))); C.is_const(c, "C"); S.is_const(c, "S");
    A.untouched(c, "A", [&](int i, int j) { int x = left ? i : j; return fit > 0 && x >= st && x <= st + fit; }); LMat x = oldmat(A), g = LMat::of(A), bb(m, n);
    for (int q = 0; q < fit; q++) { int k = back ? fit - 1 - q : q; LD cs = C.getv(k), sn = S.getv(k); for (int j = 0; j < (left ? n : m); j++) { LD &p = left ? x(st + k, j) : x(j, st + k), &s = left ? x(st + k + 1, j) : x(j, st + k + 1); LD t = cs * p + sn * s; s = cs * s - sn * p; p = t; } }
    for (auto &z : bb.d) z = sqrt((double)std::max(m, n)); for (size_t i = 0; i < x.d.size(); i++) x.d[i] = g.d[i] - x.d[i]; within(c, "A", x, bb, 20 + 8 * fit); if (nr <= most && rc != nr) c.fail("count", fmt("returned %d of %d rotations", rc, nr)); c.obs("rotation-sequences"); if (nr > most) c.obs("clipped-sequences");
}
// a vector [alpha; x] of given character
static double hvec(Ctx &c, Mat &X, int n, double amin, double sc) {
    Rng &r = c.rng; mkvec(c, X, n, GEN_UNI, "x"); int w = r.below(8); double a = r.uni();
    for (int i = 0; i < n; i++) X.v(i) = w == 0 ? 0 : w == 1 ? (i == n - 1 ? 1 : 0) : w == 2 ? X.getv(i) * pow(10.0, r.range(-8, 8)) : X.getv(i); if (w == 3) a = 0; if (w == 4) a *= 1e8; if (w == 5) a *= 1e-8; if (w == 6) a *= amin;
    if (r.chance(8)) a = 0; for (int i = 0; i < n; i++) X.v(i) = X.getv(i) * sc; a *= sc; c.D("x-%d n=%d scale=%g alpha=%g", w, n, sc, a); X.save(); return a;
}
static const char *hf(int f) { static thread_local char b[64]; snprintf(b, 64, "%s%s%s", f & ARMAS_UNIT ? "unit " : "", f & ARMAS_NONNEG ? "nonneg " : "", f & ARMAS_HHNEGATIVE ? "negative" : ""); return b; }
OP(house, 12) {
    Config cf(c); Rng &r = c.rng; int n = r.chance(10) ? 0 : edim_small(c); int f = (r.chance(60) ? ARMAS_UNIT : 0) | (r.chance(50) ? ARMAS_NONNEG : 0); if ((f & ARMAS_UNIT) && r.chance(30)) f |= ARMAS_HHNEGATIVE;
    double sc = r.chance(60) ? 1 : pow(10.0, (f & ARMAS_UNIT) ? r.range(-285, 140) : r.range(-140, 140)); Mat X, A(c, 1, 1, GEN_UNI), T(c, 1, 1, GEN_UNI); double al = hvec(c, X, n, 1, sc); A.at(0, 0) = al; A.save(); T.save(); c.D("%s", hf(f)); c.nontrivial = n > 0;
    std::vector<LD> x(n + 1), v(n + 1); x[0] = al; for (int i = 0; i < n; i++) x[i + 1] = X.oldv(i); LD h = nrm(x), nx = nrm(std::vector<LD>(x.begin() + 1, x.end())); if (h > 0 && h < 1e-290L) return;
    if (nx > 0 && nx < 1e-140L * h) return;      // v or tau would leave the range of double
    int rc = armas_house(A, X, T, f, cf); expect_ok(c, rc, cf); X.only_outside(c, "x"); A.only_outside(c, "a11"); T.only_outside(c, "tau"); cf.check(c); if (rc) return;
    LD beta, tau; if (f & ARMAS_UNIT) { beta = A.get(0, 0); tau = T.get(0, 0); v[0] = 1; } else { beta = T.get(0, 0); tau = 2; v[0] = A.get(0, 0); } for (int i = 0; i < n; i++) v[i + 1] = X.getv(i);
    if ((f & ARMAS_NONNEG) && !(beta >= 0)) { c.fail("nonneg", fmt("beta = %Lg", beta)); return; }
    LD vv = 0, vx = 0, t = (40 + 4 * n) * EPSD; for (int i = 0; i <= n; i++) { vv += v[i] * v[i]; vx += v[i] * x[i]; }
    bool ident = tau == 0 || vv == 0; if (!ident && !(fabsl(tau * vv - 2) <= 8 * t)) { c.fail("orthogonal", fmt("tau*v'v = %.17Lg", tau * vv)); return; }
    if (!(fabsl(fabsl(beta) - h) <= t * h)) { c.fail("beta", fmt("beta=%.17Lg norm=%.17Lg", beta, h)); return; }
    LD want = (f & ARMAS_HHNEGATIVE) ? -beta : beta; for (int i = 0; i <= n; i++) { LD y = x[i] - (ident ? 0 : tau * v[i] * vx); if (!(fabsl(y - (i ? 0 : want)) <= 8 * t * h)) { c.fail("image", fmt("(Hx)[%d] = %.17Lg, expected %.17Lg (norm %Lg)", i, y, i ? 0 : want, h)); return; } }
    c.obs("reflectors"); if (nx == 0) c.obs("reflectors-degenerate");
}
OP(house_vec, 3) {      // the same through the entry taking the whole vector
    Config cf(c); Rng &r = c.rng; int n = edim_small(c); int f = (r.chance(60) ? ARMAS_UNIT : 0) | (r.chance(50) ? ARMAS_NONNEG : 0); Mat X, T(c, 1, 1, GEN_UNI); (void)hvec(c, X, n, 1, 1); T.save(); c.D("%s", hf(f)); c.nontrivial = n > 1;
    std::vector<LD> x(n), v(n); for (int i = 0; i < n; i++) x[i] = X.oldv(i); LD h = nrm(x); int rc = armas_house_vec(X, T, f, cf); expect_ok(c, rc, cf); X.only_outside(c, "x"); T.only_outside(c, "tau"); if (rc) return;
    LD beta, tau; for (int i = 0; i < n; i++) v[i] = X.getv(i); if (f & ARMAS_UNIT) { beta = v[0]; tau = T.get(0, 0); v[0] = 1; } else { beta = T.get(0, 0); tau = 2; }
    LD vx = 0, t = (40 + 4 * n) * EPSD; for (int i = 0; i < n; i++) vx += v[i] * x[i]; if ((f & ARMAS_NONNEG) && !(beta >= 0)) c.fail("nonneg", fmt("beta = %Lg", beta));
    for (int i = 0; i < n; i++) { LD y = x[i] - tau * v[i] * vx; if (!(fabsl(y - (i ? 0 : beta)) <= 8 * t * h)) { c.fail("image", fmt("(Hx)[%d] = %.17Lg beta=%.17Lg", i, y, beta)); return; } }
    c.obs("reflectors");
}
// X - tau v (v' X) from left or its mirror
static LMat reflL(const LMat &x, LD tau, const std::vector<LD> &v) { LMat y(x); for (int j = 0; j < x.c; j++) { LD s = 0; for (int i = 0; i < x.r; i++) s += v[i] * x(i, j); s *= tau; for (int i = 0; i < x.r; i++) y(i, j) -= s * v[i]; } return y; }
static LD colnorm_bound(const std::vector<LD> &v, LD tau, const LMat &x) { LD vv = 0; for (auto a : v) vv += a * a; return (1 + fabsl(tau) * vv) * x.frob(); }
// reflector with a unit first element and all others far larger or smaller: tau is far from one
static void scaled_reflector(Ctx &c, Mat &V, Mat &T, int n, bool hyp) {
    int e = c.rng.range(hyp ? 8 : -60, 300); LD s = 1; for (int i = 0; i < n; i++) { V.v(i) = std::ldexp(V.v(i), e); s += (hyp ? -1 : 1) * (LD)V.getv(i) * V.getv(i); } if (s == 0) s = 1; T.at(0, 0) = (double)(2 / s); c.D("v*2^%d", e);
}
OP(houseapply, 9) {
    Config cf(c); Rng &r = c.rng; int m = edim_small(c), n = edim_small(c); if (m < 1) m = 1; if (n < 1) n = 1; bool vecA = r.chance(25), left = r.chance(50), unit = r.chance(60); if (vecA) { if (left) n = 1; else m = 1; }
    Mat A(c, m, n, GEN_UNI); A.save(); int d = left ? m : n, o = left ? n : m; std::vector<LD> v(d); Mat V, T(c, 1, 1, GEN_UNI); mkvec(c, V, unit ? d - 1 : d, GEN_UNI, "v"); if (unit && d > 1 && r.chance(20)) scaled_reflector(c, V, T, d - 1, false); V.save(); T.save(); LD tau = unit ? T.get(0, 0) : 2; if (r.chance(5)) { T.at(0, 0) = 0; T.save(); if (unit) tau = 0; }
    if (unit) { v[0] = 1; for (int i = 1; i < d; i++) v[i] = V.getv(i - 1); } else for (int i = 0; i < d; i++) v[i] = V.getv(i);
    Mat W(c, o, 1, GEN_UNI); for (int i = 0; i < o; i++) W.at(i, 0) = poison(i); W.save(); int f = left ? r.pki({0, ARMAS_LEFT}) : ARMAS_RIGHT; if (m == 1 && n == 1) left = true; bool nw = (m == 1 || n == 1); c.D("%s %s A=%dx%d", left ? "left" : "right", unit ? "unit" : "unscaled", m, n); c.nontrivial = d > 1;
    if ((m == 1) != (n == 1)) if ((m == 1) == left) return;      // a vector is transformed along its length
    armas_dense_t *w = nw && r.chance(50) ? 0 : (armas_dense_t *)W; int rc = armas_houseapply(A, unit ? (armas_dense_t *)T : 0, V, w, f, cf);
    expect_ok(c, rc, cf); A.only_outside(c, "A"); V.is_const(c, "v"); T.is_const(c, "tau"); W.only_outside(c, "w"); cf.check(c); if (rc) return;
    LMat a = oldmat(A), e = left ? reflL(a, tau, v) : reflL(a.T(), tau, v).T(), g = LMat::of(A), bb(m, n); LD b = colnorm_bound(v, tau, a); for (auto &z : bb.d) z = b; for (size_t i = 0; i < g.d.size(); i++) g.d[i] -= e.d[i]; within(c, "HA", g, bb, 30 + 4 * d); c.obs("reflections");
}
OP(houseapply2x1, 5) {
    Config cf(c); Rng &r = c.rng; int m = 1 + edim_small(c), n = edim_small(c); bool left = r.chance(50), hyp = r.chance(50); if (n < 1) n = 1; Mat A(c, left ? m : n, left ? n : m, GEN_UNI), V, T(c, 1, 1, GEN_UNI), W(c, n, 1, GEN_UNI); mkvec(c, V, m - 1, GEN_UNI, "v"); for (int i = 0; i < n; i++) W.at(i, 0) = poison(i); if (m > 1 && r.chance(20)) scaled_reflector(c, V, T, m - 1, hyp); else if (r.chance(8)) T.at(0, 0) = 0; A.save(); V.save(); T.save(); W.save();
    std::vector<LD> v(m); v[0] = 1; for (int i = 1; i < m; i++) v[i] = V.getv(i - 1); LD tau = T.get(0, 0); c.D("%s %s %dx%d", left ? "left" : "right", hyp ? "hyperbolic" : "orthogonal", A.r, A.c); c.nontrivial = m > 1; armas_dense_t a1, A2; if (left) { armas_submatrix(&a1, A, 0, 0, 1, n); armas_submatrix(&A2, A, 1, 0, m - 1, n); } else { armas_submatrix(&a1, A, 0, 0, n, 1); armas_submatrix(&A2, A, 0, 1, n, m - 1); }
    int f = left ? ARMAS_LEFT : ARMAS_RIGHT, rc = hyp ? armas_hhouse_apply(T, V, &a1, &A2, W, f, cf) : armas_houseapply2x1(&a1, &A2, T, V, W, f, cf);
    expect_ok(c, rc, cf); A.only_outside(c, "A"); V.is_const(c, "v"); T.is_const(c, "tau"); W.only_outside(c, "w"); cf.check(c); if (rc) return;
    LMat a = left ? oldmat(A) : oldmat(A).T(), e(a); for (int j = 0; j < n; j++) { LD s = 0; for (int i = 0; i < m; i++) s += v[i] * a(i, j); s *= tau; for (int i = 0; i < m; i++) e(i, j) -= s * v[i] * (hyp && i ? -1 : 1); } if (!left) e = e.T();
    LMat g = LMat::of(A), bb(g.r, g.c); LD b = colnorm_bound(v, tau, a); for (auto &z : bb.d) z = b; for (size_t i = 0; i < g.d.size(); i++) g.d[i] -= e.d[i]; within(c, "HA", g, bb, 30 + 4 * m); c.obs("reflections");
}
OP(hhouse, 8) {
    Config cf(c); Rng &r = c.rng; int n = r.chance(8) ? 0 : edim_small(c); int f = (r.chance(50) ? ARMAS_NONNEG : 0) | (r.chance(50) ? ARMAS_HHNEGATIVE : 0); double sc = r.chance(60) ? 1 : pow(10.0, r.range(-270, 140)); Mat X, A(c, 1, 1, GEN_UNI), T(c, 1, 1, GEN_UNI); double al = hvec(c, X, n, 1, sc);
    std::vector<LD> x(n + 1), v(n + 1); for (int i = 0; i < n; i++) x[i + 1] = X.oldv(i); LD nx = nrm(x); int w = r.below(10); if (nx > 0) al = (double)((al < 0 ? -nx : nx) * (1 + (w < 6 ? r.u01() * 3 + 0.01L : w == 6 ? 1e-6L : w == 7 ? 1e5L : w == 8 ? 0 : -r.u01()))); x[0] = al; A.at(0, 0) = al; A.save(); T.save(); c.D("%s alpha=%g ||x||=%Lg", hf(f), al, nx); c.nontrivial = n > 0; if (nx > 0 && nx < 1e-280L) return;
    if (nx > 0 && fabsl(al) > nx * 1e7L) return;
    int rc = armas_hhouse(A, X, T, f, cf); LD a2 = fabsl((LD)al);
    if (nx > 0 && a2 < nx * (1 + 1e-12L)) { if (a2 < nx * (1 - 1e-12L) && rc >= 0) c.fail("accepted", "no hyperbolic reflector exists but one was returned"); if (rc < 0) { c.obs("rejections"); X.is_const(c, "x"); A.is_const(c, "a11"); } return; }
    expect_ok(c, rc, cf); X.only_outside(c, "x"); A.only_outside(c, "a11"); T.only_outside(c, "tau"); if (rc) return;
    LD beta = A.get(0, 0), tau = T.get(0, 0); v[0] = 1; for (int i = 0; i < n; i++) v[i + 1] = X.getv(i); if ((f & ARMAS_NONNEG) && !(beta >= 0)) { c.fail("nonneg", fmt("beta = %Lg", beta)); return; }
    LD h = sqrtl((a2 - nx) * (a2 + nx)), k = h > 0 ? a2 / h : 1, t = (40 + 4 * n) * EPSD * k * k, vv = 0, vx = 0, v2 = 0; for (int i = 0; i <= n; i++) { vv += (i ? -1 : 1) * v[i] * v[i]; v2 += v[i] * v[i]; vx += v[i] * x[i]; }
    bool ident = tau == 0; if (!ident && !(fabsl(tau * vv - 2) <= t * (1 + fabsl(tau) * v2))) { c.fail("J-orthogonal", fmt("tau*v'Jv = %.17Lg", tau * vv)); return; }
    if (!(fabsl(fabsl(beta) - h) <= t * a2)) { c.fail("beta", fmt("beta=%.17Lg expected %.17Lg", beta, h)); return; }
    LD want = (f & ARMAS_HHNEGATIVE) ? -beta : beta; for (int i = 0; i <= n; i++) { LD y = x[i] - (ident ? 0 : tau * (i ? -1 : 1) * v[i] * vx); if (!(fabsl(y - (i ? 0 : want)) <= 8 * t * (1 + fabsl(tau) * v2) * (a2 + nx))) { c.fail("image", fmt("(Hx)[%d] = %.17Lg, expected %.17Lg", i, y, i ? 0 : want)); return; } }
    c.obs("hyperbolic-reflectors");
}
OP(housemult, 10) {
    Config cf(c); Rng &r = c.rng; int d = std::max(1, edim_small(c)), k = r.range(1, d), o = r.chance(20) ? 1 : std::max(1, edim_small(c)); bool left = r.chance(50), unit = r.chance(50), tr = r.chance(50);
    Mat Q(c, d, k, GEN_UNI), T(c, k, 1, GEN_UNI), X(c, left ? d : o, left ? o : d, GEN_UNI); std::vector<std::vector<LD>> vs(k, std::vector<LD>(d)); std::vector<LD> tau(k);
    for (int j = 0; j < k; j++) { LD s = unit ? 1 : 0; int e = unit && r.chance(10) ? r.range(-60, 200) : 0; for (int i = 0; i < d; i++) if (i < j + (unit ? 1 : 0)) Q.at(i, j) = poison(i + 13 * j); else { if (e) Q.at(i, j) = std::ldexp(Q.get(i, j), e); s += (LD)Q.get(i, j) * Q.get(i, j); } if (unit) { tau[j] = (double)(2 / s); T.at(j, 0) = (double)tau[j]; vs[j][j] = 1; for (int i = j + 1; i < d; i++) vs[j][i] = Q.get(i, j); } else { s = s > 0 ? sqrtl(s) : 1; tau[j] = 2; for (int i = j; i < d; i++) { Q.at(i, j) = (double)(Q.get(i, j) / s); vs[j][i] = Q.get(i, j); } } }
    Q.save(); T.save(); X.save(); if ((X.r == 1) != (X.c == 1)) if ((X.r == 1) == left && d > 1) return; int f = (unit ? ARMAS_UNIT : 0) | (tr ? ARMAS_TRANS : 0) | (left ? r.pki({0, ARMAS_LEFT}) : ARMAS_RIGHT); c.D("%s%s%s Q=%dx%d X=%dx%d", left ? "left" : "right", tr ? " trans" : "", unit ? " unit" : "", d, k, X.r, X.c); c.nontrivial = d > 1; bool isv = X.r == 1 || X.c == 1;
    armas_dense_t *tp = unit || r.chance(50) ? (armas_dense_t *)T : 0; int rc; if (isv) rc = armas_housemult(X, tp, Q, f, cf); else rc = run_ws(c, cf, o, [&](armas_wbuf_t *w) { return armas_housemult_w(X, tp, Q, f, w, cf); }, [&] { return armas_housemult(X, tp, Q, f, cf); });
    expect_ok(c, rc, cf); X.only_outside(c, "X"); Q.is_const(c, "Q"); T.is_const(c, "tau"); cf.check(c); if (rc) return;
    LMat x = left ? oldmat(X) : oldmat(X).T(); LD fr = x.frob(); bool ft = left ? tr : !tr;      // Q' X: H(0) first; X Q = (Q' X')'
    for (int q = 0; q < k; q++) { int j = ft ? q : k - 1 - q; x = reflL(x, tau[j], vs[j]); } if (!left) x = x.T(); LMat g = LMat::of(X), bb(g.r, g.c); for (auto &z : bb.d) z = fr; for (size_t i = 0; i < g.d.size(); i++) g.d[i] -= x.d[i]; within(c, "QX", g, bb, 40 + 20 * d); c.obs("reflector-products");
}
// truncation to n x n of the block butterfly of (padded) size nd, blocks of size nd/cnt
static LMat bfly(const Mat &R, int col, int n, int nd) { LMat b(n, n); int h = nd / 2; for (int s = 0; s < n; s += nd) for (int i = 0; i < h; i++) { int p = s + i, q = s + i + h; if (p < n) { LD r0 = R.old(p, col); b(p, p) = r0; if (q < n) { LD r1 = R.old(q, col); b(p, q) = r1; b(q, p) = r0; b(q, q) = -r1; } } } return b; }
static LMat rbt_dense(const Mat &R, int n) { int d = R.c, nd = (n + (1 << d) - 1) & ~((1 << d) - 1); LMat u = LMat::eye(n); for (int l = d - 1; l >= 0; l--) { LMat b = bfly(R, l, n, nd >> (d - 1 - l)); for (auto &x : b.d) x *= sqrtl(0.5L); u = mul(b, u); } return u; }
OP(rbt, 9) {
    Config cf(c); Rng &r = c.rng; int n = std::max(1, r.chance(60) ? r.range(1, 40) : edim_small(c)), d = r.range(1, 4), o = std::max(1, edim_small(c)), what = r.below(3); Mat R(c, n, d, GEN_UNI), S(c, n, d, GEN_UNI);
    R.save(); S.save(); if (r.chance(50)) { armas_gen_rbt(R); armas_gen_rbt(S); R.only_outside(c, "R"); for (int j = 0; j < d; j++) for (int i = 0; i < n; i++) if (!(R.get(i, j) > 0.95 && R.get(i, j) < 1.06)) { c.fail("gen", fmt("R(%d,%d) = %g", i, j, R.get(i, j))); return; } } R.save(); S.save(); LMat u = rbt_dense(R, n); LD fr;
    if (what == 2) { Mat A(c, n, n, GEN_UNI); A.save(); c.D("update2 n=%d depth=%d", n, d); c.nontrivial = n > 1; int rc = armas_update2_rbt(A, R, S, cf); expect_ok(c, rc, cf); A.only_outside(c, "A"); R.is_const(c, "U"); S.is_const(c, "V"); if (rc) return; LMat v = rbt_dense(S, n), e = mul(mul(u.T(), oldmat(A)), v), g = LMat::of(A), bb(n, n); fr = u.frob() * v.frob() * oldmat(A).frob(); for (auto &z : bb.d) z = fr; for (size_t i = 0; i < g.d.size(); i++) g.d[i] -= e.d[i]; within(c, "UAV", g, bb, 40); c.obs("butterflies"); return; }
    bool left = what == 0, tr = r.chance(50); Mat A(c, left ? n : o, left ? o : n, GEN_UNI); A.save(); c.D("mult %s%s %dx%d depth=%d", left ? "left" : "right", tr ? " trans" : "", A.r, A.c, d); c.nontrivial = n > 1;
    int rc = armas_mult_rbt(A, R, (left ? r.pki({0, ARMAS_LEFT}) : ARMAS_RIGHT) | (tr ? ARMAS_TRANS : 0), cf); expect_ok(c, rc, cf); A.only_outside(c, "A"); R.is_const(c, "R"); if (rc) return;
    if (tr) u = u.T(); LMat a = oldmat(A), e = left ? mul(u, a) : mul(a, u), g = LMat::of(A), bb(g.r, g.c); fr = u.frob() * a.frob(); for (auto &z : bb.d) z = fr; for (size_t i = 0; i < g.d.size(); i++) g.d[i] -= e.d[i]; within(c, "RA", g, bb, 40); c.obs("butterflies");
}
OP(diag, 8) {
    Config cf(c); Rng &r = c.rng; int m = std::max(1, edim_small(c)), n = std::max(1, edim_small(c)); if (r.chance(20)) { if (r.chance(50)) m = 1; else n = 1; } bool left = r.chance(50), solve = r.chance(50), full = r.chance(30); int k = left ? m : n; bool isv = m == 1 || n == 1; if (isv && r.chance(50)) k = std::max(m, n);
    Mat A(c, m, n, GEN_UNI), D; std::vector<LD> d(k); if (full && k > 1) D.init(c, k, k, GEN_UNI); else mkvec(c, D, k, GEN_UNI, "D"); for (int i = 0; i < k; i++) { double x = r.uni(); x = (x < 0 ? -1 : 1) * (0.1 + fabs(x)) * (r.chance(10) ? 1e6 : 1); d[i] = x; if (full && k > 1) D.at(i, i) = x; else D.v(i) = x; } double al = r.chance(30) ? 1 : r.uni(); A.save(); D.save();
    c.D("%s %s A=%dx%d D=%dx%d alpha=%g", solve ? "solve" : "mult", left ? "left" : "right", m, n, D.r, D.c, al); c.nontrivial = k > 1; int f = left ? r.pki({0, ARMAS_LEFT}) : ARMAS_RIGHT, rc = solve ? armas_solve_diag(A, al, D, f, cf) : armas_mult_diag(A, al, D, f, cf); expect_ok(c, rc, cf); A.only_outside(c, "A"); D.is_const(c, "D"); if (rc) return; bool el = isv && k == m * n;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { LD s = d[el ? (m == 1 ? j : i) : left ? i : j], e = al * (LD)A.old(i, j); e = solve ? e / s : e * s; if (!(fabsl(A.get(i, j) - e) <= 8 * EPSD * fabsl(e) + 1e-300L)) { c.fail("value", fmt("A(%d,%d) = %.17g, expected %.17Lg", i, j, A.get(i, j), e)); return; } } c.obs("diagonal-scalings");
}
OP(small2x2, 10) {
    Rng &r = c.rng; c.nontrivial = true;
    for (int k = 0; k < 30; k++) {
        int w = r.below(7); double sc = w == 0 ? pow(10.0, r.range(-140, 140)) : 1, f = r.uni() * sc, g = r.uni() * sc, h = r.uni() * sc; if (w == 1) { f *= pow(10.0, r.range(-20, 0)); h *= pow(10.0, r.range(-20, 0)); } if (w == 2) g *= pow(10.0, r.range(-20, 20)); if (w == 3) { if (r.chance(40)) f = 0; if (r.chance(40)) g = 0; if (r.chance(40)) h = 0; } if (w == 4) { f = r.range(-2, 2); g = r.range(-2, 2); h = r.range(-2, 2); } if (w == 5) h = f * (1 + r.uni() * 1e-15);
        double s1, s2, cl, sl, cr, sr; LD fr = hypotl(hypotl(f, g), h), t = 60 * EPSD; LD D = fabsl((LD)f * h), smax = (hypotl(fabsl((LD)f) + fabsl((LD)h), g) + hypotl(fabsl((LD)f) - fabsl((LD)h), g)) / 2, smin = smax > 0 ? D / smax : 0; auto id = fmt("f=%.17g g=%.17g h=%.17g", f, g, h);
        armas_bdsvd2x2(&s1, &s2, f, g, h); if (!(fabsl(s1 - smin) <= t * smin + 1e-300L && fabsl(s2 - smax) <= t * smax)) { c.fail("svd2x2", id + fmt(" got %.17g %.17g, expected %.17Lg %.17Lg", s1, s2, smin, smax)); return; }
        armas_bdsvd2x2_vec(&s1, &s2, &cl, &sl, &cr, &sr, f, g, h); if (!(fabsl(fabsl((LD)s1) - smin) <= t * smin + 1e-300L && fabsl(fabsl((LD)s2) - smax) <= t * smax)) { c.fail("svd2x2vec", id + fmt(" got %.17g %.17g, expected %.17Lg %.17Lg", s1, s2, smin, smax)); return; }
        if (!(fabsl((LD)cl * cl + (LD)sl * sl - 1) <= t && fabsl((LD)cr * cr + (LD)sr * sr - 1) <= t)) { c.fail("svd2x2vec-unit", id + fmt(" cl=%g sl=%g cr=%g sr=%g", cl, sl, cr, sr)); return; }
        LD a = (LD)cl * f, b = (LD)cl * g + (LD)sl * h, cc = -(LD)sl * f, d = -(LD)sl * g + (LD)cl * h; LD e[4] = {a * cr + b * sr - s2, -a * sr + b * cr, cc * cr + d * sr, -cc * sr + d * cr - s1}; for (LD x : e) if (!(fabsl(x) <= t * fr)) { c.fail("svd2x2vec-form", id + fmt(" off by %Lg of %Lg", x, fr)); return; }
        double z1, z2, cs, sn; a = f, b = g; LD C = h, hh = hypotl(a - C, 2 * b), T = a + C, e1 = (T + copysignl(hh, T)) / 2, e2 = (T - copysignl(hh, T)) / 2; armas_sym_eigen2x2(&z1, &z2, f, g, h); auto ev = [&](const char *nm) { LD tt = 8 * t * fr; bool ok = (fabsl(z1 - e1) <= tt && fabsl(z2 - e2) <= tt) || (fabsl(z1 - e2) <= tt && fabsl(z2 - e1) <= tt); if (!ok || !(fabs(z1) >= fabs(z2) - (double)tt)) { c.fail(nm, id + fmt(" got %.17g %.17g, expected %.17Lg %.17Lg", z1, z2, e1, e2)); return false; } return true; }; if (!ev("eigen2x2")) return;
        armas_sym_eigen2x2vec(&z1, &z2, &cs, &sn, f, g, h); if (!ev("eigen2x2vec")) return; if (!(fabsl((LD)cs * cs + (LD)sn * sn - 1) <= t) || !(fabsl((LD)f * cs + (LD)g * sn - (LD)z1 * cs) <= 8 * t * fr && fabsl((LD)g * cs + (LD)h * sn - (LD)z1 * sn) <= 8 * t * fr)) { c.fail("eigen2x2vec-vector", id + fmt(" cs=%.17g sn=%.17g z1=%.17g", cs, sn, z1)); return; }
    }
    c.obs("2x2-problems", 30);
}
OP(quadratic, 7) {
    Rng &r = c.rng; c.nontrivial = true;
    for (int k = 0; k < 30; k++) {
        int w = r.below(6); double A = r.uni(), B = r.uni(), C = r.uni(); if (w == 0) { A = r.range(-5, 5); B = r.range(-5, 5); C = r.range(-5, 5); } if (w == 1) { double p = r.uni(), q = p * (1 + 1e-9 * r.uni()); A = r.uni(); B = A * (p + q) / 2; C = A * p * q; } if (w == 2) { B *= 1e7; } if (w == 3) B = 0; if (w == 4) { A = 94906265.625 + r.range(0, 5) / 8.0; B = 94906267.0 + r.below(4); C = 94906268.375 + r.below(4); } if (A == 0) A = 1; if (r.chance(30)) { int e = r.range(-60, 60), x = r.range(-60, 60); A = std::ldexp(A, e); B = std::ldexp(B, e + x); C = std::ldexp(C, e + 2 * x); }
        auto id = fmt("a=%.17g b=%.17g c=%.17g", A, B, C); __float128 dq = (__float128)B * B - (__float128)A * C; LD d = dq, x; double dv; armas_discriminant(&dv, A, B, C); if (!(fabsl(dv - d) <= 4 * EPSD * fabsl(d) + 1e-28L * ((LD)B * B + fabsl((LD)A * C)))) { c.fail("discriminant", id + fmt(" got %.17g expected %.17Lg", dv, d)); return; }
        double x1, x2; int rc = armas_qdroots(&x1, &x2, A, B, C); LD sc = (LD)B * B + fabsl((LD)A * C); if (d < -1e-27L * sc) { if (!rc) { c.fail("complex", id + " has no real roots"); return; } c.obs("complex-pairs"); continue; }
        if (d <= 1e-27L * sc && d != 0) continue; if (rc && d > 0) { c.fail("real", id + " has two real roots"); return; } if (rc) continue;
        LD s = (LD)B + copysignl(sqrtl(d), B), r1 = s / A, r2 = s != 0 ? C / s : 0; x = 20 * EPSD; if (!(fabsl(x1 - r1) <= x * fabsl(r1) && fabsl(x2 - r2) <= x * fabsl(r2)) && !(B == 0 && fabsl(x1 + r1) <= x * fabsl(r1) && fabsl(x2 + r2) <= x * fabsl(r2))) { c.fail("roots", id + fmt(" got %.17g %.17g expected %.17Lg %.17Lg", x1, x2, r1, r2)); return; } c.obs("real-roots", 2);
    }
}
OP(elem_reject, 4) {
    Config cf(c); Rng &r = c.rng; int what = r.below(9), n = r.range(3, 12), m = n + r.range(1, 6), rc = 0; c.D("what=%d %dx%d", what, m, n); c.nontrivial = true; auto keep = [&](auto&... x) { (x.is_const(c, "operand"), ...); };
    switch (what) {
    case 0: { Mat A(c, m, n), V(c, m - 2, 1), T(c, 1, 1), W(c, 64, 1); A.save(); V.save(); T.save(); rc = armas_houseapply(A, T, V, W, ARMAS_LEFT, cf); keep(A, V, T); break; }
    case 1: { Mat A(c, m, n), V(c, m, 1), W(c, n - 1, 1); A.save(); V.save(); W.save(); rc = armas_houseapply(A, 0, V, W, ARMAS_LEFT, cf); keep(A, V, W); break; }
    case 2: { Mat A(c, m, n), V(c, m, 1); A.save(); V.save(); rc = armas_houseapply(A, 0, V, 0, ARMAS_LEFT, cf); keep(A, V); break; }
    case 3: { Mat A(c, m, n), Q(c, m + 1, 2), T(c, 2, 1); A.save(); Q.save(); T.save(); rc = armas_housemult(A, T, Q, ARMAS_UNIT, cf); keep(A, Q, T); break; }
    case 4: { Mat A(c, m, n), Q(c, m, 3), T(c, 2, 1); A.save(); Q.save(); T.save(); rc = armas_housemult(A, T, Q, ARMAS_UNIT, cf); keep(A, Q, T); break; }
    case 5: { Mat A(c, m, n), Q(c, m, 2), T(c, 2, 1); A.save(); Q.save(); T.save(); Work w(c, 8 * (n - 1)); rc = armas_housemult_w(A, T, Q, ARMAS_UNIT, &w.w, cf); w.check(c); keep(A, Q, T); break; }
    case 6: { Mat A(c, m, n), D(c, m + 1, 1); A.save(); D.save(); rc = r.chance(50) ? armas_mult_diag(A, 2, D, 0, cf) : armas_solve_diag(A, 2, D, ARMAS_RIGHT, cf); keep(A, D); break; }
    case 7: { Mat A(c, m, n), R(c, m + 1, 2); A.save(); R.save(); rc = armas_mult_rbt(A, R, r.pki({ARMAS_LEFT, ARMAS_RIGHT}), cf); keep(A, R); break; }
    default: { Mat A(c, m, n), R(c, m, 2), S(c, m, 2); A.save(); R.save(); S.save(); rc = armas_update2_rbt(A, R, S, cf); keep(A, R, S); } }
    if (rc >= 0) c.fail(fmt("accepted%d", what), "invalid arguments accepted"); else { c.obs("rejections"); if (!cf.cf.error) c.fail("error-code", "no error code recorded"); }
}
