// Matrix-vector operations.
#include "ref.hpp"

static void dims(Ctx &c, int &m, int &n) { m = pick_size(c, 280); n = pick_size(c, 280); if (c.rng.chance(15)) n = m; if (c.rng.below(1000) == 0) { m = c.rng.range(1000, 6000); n = c.rng.range(1, 12); if (c.rng.chance(50)) std::swap(m, n); } }
static void nt(Ctx &c, int a, int b = 9) { c.nontrivial = a >= 2 && b >= 2; }

static void mv(Ctx &c, int flags) {
    Config cf(c); int m, n; dims(c, m, n);
    Mat A(c, m, n), x, y; A.save();
    bool tr = flags & ARMAS_TRANS;
    c.D("%s A=%dx%d/%d", fl(flags), m, n, A.step);
    mkvec(c, x, tr ? m : n, -1, "x"); mkvec(c, y, tr ? n : m, -1, "y"); nt(c, m, n);
    double a = pick_scal(c), b = pick_scal(c); c.D("alpha=%g beta=%g", a, b);
    nanify(c, y, b, m > 0 && n > 0, all_mask);
    cf.cf.error = 0;
    expect_ok(c, armas_mvmult(b, &y, a, &A, &x, flags, cf), cf);
    if (m == 0 || n == 0) { y.is_const(c, "y"); return; }
    LMat L = LMat::of(A); if (flags & ARMAS_ABSA) L = L.abs(); if (tr) L = L.T();
    LMat X = lvec(x); if (flags & ARMAS_ABSA) X = X.abs();     // documented: |A||x|
    LMat p = mul(L, X), pb = mul(L.abs(), X.abs()), y0 = loldvec(y);
    Cmp q(c, "y");
    for (int i = 0; i < y.n(); i++) q(y.getv(i), b * y0(i, 0) + a * p(i, 0), fabsl(b * y0(i, 0)) + fabs(a) * pb(i, 0), x.n() + 2, i, 0);
    c.obs("elements", y.n());
    A.is_const(c, "A"); x.is_const(c, "x"); y.only_outside(c, "y"); cf.check(c);
}
OP(mvmult, 4) { mv(c, c.rng.chance(50) ? ARMAS_TRANS : 0); }
OP(mvmult_abs, 1) { mv(c, (c.rng.chance(50) ? ARMAS_TRANS : 0) | ARMAS_ABSA); }

OP(mvupdate, 3) {
    Config cf(c); int m, n; dims(c, m, n); Mat A(c, m, n), x, y; A.save(); c.D("A=%dx%d/%d", m, n, A.step);
    mkvec(c, x, m, -1, "x"); mkvec(c, y, n, -1, "y"); nt(c, m, n);
    double a = pick_scal(c), b = pick_scal(c); c.D("alpha=%g beta=%g", a, b);
    expect_ok(c, armas_mvupdate(b, &A, a, &x, &y, cf), cf);
    Cmp q(c, "A");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        LD t = (LD)a * x.getv(i) * y.getv(j), u = (LD)b * A.old(i, j);
        q(A.get(i, j), t + u, fabsl(t) + fabsl(u), 4, i, j);
    }
    c.obs("elements", (long)m * n);
    x.is_const(c, "x"); y.is_const(c, "y"); A.only_outside(c, "A");
}
OP(mvmult_sym, 3) {
    Config cf(c); int n = pick_size(c, 280), f = c.rng.pick({ARMAS_LOWER, ARMAS_UPPER}); Mat A(c, n, n), x, y;
    poison_tri(A, f); A.save(); c.D("%s A=%d/%d", fl(f), n, A.step); mkvec(c, x, n, -1, "x"); mkvec(c, y, n, -1, "y"); nt(c, n);
    double a = pick_scal(c), b = pick_scal(c); c.D("alpha=%g beta=%g", a, b);
    nanify(c, y, b, n > 0, all_mask);
    expect_ok(c, armas_mvmult_sym(b, &y, a, &A, &x, f, cf), cf);
    LMat L = symfull(A, f), p = mul(L, lvec(x)), pb = mul(L.abs(), lvec(x).abs()); Cmp q(c, "y");
    for (int i = 0; i < n; i++) q(y.getv(i), (LD)b * y.oldv(i) + a * p(i, 0), fabsl((LD)b * y.oldv(i)) + fabs(a) * pb(i, 0), n + 2, i, 0);
    c.obs("elements", n);
    A.is_const(c, "A"); x.is_const(c, "x"); y.only_outside(c, "y");
}
OP(mvupdate_sym, 2) {
    Config cf(c); int n = pick_size(c, 280), f = c.rng.pick({ARMAS_LOWER, ARMAS_UPPER}); Mat A(c, n, n), x;
    poison_tri(A, f); A.save(); c.D("%s A=%d/%d", fl(f), n, A.step); mkvec(c, x, n, -1, "x"); nt(c, n);
    double a = pick_scal(c), b = pick_scal(c); c.D("alpha=%g beta=%g", a, b);
    expect_ok(c, armas_mvupdate_sym(b, &A, a, &x, f, cf), cf);
    Cmp q(c, "A");
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in_tri(i, j, f)) {
        LD t = (LD)a * x.getv(i) * x.getv(j), u = (LD)b * A.old(i, j); q(A.get(i, j), t + u, fabsl(t) + fabsl(u), 4, i, j);
    }
    c.obs("elements", (long)n * n / 2);
    x.is_const(c, "x"); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); });
}
OP(mvupdate2_sym, 2) {
    Config cf(c); int n = pick_size(c, 280), f = c.rng.pick({ARMAS_LOWER, ARMAS_UPPER}); Mat A(c, n, n), x, y;
    poison_tri(A, f); A.save(); c.D("%s A=%d/%d", fl(f), n, A.step); mkvec(c, x, n, -1, "x"); mkvec(c, y, n, -1, "y"); nt(c, n);
    double a = pick_scal(c), b = pick_scal(c); c.D("alpha=%g beta=%g", a, b);
    expect_ok(c, armas_mvupdate2_sym(b, &A, a, &x, &y, f, cf), cf);
    Cmp q(c, "A");
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in_tri(i, j, f)) {
        LD t = (LD)a * x.getv(i) * y.getv(j), t2 = (LD)a * y.getv(i) * x.getv(j), u = (LD)b * A.old(i, j);
        q(A.get(i, j), t + t2 + u, fabsl(t) + fabsl(t2) + fabsl(u), 6, i, j);
    }
    c.obs("elements", (long)n * n / 2);
    x.is_const(c, "x"); y.is_const(c, "y"); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); });
}
OP(mvupdate_trm, 2) {
    Config cf(c); int m, n, f = c.rng.pick({ARMAS_LOWER, ARMAS_UPPER}); dims(c, m, n); Mat A(c, m, n), x, y;
    poison_tri(A, f); A.save(); c.D("%s A=%dx%d/%d", fl(f), m, n, A.step); mkvec(c, x, m, -1, "x"); mkvec(c, y, n, -1, "y"); nt(c, m, n);
    double a = pick_scal(c), b = pick_scal(c); c.D("alpha=%g beta=%g", a, b);
    expect_ok(c, armas_mvupdate_trm(b, &A, a, &x, &y, f, cf), cf);
    Cmp q(c, "A");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in_tri(i, j, f)) {
        LD t = (LD)a * x.getv(i) * y.getv(j), u = (LD)b * A.old(i, j); q(A.get(i, j), t + u, fabsl(t) + fabsl(u), 4, i, j);
    }
    c.obs("elements", (long)m * n / 2);
    x.is_const(c, "x"); y.is_const(c, "y"); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); });
}
static int trflags(Ctx &c) { return c.rng.pick({ARMAS_LOWER, ARMAS_UPPER}) | (c.rng.chance(50) ? ARMAS_TRANS : 0) | (c.rng.chance(40) ? ARMAS_UNIT : 0); }
OP(mvmult_trm, 3) {
    Config cf(c); int n = pick_size(c, 280), f = trflags(c); Mat A(c, n, n), x; poison_tri(A, f); A.save();
    c.D("%s A=%d/%d", fl(f), n, A.step); mkvec(c, x, n, -1, "x"); nt(c, n);
    double a = pick_scal(c); c.D("alpha=%g", a);
    expect_ok(c, armas_mvmult_trm(&x, a, &A, f, cf), cf);
    LMat L = tri(A, f); if (f & ARMAS_TRANS) L = L.T();
    LMat p = mul(L, loldvec(x)), pb = mul(L.abs(), loldvec(x).abs()); Cmp q(c, "x");
    for (int i = 0; i < n; i++) q(x.getv(i), a * p(i, 0), fabs(a) * pb(i, 0), n + 2, i, 0);
    c.obs("elements", n); A.is_const(c, "A"); x.only_outside(c, "x");
}
OP(mvsolve_trm, 3) {
    Config cf(c); int n = pick_size(c, 280), f = trflags(c); Mat A(c, n, n), x; solvable(c, A, f); poison_tri(A, f); A.save();
    c.D("%s A=%d/%d", fl(f), n, A.step); mkvec(c, x, n, -1, "x"); nt(c, n);
    double a = pick_scal(c); c.D("alpha=%g", a);
    expect_ok(c, armas_mvsolve_trm(&x, a, &A, f, cf), cf);
    LMat L = tri(A, f); if (f & ARMAS_TRANS) L = L.T();
    LMat p = mul(L, lvec(x)), pb = mul(L.abs(), lvec(x).abs()); Cmp q(c, "residual");
    for (int i = 0; i < n; i++) q((double)p(i, 0), (LD)a * x.oldv(i), pb(i, 0) + fabsl((LD)a * x.oldv(i)), 2 * n + 4, i, 0);
    c.obs("elements", n); A.is_const(c, "A"); x.only_outside(c, "x");
}
OP(badargs2, 1) {
    Config cf(c, false, 0); Rng &r = c.rng; int m = r.range(2, 9), n = m + r.range(1, 4);
    Mat A(c, m, n), S(c, n, n), x(c, n, 1), y(c, n, 1), z(c, m + n + 1, 1), M(c, 2, 3);
    A.save(); S.save(); x.save(); y.save(); z.save(); M.save(); c.nontrivial = true; cf.cf.error = 0;
    int w = r.below(13), rc = 0; c.D("which=%d m=%d n=%d", w, m, n);
    switch (w) {
    case 0: rc = armas_mvmult(1, &y, 1, &A, &x, 0, cf); break;
    case 1: rc = armas_mvmult(1, &x, 1, &A, &y, ARMAS_TRANS, cf); break;
    case 2: rc = armas_mvupdate(1, &A, 1, &x, &y, cf); break;
    case 3: rc = armas_mvmult_sym(1, &y, 1, &A, &x, ARMAS_LOWER, cf); break;
    case 4: rc = armas_mvmult_sym(1, &z, 1, &S, &x, ARMAS_UPPER, cf); break;
    case 5: rc = armas_mvupdate2_sym(1, &A, 1, &x, &y, ARMAS_LOWER, cf); break;
    case 6: rc = armas_mvupdate_trm(1, &A, 1, &x, &y, ARMAS_LOWER, cf); break;
    case 7: rc = armas_mvmult_trm(&x, 1, &A, ARMAS_LOWER, cf); break;
    case 8: rc = armas_mvsolve_trm(&x, 1, &A, ARMAS_UPPER, cf); break;
    case 9: rc = armas_mvsolve_trm(&z, 1, &S, ARMAS_UPPER, cf); break;
    case 10: rc = armas_mvmult(1, &y, 1, &S, &M, 0, cf); break;
    case 11: rc = armas_mvupdate_sym(1, &S, 1, &z, ARMAS_LOWER, cf); break;
    case 12: rc = armas_mvupdate(1, &S, 1, &M, &y, cf); break;
    }
    if (rc >= 0) c.fail(fmt("accepted:%d", w), "mismatched operands accepted");
    else if (cf.cf.error <= 0) c.fail(fmt("noerror:%d", w), "no error code recorded for mismatched operands");
    A.is_const(c, "A"); S.is_const(c, "S"); x.is_const(c, "x"); y.is_const(c, "y"); z.is_const(c, "z"); c.obs("rejections");
}
