// Matrix-matrix operations.
#include "ref.hpp"

static int dim3(Ctx &c) { return pick_size(c, c.tier ? 260 : 180); }
static void nt(Ctx &c, int a, int b = 9) { c.nontrivial = a >= 2 && b >= 2; }

OP(mult, 8) {
    Config cf(c); Rng &r = c.rng;
    int m = dim3(c), n = dim3(c), k = dim3(c); if (r.chance(10)) n = m; if (r.chance(5)) m = r.range(1, 3); if (r.chance(5)) n = r.range(1, 3);
    int ta = r.below(5), tb = r.below(5);
    int f = (ta >= 4 ? ARMAS_CTRANSA : ta >= 2 ? ARMAS_TRANSA : 0) | (tb >= 4 ? ARMAS_CTRANSB : tb >= 2 ? ARMAS_TRANSB : 0);
    if (r.chance(6)) f |= ARMAS_ABSA | ARMAS_ABSB;
    Mat A, B, C; if (ta >= 2) A.init(c, k, m); else A.init(c, m, k); if (tb >= 2) B.init(c, n, k); else B.init(c, k, n); C.init(c, m, n);
    A.save(); B.save(); C.save();
    double al = pick_scal(c), be = pick_scal(c);
    c.D("%s m=%d n=%d k=%d ld=%d,%d,%d alpha=%g beta=%g", fl(f), m, n, k, A.step, B.step, C.step, al, be); nt(c, m, n);
    nanify(c, C, be, m > 0 && n > 0 && k > 0, all_mask);
    expect_ok(c, armas_mult(be, &C, al, &A, &B, f, cf), cf);
    A.is_const(c, "A"); B.is_const(c, "B"); C.only_outside(c, "C"); cf.check(c);
    if (!m || !n || !k) { C.is_const(c, "C"); return; }
    LMat a = LMat::of(A), b = LMat::of(B); if (ta >= 2) a = a.T(); if (tb >= 2) b = b.T();
    if (f & ARMAS_ABSA) { a = a.abs(); b = b.abs(); }
    LMat p = mul(a, b), pb = mul(a.abs(), b.abs());
    Cmp q(c, "C");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { LD u = (LD)be * C.old(i, j); q(C.get(i, j), u + al * p(i, j), fabsl(u) + fabs(al) * pb(i, j), k + 2, i, j); }
    c.obs("elements", (long)m * n);
}
OP(mult_sym, 4) {
    Config cf(c); Rng &r = c.rng; int m = dim3(c), n = dim3(c); bool right = r.chance(50), tb = r.chance(40);
    int f = r.pick({ARMAS_LOWER, ARMAS_UPPER}) | (right ? ARMAS_RIGHT : r.chance(80) ? ARMAS_LEFT : 0) | (tb ? ARMAS_TRANSB : 0);
    int na = right ? n : m; Mat A(c, na, na), B, C(c, m, n); if (tb) B.init(c, n, m); else B.init(c, m, n);
    poison_tri(A, f); A.save(); B.save(); C.save();
    double al = pick_scal(c), be = pick_scal(c);
    c.D("%s m=%d n=%d ld=%d,%d,%d alpha=%g beta=%g", fl(f), m, n, A.step, B.step, C.step, al, be); nt(c, m, n);
    nanify(c, C, be, m > 0 && n > 0, all_mask);
    expect_ok(c, armas_mult_sym(be, &C, al, &A, &B, f, cf), cf);
    A.is_const(c, "A"); B.is_const(c, "B"); C.only_outside(c, "C"); cf.check(c);
    LMat a = symfull(A, f), b = LMat::of(B); if (tb) b = b.T();
    LMat p = right ? mul(b, a) : mul(a, b), pb = right ? mul(b.abs(), a.abs()) : mul(a.abs(), b.abs());
    Cmp q(c, "C");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { LD u = (LD)be * C.old(i, j); q(C.get(i, j), u + al * p(i, j), fabsl(u) + fabs(al) * pb(i, j), na + 2, i, j); }
    c.obs("elements", (long)m * n);
}
static int trf(Ctx &c) {
    Rng &r = c.rng;
    return r.pick({ARMAS_LOWER, ARMAS_UPPER}) | (r.chance(50) ? ARMAS_TRANS : 0) | (r.chance(35) ? ARMAS_UNIT : 0) | r.pick({ARMAS_LEFT, ARMAS_RIGHT});
}
OP(mult_trm, 4) {
    Config cf(c); int m = dim3(c), n = dim3(c), f = trf(c); bool right = f & ARMAS_RIGHT; int na = right ? n : m;
    Mat A(c, na, na), B(c, m, n); poison_tri(A, f); A.save(); B.save(); double al = pick_scal(c);
    c.D("%s m=%d n=%d ld=%d,%d alpha=%g", fl(f), m, n, A.step, B.step, al); nt(c, m, n);
    expect_ok(c, armas_mult_trm(&B, al, &A, f, cf), cf);
    A.is_const(c, "A"); B.only_outside(c, "B"); cf.check(c);
    LMat a = tri(A, f), b = oldmat(B); if (f & ARMAS_TRANS) a = a.T();
    LMat p = right ? mul(b, a) : mul(a, b), pb = right ? mul(b.abs(), a.abs()) : mul(a.abs(), b.abs());
    Cmp q(c, "B");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) q(B.get(i, j), al * p(i, j), fabs(al) * pb(i, j), na + 2, i, j);
    c.obs("elements", (long)m * n);
}
OP(solve_trm, 5) {
    Config cf(c); int m = dim3(c), n = dim3(c), f = trf(c); bool right = f & ARMAS_RIGHT; int na = right ? n : m;
    Mat A(c, na, na), B(c, m, n); solvable(c, A, f); poison_tri(A, f); A.save(); B.save(); double al = pick_scal(c);
    c.D("%s m=%d n=%d ld=%d,%d alpha=%g", fl(f), m, n, A.step, B.step, al); nt(c, m, n);
    expect_ok(c, armas_solve_trm(&B, al, &A, f, cf), cf);
    A.is_const(c, "A"); B.only_outside(c, "B"); cf.check(c);
    LMat a = tri(A, f), x = LMat::of(B); if (f & ARMAS_TRANS) a = a.T();
    LMat p = right ? mul(x, a) : mul(a, x), pb = right ? mul(x.abs(), a.abs()) : mul(a.abs(), x.abs());
    Cmp q(c, "residual");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { LD b = (LD)al * B.old(i, j); q((double)p(i, j), b, pb(i, j) + fabsl(b), 3 * na + 8, i, j); }
    c.obs("elements", (long)m * n);
}
OP(update_sym, 3) {
    Config cf(c); Rng &r = c.rng; int n = dim3(c), k = dim3(c); bool t = r.chance(50);
    int f = r.pick({ARMAS_LOWER, ARMAS_UPPER}) | (t ? ARMAS_TRANS : 0); Mat A, C(c, n, n); if (t) A.init(c, k, n); else A.init(c, n, k);
    poison_tri(C, f); A.save(); C.save(); double al = pick_scal(c), be = pick_scal(c);
    c.D("%s n=%d k=%d ld=%d,%d alpha=%g beta=%g", fl(f), n, k, A.step, C.step, al, be); nt(c, n, k);
    nanify(c, C, be, n > 0 && k > 0, [&](int i, int j) { return in_tri(i, j, f); });
    expect_ok(c, armas_update_sym(be, &C, al, &A, f, cf), cf);
    A.is_const(c, "A"); C.untouched(c, "C", [&](int i, int j) { return in_tri(i, j, f); }); cf.check(c);
    if (!n || !k) { C.is_const(c, "C"); return; }
    LMat a = LMat::of(A); if (t) a = a.T(); LMat p = mul(a, a.T()), pb = mul(a.abs(), a.abs().T()); Cmp q(c, "C");
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in_tri(i, j, f)) { LD u = (LD)be * C.old(i, j); q(C.get(i, j), u + al * p(i, j), fabsl(u) + fabs(al) * pb(i, j), k + 2, i, j); }
    c.obs("elements", (long)n * n / 2);
}
OP(update2_sym, 3) {
    Config cf(c); Rng &r = c.rng; int n = dim3(c), k = dim3(c); bool t = r.chance(50);
    int f = r.pick({ARMAS_LOWER, ARMAS_UPPER}) | (t ? ARMAS_TRANS : 0); Mat A, B, C(c, n, n);
    if (t) A.init(c, k, n), B.init(c, k, n); else A.init(c, n, k), B.init(c, n, k);
    poison_tri(C, f); A.save(); B.save(); C.save(); double al = pick_scal(c), be = pick_scal(c);
    c.D("%s n=%d k=%d ld=%d,%d,%d alpha=%g beta=%g", fl(f), n, k, A.step, B.step, C.step, al, be); nt(c, n, k);
    nanify(c, C, be, n > 0 && k > 0, [&](int i, int j) { return in_tri(i, j, f); });
    expect_ok(c, armas_update2_sym(be, &C, al, &A, &B, f, cf), cf);
    A.is_const(c, "A"); B.is_const(c, "B"); C.untouched(c, "C", [&](int i, int j) { return in_tri(i, j, f); }); cf.check(c);
    if (!n || !k) { C.is_const(c, "C"); return; }
    LMat a = LMat::of(A), b = LMat::of(B); if (t) a = a.T(), b = b.T();
    LMat p = add(mul(a, b.T()), mul(b, a.T())), pb = add(mul(a.abs(), b.abs().T()), mul(b.abs(), a.abs().T())); Cmp q(c, "C");
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in_tri(i, j, f)) { LD u = (LD)be * C.old(i, j); q(C.get(i, j), u + al * p(i, j), fabsl(u) + fabs(al) * pb(i, j), 2 * k + 4, i, j); }
    c.obs("elements", (long)n * n / 2);
}
OP(update_trm, 4) {
    Config cf(c); Rng &r = c.rng; int m = dim3(c), n = r.chance(40) ? m : dim3(c), k = dim3(c); bool ta = r.chance(50), tb = r.chance(50);
    int f = r.pick({ARMAS_LOWER, ARMAS_UPPER}) | (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0);
    Mat A, B, C(c, m, n); if (ta) A.init(c, k, m); else A.init(c, m, k); if (tb) B.init(c, n, k); else B.init(c, k, n);
    poison_tri(C, f); A.save(); B.save(); C.save(); double al = pick_scal(c), be = pick_scal(c);
    c.D("%s m=%d n=%d k=%d ld=%d,%d,%d alpha=%g beta=%g", fl(f), m, n, k, A.step, B.step, C.step, al, be); nt(c, m, n);
    nanify(c, C, be, m > 0 && n > 0 && k > 0, [&](int i, int j) { return in_tri(i, j, f); });
    expect_ok(c, armas_update_trm(be, &C, al, &A, &B, f, cf), cf);
    A.is_const(c, "A"); B.is_const(c, "B"); C.untouched(c, "C", [&](int i, int j) { return in_tri(i, j, f); }); cf.check(c);
    if (!m || !n || !k) { C.is_const(c, "C"); return; }
    LMat a = LMat::of(A), b = LMat::of(B); if (ta) a = a.T(); if (tb) b = b.T(); LMat p = mul(a, b), pb = mul(a.abs(), b.abs()); Cmp q(c, "C");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in_tri(i, j, f)) { LD u = (LD)be * C.old(i, j); q(C.get(i, j), u + al * p(i, j), fabsl(u) + fabs(al) * pb(i, j), k + 2, i, j); }
    c.obs("elements", (long)m * n / 2);
}
OP(badargs3, 1) {
    Config cf(c, false, 0); Rng &r = c.rng; int m = r.range(3, 9), n = m + r.range(1, 4);
    Mat A(c, m, n), B(c, m, n), S(c, n, n), C(c, m, m), Z(c, n + 3, n + 3);
    A.save(); B.save(); S.save(); C.save(); Z.save(); c.nontrivial = true; cf.cf.error = 0;
    int w = r.below(14), rc = 0; c.D("which=%d m=%d n=%d", w, m, n);
    switch (w) {
    case 0: rc = armas_mult(1, &C, 1, &A, &B, 0, cf); break;
    case 1: rc = armas_mult(1, &S, 1, &A, &B, ARMAS_TRANSB, cf); break;
    case 2: rc = armas_mult(1, &C, 1, &A, &B, ARMAS_TRANSA, cf); break;
    case 3: rc = armas_mult(1, &C, 1, &A, &B, ARMAS_TRANSA | ARMAS_TRANSB, cf); break;
    case 4: rc = armas_mult_sym(1, &B, 1, &A, &A, ARMAS_LOWER | ARMAS_LEFT, cf); break;
    case 5: rc = armas_mult_sym(1, &B, 1, &S, &A, ARMAS_LOWER | ARMAS_LEFT, cf); break;
    case 6: rc = armas_mult_sym(1, &B, 1, &C, &A, ARMAS_LOWER | ARMAS_RIGHT, cf); break;
    case 7: rc = armas_mult_trm(&B, 1, &S, ARMAS_LOWER | ARMAS_LEFT, cf); break;
    case 8: rc = armas_mult_trm(&B, 1, &A, ARMAS_LOWER | ARMAS_RIGHT, cf); break;
    case 9: rc = armas_solve_trm(&B, 1, &S, ARMAS_UPPER | ARMAS_LEFT, cf); break;
    case 10: rc = armas_solve_trm(&B, 1, &C, ARMAS_UPPER | ARMAS_RIGHT, cf); break;
    case 11: rc = armas_update_sym(1, &S, 1, &A, ARMAS_UPPER, cf); break;
    case 12: rc = armas_update2_sym(1, &C, 1, &A, &S, ARMAS_UPPER, cf); break;
    case 13: rc = armas_update_trm(1, &Z, 1, &A, &S, ARMAS_UPPER, cf); break;
    }
    if (rc >= 0) c.fail(fmt("accepted:%d", w), "mismatched operands accepted");
    else if (cf.cf.error <= 0) c.fail(fmt("noerror:%d", w), "no error code recorded for mismatched operands");
    A.is_const(c, "A"); B.is_const(c, "B"); S.is_const(c, "S"); C.is_const(c, "C"); Z.is_const(c, "Z"); c.obs("rejections");
}
