// Vector operations: value, containment, orientation/stride independence.
#include "h.hpp"

static int vlen(Ctx &c) {
    Rng &r = c.rng;
    if (r.below(4000) == 0) return r.range(3000, 200000);
    int k = r.below(100);
    if (k < 4) return 0;
    if (k < 10) return 1;
    if (k < 60) return r.range(2, 40);
    if (k < 90) return r.range(2, 300);
    return r.range(300, c.tier ? 9000 : 3000);
}
// a vector as column, as row of a matrix (strided), as diagonal view
static void mkvec(Ctx &c, Mat &m, int n, int kind, const char *nm) {
    int o = c.rng.below(3);
    if (o == 0) m.init(c, n, 1, kind);
    else if (o == 1) m.init(c, 1, n, kind);
    else {
        m.alloc(c, 1, n, c.rng.range(1, 23));
        for (int i = 0; i < n; i++) m.v(i) = gen_value(c.rng, kind);
    }
    m.save();
    c.D("%s=%dx%d/%d", nm, m.r, m.c, m.step);
}
static int kind(Ctx &c) { return c.rng.chance(50) ? GEN_UNI : c.rng.below(NGEN); }
static double scal(Ctx &c) {
    switch (c.rng.below(6)) { case 0: return 0.0; case 1: return 1.0; case 2: return -1.0; default: return c.rng.uni() * 3; }
}
static void okret(Ctx &c, int rc, Config &cf) { if (rc != 0) c.fail("ret", fmt("returned %d (conf error %d) for valid operands", rc, cf.cf.error)); }

#define NT(n) c.nontrivial = (n) >= 2

OP(dot, 2) {
    Config cf(c); int n = vlen(c), k = kind(c); Mat x, y; mkvec(c, x, n, k, "x"); mkvec(c, y, n, k, "y"); NT(n);
    double d = armas_dot(&x, &y, cf);
    LD s = 0, b = 0; for (int i = 0; i < n; i++) { LD t = (LD)x.getv(i) * y.getv(i); s += t; b += fabsl(t); }
    Cmp(c, "dot")(d, s, b, n, 0, 0); x.is_const(c, "x"); y.is_const(c, "y"); c.obs("values");
}
OP(adot, 2) {
    Config cf(c); int n = vlen(c), k = kind(c); Mat x, y; mkvec(c, x, n, k, "x"); mkvec(c, y, n, k, "y"); NT(n);
    double a = scal(c), r0 = c.rng.uni(), r = r0; c.D("alpha=%g", a);
    int rc = armas_adot(&r, a, &x, &y, cf); okret(c, rc, cf);
    LD s = 0, b = 0; for (int i = 0; i < n; i++) { LD t = (LD)x.getv(i) * y.getv(i); s += t; b += fabsl(t); }
    Cmp(c, "adot")(r, r0 + a * s, fabs(r0) + fabs(a) * b, n, 0, 0); x.is_const(c, "x"); y.is_const(c, "y"); c.obs("values");
}
OP(asum, 2) {
    Config cf(c); int n = vlen(c); Mat x; mkvec(c, x, n, kind(c), "x"); NT(n);
    double d = armas_asum(&x, cf);
    LD s = 0; for (int i = 0; i < n; i++) s += fabsl(x.getv(i));
    Cmp(c, "asum")(d, s, s, n, 0, 0); x.is_const(c, "x"); c.obs("values");
}
OP(nrm2, 2) {
    Config cf(c); int n = vlen(c); Mat x; mkvec(c, x, n, kind(c), "x"); NT(n);
    // also ranges where the squares over- or underflow
    int e = c.rng.pick({0, 0, 0, 250, -250, -307, -310, -318}); c.D("exp=%d", e);
    if (e) { for (int i = 0; i < n; i++) x.v(i) *= std::pow(10.0, e); x.save(); }
    double d = armas_nrm2(&x, cf);
    LD s = 0; for (int i = 0; i < n; i++) { LD t = x.getv(i); s += t * t; } s = sqrtl(s);
    LD tol = (LD)(n + 12) * EPSD * s + (n + 2) * 5e-324L;
    if (!(fabsl(d - s) <= tol)) c.fail("value", fmt("nrm2 = %.17g, expected %.17Lg", d, s));
    x.is_const(c, "x"); c.obs("values");
}
static int true_imax(const Mat &x, int n) { int b = 0; for (int i = 1; i < n; i++) if (fabs(x.getv(i)) > fabs(x.getv(b))) b = i; return b; }
OP(iamax, 2) {
    Config cf(c); int n = vlen(c); if (!n) n = 1; Mat x; mkvec(c, x, n, kind(c), "x"); NT(n);
    if (c.rng.chance(40)) { x.v(c.rng.below(n)) = c.rng.chance(50) ? -50 : 50; if (c.rng.chance(30)) x.v(c.rng.below(n)) = 50; x.save(); }
    int k = armas_iamax(&x, cf);
    int t = true_imax(x, n);
    if (k < 0 || k >= n || fabs(x.getv(k)) != fabs(x.getv(t))) c.fail("value", fmt("iamax = %d, element of largest magnitude is at %d (n %d)", k, t, n));
    x.is_const(c, "x"); c.obs("values");
}
OP(amax, 1) {
    Config cf(c); int n = vlen(c); if (!n) n = 1; Mat x; mkvec(c, x, n, kind(c), "x"); NT(n);
    double v = armas_amax(&x, cf); int t = true_imax(x, n);
    if (v != fabs(x.getv(t))) c.fail("value", fmt("amax = %.17g, expected %.17g", v, fabs(x.getv(t))));
    x.is_const(c, "x"); c.obs("values");
}
OP(axpy, 2) {
    Config cf(c); int n = vlen(c), k = kind(c); Mat x, y; mkvec(c, x, n, k, "x"); mkvec(c, y, n, k, "y"); NT(n);
    double a = scal(c); c.D("alpha=%g", a);
    okret(c, armas_axpy(&y, a, &x, cf), cf);
    Cmp q(c, "y"); for (int i = 0; i < n; i++) q(y.getv(i), y.oldv(i) + (LD)a * x.getv(i), fabs(y.oldv(i)) + fabsl((LD)a * x.getv(i)), 2, i, 0);
    x.is_const(c, "x"); y.only_outside(c, "y"); c.obs("values", n);
}
OP(axpby, 2) {
    Config cf(c); int n = vlen(c), k = kind(c); Mat x, y; mkvec(c, x, n, k, "x"); mkvec(c, y, n, k, "y"); NT(n);
    double a = scal(c), b = scal(c); c.D("alpha=%g beta=%g", a, b); if (b == 0 && c.rng.chance(60)) { for (int i = 0; i < n; i++) y.v(i) = NAN; c.D("old=nan"); c.obs("nan-targets"); }
    okret(c, armas_axpby(b, &y, a, &x, cf), cf);
    Cmp q(c, "y"); for (int i = 0; i < n; i++) q(y.getv(i), (LD)b * y.oldv(i) + (LD)a * x.getv(i), fabsl((LD)b * y.oldv(i)) + fabsl((LD)a * x.getv(i)), 3, i, 0);
    x.is_const(c, "x"); y.only_outside(c, "y"); c.obs("values", n);
}
OP(copy, 2) {
    Config cf(c); int n = vlen(c), k = kind(c); Mat x, y; mkvec(c, x, n, k, "x");
    int ny = c.rng.chance(20) ? vlen(c) : n; mkvec(c, y, ny, k, "y"); NT(n);
    okret(c, armas_copy(&y, &x, cf), cf);
    int m = std::min(n, ny);
    for (int i = 0; i < ny; i++) if (!bits_eq(y.getv(i), i < m ? x.getv(i) : y.oldv(i))) { c.fail("value", fmt("element %d of %d (source length %d) wrong after copy", i, ny, n)); break; }
    x.is_const(c, "x"); y.only_outside(c, "y"); c.obs("values", n);
}
OP(swap, 2) {
    Config cf(c); int n = vlen(c), k = kind(c); Mat x, y; mkvec(c, x, n, k, "x"); mkvec(c, y, n, k, "y"); NT(n);
    okret(c, armas_swap(&y, &x, cf), cf);
    for (int i = 0; i < n; i++) if (!bits_eq(y.getv(i), x.oldv(i)) || !bits_eq(x.getv(i), y.oldv(i))) { c.fail("value", fmt("element %d of %d not exchanged", i, n)); break; }
    x.only_outside(c, "x"); y.only_outside(c, "y"); c.obs("values", n);
}
OP(scale, 2) {
    Config cf(c); int n = vlen(c); Mat x; mkvec(c, x, n, kind(c), "x"); NT(n);
    double a = scal(c); c.D("alpha=%g", a);
    if (a == 0 && c.rng.chance(60)) { for (int i = 0; i < n; i++) x.v(i) = c.rng.chance(50) ? NAN : INFINITY; c.D("old=nan"); c.obs("nan-targets"); }
    okret(c, armas_scale(&x, a, cf), cf);
    Cmp q(c, "x"); for (int i = 0; i < n; i++) q(x.getv(i), (LD)a * x.oldv(i), fabsl((LD)a * x.oldv(i)), 0, i, 0);
    x.only_outside(c, "x"); c.obs("values", n);
}
OP(vadd, 1) {
    Config cf(c); int n = vlen(c); if (!n) n = 3; Mat x; mkvec(c, x, n, kind(c), "x"); NT(n);
    double a = scal(c); c.D("alpha=%g", a);
    okret(c, armas_madd(&x, a, 0, cf), cf);
    Cmp q(c, "x"); for (int i = 0; i < n; i++) q(x.getv(i), (LD)a + x.oldv(i), fabs(a) + fabs(x.oldv(i)), 0, i, 0);
    x.only_outside(c, "x"); c.obs("values", n);
}
// wrong operands: error code, nothing written
OP(badargs, 1) {
    Config cf(c, false, 0); Rng &r = c.rng;
    int n = r.range(2, 20), m = r.range(2, 20); if (m == n) m++;
    Mat x(c, r.chance(50) ? n : 1, 1), y; x.init(c, n, 1); y.init(c, m, 1); Mat z(c, r.range(2, 6), r.range(2, 6));
    x.save(); y.save(); z.save(); c.nontrivial = true;
    int w = r.below(9); c.D("which=%d n=%d m=%d", w, n, m);
    double v = 0.5; int rc = 0; bool byerr = false;
    cf.cf.error = 0;
    switch (w) {
    case 0: rc = armas_axpy(&y, 2, &x, cf); break;
    case 1: rc = armas_axpby(3, &y, 2, &x, cf); break;
    case 2: rc = armas_swap(&y, &x, cf); break;
    case 3: rc = armas_adot(&v, 1, &x, &y, cf); break;
    case 4: rc = armas_axpy(&z, 2, &x, cf); break;
    case 5: rc = armas_scale(&z, 2, cf); break;
    case 6: rc = armas_copy(&x, &z, cf); break;
    case 7: armas_dot(&x, &z, cf); byerr = true; break;
    case 8: armas_asum(&z, cf); byerr = true; break;
    }
    if (!byerr && rc >= 0) c.fail(fmt("accepted:%d", w), "mismatched operands accepted");
    if (cf.cf.error == 0) c.fail(fmt("noerror:%d", w), "no error code set for mismatched operands");
    if (v != 0.5) c.fail("result", "result changed by a rejected call");
    x.is_const(c, "x"); y.is_const(c, "y"); z.is_const(c, "z"); c.obs("rejections");
}
