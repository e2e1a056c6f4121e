// Standard (Fortran and C) BLAS entry points against the definitions of the reference BLAS.
#include "ref.hpp"

extern "C" {
double dasum_(int *, double *, int *); double dnrm2_(int *, double *, int *); int idamax_(int *, double *, int *);
void daxpy_(int *, double *, double *, int *, double *, int *); void dcopy_(int *, double *, int *, double *, int *);
double ddot_(int *, double *, int *, double *, int *); void dswap_(int *, double *, int *, double *, int *);
void drot_(int *, double *, int *, double *, int *, double *, double *); void drotg_(double *, double *, double *, double *);
void dscal_(int *, double *, double *, int *);
void dgemv_(char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dger_(int *, int *, double *, double *, int *, double *, int *, double *, int *);
void dsymv_(char *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsyr_(char *, int *, double *, double *, int *, double *, int *);
void dsyr2_(char *, int *, double *, double *, int *, double *, int *, double *, int *);
void dtrmv_(char *, char *, char *, int *, double *, int *, double *, int *);
void dtrsv_(char *, char *, char *, int *, double *, int *, double *, int *);
void dgemm_(char *, char *, int *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsymm_(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsyrk_(char *, char *, int *, int *, double *, double *, int *, double *, double *, int *);
void dsyr2k_(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dtrmm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
void dtrsm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
void cblas_dgemm(int, int, int, int, int, int, double, double *, int, double *, int, double, double *, int);
void cblas_dsymm(int, int, int, int, int, double, double *, int, double *, int, double, double *, int);
void cblas_dtrmm(int, int, int, int, int, int, int, double, double *, int, double *, int);
void cblas_dtrsm(int, int, int, int, int, int, int, double, double *, int, double *, int);
}

// ---------------------------------------------------------------- operands
static int gdim(Ctx &c, int big) { return pick_size(c, c.tier ? 2 * big : big); }
// vector of n elements with any increment; elements between are not part of it
struct V {
    Mat m; int n, inc, ai;
    V(Ctx &c, int n, int inc, const char *nm) : n(std::max(n, 0)), inc(inc), ai(std::abs(inc)) {
        int len = this->n == 0 ? 0 : ai == 0 ? 1 : (this->n - 1) * ai + 1;
        m.alloc(c, len, 1, 0); int kind = c.rng.chance(60) ? GEN_UNI : c.rng.below(NGEN);
        for (int i = 0; i < this->n; i++) m.at(at(i), 0) = gen_value(c.rng, kind);
        m.save(); c.D("%s[inc=%d]", nm, inc);
    }
    int at(int i) const { return inc < 0 ? (n - 1 - i) * ai : i * ai; }
    double get(int i) const { return m.get(at(i), 0); }
    double old(int i) const { return m.old(at(i), 0); }
    double &ref(int i) { return m.at(at(i), 0); }
    double *p() { return m.raw + m.off; }
    void konst(Ctx &c, const char *nm) { m.is_const(c, nm); }
    void only(Ctx &c, const char *nm) { int a = ai ? ai : 1; m.untouched(c, nm, [a](int i, int) { return i % a == 0; }); }
    LMat l() const { LMat r(n, 1); for (int i = 0; i < n; i++) r(i, 0) = old(i); return r; }
};
static int pinc(Ctx &c, bool zero = false) {
    Rng &r = c.rng; if (zero && r.chance(7)) return 0;
    int a = r.chance(55) ? 1 : r.range(2, 5); return r.chance(40) ? -a : a;
}
// column or row major matrix
struct M2 {
    Mat m; int r, c; bool rm;
    M2(Ctx &cx, int r, int c, bool rm = false, int kind = -1) : r(r), c(c), rm(rm) { if (rm) m.init(cx, c, r, kind); else m.init(cx, r, c, kind); m.save(); }
    double get(int i, int j) const { return rm ? m.get(j, i) : m.get(i, j); }
    double old(int i, int j) const { return rm ? m.old(j, i) : m.old(i, j); }
    double &at(int i, int j) { return rm ? m.at(j, i) : m.at(i, j); }
    double *p() { return m.raw + m.off; }
    int ld() const { return m.step; }
    LMat l() const { LMat x(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) x(i, j) = old(i, j); return x; }
    // triangle that is not to be read
    void junk(bool upper, bool unit) {
        for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) if ((upper ? i > j : i < j) || (unit && i == j)) at(i, j) = poison(1000 + i * 31 + j);
        m.save();
    }
    LMat tri(bool upper, bool unit) const {
        LMat x(r, c);
        for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) if (i == j) x(i, j) = unit ? 1.0L : (LD)old(i, j); else if (upper ? i < j : i > j) x(i, j) = old(i, j);
        return x;
    }
    LMat sym(bool upper) const {
        LMat x(r, c);
        for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) x(i, j) = (upper ? i <= j : i >= j) ? old(i, j) : old(j, i);
        return x;
    }
    void only(Ctx &cx, const char *nm, int part = 0) {   // 0 all, 1 upper, 2 lower
        bool t = rm;
        m.untouched(cx, nm, [=](int a, int b) { int i = t ? b : a, j = t ? a : b; return part == 0 || (part == 1 ? i <= j : i >= j); });
    }
    void konst(Ctx &cx, const char *nm) { m.is_const(cx, nm); }
    void solvable(bool upper, bool unit) {   // keeps triangular solves well conditioned
        for (int j = 0; j < c; j++) for (int i = 0; i < r; i++)
            if (i == j) { double d = at(i, j); if (!unit) at(i, j) = (std::isnan(d) || d >= 0 ? 1 : -1) * (1.0 + std::fabs(std::isnan(d) ? 0 : std::fmod(d, 1.0))); }
            else if (upper ? i < j : i > j) at(i, j) = std::fmod(at(i, j), 1.0) / r;
        m.save();
    }
};
static char pk(Ctx &c, const char *s) { return s[c.rng.below((int)strlen(s))]; }
static bool ist(char t) { return t != 'N' && t != 'n'; }
static bool isu(char u) { return u == 'U' || u == 'u'; }
static bool isr(char u) { return u == 'R' || u == 'r'; }
static void junkv(Ctx &c, V &y, double beta) { if (beta == 0.0 && c.rng.chance(50)) { for (int i = 0; i < y.n; i++) y.ref(i) = poison(i + 7); y.m.save(); } }
template <class F> static void junkm(Ctx &c, M2 &y, double beta, F f) {
    if (beta != 0.0 || !c.rng.chance(50)) return;
    for (int j = 0; j < y.c; j++) for (int i = 0; i < y.r; i++) if (f(i, j)) y.at(i, j) = poison(i * 13 + j);
    y.m.save();
}
static LD sc(double beta, double v) { return beta == 0.0 ? 0.0L : (LD)beta * v; }

// ---------------------------------------------------------------- vectors
OP(b_reduce, 3) {
    Config cf(c); Rng &r = c.rng; int n = r.chance(5) ? -r.range(1, 4) : gdim(c, 300), inc = r.chance(6) ? r.range(-3, 0) : std::abs(pinc(c)), nn = n;
    V x(c, n, inc, "x"); c.D("n=%d", n); c.nontrivial = n > 1 && inc != 0;
    bool none = n <= 0 || inc <= 0;
    double s = dasum_(&n, x.p(), &inc); int ix = idamax_(&n, x.p(), &inc);
    LD sum = 0, sq = 0; int best = 0; for (int i = 0; i < x.n; i++) { sum += std::fabs(x.old(i)); if (std::fabs(x.old(i)) > std::fabs(x.old(best))) best = i; }
    Cmp q(c, "asum"); q(s, none ? 0 : sum, none ? 0 : sum, nn, 0, 0);
    if (ix != (none ? 0 : best + 1)) c.fail("iamax", fmt("idamax returned %d, first largest element is %d", ix, none ? 0 : best + 1));
    if (inc > 0) {
        LD mx = none ? 0 : fabsl((LD)x.old(best));
        if (mx > 0) for (int i = 0; i < x.n; i++) sq += ((LD)x.old(i) / mx) * ((LD)x.old(i) / mx);
        LD nr = mx * sqrtl(sq); Cmp q2(c, "nrm2"); q2(dnrm2_(&n, x.p(), &inc), nr, nr, nn, 0, 0);
    }
    x.konst(c, "x"); c.obs("reductions", 3);
}
OP(b_scal, 2) {
    Config cf(c); Rng &r = c.rng; int n = r.chance(5) ? -r.range(1, 4) : gdim(c, 300), inc = r.chance(6) ? r.range(-3, 0) : std::abs(pinc(c));
    V x(c, n, inc, "x"); double al = pick_scal(c); c.D("n=%d alpha=%g", n, al); c.nontrivial = n > 1;
    dscal_(&n, &al, x.p(), &inc);
    if (inc <= 0) x.konst(c, "x"); else { x.only(c, "x"); Cmp q(c, "x"); for (int i = 0; i < x.n; i++) q(x.get(i), (LD)al * x.old(i), fabsl((LD)al * x.old(i)), 1, i, 0); }
    c.obs("updates");
}
OP(b_pair, 5) {
    Config cf(c); Rng &r = c.rng; int n = r.chance(4) ? -r.range(1, 4) : gdim(c, 300), which = r.below(5);
    int ix = pinc(c, true), iy = pinc(c, true);
    V x(c, n, ix, "x"), y(c, n, iy, "y"); double al = pick_scal(c); c.D("n=%d op=%d alpha=%g", n, which, al); c.nontrivial = n > 1;
    std::vector<LD> X(x.m.r), Y(y.m.r), BX(x.m.r), BY(y.m.r); std::vector<int> cx(x.m.r), cy(y.m.r);
    for (int i = 0; i < x.n; i++) { X[x.at(i)] = x.old(i); BX[x.at(i)] = std::fabs(x.old(i)); }
    for (int i = 0; i < y.n; i++) { Y[y.at(i)] = y.old(i); BY[y.at(i)] = std::fabs(y.old(i)); }
    bool cX = true, cY = true;
    if (which == 0) {
        if (al != 0.0) for (int i = 0; i < x.n; i++) { Y[y.at(i)] += (LD)al * X[x.at(i)]; BY[y.at(i)] += fabsl((LD)al * X[x.at(i)]); cy[y.at(i)]++; }
        daxpy_(&n, &al, x.p(), &ix, y.p(), &iy); cY = false;
    } else if (which == 1) {
        for (int i = 0; i < x.n; i++) { Y[y.at(i)] = X[x.at(i)]; BY[y.at(i)] = 0; }
        dcopy_(&n, x.p(), &ix, y.p(), &iy); cY = false;
    } else if (which == 2) {
        LD s = 0, b = 0; for (int i = 0; i < x.n; i++) { LD t = X[x.at(i)] * Y[y.at(i)]; s += t; b += fabsl(t); }
        Cmp q(c, "dot"); q(ddot_(&n, x.p(), &ix, y.p(), &iy), s, b, x.n, 0, 0);
    } else if (which == 3) {
        for (int i = 0; i < x.n; i++) { std::swap(X[x.at(i)], Y[y.at(i)]); BX[x.at(i)] = BY[y.at(i)] = 0; }
        dswap_(&n, x.p(), &ix, y.p(), &iy); cX = cY = false;
    } else {
        double th = r.uni() * 4, co = r.chance(10) ? 1 : r.chance(10) ? 0 : std::cos(th), si = r.chance(10) ? 0 : r.chance(10) ? 1 : std::sin(th);
        for (int i = 0; i < x.n; i++) {
            LD a = X[x.at(i)], b = Y[y.at(i)], ba = BX[x.at(i)], bb = BY[y.at(i)];
            X[x.at(i)] = co * a + si * b; Y[y.at(i)] = co * b - si * a;
            BX[x.at(i)] = BY[y.at(i)] = std::fabs(co) * (ba + bb) + std::fabs(si) * (ba + bb); cx[x.at(i)] += 4; cy[y.at(i)] += 4;
        }
        c.D("c=%g s=%g", co, si);
        drot_(&n, x.p(), &ix, y.p(), &iy, &co, &si); cX = cY = false;
    }
    if (cX) x.konst(c, "x"); else x.only(c, "x"); if (cY) y.konst(c, "y"); else y.only(c, "y");
    Cmp q(c, "x"), q2(c, "y");
    for (int i = 0; i < x.n; i++) q(x.get(i), X[x.at(i)], BX[x.at(i)], cx[x.at(i)] + 2, i, 0);
    for (int i = 0; i < y.n; i++) q2(y.get(i), Y[y.at(i)], BY[y.at(i)], cy[y.at(i)] + 2, i, 0);
    c.obs("updates"); if (ix != iy) c.obs("mixed-increments"); if (!ix || !iy) c.obs("zero-increments");
}
OP(b_rotg, 2) {
    Rng &r = c.rng; auto g = [&] { return r.chance(15) ? 0.0 : r.chance(40) ? (double)r.range(-4, 4) : r.uni() * std::pow(10.0, r.range(-60, 60)); };
    double a = g(), b = r.chance(15) ? a : r.chance(10) ? -a : g(), a0 = a, b0 = b, co = 7, si = 7;
    c.D("a=%.17g b=%.17g", a, b); c.nontrivial = a != 0 || b != 0;
    drotg_(&a, &b, &co, &si); double R = a, z = b;
    if (a0 == 0 && b0 == 0) { if (co != 1 || si != 0 || R != 0 || z != 0) c.fail("zero", fmt("c=%g s=%g r=%g z=%g", co, si, R, z)); c.obs("rotations"); return; }
    LD h = hypotl(a0, b0); Cmp q(c, "rotg");
    q((double)((LD)co * co + (LD)si * si), 1, 1, 8, 0, 0);
    q((double)(((LD)co * a0 + (LD)si * b0) / h), R / h, 1, 8, 1, 0); q((double)(((LD)co * b0 - (LD)si * a0) / h), 0, 1, 8, 2, 0);
    bool al = std::fabs(a0) > std::fabs(b0); double roe = al ? a0 : b0;
    q((double)(R / h), std::copysign(1.0, roe), 1, 8, 3, 0);
    double ez = al ? si : co != 0 ? 1.0 / co : 1.0; q(z, ez, std::fabs(ez), 4, 4, 0);
    c.obs("rotations");
}
// ---------------------------------------------------------------- matrix-vector
OP(b_gemv, 4) {
    Config cf(c); int m = gdim(c, 120), n = gdim(c, 120), ix = pinc(c), iy = pinc(c); char t = pk(c, "NnTtCc"); bool T = ist(t);
    M2 A(c, m, n); V x(c, T ? m : n, ix, "x"), y(c, T ? n : m, iy, "y"); double al = pick_scal(c), be = pick_scal(c); int ld = A.ld();
    bool none = !m || !n; if (!none) junkv(c, y, be); c.D("%c m=%d n=%d ld=%d alpha=%g beta=%g", t, m, n, ld, al, be); c.nontrivial = m > 1 && n > 1;
    dgemv_(&t, &m, &n, &al, A.p(), &ld, x.p(), &ix, &be, y.p(), &iy);
    A.konst(c, "A"); x.konst(c, "x"); if (none) { y.konst(c, "y"); return; } y.only(c, "y");
    LMat a = A.l(); if (T) a = a.T(); LMat p = mul(a, x.l()), pb = mul(a.abs(), x.l().abs()); Cmp q(c, "y");
    for (int i = 0; i < y.n; i++) { LD u = sc(be, y.old(i)); q(y.get(i), u + al * p(i, 0), fabsl(u) + fabs(al) * pb(i, 0), x.n + 2, i, 0); }
    c.obs("matrix-vector");
}
OP(b_ger, 2) {
    Config cf(c); int m = gdim(c, 120), n = gdim(c, 120), ix = pinc(c), iy = pinc(c);
    M2 A(c, m, n); V x(c, m, ix, "x"), y(c, n, iy, "y"); double al = pick_scal(c); int ld = A.ld(); c.D("m=%d n=%d ld=%d alpha=%g", m, n, ld, al); c.nontrivial = m > 1 && n > 1;
    dger_(&m, &n, &al, x.p(), &ix, y.p(), &iy, A.p(), &ld);
    x.konst(c, "x"); y.konst(c, "y"); A.only(c, "A"); Cmp q(c, "A");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { LD u = (LD)al * x.old(i) * y.old(j); q(A.get(i, j), A.old(i, j) + u, std::fabs(A.old(i, j)) + fabsl(u), 3, i, j); }
    c.obs("matrix-vector");
}
OP(b_symv, 3) {
    Config cf(c); int n = gdim(c, 120), ix = pinc(c), iy = pinc(c); char u = pk(c, "UuLl");
    M2 A(c, n, n); A.junk(isu(u), false); V x(c, n, ix, "x"), y(c, n, iy, "y"); double al = pick_scal(c), be = pick_scal(c); int ld = A.ld(); junkv(c, y, be);
    c.D("%c n=%d ld=%d alpha=%g beta=%g", u, n, ld, al, be); c.nontrivial = n > 1;
    dsymv_(&u, &n, &al, A.p(), &ld, x.p(), &ix, &be, y.p(), &iy);
    A.konst(c, "A"); x.konst(c, "x"); y.only(c, "y");
    LMat a = A.sym(isu(u)), p = mul(a, x.l()), pb = mul(a.abs(), x.l().abs()); Cmp q(c, "y");
    for (int i = 0; i < n; i++) { LD w = sc(be, y.old(i)); q(y.get(i), w + al * p(i, 0), fabsl(w) + fabs(al) * pb(i, 0), n + 2, i, 0); }
    c.obs("matrix-vector");
}
OP(b_syr, 3) {
    Config cf(c); bool two = c.rng.chance(50); int n = gdim(c, 120), ix = pinc(c), iy = pinc(c); char u = pk(c, "UuLl"); bool up = isu(u);
    M2 A(c, n, n); A.junk(up, false); V x(c, n, ix, "x"), y(c, n, iy, "y"); double al = pick_scal(c); int ld = A.ld();
    c.D("%s %c n=%d ld=%d alpha=%g", two ? "syr2" : "syr", u, n, ld, al); c.nontrivial = n > 1;
    if (two) dsyr2_(&u, &n, &al, x.p(), &ix, y.p(), &iy, A.p(), &ld); else dsyr_(&u, &n, &al, x.p(), &ix, A.p(), &ld);
    x.konst(c, "x"); y.konst(c, "y"); A.only(c, "A", up ? 1 : 2); Cmp q(c, "A");
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i <= j : i >= j) {
        LD s = two ? (LD)al * ((LD)x.old(i) * y.old(j) + (LD)y.old(i) * x.old(j)) : (LD)al * x.old(i) * x.old(j);
        LD b = two ? fabs(al) * (fabsl((LD)x.old(i) * y.old(j)) + fabsl((LD)y.old(i) * x.old(j))) : fabsl(s);
        q(A.get(i, j), A.old(i, j) + s, std::fabs(A.old(i, j)) + b, 4, i, j);
    }
    c.obs("matrix-vector");
}
// componentwise backward error of a triangular solve: |T x - b| <= k eps |T||x|
static void check_solve(Ctx &c, const LMat &t, const LMat &x, const LMat &b, double k) {
    LMat p = mul(t, x), pb = mul(t.abs(), x.abs()); Cmp q(c, "residual");
    for (int j = 0; j < b.c; j++) for (int i = 0; i < b.r; i++) { LD e = fabsl(p(i, j) - b(i, j)), tol = (3 * k + 24) * EPSD * (pb(i, j) + fabsl(b(i, j))) + 1e-290L; if (!(e <= tol)) { c.fail("residual", fmt("(%d,%d): error %.3Lg, tolerance %.3Lg", i, j, e, tol)); return; } }
}
OP(b_trv, 4) {
    Config cf(c); bool solve = c.rng.chance(50); int n = gdim(c, 120), ix = pinc(c); char u = pk(c, "UuLl"), t = pk(c, "NnTtCc"), d = pk(c, "NnUu"); bool up = isu(u), un = d == 'U' || d == 'u';
    M2 A(c, n, n); A.junk(up, un); if (solve) A.solvable(up, un); V x(c, n, ix, "x"); int ld = A.ld();
    c.D("%s %c%c%c n=%d ld=%d", solve ? "trsv" : "trmv", u, t, d, n, ld); c.nontrivial = n > 1;
    if (solve) dtrsv_(&u, &t, &d, &n, A.p(), &ld, x.p(), &ix); else dtrmv_(&u, &t, &d, &n, A.p(), &ld, x.p(), &ix);
    A.konst(c, "A"); x.only(c, "x"); LMat a = A.tri(up, un); if (ist(t)) a = a.T();
    if (solve) { LMat s(n, 1); for (int i = 0; i < n; i++) s(i, 0) = x.get(i); check_solve(c, a, s, x.l(), n); }
    else { LMat p = mul(a, x.l()), pb = mul(a.abs(), x.l().abs()); Cmp q(c, "x"); for (int i = 0; i < n; i++) q(x.get(i), p(i, 0), pb(i, 0), n + 2, i, 0); }
    c.obs("matrix-vector");
}
// ---------------------------------------------------------------- matrix-matrix
static int cbt(char t) { return !ist(t) ? 111 : t == 'T' || t == 't' ? 112 : 113; }
OP(b_gemm, 6) {
    Config cf(c); Rng &r = c.rng; int cb = r.below(3); bool rm = cb == 2; int m = gdim(c, 90), n = gdim(c, 90), k = gdim(c, 90); char ta = pk(c, "NnTtCc"), tb = pk(c, "NnTtCc");
    M2 A(c, ist(ta) ? k : m, ist(ta) ? m : k, rm), B(c, ist(tb) ? n : k, ist(tb) ? k : n, rm), C(c, m, n, rm); double al = pick_scal(c), be = pick_scal(c); int la = A.ld(), lb = B.ld(), lc = C.ld();
    junkm(c, C, be, all_mask); c.D("%s %c%c m=%d n=%d k=%d ld=%d,%d,%d alpha=%g beta=%g", cb == 0 ? "dgemm" : rm ? "row" : "col", ta, tb, m, n, k, la, lb, lc, al, be); c.nontrivial = m > 1 && n > 1;
    if (cb == 0) dgemm_(&ta, &tb, &m, &n, &k, &al, A.p(), &la, B.p(), &lb, &be, C.p(), &lc);
    else cblas_dgemm(rm ? 101 : 102, cbt(ta), cbt(tb), m, n, k, al, A.p(), la, B.p(), lb, be, C.p(), lc);
    A.konst(c, "A"); B.konst(c, "B"); C.only(c, "C");
    LMat a = A.l(), b = B.l(); if (ist(ta)) a = a.T(); if (ist(tb)) b = b.T(); LMat p = mul(a, b), pb = mul(a.abs(), b.abs()); Cmp q(c, "C");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { LD u = sc(be, C.old(i, j)); q(C.get(i, j), u + al * p(i, j), fabsl(u) + fabs(al) * pb(i, j), k + 2, i, j); }
    c.obs("matrix-matrix"); if (rm) c.obs("row-major"); if (!k) c.obs("empty-inner");
}
OP(b_symm, 4) {
    Config cf(c); Rng &r = c.rng; int cb = r.below(3); bool rm = cb == 2; int m = gdim(c, 90), n = gdim(c, 90); char s = pk(c, "LlRr"), u = pk(c, "UuLl"); bool R = isr(s), up = isu(u); int na = R ? n : m;
    M2 A(c, na, na, rm), B(c, m, n, rm), C(c, m, n, rm); A.junk(up, false); double al = pick_scal(c), be = pick_scal(c); int la = A.ld(), lb = B.ld(), lc = C.ld(); junkm(c, C, be, all_mask);
    c.D("%s %c%c m=%d n=%d ld=%d,%d,%d alpha=%g beta=%g", cb == 0 ? "dsymm" : rm ? "row" : "col", s, u, m, n, la, lb, lc, al, be); c.nontrivial = m > 1 && n > 1;
    if (cb == 0) dsymm_(&s, &u, &m, &n, &al, A.p(), &la, B.p(), &lb, &be, C.p(), &lc);
    else cblas_dsymm(rm ? 101 : 102, R ? 142 : 141, up ? 121 : 122, m, n, al, A.p(), la, B.p(), lb, be, C.p(), lc);
    A.konst(c, "A"); B.konst(c, "B"); C.only(c, "C");
    LMat a = A.sym(up), b = B.l(), p = R ? mul(b, a) : mul(a, b), pb = R ? mul(b.abs(), a.abs()) : mul(a.abs(), b.abs()); Cmp q(c, "C");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { LD w = sc(be, C.old(i, j)); q(C.get(i, j), w + al * p(i, j), fabsl(w) + fabs(al) * pb(i, j), na + 2, i, j); }
    c.obs("matrix-matrix"); if (rm) c.obs("row-major");
}
OP(b_syrk, 4) {
    Config cf(c); Rng &r = c.rng; bool two = r.chance(50); int n = gdim(c, 90), k = gdim(c, 90); char u = pk(c, "UuLl"), t = pk(c, "NnTtCc"); bool up = isu(u), T = ist(t);
    M2 A(c, T ? k : n, T ? n : k), B(c, T ? k : n, T ? n : k), C(c, n, n); C.junk(up, false); double al = pick_scal(c), be = pick_scal(c); int la = A.ld(), lb = B.ld(), lc = C.ld();
    junkm(c, C, be, [=](int i, int j) { return up ? i <= j : i >= j; });
    c.D("%s %c%c n=%d k=%d ld=%d,%d,%d alpha=%g beta=%g", two ? "syr2k" : "syrk", u, t, n, k, la, lb, lc, al, be); c.nontrivial = n > 1;
    if (two) dsyr2k_(&u, &t, &n, &k, &al, A.p(), &la, B.p(), &lb, &be, C.p(), &lc); else dsyrk_(&u, &t, &n, &k, &al, A.p(), &la, &be, C.p(), &lc);
    A.konst(c, "A"); B.konst(c, "B"); C.only(c, "C", up ? 1 : 2);
    LMat a = A.l(), b = B.l(); if (T) { a = a.T(); b = b.T(); } LMat p = mul(a, two ? b.T() : a.T()), pb = mul(a.abs(), two ? b.abs().T() : a.abs().T()); if (two) { p = add(p, p.T()); pb = add(pb, pb.T()); }
    Cmp q(c, "C");
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i <= j : i >= j) { LD w = sc(be, C.old(i, j)); q(C.get(i, j), w + al * p(i, j), fabsl(w) + fabs(al) * pb(i, j), 2 * k + 4, i, j); }
    c.obs("matrix-matrix"); if (!k) c.obs("empty-inner");
}
OP(b_trm, 6) {
    Config cf(c); Rng &r = c.rng; bool solve = r.chance(50); int cb = r.below(3); bool rm = cb == 2; int m = gdim(c, 90), n = gdim(c, 90); char s = pk(c, "LlRr"), u = pk(c, "UuLl"), t = pk(c, "NnTtCc"), d = pk(c, "NnUu");
    bool R = isr(s), up = isu(u), un = d == 'U' || d == 'u'; int na = R ? n : m;
    M2 A(c, na, na, rm), B(c, m, n, rm); A.junk(up, un); if (solve) A.solvable(up, un); double al = pick_scal(c); int la = A.ld(), lb = B.ld();
    c.D("%s %s %c%c%c%c m=%d n=%d ld=%d,%d alpha=%g", solve ? "trsm" : "trmm", cb == 0 ? "fortran" : rm ? "row" : "col", s, u, t, d, m, n, la, lb, al); c.nontrivial = m > 1 && n > 1;
    int S = R ? 142 : 141, U = up ? 121 : 122, D = un ? 132 : 131, O = rm ? 101 : 102;
    if (cb == 0) (solve ? dtrsm_ : dtrmm_)(&s, &u, &t, &d, &m, &n, &al, A.p(), &la, B.p(), &lb);
    else (solve ? cblas_dtrsm : cblas_dtrmm)(O, S, U, cbt(t), D, m, n, al, A.p(), la, B.p(), lb);
    A.konst(c, "A"); B.only(c, "B"); LMat a = A.tri(up, un), b = B.l(), x(m, n); if (ist(t)) a = a.T();
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) x(i, j) = B.get(i, j);
    if (solve) { LMat ab = b; for (auto &v : ab.d) v *= al; if (R) check_solve(c, a.T(), x.T(), ab.T(), na); else check_solve(c, a, x, ab, na); }
    else { LMat p = R ? mul(b, a) : mul(a, b), pb = R ? mul(b.abs(), a.abs()) : mul(a.abs(), b.abs()); Cmp q(c, "B"); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) q(B.get(i, j), al * p(i, j), fabs(al) * pb(i, j), na + 2, i, j); }
    c.obs("matrix-matrix"); if (rm) c.obs("row-major");
}
