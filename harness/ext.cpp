// Extended precision operations against quad precision references.
#include "ref.hpp"
typedef __float128 Q;
extern "C" int armas_ext_sum(double *result, double alpha, const armas_dense_t *X, int flags, armas_conf_t *cf);
static const Q U = (Q)DBL_EPSILON / 2;
static Q qabs(Q x) { return x < 0 ? -x : x; }
static double gd(Q x) { return (double)x; }

struct QM {
    int r, c; std::vector<Q> d;
    QM(int r = 0, int c = 0) : r(r), c(c), d((size_t)r * c, (Q)0) {}
    Q &operator()(int i, int j) { return d[(size_t)j * r + i]; }
    Q operator()(int i, int j) const { return d[(size_t)j * r + i]; }
    static QM of(const LMat &m) { QM q(m.r, m.c); for (size_t k = 0; k < q.d.size(); k++) q.d[k] = (Q)m.d[k]; return q; }
    QM T() const { QM t(c, r); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) t(j, i) = (*this)(i, j); return t; }
    QM abs() const { QM t(*this); for (auto &x : t.d) x = qabs(x); return t; }
};
static QM qmul(const QM &a, const QM &b) {
    QM p(a.r, b.c);
    for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) { Q t = b(k, j); for (int i = 0; i < a.r; i++) p(i, j) += a(i, k) * t; }
    return p;
}
static QM qmulabs(const QM &a, const QM &b) {     // only a bound: long double is enough
    QM p(a.r, b.c);
    std::vector<double> A(a.d.size()); for (size_t k = 0; k < A.size(); k++) A[k] = fabs((double)a.d[k]);
    for (int j = 0; j < b.c; j++) {
        std::vector<double> s(a.r, 0.0);
        for (int k = 0; k < a.c; k++) { double t = fabs((double)b(k, j)); for (int i = 0; i < a.r; i++) s[i] += A[(size_t)k * a.r + i] * t; }
        for (int i = 0; i < a.r; i++) p(i, j) = s[i];
    }
    return p;
}
// a result rounded once from twice the working precision
struct QCmp {
    Ctx &c; const char *nm; bool bad = false; long lost = 0;
    QCmp(Ctx &c, const char *nm) : c(c), nm(nm) {}
    void operator()(double got, Q ref, Q bound, double k, int i, int j) {
        if (bad) return;
        Q tol = 5 * U * qabs(ref) + (Q)(k + 12) * (k + 12) * U * U * bound + (Q)1e-280;
        Q e = qabs((Q)got - ref);
        if (!(e <= tol)) {
            bad = true;
            c.fail(std::string("value:") + nm, fmt("%s(%d,%d) = %.17g, expected %.17g (error %.3g, tolerance %.3g, sum of magnitudes %.3g)", nm, i, j, got, gd(ref), gd(e), gd(tol), gd(bound)));
        }
        if (qabs(ref) < 1e-10 * bound) lost++;
    }
    ~QCmp() { c.obs("cancelled-elements", lost); }
};
static int dimx(Ctx &c) { return c.rng.chance(90) ? c.rng.range(1, 40) : pick_size(c, 90); }
static void nt(Ctx &c, int a, int b = 9) { c.nontrivial = a >= 2 && b >= 2; }
static double wide(Ctx &c, int w) { return c.rng.uni() * std::ldexp(1.0, c.rng.range(-w, w)); }
static void fill(Ctx &c, Mat &M, int w) { for (int j = 0; j < M.c; j++) for (int i = 0; i < M.r; i++) M.at(i, j) = wide(c, w); }
static int pick_w(Ctx &c) { return c.rng.pick({0, 0, 5, 20, 40}); }
static double scal(Ctx &c, bool zero = true) { double a = pick_scal(c, zero); return a; }
// target elements which cancel most of the product
static void cancel(Ctx &c, Mat &C, const QM &p, double al, double be) {
    int pct = c.rng.pick({0, 50, 100});
    if (be == 0 || pct == 0) return;
    c.D("cancel=%d", pct);
    for (int j = 0; j < C.c; j++) for (int i = 0; i < C.r; i++) if (c.rng.chance(pct)) {
        double t = gd(-(Q)al * p(i, j) / be);
        if (c.rng.chance(30)) t *= 1 + c.rng.uni() * 1e-9;
        C.at(i, j) = t;
    }
}

// ------------------------------------------------------------------ vectors
// ill conditioned sum: the partial sums cancel
static void illsum(Ctx &c, Mat &x, int n, int w) {
    std::vector<double> v(n); int h = n / 2;
    for (int i = 0; i < h; i++) v[i] = wide(c, w);
    for (int i = h; i < n; i++) {
        if (i - h < h && c.rng.chance(80)) v[i] = -v[i - h] * (c.rng.chance(60) ? 1.0 : 1 + c.rng.uni() * 1e-12);
        else v[i] = wide(c, 0);
    }
    for (int i = n - 1; i > 0; i--) std::swap(v[i], v[c.rng.below(i + 1)]);
    for (int i = 0; i < n; i++) x.v(i) = v[i];
}
OP(ext_sum, 3) {
    Config cf(c); int n = c.rng.chance(80) ? c.rng.range(0, 60) : pick_size(c, 3000), f = c.rng.chance(40) ? ARMAS_ABS : 0, w = pick_w(c); Mat x;
    mkvec(c, x, n, 0, "x"); illsum(c, x, n, w); x.save(); double al = scal(c); c.D("w=%d abs=%d alpha=%g", w, f != 0, al); nt(c, n);
    double r = NAN; cf.cf.error = 0;
    expect_ok(c, armas_ext_sum(&r, al, &x, f, cf), cf);
    Q s = 0, b = 0; for (int i = 0; i < n; i++) { Q t = x.getv(i); b += qabs(t); s += f ? qabs(t) : t; }
    { QCmp q(c, "sum"); q(r, al * s, fabs(al) * b, n, 0, 0); }
    c.obs("elements"); x.is_const(c, "x");
}
OP(ext_adot, 4) {
    Config cf(c); int n = c.rng.chance(80) ? c.rng.range(0, 60) : pick_size(c, 3000), w = pick_w(c); Mat x, y;
    mkvec(c, x, n, 0, "x"); mkvec(c, y, n, 0, "y"); illsum(c, x, n, w);
    double al = scal(c); c.D("w=%d alpha=%g", w, al); nt(c, n);
    for (int i = 0; i < n; i++) y.v(i) = c.rng.chance(50) ? 1.0 / 3 : 1.0 / 3 * (1 + c.rng.below(3));
    if (n > 4 && c.rng.chance(70)) {           // last products cancel what is left
        for (int k = 0; k < 2; k++) {
            Q s = 0; for (int i = 0; i < n; i++) s += (Q)x.getv(i) * y.getv(i);
            int i = c.rng.below(n); double t = gd((Q)x.getv(i) - s / y.getv(i));
            if (std::isfinite(t)) x.v(i) = t;
        }
    }
    x.save(); y.save();
    double r = NAN; cf.cf.error = 0;
    expect_ok(c, armas_ext_adot(&r, al, &x, &y, cf), cf);
    Q s = 0, b = 0; for (int i = 0; i < n; i++) { Q t = (Q)x.getv(i) * y.getv(i); b += qabs(t); s += t; }
    { QCmp q(c, "dot"); q(r, al * s, fabs(al) * b, n, 0, 0); }
    c.obs("elements"); x.is_const(c, "x"); y.is_const(c, "y");
}
OP(ext_axpby, 2) {
    Config cf(c); int n = pick_size(c, 200), w = pick_w(c); Mat x, y;
    mkvec(c, x, n, 0, "x"); mkvec(c, y, n, 0, "y"); for (int i = 0; i < n; i++) { x.v(i) = wide(c, w); y.v(i) = wide(c, w); }
    double al = scal(c), be = scal(c); c.D("w=%d alpha=%g beta=%g", w, al, be); nt(c, n);
    if (be != 0 && c.rng.chance(60)) for (int i = 0; i < n; i++) if (c.rng.chance(70)) y.v(i) = -al * x.getv(i) / be;
    x.save(); y.save(); cf.cf.error = 0;
    expect_ok(c, armas_ext_axpby(be, &y, al, &x, cf), cf);
    { QCmp q(c, "y"); for (int i = 0; i < n; i++) { Q t = (Q)al * x.getv(i), u = (Q)be * y.oldv(i); q(y.getv(i), t + u, qabs(t) + qabs(u), 3, i, 0); } }
    c.obs("elements", n); x.is_const(c, "x"); y.only_outside(c, "y");
}
// ------------------------------------------------------------------ matrix-vector
static QM qv(const Mat &x) { return QM::of(lvec(x)); }
static QM qoldv(const Mat &x) { return QM::of(loldvec(x)); }
static void vcmp(Ctx &c, const char *nm, Mat &y, const QM &p, const QM &pb, double al, double be, double k) {
    QCmp q(c, nm);
    for (int i = 0; i < y.n(); i++) { Q u = be == 0 ? (Q)0 : (Q)be * y.oldv(i); q(y.getv(i), al * p(i, 0) + u, fabs(al) * pb(i, 0) + qabs(u), k, i, 0); }
    c.obs("elements", y.n());
}
static void cancelv(Ctx &c, Mat &y, const QM &p, double al, double be) {
    int pct = c.rng.pick({0, 50, 100}); if (be == 0) return; c.D("cancel=%d", pct);
    for (int i = 0; i < y.n(); i++) if (c.rng.chance(pct)) y.v(i) = gd(-(Q)al * p(i, 0) / be) * (c.rng.chance(30) ? 1 + c.rng.uni() * 1e-9 : 1);
}
OP(ext_mvmult, 4) {
    Config cf(c); int m = dimx(c), n = dimx(c), w = pick_w(c); bool tr = c.rng.chance(50);
    Mat A(c, m, n), x, y; fill(c, A, w); A.save(); c.D("%s A=%dx%d/%d w=%d", tr ? "T" : "-", m, n, A.step, w);
    mkvec(c, x, tr ? m : n, 0, "x"); mkvec(c, y, tr ? n : m, 0, "y"); nt(c, m, n);
    double al = scal(c), be = scal(c); c.D("alpha=%g beta=%g", al, be);
    QM L = QM::of(LMat::of(A)); if (tr) L = L.T();
    QM p = qmul(L, qv(x)), pb = qmulabs(L, qv(x)); cancelv(c, y, p, al, be); y.save(); cf.cf.error = 0;
    nanify(c, y, be, m > 0 && n > 0, all_mask);
    expect_ok(c, armas_ext_mvmult(be, &y, al, &A, &x, tr ? ARMAS_TRANS : 0, cf), cf);
    if (m == 0 || n == 0) { y.is_const(c, "y"); return; }
    vcmp(c, "y", y, p, pb, al, be, x.n());
    A.is_const(c, "A"); x.is_const(c, "x"); y.only_outside(c, "y"); cf.check(c);
}
OP(ext_mvmult_sym, 3) {
    Config cf(c); int n = dimx(c), w = pick_w(c), f = c.rng.pick({ARMAS_LOWER, ARMAS_UPPER});
    Mat A(c, n, n), x, y; fill(c, A, w); poison_tri(A, f); A.save(); c.D("%s A=%d/%d w=%d", fl(f), n, A.step, w);
    mkvec(c, x, n, 0, "x"); mkvec(c, y, n, 0, "y"); nt(c, n);
    double al = scal(c), be = scal(c); c.D("alpha=%g beta=%g", al, be);
    QM L = QM::of(symfull(A, f)), p = qmul(L, qv(x)), pb = qmulabs(L, qv(x)); cancelv(c, y, p, al, be); y.save(); cf.cf.error = 0;
    nanify(c, y, be, n > 0, all_mask);
    expect_ok(c, armas_ext_mvmult_sym(be, &y, al, &A, &x, f, cf), cf);
    if (n) vcmp(c, "y", y, p, pb, al, be, n);
    A.is_const(c, "A"); x.is_const(c, "x"); y.only_outside(c, "y"); cf.check(c);
}
static int trf(Ctx &c) { return c.rng.pick({ARMAS_LOWER, ARMAS_UPPER}) | (c.rng.chance(50) ? ARMAS_TRANS : 0) | (c.rng.chance(40) ? ARMAS_UNIT : 0); }
// triangular operand whose inverse grows to about the given size
static void grow(Ctx &c, Mat &A, int f) {
    int n = A.r; double target = std::pow(10.0, c.rng.u01() * 24), s = std::min(3.0, std::pow(target, 1.0 / std::max(1, n)) - 1);
    bool neg = c.rng.chance(40);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        if (i == j) A.at(i, j) = (c.rng.chance(50) ? 1 : -1) * (0.7 + c.rng.u01() * (neg ? 0.3 : 1.0));
        else A.at(i, j) = s * (neg ? -0.5 - 0.5 * c.rng.u01() : c.rng.uni());
    }
    if (neg) for (int i = 0; i < n; i++) A.at(i, i) = fabs(A.at(i, i));
    c.D("grow=%.1e%s", target, neg ? "-" : "");
}
static QM qtri(const Mat &A, int f) { LMat l = tri(A, f); if (f & ARMAS_TRANS) l = l.T(); return QM::of(l); }
// X := T^-1 B by substitution; T lower or upper
static QM qsolve(const QM &T, QM B) {
    int n = T.r; bool lower = true; for (int j = 1; j < n && lower; j++) for (int i = 0; i < j; i++) if (T(i, j) != 0) { lower = false; break; }
    for (int k = 0; k < B.c; k++) for (int q = 0; q < n; q++) {
        int i = lower ? q : n - 1 - q; Q s = B(i, k);
        if (lower) for (int j = 0; j < i; j++) s -= T(i, j) * B(j, k); else for (int j = i + 1; j < n; j++) s -= T(i, j) * B(j, k);
        B(i, k) = s / T(i, i);
    }
    return B;
}
// |T^-1||T||X| bounded from above through the comparison matrix
static QM qcond(const QM &T, const QM &X) {
    int n = T.r; QM M(n, n), p = qmulabs(T, X);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) M(i, j) = i == j ? qabs(T(i, j)) : -qabs(T(i, j));
    return qsolve(M, p);
}
OP(ext_mvmult_trm, 3) {
    Config cf(c); int n = dimx(c), w = pick_w(c), f = trf(c); Mat A(c, n, n), x; bool ill = c.rng.chance(50);
    if (ill) grow(c, A, f); else fill(c, A, w);
    poison_tri(A, f); A.save(); c.D("%s A=%d/%d w=%d", fl(f), n, A.step, w);
    mkvec(c, x, n, 0, "x"); nt(c, n); double al = scal(c); c.D("alpha=%g", al);
    QM T = qtri(A, f); if (ill) { QM b = qv(x); if (c.rng.chance(60)) b = b.abs(); QM s = qsolve(T, b); for (int i = 0; i < n; i++) x.v(i) = gd(s(i, 0)); }
    x.save(); cf.cf.error = 0;
    bool ab = c.rng.chance(20); if (ab) c.D("abs");
    expect_ok(c, armas_ext_mvmult_trm(&x, al, &A, f | (ab ? ARMAS_ABS : 0), cf), cf);
    QM o = qoldv(x); if (ab) { T = T.abs(); o = o.abs(); }
    QM p = qmul(T, o), pb = qmulabs(T, o);
    vcmp(c, "x", x, p, pb, al, 0, n);
    A.is_const(c, "A"); x.only_outside(c, "x"); cf.check(c);
}
static void wb_call(Ctx &c, Config &cf, std::function<int(armas_wbuf_t *)> fw, std::function<int()> plain) {
    int how = c.rng.below(3); cf.cf.error = 0;
    if (how == 0) { c.D("plain"); expect_ok(c, plain(), cf); return; }
    armas_wbuf_t q = ARMAS_WBNULL; int rc = fw(&q);
    if (rc < 0) { c.fail("query", fmt("workspace query returned %d", rc)); return; }
    Work w(c, q.bytes + (how == 2 ? 8 * c.rng.below(50) : 0)); c.D("work=%zu", w.n);
    rc = fw(&w.w); expect_ok(c, rc, cf); w.check(c);
}
OP(ext_mvsolve_trm, 4) {
    Config cf(c); int n = dimx(c), f = trf(c); Mat A(c, n, n), x; grow(c, A, f); poison_tri(A, f); A.save();
    c.D("%s A=%d/%d", fl(f), n, A.step); mkvec(c, x, n, 0, "x"); nt(c, n); double al = scal(c); c.D("alpha=%g", al);
    wb_call(c, cf, [&](armas_wbuf_t *w) { return armas_ext_mvsolve_trm_w(&x, al, &A, f, w, cf); }, [&] { return armas_ext_mvsolve_trm(&x, al, &A, f, cf); });
    QM T = qtri(A, f), b = qoldv(x); for (auto &t : b.d) t *= al;
    QM s = qsolve(T, b), k = qcond(T, s); QCmp q(c, "x");
    for (int i = 0; i < n; i++) q(x.getv(i), s(i, 0), k(i, 0), n, i, 0);
    c.obs("solves"); c.obs("elements", n); A.is_const(c, "A"); x.only_outside(c, "x"); cf.check(c);
}
OP(ext_mvupdate, 2) {
    Config cf(c); int m = dimx(c), n = dimx(c), w = pick_w(c); Mat A(c, m, n), x, y; fill(c, A, w);
    mkvec(c, x, m, 0, "x"); mkvec(c, y, n, 0, "y"); nt(c, m, n); double al = scal(c), be = scal(c); c.D("A=%dx%d/%d alpha=%g beta=%g", m, n, A.step, al, be);
    QM p = qmul(qv(x), qv(y).T()); cancel(c, A, p, al, be); A.save(); cf.cf.error = 0;
    expect_ok(c, armas_ext_mvupdate(be, &A, al, &x, &y, cf), cf);
    QCmp q(c, "A"); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { Q t = al * p(i, j), u = (Q)be * A.old(i, j); q(A.get(i, j), t + u, qabs(t) + qabs(u), 4, i, j); }
    c.obs("elements", (long)m * n); x.is_const(c, "x"); y.is_const(c, "y"); A.only_outside(c, "A");
}
OP(ext_mvupdate_sym, 2) {
    Config cf(c); int n = dimx(c), w = pick_w(c), f = c.rng.pick({ARMAS_LOWER, ARMAS_UPPER}); Mat A(c, n, n), x; fill(c, A, w);
    mkvec(c, x, n, 0, "x"); nt(c, n); double al = scal(c), be = scal(c); c.D("%s A=%d/%d alpha=%g beta=%g", fl(f), n, A.step, al, be);
    QM p = qmul(qv(x), qv(x).T()); cancel(c, A, p, al, be); poison_tri(A, f); A.save(); cf.cf.error = 0;
    expect_ok(c, armas_ext_mvupdate_sym(be, &A, al, &x, f, cf), cf);
    QCmp q(c, "A"); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in_tri(i, j, f)) { Q t = al * p(i, j), u = (Q)be * A.old(i, j); q(A.get(i, j), t + u, qabs(t) + qabs(u), 4, i, j); }
    c.obs("elements", (long)n * n / 2); x.is_const(c, "x"); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); });
}
OP(ext_mvupdate2_sym, 2) {
    Config cf(c); int n = dimx(c), w = pick_w(c), f = c.rng.pick({ARMAS_LOWER, ARMAS_UPPER}); Mat A(c, n, n), x, y; fill(c, A, w);
    mkvec(c, x, n, 0, "x"); mkvec(c, y, n, 0, "y"); nt(c, n); double al = scal(c), be = scal(c); c.D("%s A=%d/%d alpha=%g beta=%g", fl(f), n, A.step, al, be);
    QM p = qmul(qv(x), qv(y).T()); QM s(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) s(i, j) = p(i, j) + p(j, i);
    cancel(c, A, s, al, be); poison_tri(A, f); A.save(); cf.cf.error = 0;
    expect_ok(c, armas_ext_mvupdate2_sym(be, &A, al, &x, &y, f, cf), cf);
    QCmp q(c, "A"); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in_tri(i, j, f)) { Q u = (Q)be * A.old(i, j); q(A.get(i, j), al * s(i, j) + u, fabs(al) * (qabs(p(i, j)) + qabs(p(j, i))) + qabs(u), 6, i, j); }
    c.obs("elements", (long)n * n / 2); x.is_const(c, "x"); y.is_const(c, "y"); A.untouched(c, "A", [&](int i, int j) { return in_tri(i, j, f); });
}
// ------------------------------------------------------------------ matrix-matrix
static void mcmp(Ctx &c, const char *nm, Mat &C, const QM &p, const QM &pb, double al, double be, double k) {
    QCmp q(c, nm);
    for (int j = 0; j < C.c; j++) for (int i = 0; i < C.r; i++) { Q u = be == 0 ? (Q)0 : (Q)be * C.old(i, j); q(C.get(i, j), al * p(i, j) + u, fabs(al) * pb(i, j) + qabs(u), k, i, j); }
    c.obs("elements", (long)C.r * C.c);
}
// columns of the contraction that annihilate each other
static void pairs(Ctx &c, Mat &A, bool ta, Mat &B, bool tb) {
    int K = ta ? A.r : A.c, m = ta ? A.c : A.r, n = tb ? B.r : B.c;
    auto a = [&](int i, int k) -> double & { return ta ? A.at(k, i) : A.at(i, k); };
    auto b = [&](int k, int j) -> double & { return tb ? B.at(j, k) : B.at(k, j); };
    for (int k = 0; k + 1 < K; k += 2) if (c.rng.chance(85)) {
        int s = c.rng.range(-8, 8);
        for (int i = 0; i < m; i++) a(i, k + 1) = std::ldexp(a(i, k), s);
        for (int j = 0; j < n; j++) b(k + 1, j) = -std::ldexp(b(k, j), -s) * (1 + (c.rng.chance(50) ? 1e-13 * c.rng.uni() : 0));
    }
}
OP(ext_mult, 5) {
    Config cf(c); int m = dimx(c), n = dimx(c), k = dimx(c), w = pick_w(c); bool ta = c.rng.chance(50), tb = c.rng.chance(50);
    int f = (ta ? c.rng.pick({ARMAS_TRANSA, ARMAS_TRANSA, ARMAS_CTRANSA}) : 0) | (tb ? c.rng.pick({ARMAS_TRANSB, ARMAS_TRANSB, ARMAS_CTRANSB}) : 0);
    Mat A, B, C(c, m, n); if (ta) A.init(c, k, m); else A.init(c, m, k); if (tb) B.init(c, n, k); else B.init(c, k, n);
    fill(c, A, w); fill(c, B, w); if (c.rng.chance(60)) { pairs(c, A, ta, B, tb); c.D("pairs"); }
    double al = scal(c), be = scal(c); c.D("%s m=%d n=%d k=%d ld=%d,%d,%d w=%d alpha=%g beta=%g", fl(f), m, n, k, A.step, B.step, C.step, w, al, be); nt(c, m, n);
    QM a = QM::of(LMat::of(A)), b = QM::of(LMat::of(B)); if (ta) a = a.T(); if (tb) b = b.T();
    QM p = qmul(a, b), pb = qmulabs(a, b); cancel(c, C, p, al, be); A.save(); B.save(); C.save(); cf.cf.error = 0;
    nanify(c, C, be, m > 0 && n > 0 && k > 0, all_mask);
    expect_ok(c, armas_ext_mult(be, &C, al, &A, &B, f, cf), cf);
    A.is_const(c, "A"); B.is_const(c, "B");
    if (m == 0 || n == 0 || k == 0) { C.is_const(c, "C"); return; }
    mcmp(c, "C", C, p, pb, al, be, k); C.only_outside(c, "C"); cf.check(c);
}
OP(ext_mult_sym, 4) {
    Config cf(c); int m = dimx(c), n = dimx(c), w = pick_w(c); Rng &r = c.rng; bool right = r.chance(50), tb = r.chance(40);
    int f = r.pick({ARMAS_LOWER, ARMAS_UPPER}) | (right ? ARMAS_RIGHT : r.chance(80) ? ARMAS_LEFT : 0) | (tb ? ARMAS_TRANSB : 0), na = right ? n : m;
    Mat A(c, na, na), B, C(c, m, n); if (tb) B.init(c, n, m); else B.init(c, m, n);
    fill(c, A, w); fill(c, B, w); poison_tri(A, f);
    double al = scal(c), be = scal(c); c.D("%s m=%d n=%d ld=%d,%d,%d w=%d alpha=%g beta=%g", fl(f), m, n, A.step, B.step, C.step, w, al, be); nt(c, m, n);
    QM a = QM::of(symfull(A, f)), b = QM::of(LMat::of(B)); if (tb) b = b.T();
    QM p = right ? qmul(b, a) : qmul(a, b), pb = right ? qmulabs(b, a) : qmulabs(a, b); cancel(c, C, p, al, be); A.save(); B.save(); C.save(); cf.cf.error = 0;
    nanify(c, C, be, m > 0 && n > 0, all_mask);
    expect_ok(c, armas_ext_mult_sym(be, &C, al, &A, &B, f, cf), cf);
    A.is_const(c, "A"); B.is_const(c, "B"); if (m && n) mcmp(c, "C", C, p, pb, al, be, na); C.only_outside(c, "C"); cf.check(c);
}
OP(ext_mult_trm, 4) {
    Config cf(c); int m = dimx(c), n = dimx(c), w = pick_w(c), f = trf(c) | c.rng.pick({ARMAS_LEFT, ARMAS_RIGHT}); bool right = f & ARMAS_RIGHT, ill = c.rng.chance(60);
    int na = right ? n : m; Mat A(c, na, na), B(c, m, n); if (ill) grow(c, A, f); else fill(c, A, w);
    fill(c, B, ill ? 0 : w); poison_tri(A, f); A.save(); QM T = qtri(A, f);
    if (ill) { QM b = QM::of(LMat::of(B)); if (c.rng.chance(60)) b = b.abs(); QM s = right ? qsolve(T.T(), b.T()).T() : qsolve(T, b); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) B.at(i, j) = gd(s(i, j)); }
    B.save(); double al = scal(c); c.D("%s m=%d n=%d ld=%d,%d w=%d alpha=%g", fl(f), m, n, A.step, B.step, w, al); nt(c, m, n); cf.cf.error = 0;
    expect_ok(c, armas_ext_mult_trm(&B, al, &A, f, cf), cf);
    QM o = QM::of(oldmat(B)); QM p = right ? qmul(o, T) : qmul(T, o), pb = right ? qmulabs(o, T) : qmulabs(T, o);
    mcmp(c, "B", B, p, pb, al, 0, na); A.is_const(c, "A"); B.only_outside(c, "B"); cf.check(c);
}
OP(ext_solve_trm, 5) {
    Config cf(c); int m = dimx(c), n = dimx(c), f = trf(c) | c.rng.pick({ARMAS_LEFT, ARMAS_RIGHT}); bool right = f & ARMAS_RIGHT;
    int na = right ? n : m; Mat A(c, na, na), B(c, m, n); grow(c, A, f); fill(c, B, 0); poison_tri(A, f); A.save(); B.save();
    double al = scal(c); c.D("%s m=%d n=%d ld=%d,%d alpha=%g", fl(f), m, n, A.step, B.step, al); nt(c, m, n);
    wb_call(c, cf, [&](armas_wbuf_t *w) { return armas_ext_solve_trm_w(&B, al, &A, f, w, cf); }, [&] { return armas_ext_solve_trm(&B, al, &A, f, cf); });
    QM T = qtri(A, f), b = QM::of(oldmat(B)); for (auto &t : b.d) t *= al; if (right) { T = T.T(); b = b.T(); }
    QM s = qsolve(T, b), k = qcond(T, s); if (right) { s = s.T(); k = k.T(); }
    QCmp q(c, "B"); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) q(B.get(i, j), s(i, j), k(i, j), na, i, j);
    c.obs("solves"); c.obs("elements", (long)m * n); A.is_const(c, "A"); B.only_outside(c, "B"); cf.check(c);
}
OP(ext_badargs, 1) {
    Config cf(c, false, 0); Rng &r = c.rng; int m = r.range(2, 9), n = m + r.range(1, 4);
    Mat A(c, m, n), B(c, n, m), S(c, n, n), s(c, m, m), x(c, n, 1), y(c, n, 1), z(c, m + n + 1, 1), M(c, 2, 3);
    A.save(); B.save(); S.save(); s.save(); x.save(); y.save(); z.save(); M.save(); c.nontrivial = true; cf.cf.error = 0;
    int w = r.below(22), rc = 0; double res = 0; c.D("which=%d m=%d n=%d", w, m, n);
    switch (w) {
    case 0: rc = armas_ext_sum(&res, 1, &A, 0, cf); break;
    case 1: rc = armas_ext_adot(&res, 1, &x, &z, cf); break;
    case 2: rc = armas_ext_adot(&res, 1, &A, &A, cf); break;
    case 3: rc = armas_ext_axpby(1, &x, 1, &z, cf); break;
    case 4: rc = armas_ext_axpby(1, &M, 1, &M, cf); break;
    case 5: rc = armas_ext_mvmult(1, &y, 1, &A, &x, 0, cf); break;
    case 6: rc = armas_ext_mvmult(1, &x, 1, &A, &y, ARMAS_TRANS, cf); break;
    case 7: rc = armas_ext_mvmult_sym(1, &y, 1, &A, &x, ARMAS_LOWER, cf); break;
    case 8: rc = armas_ext_mvmult_sym(1, &z, 1, &S, &x, ARMAS_UPPER, cf); break;
    case 9: rc = armas_ext_mvmult_trm(&x, 1, &A, ARMAS_LOWER, cf); break;
    case 10: rc = armas_ext_mvsolve_trm(&x, 1, &A, ARMAS_UPPER, cf); break;
    case 11: rc = armas_ext_mvsolve_trm(&z, 1, &S, ARMAS_UPPER, cf); break;
    case 12: rc = armas_ext_mvupdate(1, &A, 1, &x, &y, cf); break;
    case 13: rc = armas_ext_mvupdate_sym(1, &S, 1, &z, ARMAS_LOWER, cf); break;
    case 14: rc = armas_ext_mvupdate2_sym(1, &A, 1, &x, &y, ARMAS_LOWER, cf); break;
    case 15: rc = armas_ext_mvupdate2_sym(1, &s, 1, &x, &y, ARMAS_UPPER, cf); break;
    case 16: rc = armas_ext_mult(1, &S, 1, &A, &B, 0, cf); break;
    case 17: rc = armas_ext_mult(1, &s, 1, &A, &A, ARMAS_TRANSA, cf); break;
    case 18: rc = armas_ext_mult_sym(1, &A, 1, &S, &A, ARMAS_LEFT | ARMAS_LOWER, cf); break;
    case 19: rc = armas_ext_mult_trm(&A, 1, &s, ARMAS_RIGHT | ARMAS_LOWER, cf); break;
    case 20: rc = armas_ext_solve_trm(&A, 1, &S, ARMAS_LEFT | ARMAS_UPPER, cf); break;
    case 21: rc = armas_ext_solve_trm(&A, 1, &B, ARMAS_LEFT | ARMAS_UPPER, cf); break;
    }
    if (rc >= 0) c.fail(fmt("accepted:%d", w), "mismatched operands accepted");
    else if (cf.cf.error <= 0) c.fail(fmt("noerror:%d", w), "no error code recorded for mismatched operands");
    A.is_const(c, "A"); B.is_const(c, "B"); S.is_const(c, "S"); s.is_const(c, "s"); x.is_const(c, "x"); y.is_const(c, "y"); z.is_const(c, "z"); M.is_const(c, "M"); c.obs("rejections");
}
