// Singular value solvers. Oracle: Sturm counts in long double on the Golub-Kahan form of an
// independently computed bidiagonal matrix, orthogonality and reconstruction of the vectors.
#include "lap.hpp"

struct Bid { std::vector<LD> d, e; int kind = 0; int n() const { return (int)d.size(); }
    LD norm() const { LD m = 0; for (auto x : d) m = std::max(m, fabsl(x)); for (auto x : e) m = std::max(m, fabsl(x)); return m; } };
// number of singular values < x for x > 0: negative pivots of the tridiagonal form with zero diagonal
static int gkcount(const Bid &b, LD x) {
    int n = b.n(), cnt = 0; LD q = 1; LD nm = b.norm(); LD piv = nm > 0 ? nm * 1e-4000L : 1e-4900L;
    for (int i = 0; i < 2 * n; i++) { LD o = i == 0 ? 0 : (i & 1) ? b.d[i / 2] : b.e[i / 2 - 1]; q = -x - (i ? o * (o / q) : 0); if (fabsl(q) < piv) q = -piv; if (q < 0) cnt++; }
    return cnt - n;
}
static Bid bidiag(const LMat &a0) {      // Householder from both sides, long double, rows >= columns
    LMat a = a0.r >= a0.c ? a0 : a0.T(); int m = a.r, n = a.c; Bid b; b.d.resize(n); b.e.resize(std::max(0, n - 1)); std::vector<LD> v(m);
    auto mk = [&](auto get, int lo, int hi) -> LD { LD mx = 0; for (int i = lo + 1; i < hi; i++) mx = std::max(mx, fabsl(get(i))); if (mx == 0) return 0; LD s = 0; for (int i = lo; i < hi; i++) { v[i] = get(i); s += v[i] * v[i]; } LD al = sqrtl(s); if (v[lo] > 0) al = -al; v[lo] -= al; LD w = 0; for (int i = lo; i < hi; i++) w += v[i] * v[i]; return 2 / w; };
    for (int k = 0; k < n; k++) {
        LD t = mk([&](int i) { return a(i, k); }, k, m); if (t != 0) for (int j = k; j < n; j++) { LD s = 0; for (int i = k; i < m; i++) s += v[i] * a(i, j); s *= t; for (int i = k; i < m; i++) a(i, j) -= s * v[i]; }
        if (k + 2 < n) { t = mk([&](int j) { return a(k, j); }, k + 1, n); if (t != 0) for (int i = k; i < m; i++) { LD s = 0; for (int j = k + 1; j < n; j++) s += v[j] * a(i, j); s *= t; for (int j = k + 1; j < n; j++) a(i, j) -= s * v[j]; } }
    }
    for (int i = 0; i < n; i++) { b.d[i] = a(i, i); if (i + 1 < n) b.e[i] = a(i, i + 1); } return b;
}
// D descending, non-negative, each within rel*sigma + abst of the true value
static void check_svals(Ctx &c, const char *nm, const Bid &b, const Mat &D, LD rel, LD abst) {
    int n = b.n();
    for (int k = 0; k < n; k++) { double s = D.getv(k);
        if (!(s >= 0) || !std::isfinite(s)) { c.fail(std::string("negative:") + nm, fmt("%s[%d] = %g", nm, k, s)); return; }
        if (k && !(s <= D.getv(k - 1))) { c.fail(std::string("order:") + nm, fmt("%s[%d..%d] not descending: %.17g %.17g", nm, k - 1, k, D.getv(k - 1), s)); return; }
        LD lo = s - (rel * s + abst), hi = s + (rel * s + abst); int up = n - k;     // k-th largest: exactly n-1-k values are smaller
        if (lo > 0 && gkcount(b, lo) > up - 1) { LD w = s; (void)w; c.fail(std::string("value:") + nm, fmt("%s[%d] = %.17g is too large: %d of %d singular values are below %.17Lg", nm, k, s, gkcount(b, lo), n, lo)); return; }
        if (hi == 0 || gkcount(b, hi) < up) { c.fail(std::string("value:") + nm, fmt("%s[%d] = %.17g is too small: only %d of %d singular values are below %.17Lg", nm, k, s, hi == 0 ? 0 : gkcount(b, hi), n, hi)); return; } }
    c.obs("singular-values", n);
}
static const char *bk[] = {"rand", "zero", "diag", "split", "ones", "graded", "clustered", "zerodiag", "big", "small", "int", "glued", "tinyoff", "ident", "widegraded", "zerolast", "kahan"};
static Bid gen_bid(Ctx &c, int n) {
    Rng &r = c.rng; int k = r.chance(35) ? 0 : r.below(17); Bid b; b.kind = k; b.d.resize(n); b.e.resize(std::max(0, n - 1)); c.D("bid-%s n=%d", bk[k], n);
    int e = r.range(1, 6); int rev = r.below(2); double cl = pow(10, -r.range(2, 15));
    for (int i = 0; i < n; i++) { b.d[i] = r.uni(); LD &d = b.d[i], dummy = 0, &f = i + 1 < n ? b.e[i] : dummy; f = r.uni(); LD x = (LD)(rev ? n - 1 - i : i) / std::max(1, n); LD s = powl(10.0L, -e * x);
        switch (k) { case 1: d = f = 0; break; case 2: f = 0; break; case 3: if (r.chance(30)) f = 0; if (r.chance(10)) d = 0; break; case 4: d = 1; f = r.chance(50) ? 1 : -1; break; case 5: d *= s * s; f *= s * s; break; case 6: d = 1 + cl * d; f *= cl; break;
        case 7: if (r.chance(40)) d = 0; break; case 8: d *= 1e60; f *= 1e60; break; case 9: d *= 1e-60; f *= 1e-60; break; case 10: d = r.range(-3, 3); f = r.range(-2, 2); break; case 11: d = 1 + i % 7; f = i % 7 == 6 ? cl : 1; break; case 12: f *= cl * 1e-4; break; case 13: d = 1; f = 0; break;
        case 14: s = powl(10.0L, -40 * x); d *= s; f *= s; break; case 15: if (i == (rev ? 0 : n - 1)) d = 0; break; case 16: d = powl(0.7L, rev ? n - 1 - i : i); f = -0.7L * d; break; } }
    for (auto &x : b.d) x = (double)x; for (auto &x : b.e) x = (double)x; return b;
}
static void put_v(Mat &m, const std::vector<LD> &v) { for (size_t i = 0; i < v.size(); i++) m.v(i) = (double)v[i]; m.save(); }
static int edim(Ctx &c, int big) { int n = c.rng.chance(40) ? c.rng.range(1, 12) : pick_size(c, big); return n < 1 ? 1 : n; }
static LMat bid_mat(const Bid &b, bool upper) { int n = b.n(); LMat a(n, n); for (int i = 0; i < n; i++) { a(i, i) = b.d[i]; if (i + 1 < n) { if (upper) a(i, i + 1) = b.e[i]; else a(i + 1, i) = b.e[i]; } } return a; }
static LMat rand_orth(Rng &r, int n, bool id) { LMat q = LMat::eye(n); if (!id) for (int k = 0; k < 3; k++) rand_reflect_left(r, q); return q; }
// options shared by the bidiagonal solvers
static int bid_opts(Ctx &c, Config &cf, bool &absacc, LD &tm) {
    Rng &r = c.rng; int f = r.pki({ARMAS_UPPER, ARMAS_LOWER, 0}); absacc = false; tm = 8; if (r.chance(20)) { cf.cf.optflags |= ARMAS_OBSVD_GOLUB; absacc = true; } else if (r.chance(15)) { cf.cf.optflags |= ARMAS_OABSTOL; absacc = true; } if (r.chance(20)) f |= ARMAS_FORWARD;
    int t = r.chance(15) ? r.pki({1, 5, 50, 1000}) : -1; if (t >= 0) cf.cf.tolmult = t; if (cf.cf.tolmult) tm = cf.cf.tolmult; c.D("opt=%x tolmult=%d f=%x", cf.cf.optflags, cf.cf.tolmult, f); return f;
}

OP(bdsvd, 8) {
    Config cf(c); Rng &r = c.rng; int n = edim(c, c.tier ? 160 : 90); Bid b = gen_bid(c, n); Mat D, E; mkvec(c, D, n, GEN_UNI, "D"); mkvec(c, E, n - 1, GEN_UNI, "E"); put_v(D, b.d); put_v(E, b.e); c.nontrivial = n >= 3; bool aa; LD tm; int f = bid_opts(c, cf, aa, tm);
    int rc = r.chance(40) ? armas_bdsvd(D, E, 0, 0, f, cf) : armas_bdsvd_w(D, E, 0, 0, f, ARMAS_NOWORK, cf);
    if (rc < 0 && cf.cf.error == ARMAS_ECONVERGE) { c.fail("converge", "no convergence"); return; }
    expect_ok(c, rc, cf); D.only_outside(c, "D"); E.only_outside(c, "E"); cf.check(c); if (rc) return;
    LD t = (100 + 20 * n + 4 * n * tm) * EPSD; check_svals(c, "D", b, D, t, (aa ? t * b.norm() : 0) + 1e-300L);
}
OP(bdsvd_vec, 8) {
    Config cf(c); Rng &r = c.rng; int n = edim(c, c.tier ? 110 : 60); Bid b = gen_bid(c, n); Mat D, E; mkvec(c, D, n, GEN_UNI, "D"); mkvec(c, E, n - 1, GEN_UNI, "E"); put_v(D, b.d); put_v(E, b.e); c.nontrivial = n >= 3; bool aa; LD tm; int f = bid_opts(c, cf, aa, tm); bool up = !(f & ARMAS_LOWER);
    int want = r.range(1, 3), mu = n + (r.chance(30) ? r.below(6) : 0), nv = n + (r.chance(30) ? r.below(6) : 0); bool id = r.chance(50); int f2 = f | (want & 1 ? ARMAS_WANTU : 0) | (want & 2 ? ARMAS_WANTV : 0); int uc = n + (mu > n && r.chance(50) ? mu - n : 0), vr = n + (nv > n && r.chance(50) ? nv - n : 0); c.D("want=%d U=%dx%d V=%dx%d %s", want, mu, uc, vr, nv, id ? "I" : "Q");
    Mat U(c, mu, uc, GEN_UNI), V(c, vr, nv, GEN_UNI); put(U, head(rand_orth(r, mu, id), mu, uc)); put(V, head(rand_orth(r, nv, id), vr, nv)); U.save(); V.save(); LMat u0 = oldmat(U), v0 = oldmat(V);
    int rc = run_ws(c, cf, 4 * n, [&](armas_wbuf_t *w) { return armas_bdsvd_w(D, E, U, V, f2, w, cf); }, [&] { return armas_bdsvd(D, E, U, V, f2, cf); });
    if (rc < 0 && cf.cf.error == ARMAS_ECONVERGE) { c.fail("converge", "no convergence"); return; }
    expect_ok(c, rc, cf); D.only_outside(c, "D"); E.only_outside(c, "E"); cf.check(c);
    if (want & 1) U.untouched(c, "U", [&](int, int j) { return j < n; }); else U.is_const(c, "U"); if (want & 2) V.untouched(c, "V", [&](int i, int) { return i < n; }); else V.is_const(c, "V"); if (rc) return;
    LD t = (100 + 20 * n + 4 * n * tm) * EPSD; check_svals(c, "D", b, D, t, (aa ? t * b.norm() : 0) + 1e-300L);
    LMat u = head(LMat::of(U), mu, n), v = head(LMat::of(V), n, nv); LD ot = (200 + 60 * n) * EPSD; if (want & 1) within_norm(c, "U^T*U-I", orth_defect(u), ot); if (want & 2) within_norm(c, "V*V^T-I", orth_defect(v, true), ot);
    LD nm = bid_mat(b, up).frob(); LMat bm = bid_mat(b, up), s(n, n); for (int i = 0; i < n; i++) s(i, i) = D.getv(i); double k = (double)(t / EPSD);
    if (want == 3) { LMat x = mul(mul(u, s), v), y = mul(mul(head(u0, mu, n), bm), head(v0, n, nv)); for (size_t i = 0; i < x.d.size(); i++) x.d[i] -= y.d[i]; LMat bb(mu, nv); for (auto &z : bb.d) z = nm; within(c, "U*S*V-U0*B*V0", x, bb, k); }
    else {   // one-sided: the Gram matrix of the rotated B is diagonal
        LMat g; if (want == 1) { LMat w = mul(u.T(), mul(head(u0, mu, n), bm)); g = mul(w, w.T()); } else { LMat w = mul(mul(bm, head(v0, n, nv)), v.T()); g = mul(w.T(), w); }
        for (int i = 0; i < n; i++) g(i, i) -= (LD)D.getv(i) * D.getv(i); LMat bb(n, n); for (auto &z : bb.d) z = nm * nm; within(c, "gram", g, bb, 4 * k); }
    c.obs("vectors", n);
}
OP(svd, 12) {
    Config cf(c); Rng &r = c.rng; int m = edim(c, c.tier ? 100 : 55), n = edim(c, c.tier ? 100 : 55); if (r.chance(30)) m = std::max(1, std::min(c.tier ? 150 : 100, n * 2 + r.below(8))); else if (r.chance(30)) n = std::max(1, std::min(c.tier ? 150 : 100, m * 2 + r.below(8))); if (r.chance(15)) n = m; if (r.chance(20)) { if (r.chance(50)) m = r.range(1, 3); else n = r.range(1, 3); }
    Mat A; LMat a = gen_mat(c, A, m, n); int k = std::min(m, n); Mat S; mkvec(c, S, k + (r.chance(0) ? 1 : 0), GEN_UNI, "S"); for (int i = 0; i < k; i++) S.v(i) = poison(i + 3); S.save(); c.nontrivial = k >= 2;
    int want = r.below(4), ur = m, uc = m > n && r.chance(50) ? n : m, vr = n > m && r.chance(50) ? m : n, f = (want & 1 ? ARMAS_WANTU : 0) | (want & 2 ? ARMAS_WANTV : 0); if (r.chance(10)) cf.cf.optflags |= ARMAS_OBSVD_GOLUB; c.D("want=%d U=%dx%d V=%dx%d opt=%x", want, ur, uc, vr, n, cf.cf.optflags);
    Mat U(c, ur, uc, GEN_UNI), V(c, vr, n, GEN_UNI); for (int j = 0; j < uc; j++) for (int i = 0; i < ur; i++) U.at(i, j) = poison(i + 7 * j); for (int j = 0; j < n; j++) for (int i = 0; i < vr; i++) V.at(i, j) = poison(i + 5 * j); U.save(); V.save();
    int rc = run_ws(c, cf, m + n + 2 * k, [&](armas_wbuf_t *w) { return armas_svd_w(S, U, V, A, f, w, cf); }, [&] { return armas_svd(S, U, V, A, f, cf); });
    if (rc < 0 && cf.cf.error == ARMAS_ECONVERGE) { c.fail("converge", "no convergence"); return; }
    expect_ok(c, rc, cf); S.only_outside(c, "S"); A.only_outside(c, "A"); if (want & 1) U.only_outside(c, "U"); else U.is_const(c, "U"); if (want & 2) V.only_outside(c, "V"); else V.is_const(c, "V"); cf.check(c); if (rc) return;
    Bid b = bidiag(a); LD fr = a.frob(), t = (100 + 20 * std::max(m, n)) * EPSD; check_svals(c, "S", b, S, t, t * fr + 1e-300L);
    LMat u = LMat::of(U), v = LMat::of(V); LD ot = (200 + 40 * std::max(m, n)) * EPSD; if (want & 1) within_norm(c, "U^T*U-I", orth_defect(u), ot); if (want & 2) within_norm(c, "V*V^T-I", orth_defect(v, true), ot);
    LMat uk = head(u, m, k), vk = head(v, k, n), bb(m, n); for (auto &z : bb.d) z = fr; double kk = (double)(t / EPSD);
    if (want == 3) { LMat x(uk); for (int j = 0; j < k; j++) for (int i = 0; i < m; i++) x(i, j) *= S.getv(j); x = mul(x, vk); for (size_t i = 0; i < x.d.size(); i++) x.d[i] -= a.d[i]; within(c, "U*S*V-A", x, bb, 2 * kk); }
    else if (want) { LMat g, b2(k, k); for (auto &z : b2.d) z = fr * fr; if (want == 1) { LMat w = mul(uk.T(), a); g = mul(w, w.T()); } else { LMat w = mul(a, vk.T()); g = mul(w.T(), w); } for (int i = 0; i < k; i++) g(i, i) -= (LD)S.getv(i) * S.getv(i); within(c, "gram", g, b2, 8 * kk); }
    if (want) c.obs("vectors", k);
}
OP(dqds, 7) {
    Config cf(c); Rng &r = c.rng; int n = edim(c, c.tier ? 160 : 90); Bid b = gen_bid(c, n); Mat D, E; mkvec(c, D, n, GEN_UNI, "D"); mkvec(c, E, n - 1, GEN_UNI, "E"); put_v(D, b.d); put_v(E, b.e); c.nontrivial = n >= 3;
    int rc = run_ws(c, cf, 4 * n, [&](armas_wbuf_t *w) { return armas_dqds_w(D, E, w, cf); }, [&] { return armas_dqds(D, E, cf); });
    if (rc < 0 && cf.cf.error == ARMAS_ECONVERGE) { c.fail(b.kind == 12 ? "converge:tinyoff" : "converge", "no convergence"); return; }
    expect_ok(c, rc, cf); D.only_outside(c, "D"); E.only_outside(c, "E"); cf.check(c); if (rc) return;
    LD t = (100 + 20 * n) * EPSD; check_svals(c, "D", b, D, t, 1e-300L); c.obs("dqds");
}
OP(svd_reject, 3) {
    Config cf(c); Rng &r = c.rng; int what = r.below(10), n = r.range(3, 20), m = n + r.range(1, 9), rc = 0; c.D("what=%d %dx%d", what, m, n); c.nontrivial = true;
    auto keep = [&](auto&... x) { (x.is_const(c, "operand"), ...); };
    switch (what) {
    case 0: { Mat D(c, n, 1), E(c, n, 1); D.save(); E.save(); rc = armas_bdsvd(D, E, 0, 0, 0, cf); keep(D, E); break; }
    case 1: { Mat D(c, n, 1), E(c, n - 1, 1), U(c, n, n - 1); D.save(); E.save(); U.save(); rc = armas_bdsvd(D, E, U, 0, ARMAS_WANTU, cf); keep(D, E, U); break; }
    case 2: { Mat D(c, n, 1), E(c, n - 1, 1), V(c, n - 1, n); D.save(); E.save(); V.save(); rc = armas_bdsvd(D, E, 0, V, ARMAS_WANTV, cf); keep(D, E, V); break; }
    case 3: { Mat D(c, n, 1), E(c, n - 1, 1), V(c, n, n); D.save(); E.save(); V.save(); Work w(c, 8 * (4 * n - 1)); rc = armas_bdsvd_w(D, E, 0, V, ARMAS_WANTV, &w.w, cf); w.check(c); keep(D, E, V); break; }
    case 4: { Mat D(c, n, 1), E(c, n - 1, 1); D.save(); E.save(); rc = armas_bdsvd(D, E, 0, 0, r.pki({ARMAS_WANTU, ARMAS_WANTV}), cf); keep(D, E); break; }
    case 5: { Mat A(c, m, n), S(c, n - 1, 1); A.save(); S.save(); rc = armas_svd(S, 0, 0, A, 0, cf); keep(A, S); break; }
    case 6: { Mat A(c, m, n), S(c, n, 1), U(c, m, n + (m - n > 1 ? 1 : 2)); A.save(); S.save(); U.save(); rc = armas_svd(S, U, 0, A, ARMAS_WANTU, cf); keep(A, S, U); break; }
    case 7: { Mat A(c, n, m), S(c, n, 1), V(c, n - 1, m); A.save(); S.save(); V.save(); rc = armas_svd(S, 0, V, A, ARMAS_WANTV, cf); keep(A, S, V); break; }
    case 8: { Mat A(c, m, n), S(c, n, 1); A.save(); S.save(); rc = armas_svd(S, 0, 0, A, r.pki({ARMAS_WANTU, ARMAS_WANTV}), cf); keep(A, S); break; }
    default: { Mat D(c, n, 1), E(c, n + r.pki({0, -2}), 1); D.save(); E.save(); rc = armas_dqds(D, E, cf); keep(D, E); } }
    if (rc >= 0) c.fail(fmt("accepted%d", what), "invalid arguments accepted"); else { c.obs("rejections"); if (!cf.cf.error) c.fail("error-code", "no error code recorded"); }
}
