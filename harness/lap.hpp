// Shared pieces of the factorization harnesses: matrix generators, permutations, and long double
// linear algebra used as the oracle.
#pragma once
#include "ref.hpp"

static inline LMat scale_rc(const LMat &a, const std::vector<LD> &r, const std::vector<LD> &c) {
    LMat x(a); for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) x(i, j) *= r[i] * c[j]; return x;
}
static inline LMat trans(const LMat &a) { return a.T(); }
// random orthogonal n x n applied from the left: a product of a few Householder reflections
static inline void rand_reflect_left(Rng &r, LMat &a) {
    std::vector<LD> v(a.r); LD nn = 0;
    for (auto &x : v) { x = r.normal(); nn += x * x; }
    if (nn == 0) return;
    for (int j = 0; j < a.c; j++) { LD s = 0; for (int i = 0; i < a.r; i++) s += v[i] * a(i, j); s *= 2 / nn; for (int i = 0; i < a.r; i++) a(i, j) -= s * v[i]; }
}
// general matrices of many characters; name goes to the description
enum { GK_UNI = 0, GK_INT, GK_NORMAL, GK_GRADED, GK_LOWRANK, GK_SPARSE, GK_SVD, GK_TINYPIV, GK_SCALEBIG, GK_SCALESMALL, GK_HOLES, GK_BLOCK, GK_IDENT, GK_ZERO, NGK };
static const char *gk_name[] = {"uniform", "integer", "normal", "graded", "lowrank", "sparse", "svd", "tinydiag", "big", "small", "holes", "blocks", "ident", "zero"};
static inline int pick_gk(Ctx &c) { int k = c.rng.below(100); return k < 45 ? GK_UNI : k < 97 ? c.rng.below(GK_IDENT) : c.rng.range(GK_IDENT, GK_ZERO); }
static inline LMat gen_general(Ctx &c, int m, int n, int kind) {
    Rng &r = c.rng; LMat a(m, n);
    switch (kind) {
    case GK_INT: for (auto &x : a.d) x = r.range(-3, 3); break;
    case GK_NORMAL: for (auto &x : a.d) x = r.normal(); break;
    case GK_GRADED: { std::vector<LD> rs(m), cs(n); int e = r.range(1, 8); int w = r.below(3);
        for (int i = 0; i < m; i++) rs[i] = w == 1 ? 1 : powl(10.0L, -e * (LD)i / std::max(1, m)); for (int j = 0; j < n; j++) cs[j] = w == 0 ? 1 : powl(10.0L, -e * (LD)j / std::max(1, n));
        for (auto &x : a.d) x = r.uni(); a = scale_rc(a, rs, cs); break; }
    case GK_LOWRANK: { int k = r.range(1, std::max(1, std::min(m, n) - 1)); LMat u(m, k), v(k, n); for (auto &x : u.d) x = r.uni(); for (auto &x : v.d) x = r.uni(); a = mul(u, v); break; }
    case GK_SPARSE: for (auto &x : a.d) x = r.chance(70) ? 0.0 : r.uni(); for (int i = 0; i < std::min(m, n); i++) if (r.chance(80)) a(i, i) += 1; break;
    case GK_SVD: { for (int i = 0; i < std::min(m, n); i++) a(i, i) = powl(10.0L, -(LD)r.range(0, 6)); for (int t = 0; t < 3; t++) { rand_reflect_left(r, a); a = a.T(); rand_reflect_left(r, a); a = a.T(); } break; }
    case GK_TINYPIV: for (auto &x : a.d) x = r.uni(); for (int i = 0; i < std::min(m, n); i++) a(i, i) *= 1e-12L; break;
    case GK_SCALEBIG: for (auto &x : a.d) x = r.uni() * 1e60; break;
    case GK_SCALESMALL: for (auto &x : a.d) x = r.uni() * 1e-60; break;
    case GK_HOLES: { int w = r.range(1, 3); for (auto &x : a.d) x = r.uni(); for (int j = 0; j < n; j++) if (r.chance(30)) { int f = r.below(3); for (int i = f == 0 ? 0 : j + f - 1; i < m; i++) a(i, j) = 0; } if (w > 1) for (int i = 0; i < m; i++) if (r.chance(20)) { int f = r.below(3); for (int j = f == 0 ? 0 : i + f - 1; j < n; j++) a(i, j) = 0; } break; }
    case GK_BLOCK: {   // decoupled diagonal blocks; sometimes coupled above (or below) the diagonal
        int w = r.below(4), b0 = 0; for (auto &x : a.d) x = r.uni();
        while (b0 < std::max(m, n)) { int b1 = b0 + r.range(1, r.chance(50) ? 4 : std::max(2, std::max(m, n) / 2)); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { bool bi = i >= b0 && i < b1, bj = j >= b0 && j < b1; if (bi != bj && (w < 2 || (w == 2 ? i > j : i < j))) a(i, j) = 0; } b0 = b1; }
        break; }
    case GK_IDENT: for (int i = 0; i < std::min(m, n); i++) a(i, i) = 1; break;
    case GK_ZERO: break;
    default: for (auto &x : a.d) x = r.uni();
    }
    return a;
}
static inline void put(Mat &M, const LMat &a) { for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) M.at(i, j) = (double)a(i, j); }
static inline LMat gen_mat(Ctx &c, Mat &M, int m, int n, int kind = -1) {
    if (kind < 0) kind = pick_gk(c);
    M.init(c, m, n, GEN_UNI); put(M, gen_general(c, m, n, kind)); M.save();
    c.D("%s %dx%d ld=%d", gk_name[kind], m, n, M.step);
    return oldmat(M);
}
// symmetric, fully stored in the returned matrix; only one triangle is left in M, the other is poisoned
static inline void put_tri(Mat &M, const LMat &a, int flags) {
    for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) M.at(i, j) = in_tri(i, j, flags) ? (double)a(i, j) : poison(31 + i + 977 * j);
}
static inline LMat sym_of(const Mat &M, int flags) {   // from the saved image
    LMat a(M.r, M.c); for (int j = 0; j < M.c; j++) for (int i = 0; i < M.r; i++) a(i, j) = in_tri(i, j, flags) ? M.old(i, j) : M.old(j, i); return a;
}
static inline LMat symmetrize(const LMat &a) { LMat s(a.r, a.c); for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) s(i, j) = i >= j ? a(i, j) : a(j, i); return s; }
static inline LMat gen_sym(Ctx &c, Mat &M, int n, int flags, int kind = -1) {
    Rng &r = c.rng; if (kind < 0) kind = pick_gk(c);
    LMat a(n, n);
    if (kind == GK_SVD) { for (int i = 0; i < n; i++) a(i, i) = (r.chance(50) ? 1 : -1) * powl(10.0L, -(LD)r.range(0, 5)); for (int t = 0; t < 3; t++) { uint64_t s = r.s; rand_reflect_left(r, a); a = a.T(); r.s = s; rand_reflect_left(r, a); a = a.T(); } }
    else if (kind == GK_LOWRANK) { int k = r.range(1, std::max(1, n - 1)); LMat u(n, k), d(k, k); for (auto &x : u.d) x = r.uni(); for (int i = 0; i < k; i++) d(i, i) = r.chance(50) ? 1 : -1; a = mul(mul(u, d), u.T()); }
    else if (kind == GK_GRADED) { std::vector<LD> s(n); int e = r.range(1, 5); for (int i = 0; i < n; i++) s[i] = powl(10.0L, -e * (LD)i / std::max(1, n)); if (r.chance(50)) std::reverse(s.begin(), s.end()); a = scale_rc(gen_general(c, n, n, GK_UNI), s, s); }
    else if (kind == GK_TINYPIV) { a = gen_general(c, n, n, GK_UNI); for (int i = 0; i < n; i++) a(i, i) = r.chance(50) ? 0.0L : 1e-13L * r.uni(); }
    else a = gen_general(c, n, n, kind);
    M.init(c, n, n, GEN_UNI); put_tri(M, symmetrize(a), flags); M.save();
    c.D("sym-%s %s n=%d ld=%d", gk_name[kind], fl(flags), n, M.step);
    return sym_of(M, flags);
}
static inline LMat gen_spd(Ctx &c, Mat &M, int n, int flags) {
    Rng &r = c.rng; int kind = r.below(6); LMat a(n, n); const char *nm = "";
    if (kind <= 1) { LMat g = gen_general(c, n, n + r.below(4), GK_UNI); a = mul(g, g.T()); LD t = 0; for (int i = 0; i < n; i++) t = std::max(t, a(i, i)); for (int i = 0; i < n; i++) a(i, i) += (kind ? 0.01L : 1.0L) * (t + 0.1L); nm = "gram"; }
    else if (kind == 2) { for (int i = 0; i < n; i++) a(i, i) = powl(10.0L, -(LD)r.range(0, 6)); for (int t = 0; t < 3; t++) { uint64_t s = r.s; rand_reflect_left(r, a); a = a.T(); r.s = s; rand_reflect_left(r, a); a = a.T(); } nm = "eig"; for (int i = 0; i < n; i++) a(i, i) += 1e-8L; }
    else if (kind == 3) { for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a(i, j) = i == j ? 2 + r.u01() : abs(i - j) == 1 ? -1 + 0.1L * r.u01() : 0; nm = "tridiag"; }
    else if (kind == 4) { LMat g = gen_general(c, n, n, GK_UNI); a = mul(g, g.T()); for (int i = 0; i < n; i++) a(i, i) += 1; std::vector<LD> s(n); int e = r.range(1, 8); for (int i = 0; i < n; i++) s[i] = powl(10.0L, (r.uni()) * e); a = scale_rc(a, s, s); nm = "scaled"; }
    else { for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a(i, j) = i == j ? n + 1 : r.range(-1, 1); nm = "intdom"; }
    int e = r.chance(75) ? 0 : r.range(-90, 90); if (e) for (auto &x : a.d) x = ldexpl(x, e);   // other units
    M.init(c, n, n, GEN_UNI); put_tri(M, symmetrize(a), flags); M.save();
    c.D("spd-%s*2^%d %s n=%d ld=%d", nm, e, fl(flags), n, M.step);
    return sym_of(M, flags);
}
// pivots with unspecified content before the call
struct Piv {
    std::vector<int> d; armas_pivot_t p; size_t n;
    Piv(Ctx &c, int n, int fill = 0x3fffffff) : d(n + 8, fill), n(n) { memset(&p, 0, sizeof p); armas_pivot_make(&p, n, d.data() + 4); for (int i = 0; i < 4; i++) d[i] = d[n + 4 + i] = 0x5a5a5a5a; }
    Piv(const Piv &) = delete;
    int operator[](int k) const { return d[k + 4]; }
    operator armas_pivot_t *() { return &p; }
    std::vector<int> image() const { return d; }
    void guards(Ctx &c) { for (int i = 0; i < 4; i++) if (d[i] != 0x5a5a5a5a || d[n + 4 + i] != 0x5a5a5a5a) { c.fail("pivot-overrun", "memory outside the pivot table was written"); return; }
        if (p.npivots != (int)n || p.indexes != d.data() + 4) c.fail("header:P", "pivot header changed"); }
};
static inline void swap_r(LMat &a, int i, int k) { if (i != k) for (int j = 0; j < a.c; j++) std::swap(a(i, j), a(k, j)); }
static inline void swap_c(LMat &a, int i, int k) { if (i != k) for (int j = 0; j < a.r; j++) std::swap(a(j, i), a(j, k)); }

// LD inverse (Gauss-Jordan with complete row pivoting); false if singular to long double accuracy
static inline bool linv(const LMat &a0, LMat &x) {
    int n = a0.r; LMat a(a0); x = LMat::eye(n);
    LD mx = a.maxabs();
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (fabsl(a(i, k)) > fabsl(a(p, k))) p = i;
        if (!(fabsl(a(p, k)) > mx * 1e-17L)) return false;
        swap_r(a, p, k); swap_r(x, p, k);
        LD d = 1 / a(k, k);
        for (int j = 0; j < n; j++) { a(k, j) *= d; x(k, j) *= d; }
        for (int i = 0; i < n; i++) if (i != k) { LD f = a(i, k); if (f != 0) for (int j = 0; j < n; j++) { a(i, j) -= f * a(k, j); x(i, j) -= f * x(k, j); } }
    }
    return true;
}
// |got| <= tol elementwise, got(i,j) vs bound(i,j)*k*eps
static inline void within(Ctx &c, const char *nm, const LMat &res, const LMat &bnd, double k) {
    for (int j = 0; j < res.c; j++) for (int i = 0; i < res.r; i++) {
        LD tol = (LD)k * EPSD * bnd(i, j) + 1e-290L;
        if (!(fabsl(res(i, j)) <= tol)) { c.fail(std::string("residual:") + nm, fmt("%s: residual (%d,%d) = %.3Lg exceeds %.3Lg", nm, i, j, res(i, j), tol)); return; }
    }
    c.obs("residuals", (long)res.r * res.c);
}
static inline void within_norm(Ctx &c, const char *nm, LD got, LD bound) {
    if (!(got <= bound + 1e-290L)) c.fail(std::string("norm:") + nm, fmt("%s: %.3Lg exceeds %.3Lg", nm, got, bound));
    c.obs("norms");
}
static inline LD orth_defect(const LMat &q, bool rows = false) {
    LMat g = rows ? mul(q, q.T()) : mul(q.T(), q);
    LD m = 0; for (int j = 0; j < g.c; j++) for (int i = 0; i < g.r; i++) { LD e = fabsl(g(i, j) - (i == j)); if (!(e <= m)) m = e; }
    return m;
}
static inline LMat head(const LMat &a, int r, int cc) { LMat x(r, cc); for (int j = 0; j < cc; j++) for (int i = 0; i < r; i++) x(i, j) = a(i, j); return x; }
static inline bool all_finite(const Mat &m) { for (int j = 0; j < m.c; j++) for (int i = 0; i < m.r; i++) if (!std::isfinite(m.get(i, j))) return false; return true; }
static inline LMat lpart(const Mat &A, int m, int k, bool unit) { LMat l(m, k); for (int j = 0; j < k; j++) for (int i = j; i < m; i++) l(i, j) = i == j && unit ? 1 : A.get(i, j); return l; }
static inline LMat upart(const Mat &A, int k, int n, bool unit = false) { LMat u(k, n); for (int j = 0; j < n; j++) for (int i = 0; i <= std::min(j, k - 1); i++) u(i, j) = i == j && unit ? 1 : A.get(i, j); return u; }
static inline int ldim(Ctx &c) { return pick_size(c, c.tier ? 150 : 100); }
// product of elementary reflectors I - tau*v*v^T in the given order
struct Hh { std::vector<LD> v; LD tau; };
static inline LMat prodH(int p, const std::vector<Hh> &h) {
    LMat q = LMat::eye(p); std::vector<LD> w(p);
    for (auto &r : h) { if (r.tau == 0) continue; std::fill(w.begin(), w.end(), 0.0L);
        for (int j = 0; j < p; j++) if (r.v[j] != 0) for (int i = 0; i < p; i++) w[i] += q(i, j) * r.v[j];
        for (int j = 0; j < p; j++) if (r.v[j] != 0) for (int i = 0; i < p; i++) q(i, j) -= r.tau * w[i] * r.v[j]; }
    return q;
}
// runs f with a workspace: size query, then exact, larger or reduced workspace; or the allocating wrapper
template <class W, class P> static int run_ws(Ctx &c, armas_conf_t *cf, int unit, W fw, P plain) {
    Rng &r = c.rng; int lb = armas_getenv()->lb;
    if (r.chance(45)) { c.D("alloc"); return plain(); }
    armas_wbuf_t q = ARMAS_WBNULL; if (cf) cf->error = 0; int rc = fw(&q); if (rc != 0) { c.fail("query", fmt("workspace query returned %d", rc)); return rc; }
    if (q.bytes == 0) { c.D("nowork"); return fw(ARMAS_NOWORK); }
    size_t sz = q.bytes; int k = r.below(10);
    if (k < 3) sz += 8 * r.below(200);
    else if (k < 6) { size_t min = (size_t)8 * unit; if (min <= sz) sz = std::max(min, std::min(sz, min * (size_t)(r.chance(50) ? 1 : r.range(1, std::max(1, lb))) + 8 * r.below(4))); }
    c.D("work=%zu/%zu", sz, q.bytes); Work w(c, sz); rc = fw(&w.w); w.check(c);
    if (w.w.offset != 0) c.fail("wpos", "workspace position not restored"); if (w.w.bytes != sz) c.fail("wbytes", "workspace size changed");
    return rc;
}
