// Sparse matrix-vector products and triangular solves against the explicit matrix.
#include "spu.hpp"

static void nt(Ctx &c, const Pat &p) { c.nontrivial = p.r >= 2 && p.c >= 2 && p.nnz() >= 2; }
static int comp(Ctx &c) { return c.rng.pki({ARMASSP_CSC, ARMASSP_CSR}); }

OP(spmv, 5) {
    Rng &r = c.rng; Config cf(c); int m = sdim(c), n = sdim(c), k = comp(c), f = r.pki({0, ARMAS_TRANS}); if (r.chance(5)) { m = r.range(100, 400); } Pat p = gen_pat(c, m, n, true); nt(c, p); Sp A(c, p, k, r.chance(30)); double al = pick_scal(c), be = pick_scal(c);
    int ny = f ? n : m, nx = f ? m : n; Mat x, y; mkvec(c, x, nx, -1, "x"); mkvec(c, y, ny, -1, "y"); c.D("%s alpha=%g beta=%g", f ? "T" : "N", al, be); nanify(c, y, be, true, all_mask);
    int rc = armassp_mvmult(be, &y, al, A, &x, f, cf); expect_ok(c, rc, cf); cf.check(c); x.is_const(c, "x"); A.is_const(c, "A"); y.only_outside(c, "y");
    LMat a = f ? p.T().L() : p.L(); Cmp q(c, "y"); for (int i = 0; i < ny; i++) { LD s = 0, b = 0; for (int j = 0; j < nx; j++) { s += a(i, j) * x.getv(j); b += fabsl(a(i, j) * x.getv(j)); } LD yo = be == 0 ? 0 : (LD)be * y.oldv(i); q(y.getv(i), al * s + yo, fabs(al) * b + fabsl(yo), nx + 2, i, 0); }
    c.obs("elements", ny); c.obs("products");
}
// a triangle of a square pattern: all entries stored, those outside the triangle are poison
static Pat tri_pat(Ctx &c, int n, int f, bool junk, int mode) {
    Rng &r = c.rng; Pat g = gen_pat(c, n, n, true), p(n, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        bool in = in_tri(i, j, f);
        if (i == j) { if (f & ARMAS_UNIT) { if (r.chance(50)) p.set(i, j, poison(5 + i)); } else if (mode == 0 || g.has(i, j)) p.set(i, j, (r.chance(50) ? 1 : -1) * (0.6 + r.u01())); continue; }
        if (in) { if (g.has(i, j)) p.set(i, j, mode == 0 ? r.uni() * 0.6 / std::sqrt((double)n) : g.get(i, j)); }
        else if (junk && r.chance(30)) p.set(i, j, r.chance(60) ? poison(i * 77 + j) : r.uni());
    }
    return p;
}
static LMat tri_of(const Pat &p, int f) { LMat t(p.r, p.r); for (int j = 0; j < p.r; j++) for (int i = 0; i < p.r; i++) { if (i == j && (f & ARMAS_UNIT)) t(i, j) = 1; else if (in_tri(i, j, f) && p.has(i, j)) t(i, j) = p.get(i, j); } return t; }

OP(spmv_sym, 4) {
    Rng &r = c.rng; Config cf(c); int n = sdim(c), k = comp(c), f = r.pki({ARMAS_LOWER, ARMAS_UPPER}); Pat p = tri_pat(c, n, f, r.chance(50), 1); nt(c, p); Sp A(c, p, k); double al = pick_scal(c), be = pick_scal(c);
    Mat x, y; mkvec(c, x, n, -1, "x"); mkvec(c, y, n, -1, "y"); c.D("%s alpha=%g beta=%g", fl(f), al, be); nanify(c, y, be, true, all_mask);
    int rc = armassp_mvmult_sym(be, &y, al, A, &x, f, cf); expect_ok(c, rc, cf); cf.check(c); x.is_const(c, "x"); A.is_const(c, "A"); y.only_outside(c, "y");
    LMat t = tri_of(p, f); Cmp q(c, "y"); for (int i = 0; i < n; i++) { LD s = 0, b = 0; for (int j = 0; j < n; j++) { LD v = (in_tri(i, j, f) ? t(i, j) : t(j, i)) * x.getv(j); s += v; b += fabsl(v); } LD yo = be == 0 ? 0 : (LD)be * y.oldv(i); q(y.getv(i), al * s + yo, fabs(al) * b + fabsl(yo), n + 2, i, 0); }
    c.obs("elements", n); c.obs("symmetric-products");
}
OP(spmv_trm, 4) {
    Rng &r = c.rng; Config cf(c); int n = sdim(c), k = comp(c), f = r.pki({ARMAS_LOWER, ARMAS_UPPER}) | (r.chance(35) ? ARMAS_UNIT : 0) | (r.chance(50) ? ARMAS_TRANS : 0); Pat p = tri_pat(c, n, f, r.chance(50), r.below(2)); nt(c, p); Sp A(c, p, k); double al = pick_scal(c);
    Mat x; mkvec(c, x, n, -1, "x"); c.D("%s alpha=%g", fl(f), al); int rc = armassp_mvmult_trm(&x, al, A, f, cf); expect_ok(c, rc, cf); cf.check(c); A.is_const(c, "A"); x.only_outside(c, "x");
    LMat t = tri_of(p, f); if (f & ARMAS_TRANS) t = t.T(); Cmp q(c, "x"); for (int i = 0; i < n; i++) { LD s = 0, b = 0; for (int j = 0; j < n; j++) { LD v = t(i, j) * x.oldv(j); s += v; b += fabsl(v); } q(x.getv(i), al * s, fabs(al) * b, n + 2, i, 0); }
    c.obs("elements", n); c.obs("triangular-products");
}
OP(spsolve_trm, 5) {
    Rng &r = c.rng; Config cf(c); int n = sdim(c), k = comp(c), f = r.pki({ARMAS_LOWER, ARMAS_UPPER}) | (r.chance(35) ? ARMAS_UNIT : 0) | (r.chance(50) ? ARMAS_TRANS : 0); Pat p = tri_pat(c, n, f, r.chance(50), 0); nt(c, p); double al = pick_scal(c);
    bool sing = !(f & ARMAS_UNIT) && r.chance(12); int z = r.below(n); if (sing) { if (r.chance(50)) p.del(z, z); else p.set(z, z, 0.0); }
    Sp A(c, p, k); Mat x; mkvec(c, x, n, r.below(2), "x"); c.D("%s alpha=%g singular=%d", fl(f), al, sing ? z : -1);
    int rc = armassp_mvsolve_trm(&x, al, A, f, cf); cf.check(c); A.is_const(c, "A");
    if (sing) { if (rc != -ARMAS_ESINGULAR || cf.cf.error != ARMAS_ESINGULAR) c.fail("singular-unreported", fmt("solve with an absent or zero diagonal element returned %d (error %d)", rc, cf.cf.error)); x.is_const(c, "x"); c.obs("singular"); return; }
    expect_ok(c, rc, cf); x.only_outside(c, "x"); LMat t = tri_of(p, f); if (f & ARMAS_TRANS) t = t.T();
    Cmp q(c, "T*x"); for (int i = 0; i < n; i++) { LD s = 0, b = 0; for (int j = 0; j < n; j++) { LD v = t(i, j) * x.getv(j); s += v; b += fabsl(v); } LD w = (LD)al * x.oldv(i); q((double)(s - w), 0, b + fabsl(w), n + 4, i, 0); }
    c.obs("elements", n); c.obs("triangular-solves");
}
OP(spmv_reject, 2) {
    Rng &r = c.rng; Config cf(c); int m = r.range(1, 12), n = r.range(1, 12), w = r.below(6), k = comp(c); c.nontrivial = true; c.D("which=%d", w); int rc = 0, want = -ARMAS_ESIZE; Mat x(c, n, 1), y(c, m, 1);
    auto shape = [&](Mat &v, int len) { v.init(c, len, 1, 0); v.save(); };
    Pat p = gen_pat(c, m, n); y.save(); x.save();
    if (w == 0) { Sp A(c, p, ARMASSP_COO); rc = armassp_mvmult(1, &y, 1, A, &x, 0, cf); want = -ARMAS_EIMP; }
    else if (w == 1) { Sp A(c, p, k); shape(x, n + r.range(1, 3)); rc = armassp_mvmult(1, &y, 1, A, &x, 0, cf); }
    else if (w == 2) { Sp A(c, p, k); if (m == n) shape(y, m + 1); rc = armassp_mvmult(1, &y, 1, A, &x, m == n ? 0 : ARMAS_TRANS, cf); }
    else { Pat s = gen_pat(c, m, m); int f = r.pki({ARMAS_LOWER, ARMAS_UPPER}); bool sq = r.chance(50); Pat o = sq ? s : gen_pat(c, m, m + 1); Sp A(c, o, k); shape(x, sq ? m + 1 : m);
        rc = w == 3 ? armassp_mvmult_sym(1, &y, 1, A, &x, f, cf) : w == 4 ? armassp_mvmult_trm(&x, 1, A, f, cf) : armassp_mvsolve_trm(&x, 1, A, f, cf); }
    if (rc >= 0) c.fail("accepted", "mismatched operands accepted"); else { if (rc != want) c.fail("code", fmt("returned %d, expected %d", rc, want)); if (cf.cf.error != -rc) c.fail("error-code", fmt("returned %d, error %d recorded", rc, cf.cf.error)); c.obs("rejections"); }
    x.is_const(c, "x"); y.is_const(c, "y"); cf.check(c);
}
