// Incomplete factorizations and iterative solvers: what they report is compared with the system solved
// against the explicit matrix.
#include "spu.hpp"

static int comp(Ctx &c) { return c.rng.pki({ARMASSP_CSC, ARMASSP_CSR}); }
static Pat sym_pattern(Ctx &c, int n) { Pat g = gen_pat(c, n, n, false), p(n, n); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) if (i == j || g.has(i, j)) { double v = c.rng.uni(); p.set(i, j, v); p.set(j, i, v); } return p; }
// diagonally dominant: positive definite
static Pat spd(Ctx &c, int n, double slack) { Pat p = sym_pattern(c, n); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) if (j != i) s += fabs(p.get(i, j)); p.set(i, i, s * (1 + slack) + 0.2 + c.rng.u01()); } return p; }
static Pat triangle(Ctx &c, const Pat &s, int f, int other) {   // other: 0 drop, 1 keep, 2 junk
    Pat p(s.r, s.c); for (int j = 0; j < s.c; j++) for (int i = 0; i < s.r; i++) if (s.has(i, j)) { if (in_tri(i, j, f) || other == 1) p.set(i, j, s.get(i, j)); else if (other == 2) p.set(i, j, poison(i * 91 + j)); }
    return p;
}
// IC(0) in extended precision: 0 fine, -1 a pivot is clearly not positive, 1 too close to tell
static int ic0(LMat &a, const Pat &p, LD sc) {   // a holds the lower triangle
    int n = p.r;
    for (int i = 0; i < n; i++) {
        if (!(fabsl(a(i, i)) > 1e-8L * sc)) return a(i, i) == 0 && i == 0 ? -1 : 1;
        if (a(i, i) < 0) return -1;
        a(i, i) = sqrtl(a(i, i));
        for (int k = i + 1; k < n; k++) if (p.has(k, i)) a(k, i) /= a(i, i);
        for (int j = i + 1; j < n; j++) if (p.has(j, i)) for (int k = j; k < n; k++) if (p.has(k, i) && p.has(k, j)) a(k, j) -= a(k, i) * a(j, i);
    }
    return 0;
}
static Pat current(const Sp &A, const Pat &p) { Pat q(p.r, p.c); for (int l = 0; l < A.nptr; l++) for (int k = A.ptr[l]; k < A.ptr[l + 1]; k++) if (A.a.kind == ARMASSP_CSR) q.set(l, A.ix[k], A.e[k]); else q.set(A.ix[k], l, A.e[k]); return q; }

// units of the problem: the answers scale with them
static double unit_scale(Ctx &c, int e = 60) { return c.rng.chance(75) ? 1.0 : std::ldexp(1.0, c.rng.range(-e, e)); }

OP(icholz, 4) {
    Rng &r = c.rng; Config cf(c); int n = sdim(c), k = comp(c), f = r.pki({ARMAS_LOWER, ARMAS_UPPER}), mode = r.below(8); Pat s = mode < 5 ? spd(c, n, r.u01()) : sym_pattern(c, n); int d = r.below(n); c.nontrivial = n > 2;
    if (mode == 5) for (int i = 0; i < n; i++) s.set(i, i, fabs(s.get(i, i)) + 0.5); if (mode == 6) { s = spd(c, n, 0.5); s.set(d, d, r.pick<double>({0.0, -0.5, -3.0})); } bool miss = mode == 7; if (miss) { s = spd(c, n, 0.5); s.del(d, d); }
    double sc = unit_scale(c); for (auto &v : s.v) v *= sc;
    Pat p = triangle(c, s, f, r.below(3)); Sp A(c, p, k); c.D("%s mode=%d d=%d scale=%g", fl(f), mode, d, sc); armassp_precond_t P; memset(&P, 0, sizeof P); bool init = r.chance(50);
    LMat lo(n, n); Pat pl(n, n); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) if (s.has(i, j)) { lo(i, j) = s.get(i, j); pl.set(i, j, 1); }
    int exp = 0; if (miss) { LMat t(lo); t(d, d) = 1; Pat q(pl); LMat tt(t); exp = 2; (void)tt; } else exp = ic0(lo, pl, sc);
    int rc = init ? armassp_init_icholz(&P, A, f) : armassp_icholz(A, f); A.is_const(c, "A", false);
    if (exp == 2) { if (rc != -ARMAS_ESINGULAR) c.fail("missing-diagonal", fmt("factorization without diagonal element %d returned %d", d, rc)); else c.obs("breakdowns"); return; }
    if (exp == 1) { c.obs("ill"); if (rc) return; } else if (exp == -1) { if (rc >= 0) c.fail("not-positive", "non-positive pivot not reported"); else { if (rc != -ARMAS_ENEGATIVE) c.fail("not-positive-code", fmt("returned %d", rc)); c.obs("breakdowns"); } return; }
    if (rc) { c.fail("ret", fmt("incomplete factorization of a suitable matrix returned %d", rc)); return; }
    Pat g = current(A, p); LMat L(n, n); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { bool lw = f & ARMAS_LOWER; if (lw ? p.has(i, j) : p.has(j, i)) L(i, j) = lw ? g.get(i, j) : g.get(j, i); }
    LMat pr = mul(L, L.T()), ab = mul(L.abs(), L.abs().T()); Cmp q(c, "LLt"); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) if (s.has(i, j)) q((double)(pr(i, j) - s.get(i, j)), 0, ab(i, j), n + 10, i, j);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!in_tri(i, j, f) && p.has(i, j) && !bits_eq(p.get(i, j), g.get(i, j))) { c.fail("wrote:other", "the other triangle was changed"); return; }
    c.obs("elements", n * n); c.obs("incomplete-cholesky");
    if (init) { if (P.M != &A || !P.precond) { c.fail("precond", "preconditioner not set up"); return; }
        Mat x(c, n, 1, 0), z(c, n, 1, 0); x.save(); bool same = r.chance(40); if (same) P.precond(&x, &P, &x, cf); else { P.precond(&z, &P, &x, cf); x.is_const(c, "x"); } Mat &o = same ? x : z;
        // L*L'*z = x
        LMat w(n, 1); for (int i = 0; i < n; i++) w(i, 0) = o.get(i, 0); LMat lw = mul(L, mul(L.T(), w)), lb = mul(L.abs(), mul(L.T().abs(), w.abs())); Cmp q2(c, "precond"); for (int i = 0; i < n; i++) q2((double)(lw(i, 0) - x.old(i, 0)), 0, lb(i, 0) + fabsl(x.old(i, 0)), 3 * n + 10, i, 0); c.obs("preconditionings");
        if (P.partial) { Mat u(c, n, 1, 0), v(c, n, 1, 0); u.save(); int tr = r.pki({0, ARMAS_TRANS}); P.partial(&v, &P, &u, tr, cf); u.is_const(c, "u"); LMat M = (f & ARMAS_LOWER) ? L : L.T(); if (tr) M = M.T(); LMat vv(n, 1); for (int i = 0; i < n; i++) vv(i, 0) = v.get(i, 0); LMat r1 = mul(M, vv), r2 = mul(M.abs(), vv.abs()); Cmp q3(c, "partial"); for (int i = 0; i < n; i++) q3((double)(r1(i, 0) - u.old(i, 0)), 0, r2(i, 0) + fabsl(u.old(i, 0)), 2 * n + 10, i, 0); } }
    cf.check(c);
}
static int ilu0(LMat &a, const Pat &p, LD sc) {
    int n = p.r; for (int i = 0; i < n; i++) { if (!(fabsl(a(i, i)) > 1e-8L * sc)) return a(i, i) == 0 && i == 0 ? -1 : 1; for (int k = i + 1; k < n; k++) if (p.has(k, i)) { a(k, i) /= a(i, i); for (int j = i + 1; j < n; j++) if (p.has(i, j) && p.has(k, j)) a(k, j) -= a(k, i) * a(i, j); } }
    return 0;
}
static Pat general(Ctx &c, int n, double dom) { Pat p = gen_pat(c, n, n, false); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (p.has(i, j)) p.set(i, j, c.rng.uni()); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) if (j != i) s += std::max(fabs(p.get(i, j)), fabs(p.get(j, i))); p.set(i, i, (c.rng.chance(80) ? 1 : -1) * (s * dom + 0.3 + c.rng.u01())); } return p; }
OP(iluz, 4) {
    Rng &r = c.rng; Config cf(c); int n = sdim(c), k = comp(c), mode = r.below(7), d = r.below(n); Pat s = general(c, n, mode < 4 ? 1.0 : 0.1); c.nontrivial = n > 2; if (mode == 5) { d = 0; s.set(0, 0, 0.0); } if (mode == 6) { s = general(c, n, 1.0); s.del(d, d); }
    double sc = unit_scale(c); for (auto &v : s.v) v *= sc;
    Sp A(c, s, k); c.D("mode=%d d=%d scale=%g", mode, d, sc); armassp_precond_t P; memset(&P, 0, sizeof P); LMat a = s.L(); int exp = mode == 6 ? -1 : ilu0(a, s, sc); bool init = r.chance(50); int rc = init ? armassp_init_iluz(&P, A) : armassp_iluz(A); A.is_const(c, "A", false);
    if (exp == 1) { c.obs("ill"); return; } if (exp < 0) { if (rc != -ARMAS_ESINGULAR) c.fail("singular-unreported", fmt("absent or zero pivot %d: returned %d", d, rc)); else c.obs("breakdowns"); return; }
    if (rc) { c.fail("ret", fmt("returned %d", rc)); return; }
    Pat g = current(A, s); LMat L = LMat::eye(n), U(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (g.has(i, j)) (i > j ? L(i, j) : U(i, j)) = g.get(i, j);
    LMat pr = mul(L, U), ab = mul(L.abs(), U.abs()); Cmp q(c, "LU"); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (s.has(i, j)) q((double)(pr(i, j) - s.get(i, j)), 0, ab(i, j), n + 10, i, j); c.obs("elements", n * n); c.obs("incomplete-lu");
    if (init) { if (P.M != &A || !P.precond) { c.fail("precond", "preconditioner not set up"); return; } Mat x(c, n, 1, 0), z(c, n, 1, 0); x.save(); bool same = r.chance(40); P.precond(same ? &x : &z, &P, &x, cf); if (!same) x.is_const(c, "x"); Mat &o = same ? x : z;
        LMat w(n, 1); for (int i = 0; i < n; i++) w(i, 0) = o.get(i, 0); LMat lw = mul(L, mul(U, w)), lb = mul(L.abs(), mul(U.abs(), w.abs())); Cmp q2(c, "precond"); for (int i = 0; i < n; i++) q2((double)(lw(i, 0) - x.old(i, 0)), 0, lb(i, 0) + fabsl(x.old(i, 0)), 3 * n + 10, i, 0); c.obs("preconditionings"); }
    cf.check(c);
}
OP(ifact_reject, 1) {
    Rng &r = c.rng; int m = r.range(1, 9), n = r.range(1, 9), w = r.below(3); c.nontrivial = true; c.D("which=%d", w); armassp_precond_t P; memset(&P, 0x11, sizeof P); int rc; int which = r.below(4); if (w != 1 && m == n) n++; if (w == 1) n = m; Pat p = gen_pat(c, m, n); Sp A(c, p, w == 1 ? (int)ARMASSP_COO : comp(c), false); armas_sparse_t *q = w == 2 ? nullptr : &A;
    switch (which) { case 0: rc = armassp_icholz(q, ARMAS_LOWER); break; case 1: rc = armassp_iluz(q); break; case 2: rc = armassp_init_icholz(&P, q, ARMAS_UPPER); break; default: rc = armassp_init_iluz(&P, q); }
    if (rc != -ARMAS_EINVAL) c.fail("accepted", fmt("unsuitable matrix: returned %d", rc)); else c.obs("rejections"); A.is_const(c, "A");
}
// ---------------------------------------------------------------- solvers
enum { S_CG, S_PCG, S_CGNE, S_CGNR, S_GMRES, S_PGMRES };
static const char *snm[] = {"cg", "pcg", "cgne", "cgnr", "gmres", "pgmres"};
static void solver(Ctx &c, int S) {
    Rng &r = c.rng; Config cf(c); int m, n, k = comp(c), f = 0; Pat full, p; bool easy = false; int mode = r.below(6);
    n = r.below(1500) == 0 ? r.range(60, 200) : r.chance(25) ? r.range(1, 4) : r.range(1, c.tier ? 50 : 30); m = n;
    if (S == S_CG || S == S_PCG) { f = r.pki({ARMAS_LOWER, ARMAS_UPPER}); easy = mode < 4; full = spd(c, n, easy ? 0.3 : 0.0); if (mode == 5) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (full.has(i, j)) { double e = 3.0 * (i + j) / n; full.set(i, j, full.get(i, j) * std::pow(10.0, -e)); } p = triangle(c, full, f, r.below(3)); }
    else if (S == S_CGNE) { n = m + r.below(10); easy = mode < 4; full = gen_pat(c, m, n, false); for (auto &x : full.v) x = x == 0 ? 0 : r.uni() * (easy ? 0.3 : 1.0); for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += fabs(full.get(i, j)); full.set(i, i, (easy ? 2 * s : 0.5 * s) + 1 + r.u01()); } if (easy) { std::vector<double> cs(n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) cs[j] += i == j ? 0 : fabs(full.get(i, j)); for (int i = 0; i < m; i++) full.set(i, i, std::max(full.get(i, i), 2 * cs[i])); } p = full; }
    else if (S == S_CGNR) { m = n + r.below(10); easy = mode < 4; full = gen_pat(c, m, n, false); for (auto &x : full.v) x = x == 0 ? 0 : r.uni() * (easy ? 0.3 : 1.0); for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += fabs(full.get(i, j)); double t = 0; for (int q = 0; q < n; q++) t += fabs(full.get(j, q)); full.set(j, j, (easy ? 2 * std::max(s, t) : 0.5 * s) + 1 + r.u01()); } p = full; }
    else { easy = mode < 3; full = general(c, n, easy ? 1.5 : 0.7); if (easy) for (int i = 0; i < n; i++) full.set(i, i, fabs(full.get(i, i))); if (mode == 4 && S == S_GMRES) full = gen_pat(c, n, n, true); if (mode == 5 && S == S_GMRES) { int z = r.below(n); for (int j = 0; j < n; j++) full.del(z, j); } p = full; }
    double sc = unit_scale(c, 40); for (auto &v : p.v) v *= sc; for (auto &v : full.v) v *= sc;
    c.nontrivial = n > 2; Sp A(c, p, k); LMat a = full.L();
    // start and right hand side
    Mat x, b; auto vec = [&](Mat &v, int len, const char *nm) { if (r.chance(70)) v.init(c, len, 1, 0); else v.init(c, 1, len, 0); if (r.chance(15)) for (int i = 0; i < len; i++) v.v(i) *= 1e6; if (&v == &b) for (int i = 0; i < len; i++) v.v(i) *= sc; c.D("%s=%dx%d/%d", nm, v.r, v.c, v.step); }; vec(x, n, "x"); vec(b, m, "b");
    int st = r.below(6); if (st < 3) for (int i = 0; i < n; i++) x.v(i) = 0; if (st == 1) for (int i = 0; i < m; i++) b.v(i) = 0; if (st == 2) { int q = r.below(m); for (int i = 0; i < m; i++) b.v(i) = i == q ? sc : 0; }
    x.save(); b.save(); bool exact0 = st == 1;
    auto resid = [&](bool old) { LMat w(m, 1); for (int i = 0; i < m; i++) { LD s = b.oldv(i); for (int j = 0; j < n; j++) s -= a(i, j) * (old ? x.oldv(j) : x.getv(j)); w(i, 0) = s; } if (S == S_CGNR) w = mul(a.T(), w); return w.frob(); };
    LD r0 = resid(true), an = a.frob();
    int crit = r.below(4); double stop = 0, smult = 0; if (crit == 0) stop = (double)r0 * std::pow(10.0, -r.range(2, 10)); if (crit == 1) smult = std::pow(10.0, -r.range(2, 10)); if (crit == 2) { stop = (double)r0 * 1e-6; smult = 1e-3; }
    int maxit = r.chance(30) ? r.range(1, 8) : 0; int gm = r.pki({0, 0, 1, 2, 5, n, n + 7}); cf.cf.stop = stop; cf.cf.smult = smult; cf.cf.maxiter = maxit; cf.cf.gmres_m = gm; cf.cf.numiters = -77; cf.cf.residual = -77; cf.cf.error = 0;
    c.D("%s %s stop=%.3g smult=%.3g maxiter=%d m=%d start=%d easy=%d mode=%d scale=%g", snm[S], f ? fl(f) : "", stop, smult, maxit, gm, st, easy, mode, sc);
    // preconditioner
    armassp_precond_t P; memset(&P, 0, sizeof P); Sp M; LMat mm(n, n); LD mnorm = 1;
    if (S == S_PCG) { Pat q = triangle(c, full, f, 0); M.init(c, q, k, false); if (armassp_init_icholz(&P, M, f) != 0) { c.obs("noprecond"); return; } }
    if (S == S_PGMRES) { M.init(c, full, k, false); if (armassp_init_iluz(&P, M) != 0) { c.obs("noprecond"); return; } Pat g = current(M, full); for (int i = 0; i < n; i++) if (!(fabs(g.get(i, i)) > 1e-3 * sc)) { c.obs("noprecond"); return; } }
    std::vector<double> pimg; if (M.e) { pimg.assign(M.e, M.e + M.nnz); }
    auto call = [&](armas_wbuf_t *w) -> int {
        switch (S) {
        case S_CG: return w ? armassp_cgrad_w(&x, A, &b, f, w, cf) : armassp_cgrad(&x, A, &b, f, cf);
        case S_PCG: return w ? armassp_pcgrad_w(&x, A, &b, &P, f, w, cf) : armassp_pcgrad(&x, A, &b, &P, f, cf);
        case S_CGNE: return w ? armassp_cgne_w(&x, A, &b, w, cf) : armassp_cgne(&x, A, &b, cf);
        case S_CGNR: return w ? armassp_cgnr_w(&x, A, &b, w, cf) : armassp_cgnr(&x, A, &b, cf);
        case S_GMRES: return w ? armassp_gmres_w(&x, A, &b, w, cf) : armassp_gmres(&x, A, &b, cf);
        default: return w ? armassp_pgmres_w(&x, A, &b, &P, w, cf) : armassp_pgmres(&x, A, &b, &P, cf);
        } };
    int rc; bool plain = true;
    if (r.chance(50)) { armas_wbuf_t q = ARMAS_WBNULL; rc = call(&q); if (rc || !q.bytes) { c.fail("query", fmt("workspace query returned %d, %zu bytes", rc, q.bytes)); return; } x.is_const(c, "x"); size_t sz = q.bytes;
        if (r.chance(15)) { sz = r.range(1, (int)q.bytes); plain = false; } else if (r.chance(30)) sz += 8 * r.below(3 * n); c.D("work=%zu/%zu", sz, q.bytes); Work w(c, sz); rc = call(&w.w); w.check(c); if (w.w.offset != 0) c.fail("wpos", "workspace position not restored");
        if (rc == -ARMAS_EWORK) { if (plain) c.fail("ework", fmt("%zu bytes of workspace refused, %zu asked for", sz, q.bytes)); else c.obs("rejections"); x.is_const(c, "x"); if (cf.cf.error != ARMAS_EWORK) c.fail("error-code", "wrong error code"); return; } }
    else rc = call(nullptr);
    A.is_const(c, "A"); b.is_const(c, "b"); x.only_outside(c, "x"); cf.check(c); if (M.e && memcmp(M.e, pimg.data(), 8 * pimg.size())) c.fail("changed:M", "the preconditioner was changed");
    if (cf.cf.stop != stop || cf.cf.smult != smult || cf.cf.maxiter != maxit || cf.cf.gmres_m != gm) c.fail("changed:conf", "iteration parameters of the configuration changed");
    int it = cf.cf.numiters; double res = cf.cf.residual; LD r1 = resid(false), xn = 0, bn = 0; for (int i = 0; i < n; i++) xn += (LD)x.getv(i) * x.getv(i), bn = bn; for (int i = 0; i < m; i++) bn += (LD)b.getv(i) * b.getv(i); LD x0 = 0; for (int i = 0; i < n; i++) x0 += (LD)x.oldv(i) * x.oldv(i); xn = sqrtl(xn); bn = sqrtl(bn); x0 = sqrtl(x0);
    int dm = S == S_CG ? 4 * n : S == S_CGNE || S == S_CGNR ? 2 * m : S == S_PCG ? 2 * n : 5 * n; int lim = maxit ? maxit : dm;
    if (rc != 0 && rc != -ARMAS_ECONVERGE) { c.fail("ret", fmt("returned %d", rc)); return; }
    if (rc && cf.cf.error != ARMAS_ECONVERGE) c.fail("error-code", fmt("returned %d, error %d", rc, cf.cf.error));
    if (it < 0 || it > lim) c.fail("iterations", fmt("%d iterations reported, at most %d allowed", it, lim));
    if (!(res >= 0)) { if (rc == 0) c.fail("residual", fmt("residual %g reported with success", res)); return; }
    LD rr = r0; if (S == S_CGNR) { rr = 0; for (int i = 0; i < m; i++) { LD s = b.oldv(i); for (int j = 0; j < n; j++) s -= a(i, j) * x.oldv(j); rr += s * s; } rr = sqrtl(rr); }
    LD crit1 = stop > 0 ? (LD)stop : smult > 0 ? (LD)smult * rr : (LD)EPSD * rr * (S >= S_GMRES ? n : 1);
    // attainable accuracy of the recurrences: growth of the iterates is covered by max norms on the way
    LD scale = (an * std::max(xn, x0) * 2 + an * (S == S_CG || S == S_PCG ? 1 : 1) * xn + bn) * (S == S_CGNR ? an : 1); LD slack = 30.0L * EPSD * (it + 10) * (n > m ? n : m) * scale; if (S <= S_CGNR) slack += 1e-9L * r0 * (easy ? 0 : 1);
    if (rc == 0) {
        c.obs("converged"); if (!(r1 <= crit1 * 1.0001L + slack)) c.fail("untrue", fmt("success reported, but |b-Ax| = %.3Lg (start %.3Lg) against a criterion of %.3Lg; reported residual %.3g after %d iterations", r1, r0, crit1, res, it));
        if (!(fabsl(res - r1) <= slack + 1e-6L * r1 + crit1 * 0.0001L) && !(S < S_GMRES && r1 <= crit1 + slack && res <= crit1 * 1.0001L)) c.fail("residual", fmt("reported residual %.6g, actual %.6Lg", res, r1));
        if (exact0 && it) c.fail("iterations", fmt("%d iterations for a zero residual", it));
    } else {
        c.obs("unconverged"); if (S >= S_GMRES || easy) if (!(fabsl(res - r1) <= slack + 1e-6L * (r1 + r0))) c.fail("residual", fmt("reported residual %.6g, actual %.6Lg", res, r1));
        if (r0 == 0) c.fail("exact-start", "a zero residual at the start reported as not converged");
        // suitable systems and a moderate criterion must converge within the default iterations
        if (easy && !maxit && plain && (S < S_GMRES || gm == 0 || gm >= n) && crit1 >= 1e-8L * r0 && crit1 > 1e3 * slack) c.fail("noconvergence", fmt("no convergence in %d iterations on a well conditioned system: residual %.3Lg, start %.3Lg, criterion %.3Lg", it, r1, r0, crit1));
    }
    c.obs(snm[S]); c.obs("solves"); c.obs("iterations", it);
}
OP(cgrad, 4) { solver(c, S_CG); }
OP(pcgrad, 3) { solver(c, S_PCG); }
OP(cgne, 3) { solver(c, S_CGNE); }
OP(cgnr, 3) { solver(c, S_CGNR); }
OP(gmres, 4) { solver(c, S_GMRES); }
OP(pgmres, 3) { solver(c, S_PGMRES); }
OP(solver_reject, 2) {
    Rng &r = c.rng; Config cf(c); int n = r.range(2, 10), S = r.below(6), w = r.below(4), k = comp(c); c.nontrivial = true; int am = n, an = n, xl = n, bl = n; if (w == 0) xl = n + r.pki({-1, 1}); if (w == 1) bl = n + r.pki({-1, 1}); if (w == 2) { an = n + 1; xl = S == S_CGNE || S == S_CGNR ? n : r.pki({n, n + 1}); }
    Pat p = general(c, n, 1); Pat q(am, an); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (p.has(i, j)) q.set(i, j, p.get(i, j)); Sp A(c, q, k); Sp M(c, p, k); armassp_precond_t P; memset(&P, 0, sizeof P); if (armassp_init_iluz(&P, M)) return; c.D("%s which=%d A=%dx%d x=%d b=%d", snm[S], w, am, an, xl, bl);
    Mat x(c, xl, 1, 0), b(c, bl, 1, 0); if (w == 3) { x.init(c, n, 2, 0); } x.save(); b.save(); armas_wbuf_t wb = ARMAS_WBNULL; bool wf = r.chance(50); std::unique_ptr<Work> ws; if (wf) ws.reset(new Work(c, 8 * 1000)); armas_wbuf_t *W = wf ? &ws->w : &wb; int rc;
    switch (S) {
    case S_CG: rc = wf ? armassp_cgrad_w(&x, A, &b, ARMAS_LOWER, W, cf) : armassp_cgrad(&x, A, &b, ARMAS_LOWER, cf); break;
    case S_PCG: rc = wf ? armassp_pcgrad_w(&x, A, &b, &P, ARMAS_LOWER, W, cf) : armassp_pcgrad(&x, A, &b, &P, ARMAS_LOWER, cf); break;
    case S_CGNE: rc = wf ? armassp_cgne_w(&x, A, &b, W, cf) : armassp_cgne(&x, A, &b, cf); break;
    case S_CGNR: rc = wf ? armassp_cgnr_w(&x, A, &b, W, cf) : armassp_cgnr(&x, A, &b, cf); break;
    case S_GMRES: rc = wf ? armassp_gmres_w(&x, A, &b, W, cf) : armassp_gmres(&x, A, &b, cf); break;
    default: rc = wf ? armassp_pgmres_w(&x, A, &b, &P, W, cf) : armassp_pgmres(&x, A, &b, &P, cf); }
    if (rc >= 0) c.fail("accepted", "mismatched operands accepted"); else { c.obs("rejections"); if (cf.cf.error != -rc) c.fail("error-code", fmt("returned %d, error %d", rc, cf.cf.error)); } x.is_const(c, "x"); b.is_const(c, "b"); A.is_const(c, "A"); cf.check(c); if (ws) ws->check(c);
}
