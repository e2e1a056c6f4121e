// Views, element operations, copies, norms, comparisons, permutations and sorts.
#include "ref.hpp"

static int dm(Ctx &c) { return pick_size(c, 90); }
static void shp(Ctx &c, int &m, int &n, bool square = false) {
    m = dm(c); n = square ? m : c.rng.chance(40) ? m : dm(c);
    c.nontrivial = m >= 2 && n >= 2;
}
// flags that select a part, and the matching predicate
static bool sel(int i, int j, int f) {
    if ((f & ARMAS_UNIT) && i == j) return false;
    if (f & ARMAS_UPPER) return i <= j;
    if (f & ARMAS_LOWER) return i >= j;
    return true;
}
static void same_view(Ctx &c, const char *nm, const armas_dense_t &v, const double *p, int r, int cc, int step) {
    if (r * cc == 0 && v.rows * v.cols == 0) return;
    if (v.rows != r || v.cols != cc) { c.fail(std::string("shape:") + nm, fmt("%s has shape %dx%d, expected %dx%d", nm, v.rows, v.cols, r, cc)); return; }
    if (r == 0 || cc == 0) return;
    if (v.elems != p) c.fail(std::string("start:") + nm, fmt("%s starts %ld elements from where it should", nm, (long)(v.elems - p)));
    if ((cc > 1) && v.step != step) c.fail(std::string("step:") + nm, fmt("%s has step %d, expected %d", nm, v.step, step));
    if (v.__data) c.fail(std::string("owner:") + nm, "a view claims to own memory");
    c.obs("views");
}
OP(views, 6) {
    Rng &r = c.rng; int m = pick_dim(c, 60), n = pick_dim(c, 60); Mat A(c, m, n); A.save(); c.nontrivial = m >= 2 && n >= 2;
    armas_dense_t v; memset(&v, 0x55, sizeof v);
    auto P = [&](int i, int j) { return A.m.elems + (size_t)j * A.step + i; };
    int i = r.below(m), j = r.below(n), w = r.below(13); c.D("which=%d A=%dx%d/%d at %d,%d", w, m, n, A.step, i, j);
    bool neg = r.chance(40);
    switch (w) {
    case 0: armas_column(&v, &A, neg ? j - n : j); same_view(c, "column", v, P(0, j), m, 1, A.step); break;
    case 1: armas_row(&v, &A, neg ? i - m : i); same_view(c, "row", v, P(i, 0), 1, n, A.step); break;
    case 2: armas_column_unsafe(&v, &A, j); same_view(c, "column_unsafe", v, P(0, j), m, 1, A.step); break;
    case 3: armas_row_unsafe(&v, &A, i); same_view(c, "row_unsafe", v, P(i, 0), 1, n, A.step); break;
    case 4: case 5: {
        int nr = r.range(0, m - i), nc = r.range(0, n - j), qr = nr, qc = nc;
        if (r.chance(25)) { nr = m - i; qr = -1; } if (r.chance(25)) { nc = n - j; qc = -1; }
        armas_submatrix(&v, &A, neg ? i - m : i, r.chance(30) ? j - n : j, qr, qc); c.D("%dx%d", nr, nc);
        same_view(c, "submatrix", v, P(i, j), nr, nc, A.step);
        armas_dense_t u; armas_submatrix_unsafe(&u, &A, i, j, nr, nc); same_view(c, "submatrix_unsafe", u, P(i, j), nr, nc, A.step);
        if (nr > 1 && nc > 1) {  // a view of a view
            int a = r.below(nr), b = r.below(nc); armas_dense_t x; armas_submatrix(&x, &v, a, b, nr - a, nc - b);
            same_view(c, "subsubmatrix", x, P(i + a, j + b), nr - a, nc - b, A.step);
            armas_diag(&x, &v, 0); same_view(c, "subdiag", x, P(i, j), 1, std::min(nr, nc), A.step + 1);
        }
        break; }
    case 6: { int s = A.step + r.range(0, 3); armas_submatrix_ext(&v, &A, i, j, 1, 1, s); same_view(c, "submatrix_ext", v, P(i, j), 1, 1, s);
              armas_submatrix_ext(&v, &A, 0, 0, m, n, -1); same_view(c, "submatrix_ext", v, P(0, 0), m, n, A.step); break; }
    case 7: case 8: case 9: {
        int k = r.range(-(m - 1), n - 1), len = 0; for (int a = 0; a < m; a++) for (int b = 0; b < n; b++) len += b - a == k;
        armas_diag(&v, &A, k); c.D("diag %d", k); double *p = k >= 0 ? P(0, k) : P(-k, 0);
        same_view(c, "diag", v, p, 1, len, A.step + 1);
        armas_diag_unsafe(&v, &A, k); same_view(c, "diag_unsafe", v, p, 1, len, A.step + 1); break; }
    case 10: {
        armas_dense_t row; armas_row(&row, &A, i); int a = r.below(n), l = r.range(0, n - a); armas_subvector(&v, &row, a, l); same_view(c, "subvector", v, P(i, a), 1, l, A.step);
        armas_subvector_unsafe(&v, &row, a, l); same_view(c, "subvector_unsafe", v, P(i, a), 1, l, A.step);
        armas_dense_t col; armas_column(&col, &A, j); a = r.below(m); l = r.range(0, m - a); armas_subvector(&v, &col, a, l); same_view(c, "subvector", v, P(a, j), l, 1, A.step);
        if (n > 1) { int k = r.range(-(m - 1), n - 1); armas_dense_t d; armas_diag(&d, &A, k); if (d.cols > 1) { a = r.below(d.cols); l = d.cols - a; armas_subvector(&v, &d, a, l); same_view(c, "subdiagvec", v, d.elems + (size_t)a * (A.step + 1), 1, l, A.step + 1); } }
        break; }
    case 11: {
        int qi = neg ? i - m : i, qj = r.chance(40) ? j - n : j; double x = r.uni();
        if (!bits_eq(armas_get(&A, qi, qj), A.get(i, j))) c.fail("get", "armas_get returned another element");
        if (armas_index(&A, qi, qj) != (int)(P(i, j) - A.m.elems)) c.fail("index", "armas_index is wrong");
        armas_set(&A, qi, qj, x); if (A.get(i, j) != x) c.fail("set", "armas_set did not set the element");
        A.untouched(c, "A", [&](int a, int b) { return a == i && b == j; }); c.obs("views"); return; }
    case 12: {
        armas_dense_t row; int wh = r.below(3); if (wh == 0) armas_row(&row, &A, i); else if (wh == 1) armas_column(&row, &A, j); else armas_diag(&row, &A, 0);
        int N = row.rows * row.cols, k = r.below(N), q = neg ? k - N : k; double x = r.uni();
        int ri = wh == 0 ? i : wh == 1 ? k : k, rj = wh == 0 ? k : wh == 1 ? j : k;
        if (!bits_eq(armas_get_at(&row, q), A.get(ri, rj)) || !bits_eq(armas_get_at_unsafe(&row, k), A.get(ri, rj))) c.fail("get_at", "vector element read from the wrong place");
        armas_set_at(&row, q, x); if (A.get(ri, rj) != x) c.fail("set_at", "vector element written to the wrong place");
        A.untouched(c, "A", [&](int a, int b) { return a == ri && b == rj; });
        int64_t ix = r.below(m * n); if (!bits_eq(armas_get_at(&A, (int)ix), A.get((int)(ix % m), (int)(ix / m))) && m > 1) c.fail("get_at_lin", "linear index does not run down the columns");
        if (!armas_index_valid(&A, m * n - 1) || armas_index_valid(&A, m * n) || !armas_index_valid(&A, -m * n) || armas_index_valid(&A, -m * n - 1)) c.fail("index_valid", "index range wrong");
        c.obs("views"); return; }
    }
    A.is_const(c, "A");
}
OP(alloc, 2) {
    Rng &r = c.rng; int m = pick_size(c, 60), n = pick_size(c, 60); c.D("%dx%d", m, n); c.nontrivial = m > 1 && n > 1;
    armas_dense_t a; memset(&a, 0x77, sizeof a);
    if (armas_init(&a, m, n) != &a) { c.fail("init", "armas_init failed"); return; }
    struct Rel { armas_dense_t *a; ~Rel() { armas_release(a); } } rel = {&a};
    if (a.rows != m || a.cols != n) c.fail("init-shape", "wrong shape");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { if (armas_get_unsafe(&a, i, j) != 0.0) { c.fail("init-zero", "new matrix is not zero"); i = m; j = n; break; } armas_set_unsafe(&a, i, j, i + 100.0 * j); }
    if (m > 0 && n > 0) {
        if ((uintptr_t)a.elems % 64) c.fail("align", "elements not aligned to a cache line");
        armas_dense_t *b = armas_newcopy(&a);
        if (!b || b->rows != m || b->cols != n) c.fail("newcopy", "copy has another shape");
        else for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (armas_get_unsafe(b, i, j) != i + 100.0 * j) { c.fail("newcopy-val", "copy differs"); i = m; j = n; break; }
        if (b && b->elems == a.elems) c.fail("newcopy-alias", "copy shares memory");
        armas_free(b); b = nullptr;
        armas_dense_t *q = armas_alloc(m, n); if (!q || q->rows != m || q->cols != n) c.fail("alloc", "armas_alloc failed"); armas_free(q);
    } else if (armas_alloc(m, n)) c.fail("alloc0", "empty allocation returned a matrix");
    armas_release(&a);
    if (m > 0 && n > 0 && (a.rows || a.cols || a.elems)) c.fail("release", "released matrix still has content");
    armas_release(&a);
    c.obs("elements", (long)m * n);
}
static thread_local double g_k; static double fop(double x) { return 2 * x + g_k; }
static double fop2(double x, void *p) { return x - *(double *)p; }
struct It { long n; double s; long stop; }; static int fit(double x, void *p) { It *t = (It *)p; t->n++; t->s += x; return t->n == t->stop ? -1 : 0; }
static double fval(int i, int j) { return 1000.0 * i + j + 0.5; }
static thread_local long g_gen; static double fgen() { return 5.0 + g_gen++; }
static int part(Ctx &c) { return c.rng.pki({0, ARMAS_UPPER, ARMAS_LOWER}); }

OP(madd, 3) {
    int m, n; shp(c, m, n); int f = part(c) | (c.rng.chance(40) ? ARMAS_UNIT : 0); if (!(f & (ARMAS_UPPER | ARMAS_LOWER))) f = 0;
    if (m == 1 || n == 1) f = 0;
    Mat A(c, m, n); A.save(); double a = c.rng.uni(); Config cf(c, false, 0); c.D("%s %dx%d/%d", fl(f), m, n, A.step);
    expect_ok(c, armas_madd(&A, a, f, cf), cf);
    Cmp q(c, "A"); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (sel(i, j, f)) q(A.get(i, j), (LD)A.old(i, j) + a, fabs(A.old(i, j)) + fabs(a), 2, i, j);
    A.untouched(c, "A", [&](int i, int j) { return sel(i, j, f); }); c.obs("elements", (long)m * n);
}
OP(mscale, 3) {
    int m, n; shp(c, m, n); int f = part(c) | (c.rng.chance(40) ? ARMAS_UNIT : 0); if (!(f & (ARMAS_UPPER | ARMAS_LOWER))) f = 0;
    if (m == 1 || n == 1) f = 0;
    Mat A(c, m, n); A.save(); double a = c.rng.uni(); Config cf(c, false, 0); c.D("%s %dx%d/%d", fl(f), m, n, A.step);
    if (m == 0 || n == 0) return;
    expect_ok(c, armas_mscale(&A, a, f, cf), cf);
    Cmp q(c, "A"); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (sel(i, j, f)) q(A.get(i, j), (LD)A.old(i, j) * a, fabs(A.old(i, j) * a), 2, i, j);
    A.untouched(c, "A", [&](int i, int j) { return sel(i, j, f); }); c.obs("elements", (long)m * n);
}
OP(scale_to, 1) {
    int m, n; shp(c, m, n); if (!m || !n) return; Rng &r = c.rng; Mat A(c, m, n, GEN_UNI);
    int ef = r.range(-300, 300), et = r.range(-300, 300); double from = r.uni() < 0 ? -std::pow(10.0, ef) : std::pow(10.0, ef), to = std::pow(10.0, et);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A.at(i, j) *= fabs(from);
    A.save(); Config cf(c, false, 0); c.D("%dx%d from=%g to=%g", m, n, from, to);
    expect_ok(c, armas_scale_to(&A, from, to, 0, cf), cf);
    Cmp q(c, "A"); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { LD e = (LD)A.old(i, j) / from * to; if (fabsl(e) > 1e-290L) q(A.get(i, j), e, fabsl(e), 12, i, j); }
    A.only_outside(c, "A"); c.obs("elements", (long)m * n);
}
OP(mplus, 3) {
    int m, n; shp(c, m, n); Rng &r = c.rng; bool t = r.chance(35); int p = t ? 0 : part(c), f = p | (t ? r.pki({ARMAS_TRANS, ARMAS_TRANSB}) : 0) | (r.chance(25) ? ARMAS_ABS : 0);
    if (m == 1 || n == 1) { f = 0; t = false; p = 0; }
    Mat A(c, m, n), B; if (t) B.init(c, n, m); else B.init(c, m, n); 
    if (p) { poison_tri(B, p); poison_tri(A, p); }
    A.save(); B.save(); double a = pick_scal(c), b = pick_scal(c); Config cf(c, false, 0); c.D("%s %dx%d/%d,%d a=%g b=%g", fl(f), m, n, A.step, B.step, a, b);
    if (m == 1 && n == 1) return;   // a one by one B is a scalar (added)
    expect_ok(c, armas_mplus(a, &A, b, &B, f, cf), cf);
    Cmp q(c, "A"); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (sel(i, j, p)) {
        LD x = A.old(i, j), y = t ? B.get(j, i) : B.get(i, j); if (f & ARMAS_ABS) x = fabsl(x), y = fabsl(y);
        q(A.get(i, j), a * x + b * y, fabsl(a * x) + fabsl(b * y), 3, i, j); }
    B.is_const(c, "B"); A.untouched(c, "A", [&](int i, int j) { return sel(i, j, p); }); c.obs("elements", (long)m * n);
    if (m > 1 && n > 1 && m != n) { Mat D(c, n, m); D.save(); A.save(); if (armas_mplus(1, &A, 1, &D, 0, cf) >= 0) c.fail("shape", "mismatched shapes accepted"); A.is_const(c, "A"); c.obs("rejections"); }
}
OP(mplus_scalar, 1) {
    int m, n; shp(c, m, n); if (!m || !n) return; Mat A(c, m, n), B(c, 1, 1); A.save(); B.save(); double b = pick_scal(c); Config cf(c, false, 0); c.D("%dx%d", m, n);
    if (m == 1 && n == 1) return;
    expect_ok(c, armas_mplus(1.0, &A, b, &B, 0, cf), cf);
    Cmp q(c, "A"); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) q(A.get(i, j), (LD)A.old(i, j) + (LD)b * B.get(0, 0), fabs(A.old(i, j)) + fabs(b * B.get(0, 0)), 3, i, j);
    B.is_const(c, "B"); A.only_outside(c, "A"); c.obs("elements", (long)m * n);
}
OP(apply, 3) {
    int m, n; shp(c, m, n); int f = part(c); Mat A(c, m, n); poison_tri(A, f); A.save(); g_k = 3; double k = 0.25; int w = c.rng.below(3); c.D("%d %s %dx%d/%d", w, fl(f), m, n, A.step);
    long cnt = 0; LD s = 0; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (sel(i, j, f)) { cnt++; s += A.get(i, j); }
    int rc = 0; It it{0, 0, -1};
    if (w == 0) rc = armas_apply(&A, fop, f); else if (w == 1) rc = armas_apply2(&A, fop2, &k, f); else rc = armas_iterate(&A, fit, &it, f);
    if (rc) c.fail("ret", "nonzero return");
    if (w == 2) { if (it.n != cnt) c.fail("count", fmt("visited %ld elements, the part has %ld", it.n, cnt)); if (!(fabsl(it.s - s) <= 1e-9L * (1 + cnt) * 1e6L)) c.fail("visit", "visited other elements"); A.is_const(c, "A");
        if (cnt > 1) { It t2{0, 0, 1 + c.rng.below((int)cnt)}; rc = armas_iterate(&A, fit, &t2, f); if (rc >= 0 || t2.n != t2.stop) c.fail("stop", "iteration did not stop when asked"); } }
    else { Cmp q(c, "A"); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (sel(i, j, f)) { LD e = w == 0 ? 2 * (LD)A.old(i, j) + 3 : (LD)A.old(i, j) - k; q(A.get(i, j), e, fabsl(A.old(i, j)) * 2 + 3, 3, i, j); }
        A.untouched(c, "A", [&](int i, int j) { return sel(i, j, f); }); }
    c.obs("elements", cnt);
}
OP(set, 3) {
    Rng &r = c.rng; int p = r.pki({0, ARMAS_UPPER, ARMAS_LOWER, ARMAS_SYMM}), m, n; shp(c, m, n, p == ARMAS_SYMM); int u = p && r.chance(40) ? ARMAS_UNIT : 0, f = p | u; bool all = r.chance(40);
    Mat A(c, m, n); A.save(); c.D("%s%s%s %dx%d/%d", fl(f), p == ARMAS_SYMM ? "S" : "", all ? " all" : "", m, n, A.step); g_gen = 0;
    int rc = all ? armas_set_all(&A, fgen, f) : armas_set_values(&A, fval, f); if (rc) c.fail("ret", "nonzero return");
    std::set<double> seen; long cnt = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        bool in = p == ARMAS_SYMM ? true : sel(i, j, f); if (!in) continue; double x = A.get(i, j);
        if (p == ARMAS_SYMM && u && i == j) { if (x != 1.0) c.fail("unit", "unit diagonal not one"); continue; }
        if (p == ARMAS_SYMM && i < j) { if (x != A.get(j, i)) { c.fail("sym", "result not symmetric"); break; } continue; }
        cnt++;
        if (all) seen.insert(x);
        else if (x != fval(i, j)) { c.fail("val", fmt("element (%d,%d) = %g, expected %g", i, j, x, fval(i, j))); i = m; j = n; break; }
    }
    if (all && ((long)seen.size() != cnt || (cnt && (*seen.begin() != 5.0 || *seen.rbegin() != 4.0 + cnt)) || g_gen != cnt)) c.fail("all", "not every named element received its own generated value");
    A.untouched(c, "A", [&](int i, int j) { return p == ARMAS_SYMM || sel(i, j, f); }); c.obs("elements", (long)m * n);
}
OP(make_trm, 2) {
    int m, n; shp(c, m, n); Rng &r = c.rng; int p = r.pki({ARMAS_UPPER, ARMAS_LOWER}), f = p | (r.chance(50) ? ARMAS_UNIT : 0); Mat A(c, m, n); A.save(); c.D("%s %dx%d/%d", fl(f), m, n, A.step);
    armas_make_trm(&A, f);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { double e = in_tri(i, j, p) ? (i == j && (f & ARMAS_UNIT) ? 1.0 : A.old(i, j)) : 0.0; if (!bits_eq(A.get(i, j), e) && A.get(i, j) != e) { c.fail("val", fmt("element (%d,%d) = %g, expected %g", i, j, A.get(i, j), e)); i = m; j = n; } }
    A.only_outside(c, "A"); c.obs("elements", (long)m * n);
}
OP(mcopy, 3) {
    int m, n; shp(c, m, n); Rng &r = c.rng; bool t = r.chance(45); Mat A(c, m, n), B; if (t) B.init(c, n, m); else B.init(c, m, n); A.save(); B.save(); Config cf(c, false, 0); c.D("%s %dx%d/%d,%d", t ? "T" : "-", m, n, A.step, B.step);
    expect_ok(c, armas_mcopy(&A, &B, t ? ARMAS_TRANS : 0, cf), cf);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!bits_eq(A.get(i, j), t ? B.get(j, i) : B.get(i, j))) { c.fail("val", fmt("element (%d,%d) differs", i, j)); i = m; j = n; }
    A.only_outside(c, "A"); B.is_const(c, "B"); c.obs("elements", (long)m * n);
    if (m > 1 && n > 1) { Mat D(c, m, n + 1); D.save(); A.save(); if (armas_mcopy(&A, &D, 0, cf) >= 0 || cf.cf.error <= 0) c.fail("shape", "mismatched shapes accepted"); A.is_const(c, "A"); c.obs("rejections"); }
}
OP(mnorm, 3) {
    int m, n; shp(c, m, n); Rng &r = c.rng; Mat A(c, m, n); bool big = r.chance(25); if (big) { double s = std::pow(10.0, r.pick({-280, -170, 155, 250, 300})); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A.at(i, j) *= s * 1e-6; } A.save();
    int w = r.pki({ARMAS_NORM_ONE, ARMAS_NORM_INF, ARMAS_NORM_FRB}); Config cf(c, true, 3); c.D("norm%d %dx%d/%d", w, m, n, A.step);
    double got = armas_mnorm(&A, w, cf); LD ref = 0; bool vec = m == 1 || n == 1; LMat L = LMat::of(A);
    if (w == ARMAS_NORM_FRB) ref = L.frob(); else if (vec) { if (w == ARMAS_NORM_ONE) for (auto x : L.d) ref += fabsl(x); else ref = L.maxabs(); }
    else ref = w == ARMAS_NORM_ONE ? L.norm1() : L.T().norm1();
    if (ref > 1e-290L) { Cmp q(c, "norm"); q(got, ref, ref, m + n + 10, 0, 0); } else if (!(got <= 1e-280)) c.fail("small", "norm of a tiny matrix is large");
    A.is_const(c, "A"); c.obs("values");
}
OP(compare, 2) {
    int m, n; shp(c, m, n); Rng &r = c.rng; Mat A(c, m, n, GEN_UNI), B(c, m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) B.at(i, j) = A.get(i, j);
    bool diff = m * n > 0 && r.chance(60); int i = m ? r.below(m) : 0, j = n ? r.below(n) : 0; double at = 1e-8, rt = 1e-5, d = 0;
    if (r.chance(50)) at = r.pick({0.0, 1e-3, 1e-12}), rt = r.pick({0.0, 1e-2, 1e-10}); bool def = at == 1e-8;
    double lim = diff ? at + rt * fabs(B.get(i, j)) : 0;
    if (diff) { d = lim * r.pick({0.5, 2.0}); if (lim == 0) d = r.pick({0.0, 1e-3}); A.at(i, j) += d; }
    A.save(); B.save(); double act = diff ? fabs(A.get(i, j) - B.get(i, j)) : 0; int exp = !(act > lim); c.D("%dx%d diff=%g lim=%g", m, n, act, lim);
    if (diff && fabs(act - lim) < 0.2 * lim) return;
    int got = def ? armas_allclose(&A, &B) : armas_intolerance(&A, &B, at, rt); if (got != exp) c.fail("res", fmt("comparison returned %d, expected %d", got, exp));
    Mat C(c, m + 1, n); C.save(); if (armas_allclose(&A, &C)) c.fail("shape", "different shapes compare equal"); A.is_const(c, "A"); B.is_const(c, "B"); c.obs("values");
}
static void sw_rows(LMat &M, int a, int b) { for (int j = 0; j < M.c; j++) std::swap(M(a, j), M(b, j)); }
static void sw_cols(LMat &M, int a, int b) { for (int i = 0; i < M.r; i++) std::swap(M(i, a), M(i, b)); }
OP(pivot, 5) {
    Rng &r = c.rng; int kind = r.pki({ARMAS_PIVOT_ROWS, ARMAS_PIVOT_COLS, ARMAS_PIVOT_UPPER, ARMAS_PIVOT_LOWER}), m, n; bool tri = kind == ARMAS_PIVOT_UPPER || kind == ARMAS_PIVOT_LOWER; shp(c, m, n, tri); if (!m || !n) return;
    int tf = kind == ARMAS_PIVOT_UPPER ? ARMAS_UPPER : ARMAS_LOWER; Mat A(c, m, n); if (tri) poison_tri(A, tf); A.save();
    int N = kind == ARMAS_PIVOT_COLS ? n : m, np = r.chance(60) ? N : r.range(0, N); std::vector<int> ix(np + 2, -99);
    bool back = r.chance(40); int base = back ? N - np : 0;
    for (int k = 0; k < np; k++) ix[k] = 1 + (r.chance(25) ? k + base : r.chance(70) ? r.range(base + k, N - 1) : r.below(N));
    armas_pivot_t P; armas_pivot_make(&P, np, ix.data()); std::vector<int> ix0 = ix; Config cf(c, false, 0); c.D("kind=%d %s %dx%d/%d np=%d", kind, back ? "back" : "fwd", m, n, A.step, np);
    bool pub = !tri && r.chance(30); int dir = back ? ARMAS_PIVOT_BACKWARD : ARMAS_PIVOT_FORWARD;
    auto call = [&](int d) { return pub ? (kind == ARMAS_PIVOT_ROWS ? armas_pivot_rows(&A, &P, d, cf) : armas_pivot_cols(&A, &P, d, cf)) : armas_pivot(&A, &P, kind | d, cf); };
    if (call(dir)) c.fail("ret", "nonzero return");
    LMat L = tri ? LMat(m, m) : oldmat(A); if (tri) for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) L(i, j) = in_tri(i, j, tf) ? A.old(i, j) : A.old(j, i);
    auto sw = [&](int a, int b) { if (a == b) return; if (tri) sw_rows(L, a, b), sw_cols(L, a, b); else if (kind == ARMAS_PIVOT_COLS) sw_cols(L, a, b); else sw_rows(L, a, b); };
    if (!back) for (int k = 0; k < np; k++) sw(k, ix0[k] - 1); else for (int k = np - 1; k >= 0; k--) sw(k + base, ix0[k] - 1);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!tri || in_tri(i, j, tf)) if ((LD)A.get(i, j) != L(i, j)) { c.fail("val", fmt("element (%d,%d) is not the permuted one", i, j)); i = m; j = n; }
    A.untouched(c, "A", [&](int i, int j) { return !tri || in_tri(i, j, tf); });
    if (ix != ix0) c.fail("pivots", "the pivot vector changed");
    if (np == N) { if (call(dir ^ 1)) c.fail("ret", "nonzero return"); A.is_const(c, "A back"); }
    c.obs("elements", (long)m * n);
    // too many pivots are refused
    std::vector<int> big(N + 1, 1); armas_pivot_t Q; armas_pivot_make(&Q, N + 1, big.data()); A.save(); if (armas_pivot(&A, &Q, kind, cf) >= 0) c.fail("toomany", "more pivots than rows accepted"); A.is_const(c, "A"); c.obs("rejections");
}
OP(sort, 4) {
    Rng &r = c.rng; int n = r.chance(10) ? r.below(3) : r.range(1, r.chance(80) ? 40 : 400); Mat D; mkvec(c, D, n, r.chance(40) ? GEN_INT : -1, "D"); c.nontrivial = n > 2; if (!n) return;
    int w = r.below(3), up = r.pki({ARMAS_ASC, ARMAS_DESC}); c.D("which=%d dir=%d n=%d", w, up, n);
    if (r.chance(15)) for (int i = 0; i < n; i++) D.v(i) = r.pick({1.0, 2.0}); if (r.chance(10)) for (int i = 0; i < n; i++) D.v(i) = i; if (r.chance(10)) for (int i = 0; i < n; i++) D.v(i) = -i;
    D.save(); std::vector<double> o, g; for (int i = 0; i < n; i++) o.push_back(D.getv(i));
    if (w == 0) armas_sort_vec(&D, up); else if (w == 1) { if (armas_qsort_vec(&D, up)) c.fail("ret", "nonzero return"); } else armas_abs_sort_vec(&D, up);
    for (int i = 0; i < n; i++) g.push_back(D.getv(i));
    for (int i = 1; i < n; i++) { double a = g[i - 1], b = g[i]; if (w == 2) a = fabs(a), b = fabs(b); if (up > 0 ? a > b : a < b) { c.fail(fmt("order:%d", w), fmt("elements %d and %d out of order", i - 1, i)); break; } }
    std::sort(o.begin(), o.end()); std::sort(g.begin(), g.end()); if (o != g) c.fail(fmt("elems:%d", w), "the sorted vector does not have the original elements");
    D.only_outside(c, "D"); c.obs("elements", n);
}
OP(sort_eigenvec, 2) {
    Rng &r = c.rng; int n = r.range(1, 40), m = r.range(1, 20); Mat D; mkvec(c, D, n, r.chance(40) ? GEN_INT : -1, "D"); c.nontrivial = n > 2; Mat U(c, m, n, GEN_UNI), V(c, n, m, GEN_UNI), C, Cv;
    bool cv = r.chance(50); if (cv) C.init(c, r.chance(50) ? 1 : n, 1), C.init(c, C.r == 1 ? 1 : n, C.r == 1 ? n : 1); else C.init(c, m + 1, n);
    if (m + 1 == 1 || n == 1) cv = true; U.save(); V.save(); C.save(); int up = r.pki({ARMAS_ASC, ARMAS_DESC}), wh = r.below(8); c.D("n=%d m=%d dir=%d with=%d", n, m, up, wh);
    bool cvec = C.r == 1 || C.c == 1;
    for (int j = 0; j < n; j++) { U.at(0, j) = j; V.at(j, 0) = j; if (cvec) C.v(j) = j; else C.at(0, j) = j; } U.save(); V.save(); C.save();
    if (cvec && C.n() != n) return;
    if (armas_sort_eigenvec(&D, wh & 1 ? &U.m : 0, wh & 2 ? &V.m : 0, wh & 4 ? &C.m : 0, up)) c.fail("ret", "nonzero return");
    for (int i = 1; i < n; i++) if (up > 0 ? D.getv(i - 1) > D.getv(i) : D.getv(i - 1) < D.getv(i)) { c.fail("order", "not sorted"); break; }
    auto chk = [&](const char *nm, std::function<double(int)> id, std::function<bool(int, int)> same) { std::set<int> s; for (int i = 0; i < n; i++) { int o = (int)id(i); if (o < 0 || o >= n || !s.insert(o).second) { c.fail(std::string("perm:") + nm, "not a permutation"); return; } if (D.oldv(o) != D.getv(i)) { c.fail(std::string("pair:") + nm, "vectors do not follow their values"); return; } if (!same(i, o)) { c.fail(std::string("mix:") + nm, "a vector was torn apart"); return; } } };
    if (wh & 1) chk("U", [&](int i) { return U.get(0, i); }, [&](int i, int o) { for (int k = 0; k < m; k++) if (U.get(k, i) != U.old(k, o)) return false; return true; }); else U.is_const(c, "U");
    if (wh & 2) chk("V", [&](int i) { return V.get(i, 0); }, [&](int i, int o) { for (int k = 0; k < m; k++) if (V.get(i, k) != V.old(o, k)) return false; return true; }); else V.is_const(c, "V");
    if (wh & 4) { if (cvec) chk("C", [&](int i) { return C.getv(i); }, [](int, int) { return true; }); else chk("C", [&](int i) { return C.get(0, i); }, [&](int i, int o) { for (int k = 0; k < m + 1; k++) if (C.get(k, i) != C.old(k, o)) return false; return true; }); } else C.is_const(c, "C");
    U.only_outside(c, "U"); V.only_outside(c, "V"); C.only_outside(c, "C"); D.only_outside(c, "D"); c.obs("elements", n);
}
OP(random, 1) {
    Rng &r = c.rng; long s = 1 + r.below(1000000); c.D("seed=%ld", s); c.nontrivial = true; armas_seed(s); double a[50], b[50]; for (auto &x : a) { x = r.chance(0) ? 0 : armas_uniform(); if (!(x >= 0 && x < 1)) c.fail("range", "uniform value outside [0,1)"); }
    armas_seed(s); for (auto &x : b) x = armas_uniform(); if (memcmp(a, b, sizeof a)) c.fail("seed", "the same seed gives another sequence"); if (armas_seed(0) != s) c.fail("seedval", "seed query changed");
    for (int i = 0; i < 50; i++) { double x = armas_normal(); if (!(fabs(x) < 10)) c.fail("normal", "absurd normal value"); } if (armas_seed(0) != s) c.fail("seedval", "seed query changed"); c.obs("values", 100);
}
// text written on a stream: what the picture of the matrix should be, built independently
static std::string captured(std::function<void(FILE *)> fn, size_t cap) {
    std::vector<char> b(cap + 64, 0); FILE *f = fmemopen(b.data(), cap, "w"); if (!f) return "?"; fn(f); long n = ftell(f); fclose(f); return std::string(b.data(), n > 0 ? n : 0);
}
OP(print, 1) {
    Rng &r = c.rng; int m, n; shp(c, m, n); if (r.chance(50)) m = r.below(24), n = r.below(14); Mat A(c, m, n); A.save(); int w = r.below(4);
    const char *f = w == 0 ? nullptr : r.pick({"%.17g", "%8.1e", "%6.2f", "%a"}), *ef = w == 0 || w == 1 ? "%8.1e" : f; c.D("%dx%d how=%d %s", m, n, w, ef); c.nontrivial = m >= 2 && n >= 2;
    std::string want; char e[512];
    for (int i = 0; i < m; i++) {
        if (m > 18 && i == 9) { want += " ....\n"; i = m - 9; }
        want += "["; for (int j = 0; j < n; j++) { if (n > 9 && j == 4) { want += ", ..."; j = n - 4; } if (j) want += ", "; snprintf(e, sizeof e, ef, A.old(i, j)); want += e; } want += "]\n";
    }
    std::string got = captured([&](FILE *o) { if (w == 1) armas_print(&A, o); else armas_printf(o, f, &A); }, want.size() + 400);
    if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++; c.fail("text", fmt("printed %zu characters, expected %zu, first difference at %zu: \"%.30s\" not \"%.30s\"", got.size(), want.size(), k, got.c_str() + k, want.c_str() + k)); }
    A.is_const(c, "A");
    int np = r.range(1, 12); std::vector<int> ix(np); for (auto &x : ix) x = r.range(-50, 50); armas_pivot_t P; armas_pivot_make(&P, np, ix.data()); want = "["; for (int k = 0; k < np; k++) want += fmt(k ? ", %3d" : "%3d", ix[k]); want += "]\n";
    if ((got = captured([&](FILE *o) { armas_pivot_printf(o, "%3d", &P); }, want.size() + 100)) != want) c.fail("pivots", "printed pivots differ: " + got);
    c.obs("printed", m * n + np);
}
