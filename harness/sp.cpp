// Sparse matrices: structure and values through every constructor and transformation, and the
// sparse-sparse arithmetic.
#include "spu.hpp"
extern "C" size_t armassp_mult_nnz(const armas_sparse_t *A, const armas_sparse_t *B, int flags);
#ifndef armassp_mult_nnz
#define armassp_mult_nnz armassp_d_mult_nnz
#endif

static void nt(Ctx &c, const Pat &p) { c.nontrivial = p.r >= 2 && p.c >= 2 && p.nnz() >= 2; }
static int comp(Ctx &c) { return c.rng.pki({ARMASSP_CSC, ARMASSP_CSR}); }

OP(sp_build, 4) {
    Rng &r = c.rng; Config cf(c); int m = sdim(c), n = sdim(c); Pat p = gen_pat(c, m, n); nt(c, p);
    std::vector<coo_elem_t> es; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (p.has(i, j)) { coo_elem_t e; e.i = i; e.j = j; e.val = p.get(i, j); es.push_back(e); }
    for (int i = (int)es.size() - 1; i > 0; i--) std::swap(es[i], es[r.below(i + 1)]);
    int sz = r.pki({0, 1, (int)es.size(), (int)es.size() + 5, std::max(0, (int)es.size() / 2)}); bool heap = r.chance(50), made = r.chance(25); c.D("%dx%d nnz=%zu space=%d", m, n, es.size(), sz);
    armas_sparse_t S; memset(&S, 0x5a, sizeof S); Lib H; armas_sparse_t *A = &S; char *mem = nullptr; size_t mb = 0;
    if (made) { sz = std::max(sz, (int)es.size()); mb = armassp_bytes_needed(m, n, sz, ARMASSP_COO); mem = new char[mb + 16]; memset(mem, 0x6b, mb + 16);
        if (sz && armassp_make(&S, m, n, sz, ARMASSP_COO, mem, mb - 1) == 0) c.fail("make:short", "armassp_make accepted a block that is too small");
        if (armassp_make(&S, m, n, sz, ARMASSP_COO, mem, mb)) { c.fail("make:refused", "armassp_make refused a block of the size it needs"); delete[] mem; return; } }
    else if (heap) { H.p = armassp_new(m, n, sz, ARMASSP_COO); A = H.p; } else if (!armassp_init(&S, m, n, sz, ARMASSP_COO)) A = nullptr;
    if (!A) { c.fail("new", "matrix not made"); return; }
    struct Rel { armas_sparse_t *a; ~Rel() { if (a) armassp_release(a); } } rel = {made || heap ? nullptr : &S};
    size_t done = 0; Pat now(m, n);
    auto same = [&](const char *when) {
        if (A->nnz != (int)done || A->size < A->nnz) { c.fail("append:count", fmt("%s: %d elements (space %d) after appending %zu", when, A->nnz, A->size, done)); return false; }
        for (size_t k = 0; k < done; k++) if (A->elems.ep[k].i != es[k].i || A->elems.ep[k].j != es[k].j || !bits_eq(A->elems.ep[k].val, es[k].val)) { c.fail("append:content", fmt("%s: element %zu differs", when, k)); return false; }
        return true; };
    bool ok = same("new");
    while (ok && done < es.size()) {
        int k = r.below(30);
        if (k == 0) { int i = r.pki({-1, m, r.range(m, m + 100), r.below(m), INT_MIN, INT_MAX}), j = i >= 0 && i < m ? r.pki({-1, n, n + 7, INT_MAX}) : r.range(-2, n + 2);
            if (armassp_append(A, i, j, 1.0) >= 0) c.fail("append:range", fmt("element (%d,%d) accepted in a %dx%d matrix", i, j, m, n)); else c.obs("rejections"); ok = same("refused append"); }
        else if (k == 1 && !made) { int ns = r.range(0, A->nnz + 20); int rc = armassp_resize(A, ns); if (ns < A->nnz) { if (rc >= 0) c.fail("resize:drop", "resize below the element count accepted"); } else if (rc < 0 || A->size != ns) c.fail("resize", fmt("resize to %d returned %d, space %d", ns, rc, A->size)); ok = same("resize"); }
        else { if (armassp_append(A, es[done].i, es[done].j, es[done].val) < 0) { c.fail("append", "append of a valid element refused"); break; } done++; if (r.chance(5)) ok = same("append"); }
    }
    if (ok) ok = same("end");
    if (ok) {
        sp_check(c, "coo", A, ARMASSP_COO, p, false);
        Pat g; int o = r.pki({ARMASSP_ROW_ORDER, ARMASSP_COL_ORDER});
        if (r.chance(60)) { if (armassp_sort_to(A, (armassp_order_t)o) < 0) c.fail("sort", "sort refused"); sp_check(c, "sorted", A, ARMASSP_COO, p, false);
            for (int k = 1; k < A->nnz; k++) { coo_elem_t &x = A->elems.ep[k - 1], &y = A->elems.ep[k]; bool lt = o == ARMASSP_ROW_ORDER ? (x.i < y.i || (x.i == y.i && x.j < y.j)) : (x.j < y.j || (x.j == y.j && x.i < y.i)); if (!lt) { c.fail("sort:order", fmt("elements %d and %d are out of order", k - 1, k)); break; } } }
        int t = comp(c); { Lib B(armassp_convert(A, (armassp_type_enum)t)); sp_check(c, "converted", B, t, p, true); }
        if (r.chance(30)) { Lib B(armassp_mkcopy(A)); sp_check(c, "copy", B, ARMASSP_COO, p, false); if (B && armassp_append(B, 0, 0, 5.0) < 0) c.fail("append:copy", "a copy does not accept elements"); if (B && (B->nnz != (int)es.size() + 1 || B->elems.ep[B->nnz - 1].val != 5.0)) c.fail("append:copy", "element appended to a copy is lost"); sp_check(c, "coo", A, ARMASSP_COO, p, false); }
    }
    if (made) { for (int k = 0; k < 16; k++) if (mem[mb + k] != 0x6b) { c.fail("make:outside", "memory after the given block written"); break; } delete[] mem; }
    else if (!heap) { rel.a = nullptr; armassp_release(&S); if (S.elems.v || S.nnz || S.rows) c.fail("release", "matrix not cleared when released"); }
    c.obs("built");
}
OP(sp_zero, 1) {
    Rng &r = c.rng; int m = r.pki({0, 0, 5, -1}), n = m > 0 ? r.pki({0, -3}) : r.pki({0, 4, -2}), k = r.below(3), z = r.pki({0, 5, -1}); c.D("%dx%d %s nnz=%d", m, n, knm[k], z); c.nontrivial = true;
    Lib A(armassp_new(m, n, z, (armassp_type_enum)k));
    if (m < 0 || n < 0 || z < 0) { if (A) c.fail("negative", fmt("matrix of %dx%d with %d elements made", m, n, z)); else c.obs("rejections"); return; }
    if (!A) { c.fail("empty", "empty matrix not made"); return; }
    if (A->nnz || A->rows * A->cols) c.fail("empty", "empty matrix has elements"); c.obs("built");
    Lib B(armassp_new(r.range(1, 9), r.range(1, 9), 0, (armassp_type_enum)k)); if (!B || B->nnz) { c.fail("nospace", "matrix with no elements not made"); return; }
    Config cf(c); Mat D(c, B->rows, B->cols); D.save(); if (armassp_todense(&D, B, cf) < 0) c.fail("todense", "refused"); for (int j = 0; j < D.c; j++) for (int i = 0; i < D.r; i++) if (D.get(i, j) != 0) { c.fail("value:dense", "element of an empty matrix not zero"); return; } D.only_outside(c, "D");
    Lib T(armassp_transpose(B)); if (k == ARMASSP_COO ? (bool)T : !T) c.fail("transpose", "transpose of an empty matrix");
}
OP(sp_convert, 5) {
    Rng &r = c.rng; int m = sdim(c), n = sdim(c), k = r.below(3), t = r.chance(92) ? comp(c) : ARMASSP_COO; Pat p = gen_pat(c, m, n); nt(c, p); bool shuf = r.chance(60); Sp B(c, p, k, shuf); c.D("to %s", knm[t]);
    if (r.chance(50)) { Lib A(armassp_convert(B, (armassp_type_enum)t)); if (t == ARMASSP_COO) { if (A) c.fail("coo", "conversion to coordinate list reported success"); else c.obs("rejections"); } else sp_check(c, "A", A, t, p, k != t || !shuf); }
    else {
        int am = sdim(c), an = sdim(c), ak = r.below(3), az = r.pki({0, p.nnz(), p.nnz() + 1, p.nnz() + 40, p.nnz() / 2}); Lib A(armassp_new(am, an, az, (armassp_type_enum)ak)); c.D("into %s %dx%d space %d", knm[ak], am, an, az); if (!A) { c.fail("new", "no matrix"); return; }
        size_t have = A->__nbytes, need = armassp_bytes_needed(m, n, p.nnz(), (armassp_type_enum)t);
        armas_sparse_t *q = armassp_convert_to(A, B, (armassp_type_enum)t);
        if (t == ARMASSP_COO) { if (q) c.fail("coo", "conversion to coordinate list reported success"); }
        else if (have < need) { if (q) c.fail("nospace", fmt("converted into %zu bytes, %zu needed", have, need)); else c.obs("rejections"); }
        else if (q != A.p) c.fail("refused", fmt("conversion into %zu bytes refused, %zu needed", have, need));
        else { sp_check(c, "A", A, t, p, k != t || !shuf); if (A->__nbytes != have) c.fail("bytes", "allocated size changed"); }
    }
    B.is_const(c, "B"); c.obs("conversions");
}
OP(sp_transpose, 4) {
    Rng &r = c.rng; int m = sdim(c), n = sdim(c), k = r.chance(92) ? comp(c) : ARMASSP_COO; Pat p = gen_pat(c, m, n); nt(c, p); Sp B(c, p, k, r.chance(60));
    if (r.chance(60)) { Lib A(armassp_transpose(B)); if (k == ARMASSP_COO) { if (A) c.fail("coo", "transpose of a coordinate list reported success"); else c.obs("rejections"); } else { sp_check(c, "A", A, k, p.T(), true); if (A) { Lib D(armassp_transpose(A)); sp_check(c, "AT", D, k, p, true); } } }
    else {
        int az = r.pki({p.nnz(), p.nnz() + 7, p.nnz() / 2}); Lib A(armassp_new(n, m, az, (armassp_type_enum)(k == ARMASSP_COO ? ARMASSP_CSR : k))); if (!A) { c.fail("new", "no matrix"); return; } size_t have = A->__nbytes, need = armassp_bytes_needed(n, m, p.nnz(), (armassp_type_enum)k);
        armas_sparse_t *q = armassp_transpose_to(A, B); if (k == ARMASSP_COO) { if (q) c.fail("coo", "transpose of a coordinate list reported success"); } else if (have < need) { if (q) c.fail("nospace", "transposed into too little space"); } else if (!q) c.fail("refused", "transpose refused"); else sp_check(c, "A", A, k, p.T(), true);
    }
    B.is_const(c, "B"); c.obs("conversions");
}
OP(sp_copy, 3) {
    Rng &r = c.rng; int m = sdim(c), n = sdim(c), k = r.below(3); Pat p = gen_pat(c, m, n); nt(c, p); Sp B(c, p, k, r.chance(50));
    auto image = [&](armas_sparse_t *A) { if (!A || A->nnz != B.nnz) return; bool ok = true; if (k == ARMASSP_COO) { for (int i = 0; i < B.nnz; i++) ok &= A->elems.ep[i].i == B.ep[i].i && A->elems.ep[i].j == B.ep[i].j && bits_eq(A->elems.ep[i].val, B.ep[i].val); } else for (int i = 0; i < B.nnz; i++) ok &= A->ix[i] == B.ix[i] && bits_eq(A->elems.v[i], B.e[i]); if (!ok) c.fail("image", "copy has its elements in another order"); };
    if (r.chance(60)) { Lib A(armassp_mkcopy(B)); sp_check(c, "A", A, k, p, false); image(A); }
    else { int az = r.pki({p.nnz(), p.nnz() + 9, p.nnz() / 2, 0}); Lib A(armassp_new(sdim(c), sdim(c), az, (armassp_type_enum)r.below(3))); if (!A) { c.fail("new", "no matrix"); return; } size_t have = A->__nbytes; armas_sparse_t *q = armassp_copy_to(A, B);
        if (have < armassp_bytes_for(B)) { if (q) c.fail("nospace", "copied into too little space"); else c.obs("rejections"); } else if (!q) c.fail("refused", "copy refused"); else { sp_check(c, "A", A, k, p, false); image(A); } }
    if (armassp_copy_to(B, B) != &B) c.fail("self", "copy to itself"); B.is_const(c, "B"); c.obs("copies");
}
OP(sp_sort, 2) {
    Rng &r = c.rng; int m = sdim(c), n = sdim(c), k = comp(c); Pat p = gen_pat(c, m, n); nt(c, p); Sp B(c, p, k, true); Lib A(armassp_mkcopy(B)); if (!A) { c.fail("new", "no copy"); return; }
    int rc = r.chance(50) ? armassp_sort(A) : armassp_sort_to(A, (armassp_order_t)r.pki({ARMASSP_ROW_ORDER, ARMASSP_COL_ORDER})); if (rc) c.fail("refused", "sort refused"); sp_check(c, "A", A, k, p, true); c.obs("sorts");
    Pat q = gen_pat(c, 3, 3); Sp C(c, q, ARMASSP_COO, true); if (armassp_sort(C) >= 0) c.fail("coo", "armassp_sort accepted a coordinate list"); else c.obs("rejections"); C.is_const(c, "C"); if (armassp_sort(nullptr) >= 0) c.fail("null", "null sorted");
}
OP(sp_dense, 3) {
    Rng &r = c.rng; Config cf(c); int m = sdim(c), n = sdim(c), k = r.below(3); Pat p = gen_pat(c, m, n); nt(c, p); Sp B(c, p, k, r.chance(50)); bool bad = r.chance(15); Mat D(c, m + (bad ? 1 : 0), n); D.save();
    int rc = armassp_todense(&D, B, cf); if (bad) { if (rc >= 0 || !cf.cf.error) c.fail("accepted", "mismatched shapes accepted"); else c.obs("rejections"); D.is_const(c, "D"); }
    else { expect_ok(c, rc, cf); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!bits_eq(D.get(i, j), p.get(i, j)) && !(D.get(i, j) == 0 && p.get(i, j) == 0)) { c.fail("value:D", fmt("D(%d,%d) = %g, expected %g", i, j, D.get(i, j), p.get(i, j))); j = n; break; } c.obs("elements", m * n); }
    D.only_outside(c, "D"); B.is_const(c, "B"); cf.check(c);
}
OP(sp_hasdiag, 2) {
    Rng &r = c.rng; int n = sdim(c), m = r.chance(90) ? n : sdim(c), k = r.below(3), d = r.chance(40) ? 0 : r.range(-n - 2, n + 2); Pat p = gen_pat(c, m, n); int cnt = 0; nt(c, p);
    bool full = r.chance(60); for (int i = 0; i < m; i++) { int j = i + d; if (j < 0 || j >= n) continue; cnt++; if (full && !p.has(i, j)) p.set(i, j, 1.5); } if (full && cnt && r.chance(40)) { int w = r.below(cnt), x = 0; for (int i = 0; i < m; i++) { int j = i + d; if (j < 0 || j >= n) continue; if (x++ == w) p.del(i, j); } }
    Sp A(c, p, k, r.chance(40)); c.D("diag %d", d); bool want = m == n && cnt > 0; for (int i = 0; i < m; i++) { int j = i + d; if (j >= 0 && j < n && !p.has(i, j)) want = false; }
    int got = armassp_hasdiag(A, d); if ((got != 0) != want) c.fail("answer", fmt("armassp_hasdiag says %d for diagonal %d, expected %d", got, d, want)); A.is_const(c, "A"); c.obs("answers");
    if (k != ARMASSP_COO) { for (int t = 0; t < 5; t++) { int q = r.below(A.a.nptr), x = r.below(k == ARMASSP_CSR ? n : m); int i = k == ARMASSP_CSR ? q : x, j = k == ARMASSP_CSR ? x : q; Sp S(c, p, k); int pos = armassp_nz(S, q, x); if ((pos >= 0) != p.has(i, j) || (pos >= 0 && !bits_eq(armassp_value(S, pos), p.get(i, j)))) c.fail("nz", "element not found where it is stored"); } }
}
static void check_sum(Ctx &c, const char *nm, armas_sparse_t *C, int k, const LMat &ref, const LMat &bnd, const std::vector<char> &must, double kk) {
    Pat g; if (!sp_read(c, nm, C, k, ref.r, ref.c, g, true)) return; Cmp q(c, nm);
    for (int j = 0; j < ref.c; j++) for (int i = 0; i < ref.r; i++) { size_t at = (size_t)j * ref.r + i; if (g.has(i, j) && !must[at]) { c.fail(std::string("pattern:") + nm, fmt("%s(%d,%d) is stored though nothing contributes to it", nm, i, j)); return; } q(g.get(i, j), ref(i, j), bnd(i, j), kk, i, j); }
    c.obs("elements", ref.r * ref.c);
}
OP(sp_add, 5) {
    Rng &r = c.rng; Config cf(c); int m = sdim(c), n = sdim(c), k = comp(c), f = r.pki({0, 0, ARMAS_TRANSA, ARMAS_TRANSB, ARMAS_TRANSA | ARMAS_TRANSB}); double al = pick_scal(c), be = pick_scal(c);
    Pat a = gen_pat(c, f & ARMAS_TRANSA ? n : m, f & ARMAS_TRANSA ? m : n), b = r.chance(20) ? (f & ARMAS_TRANSA ? (f & ARMAS_TRANSB ? a : a.T()) : (f & ARMAS_TRANSB ? a.T() : a)) : gen_pat(c, f & ARMAS_TRANSB ? n : m, f & ARMAS_TRANSB ? m : n); nt(c, a);
    Sp A(c, a, k, !(f & ARMAS_TRANSA) && r.chance(50)), B(c, b, k, !(f & ARMAS_TRANSB) && r.chance(50)); c.D("%s alpha=%g beta=%g", fl(f), al, be);
    LMat la = f & ARMAS_TRANSA ? a.T().L() : a.L(), lb = f & ARMAS_TRANSB ? b.T().L() : b.L(); LMat ref(m, n), bnd(m, n); std::vector<char> must((size_t)m * n); int un = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { ref(i, j) = al * la(i, j) + be * lb(i, j); bnd(i, j) = fabsl(al * la(i, j)) + fabsl(be * lb(i, j)); bool x = (f & ARMAS_TRANSA ? a.has(j, i) : a.has(i, j)) || (f & ARMAS_TRANSB ? b.has(j, i) : b.has(i, j)); must[(size_t)j * m + i] = x; un += x; }
    if (r.chance(50)) { Lib C(armassp_add(al, A, be, B, f, cf)); check_sum(c, "C", C, k, ref, bnd, must, 2); }
    else {
        int sp = r.pki({un, un, un + 3, un > 0 ? un - 1 : 0}); Lib C(armassp_new(m, n, sp, (armassp_type_enum)k)); if (!C) { c.fail("new", "no matrix"); return; } armas_wbuf_t q = ARMAS_WBNULL; int rc = armassp_addto_w(C, al, A, be, B, f, &q, cf); if (rc || !q.bytes) { c.fail("query", fmt("workspace query returned %d, %zu bytes", rc, q.bytes)); return; }
        bool shortw = r.chance(10); Work w(c, shortw ? q.bytes - 1 - r.below((int)std::min<size_t>(q.bytes - 1, 64)) : q.bytes + 8 * r.below(4)); c.D("space %d of %d work %zu/%zu", sp, un, w.n, q.bytes);
        rc = armassp_addto_w(C, al, A, be, B, f, &w.w, cf); w.check(c);
        if (shortw) { if (rc != -ARMAS_EWORK && sp >= un && rc != 0) c.fail("shortwork", fmt("returned %d", rc)); }
        else if (sp < un) { if (rc != -ARMAS_ESIZE || cf.cf.error != ARMAS_ESIZE) c.fail("nospace", fmt("sum of %d elements into space for %d returned %d", un, sp, rc)); else c.obs("rejections"); }
        else { expect_ok(c, rc, cf); if (!rc) check_sum(c, "C", C, k, ref, bnd, must, 2); }
    }
    A.is_const(c, "A"); B.is_const(c, "B"); cf.check(c); c.obs("sums");
}
OP(sp_mult, 5) {
    Rng &r = c.rng; Config cf(c); int m = sdim(c), n = sdim(c), l = sdim(c), k = comp(c), f = r.pki({0, 0, ARMAS_TRANSA, ARMAS_TRANSB, ARMAS_TRANSA | ARMAS_TRANSB}); double al = pick_scal(c); bool own = r.chance(50);
    Pat a = gen_pat(c, f & ARMAS_TRANSA ? l : m, f & ARMAS_TRANSA ? m : l), b = gen_pat(c, f & ARMAS_TRANSB ? n : l, f & ARMAS_TRANSB ? l : n); nt(c, a);
    bool sh = own || !f; Sp A(c, a, k, sh && r.chance(50)), B(c, b, k, sh && r.chance(50)); c.D("%s alpha=%g", fl(f), al);
    Pat oa = f & ARMAS_TRANSA ? a.T() : a, ob = f & ARMAS_TRANSB ? b.T() : b; LMat la = oa.L(), lb = ob.L(), ref = mul(la, lb), bnd = mul(la.abs(), lb.abs()); std::vector<char> must((size_t)m * n); int un = 0;
    for (auto &x : ref.d) x *= al; for (auto &x : bnd.d) x *= fabs(al);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { bool x = false; for (int q = 0; q < l && !x; q++) x = oa.has(i, q) && ob.has(q, j); must[(size_t)j * m + i] = x; un += x; }
    if (own) { Lib C(armassp_mult(al, A, B, f, cf)); check_sum(c, "C", C, k, ref, bnd, must, l + 2); }
    else {
        int sp = r.pki({un, un, un + 3, un > 0 ? un - 1 : 0}); Lib C(armassp_new(m, n, sp, (armassp_type_enum)k)); if (!C) { c.fail("new", "no matrix"); return; } armas_wbuf_t q = ARMAS_WBNULL; int rc = armassp_multto_w(C, al, A, B, f, &q, cf); if (rc || !q.bytes) { c.fail("query", fmt("workspace query returned %d, %zu bytes", rc, q.bytes)); return; }
        Work w(c, q.bytes + 8 * r.below(4)); c.D("space %d of %d", sp, un); rc = armassp_multto_w(C, al, A, B, f, &w.w, cf); w.check(c);
        if (sp < un) { if (rc != -ARMAS_ESIZE || cf.cf.error != ARMAS_ESIZE) c.fail("nospace", fmt("product of %d elements into space for %d returned %d", un, sp, rc)); else c.obs("rejections"); }
        else { expect_ok(c, rc, cf); if (!rc) check_sum(c, "C", C, k, ref, bnd, must, l + 2); }
    }
    size_t ub = armassp_mult_nnz(A, B, f); if (ub < (size_t)un) c.fail("mult_nnz", fmt("product has %d elements, at most %zu announced", un, ub));
    A.is_const(c, "A"); B.is_const(c, "B"); cf.check(c); c.obs("products");
}
OP(sp_reject, 2) {
    Rng &r = c.rng; Config cf(c); int m = r.range(1, 9), n = r.range(1, 9), k = comp(c), o = k == ARMASSP_CSR ? ARMASSP_CSC : ARMASSP_CSR; c.nontrivial = true; int w = r.below(5), mu = r.below(2), want = ARMAS_EINVAL; c.D("which=%d mult=%d", w, mu);
    Pat a = gen_pat(c, m, n), b = gen_pat(c, mu ? n : m, mu ? m : n); int f = 0;
    if (w == 0) { Sp A(c, a, k), B(c, b, o); Lib C(mu ? armassp_mult(1, A, B, 0, cf) : armassp_add(1, A, 1, B, 0, cf)); if (C) c.fail("kinds", "operands of different kinds accepted"); }
    else if (w == 1) { Sp A(c, a, ARMASSP_COO), B(c, b, ARMASSP_COO); Lib C(mu ? armassp_mult(1, A, B, 0, cf) : armassp_add(1, A, 1, B, 0, cf)); if (C) c.fail("coo", "coordinate lists accepted"); }
    else if (w == 2) { Sp A(c, a, k); Lib C(mu ? armassp_mult(1, A, nullptr, 0, cf) : armassp_add(1, nullptr, 1, A, 0, cf)); if (C) c.fail("null", "null operand accepted"); }
    else { Pat x = gen_pat(c, b.r + 1, b.c); f = r.chance(30) && mu && x.r != a.r ? ARMAS_TRANSA : 0; if (f && a.r == x.r) f = 0; Sp A(c, a, k), B(c, x, k); Lib C(mu ? armassp_mult(1, A, B, f, cf) : armassp_add(1, A, 1, B, f, cf)); if (C) c.fail("shapes", "mismatched shapes accepted"); want = ARMAS_ESIZE; }
    if (cf.cf.error != want) c.fail("error-code", fmt("error code %d, expected %d", cf.cf.error, want)); c.obs("rejections"); cf.check(c);
}
OP(sp_accum, 3) {
    Rng &r = c.rng; int n = r.range(1, 40); armas_accum_t acc; bool own = r.chance(50); std::unique_ptr<Work> w; c.D("n=%d own=%d", n, own); c.nontrivial = n > 3;
    if (own) { if (armas_accum_allocate(&acc, n)) { c.fail("allocate", "no accumulator"); return; } }
    else { size_t nb = armas_accum_bytes(n); w.reset(new Work(c, nb)); char *q = w->w.buf; armas_accum_t t; if (armas_accum_make(&t, n, q, nb - 1)) c.fail("make:short", "short buffer accepted"); if (armas_accum_make(&acc, n, q, nb) != nb) c.fail("make", "buffer refused"); }
    struct Rel { armas_accum_t *a; ~Rel() { if (a) armas_accum_release(a); } } rel = {own ? &acc : nullptr};
    armas_accum_clear(&acc); int lines = r.range(1, 6); std::vector<std::map<int, std::pair<LD, LD>>> model(lines); double al = pick_scal(c); size_t tot = 0;
    Lib C(armassp_new(lines, n, lines * n, ARMASSP_CSR)); if (!C) { c.fail("new", "no matrix"); return; } C->nnz = 0; bool bad = false; std::vector<int> order(lines);
    for (int i = 0; i < lines; i++) {
        auto &M = model[i]; auto put = [&](int k, LD v) { auto &x = M[k]; x.first += v; x.second += fabsl(v); };
        for (int t = r.below(6); t > 0; t--) {
            int wh = r.below(3);
            if (wh == 0) { int k = r.below(n); double v = r.uni(); armas_accum_addpos(&acc, k, v, i); put(k, v); }
            else {
                auto vec = [&](std::vector<double> &e, std::vector<int> &x, int len, bool sorted) { for (int k = 0; k < len; k++) if (r.chance(40)) { x.push_back(k); e.push_back(r.uni()); } if (!sorted) for (int q = (int)x.size() - 1; q > 0; q--) { int y = r.below(q + 1); std::swap(x[q], x[y]); } };
                std::vector<double> e1, e2; std::vector<int> x1, x2; int len = wh == 1 ? n : r.range(1, 20); vec(e1, x1, len, wh == 2); armas_spvec_t v1 = {e1.data(), x1.data(), (int)x1.size()};
                if (wh == 1) { double b = r.uni(); armas_accum_scatter(&acc, &v1, b, i); for (size_t k = 0; k < x1.size(); k++) put(x1[k], (LD)b * e1[k]); }
                else { vec(e2, x2, len, true); armas_spvec_t v2 = {e2.data(), x2.data(), (int)x2.size()}; int k = r.below(n); armas_accum_dot(&acc, k, &v1, &v2, i); LD s = 0, sa = 0; bool any = false; for (size_t p = 0; p < x1.size(); p++) for (size_t q = 0; q < x2.size(); q++) if (x1[p] == x2[q]) { s += (LD)e1[p] * e2[q]; sa += fabsl((LD)e1[p] * e2[q]); any = true; } if (any) { auto &x = M[k]; x.first += s; x.second += sa; } }
            }
        }
        int maxnz = r.chance(5) ? C->nnz + std::max(0, (int)M.size() - 1) : lines * n; int rc = armas_accum_gather(C, al, &acc, i, maxnz); bool fits = C->nnz + (rc ? (int)M.size() : 0) <= maxnz;
        if (rc && fits) { c.fail("gather:refused", "gather refused though there is space"); bad = true; break; } if (!rc && C->nnz > maxnz) { c.fail("gather:space", "gather exceeded its space"); bad = true; break; } if (rc) { bad = true; c.obs("rejections"); break; }
        tot += M.size(); acc.tail = 0;
    }
    if (!bad) { C->ptr[lines] = C->nnz; Pat g; if (sp_read(c, "C", C, ARMASSP_CSR, lines, n, g, true)) { if (C->nnz != (int)tot) c.fail("gather:count", fmt("%d elements gathered, %zu expected", C->nnz, tot)); Cmp q(c, "acc"); for (int i = 0; i < lines; i++) for (int k = 0; k < n; k++) { auto it = model[i].find(k); if ((it != model[i].end()) != g.has(i, k)) { c.fail("pattern:acc", "accumulated pattern wrong"); return; } if (it != model[i].end()) q(g.get(i, k), al * it->second.first, fabs(al) * it->second.second, 30, i, k); } } }
    if (own) { rel.a = nullptr; armas_accum_release(&acc); if (acc.elems || acc.nz) c.fail("release", "accumulator not cleared"); } else w->check(c); c.obs("accumulations");
}
OP(sp_print, 1) {
    Rng &r = c.rng; int m = sdim(c), n = sdim(c); Pat p = gen_pat(c, m, n); nt(c, p); int k = r.pki({ARMASSP_CSC, ARMASSP_CSR, ARMASSP_COO}); bool srt = r.chance(50); Sp B(c, p, k, srt); armas_sparse_t *A = B; c.D("%dx%d kind=%d", m, n, k);
    auto cap = [&](std::function<void(FILE *)> fn, size_t cs) { std::vector<char> b(cs + 64, 0); FILE *f = fmemopen(b.data(), cs, "w"); if (!f) return std::string("?"); fn(f); long q = ftell(f); fclose(f); return std::string(b.data(), q > 0 ? q : 0); };
    std::string want; for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) want += p.has(i, j) ? 'x' : '.'; want += '\n'; }
    std::string got = cap([&](FILE *f) { armassp_pprintf(f, A); }, want.size() + 100);
    if (got.empty() && !want.empty()) { c.fail("null:print", "nothing printed"); return; } if (got != want) c.fail("pattern", "the picture of the pattern is wrong");
    if (k != ARMASSP_COO) { want.clear(); for (int i = 0; i < A->nptr; i++) { want += fmt("%c%02d: [", k == ARMASSP_CSC ? 'c' : 'r', i); for (int q = A->ptr[i]; q < A->ptr[i + 1]; q++) want += fmt(q > A->ptr[i] ? ",%3d" : "%3d", A->ix[q]); want += "]\n"; }
        if (cap([&](FILE *f) { armassp_iprintf(f, A); }, want.size() + 100) != want) c.fail("index", "the printed structure is wrong"); }
    sp_check(c, "A", A, k, p, false); c.obs("printed", m * n);
}
