// Sparse operands of the harnesses: a pattern model, hand built operands in exactly sized arrays, and
// the structural reader of matrices made by the library.
#pragma once
#include "lap.hpp"
#include "spdefs.h"
#include "sparse.h"

static const char *knm[] = {"CSC", "CSR", "COO"};

struct Pat {
    int r = 0, c = 0; std::vector<char> p; std::vector<double> v;
    Pat() {}
    Pat(int r, int c) : r(r), c(c), p((size_t)r * c, 0), v((size_t)r * c, 0.0) {}
    size_t at(int i, int j) const { return (size_t)j * r + i; }
    bool has(int i, int j) const { return p[at(i, j)]; }
    double get(int i, int j) const { return v[at(i, j)]; }
    void set(int i, int j, double x) { p[at(i, j)] = 1; v[at(i, j)] = x; }
    void del(int i, int j) { p[at(i, j)] = 0; v[at(i, j)] = 0; }
    int nnz() const { int n = 0; for (char x : p) n += x; return n; }
    Pat T() const { Pat t(c, r); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) if (has(i, j)) t.set(j, i, get(i, j)); return t; }
    LMat L() const { LMat l(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) if (has(i, j)) l(i, j) = get(i, j); return l; }
};
static inline double sp_val(Ctx &c, bool zero = true) { Rng &r = c.rng; int k = r.below(20); if (zero && k == 0) return 0.0; if (k == 1) return r.uni() * 1e10; if (k == 2) return r.uni() * 1e-10; return r.uni() * 2; }
static inline Pat gen_pat(Ctx &c, int m, int n, bool zeros = true) {
    Rng &r = c.rng; Pat p(m, n); int k = r.below(9), dens = r.pki({0, 3, 10, 25, 60, 100}); int w = r.range(1, 4), a = r.below(std::max(1, m)), b = r.below(std::max(1, n));
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        bool in = false;
        switch (k) {
        case 0: in = i == j; break;
        case 1: in = abs(i - j) <= w; break;
        case 2: in = i == j || i == a || j == b; break;
        case 3: in = j % 3 != 1 && r.chance(30); break;
        case 4: in = i % 3 != 1 && r.chance(30); break;
        case 5: in = i >= j && r.chance(40); break;
        case 6: in = (i == j ? r.chance(90) : r.chance(10)); break;
        default: in = r.chance(dens);
        }
        if (in) p.set(i, j, sp_val(c, zeros));
    }
    c.D("pat%d", k);
    return p;
}
static inline int sdim(Ctx &c) { Rng &r = c.rng; if (r.below(2500) == 0) return r.range(60, 400); int k = r.below(20); return k < 3 ? r.range(1, 3) : k < 18 ? r.range(1, 24) : r.range(1, c.tier ? 90 : 60); }

// operand owned by the harness
struct Sp {
    armas_sparse_t a; double *e = nullptr; int *ptr = nullptr, *ix = nullptr; coo_elem_t *ep = nullptr;
    int nptr = 0, nnz = 0; std::vector<double> se; std::vector<int> sp, sx; std::vector<coo_elem_t> sc; armas_sparse_t sa;
    Sp() { memset(std::addressof(a), 0, sizeof a); }
    Sp(Ctx &c, const Pat &p, int kind, bool shuffle = false) : Sp() { init(c, p, kind, shuffle); }
    Sp(const Sp &) = delete; Sp &operator=(const Sp &) = delete;
    ~Sp() { delete[] e; delete[] ptr; delete[] ix; delete[] ep; }
    void init(Ctx &c, const Pat &p, int kind, bool shuffle) {
        Rng &r = c.rng; nnz = p.nnz(); memset(std::addressof(a), 0, sizeof a);
        a.rows = p.r; a.cols = p.c; a.nnz = nnz; a.size = nnz; a.kind = (armassp_type_enum)kind; a.__nbytes = armassp_bytes_needed(p.r, p.c, nnz, a.kind);
        if (kind == ARMASSP_COO) {
            ep = new coo_elem_t[nnz]; memset((void *)ep, 0, sizeof(coo_elem_t) * nnz); int k = 0; for (int j = 0; j < p.c; j++) for (int i = 0; i < p.r; i++) if (p.has(i, j)) { ep[k].i = i; ep[k].j = j; ep[k].val = p.get(i, j); k++; }
            if (shuffle) for (int i = nnz - 1; i > 0; i--) std::swap(ep[i], ep[r.below(i + 1)]);
            a.elems.ep = ep; sc.assign(ep, ep + nnz);
        } else {
            nptr = kind == ARMASSP_CSR ? p.r : p.c; int other = kind == ARMASSP_CSR ? p.c : p.r;
            e = new double[nnz]; ix = new int[nnz]; ptr = new int[nptr + 1]; int k = 0;
            for (int q = 0; q < nptr; q++) {
                ptr[q] = k; int k0 = k;
                for (int t = 0; t < other; t++) { int i = kind == ARMASSP_CSR ? q : t, j = kind == ARMASSP_CSR ? t : q; if (p.has(i, j)) { ix[k] = t; e[k++] = p.get(i, j); } }
                if (shuffle) for (int x = k - 1; x > k0; x--) { int y = k0 + r.below(x - k0 + 1); std::swap(ix[x], ix[y]); std::swap(e[x], e[y]); }
            }
            ptr[nptr] = k; a.elems.v = e; a.ix = ix; a.ptr = ptr; a.nptr = nptr;
            se.assign(e, e + nnz); sp.assign(ptr, ptr + nptr + 1); sx.assign(ix, ix + nnz);
        }
        sa = a; c.D("%s %dx%d nnz=%d%s", knm[kind], p.r, p.c, nnz, shuffle ? " shuffled" : "");
    }
    armas_sparse_t *operator&() { return std::addressof(a); }
    operator armas_sparse_t *() { return std::addressof(a); }
    // structure unchanged; values too unless vals is false
    void is_const(Ctx &c, const char *nm, bool vals = true) {
        bool ok = a.rows == sa.rows && a.cols == sa.cols && a.nnz == sa.nnz && a.size == sa.size && a.nptr == sa.nptr && a.kind == sa.kind && a.elems.v == sa.elems.v && a.ix == sa.ix && a.ptr == sa.ptr && a.__nbytes == sa.__nbytes;
        if (ok && e) ok = (!vals || !nnz || !memcmp(e, se.data(), 8 * (size_t)nnz)) && (!nnz || !memcmp(ix, sx.data(), 4 * (size_t)nnz)) && !memcmp(ptr, sp.data(), 4 * (size_t)(nptr + 1));
        if (ok && ep) ok = !nnz || !memcmp((void *)ep, (void *)sc.data(), sizeof(coo_elem_t) * nnz);
        if (!ok) c.fail(std::string("changed:") + nm, fmt("sparse operand %s was changed by the call", nm));
    }
};
// matrix owned by the library
struct Lib {
    armas_sparse_t *p; Lib(armas_sparse_t *p = nullptr) : p(p) {} Lib(const Lib &) = delete; ~Lib() { if (p) armassp_free(p); }
    operator armas_sparse_t *() { return p; } armas_sparse_t *operator->() { return p; } explicit operator bool() const { return p; }
};
// reads a matrix back, checking that it is a well formed structure of the kind and shape expected
static inline bool sp_read(Ctx &c, const char *nm, const armas_sparse_t *A, int kind, int m, int n, Pat &out, bool sorted) {
    std::string N(nm);
    if (!A) { c.fail("null:" + N, N + " was not made"); return false; }
    if ((int)A->kind != kind) { c.fail("kind:" + N, fmt("%s has kind %d, expected %s", nm, (int)A->kind, knm[kind])); return false; }
    if (A->rows != m || A->cols != n) { c.fail("shape:" + N, fmt("%s is %dx%d, expected %dx%d", nm, A->rows, A->cols, m, n)); return false; }
    if (A->nnz < 0 || A->nnz > A->size) { c.fail("nnz:" + N, fmt("%s holds %d elements in space for %d", nm, A->nnz, A->size)); return false; }
    if (A->__nbytes < armassp_bytes_for(A)) { c.fail("bytes:" + N, fmt("%s records %zu bytes, its elements take %zu", nm, A->__nbytes, armassp_bytes_for(A))); return false; }
    out = Pat(m, n);
    if (kind == ARMASSP_COO) {
        for (int k = 0; k < A->nnz; k++) { int i = A->elems.ep[k].i, j = A->elems.ep[k].j; if (i < 0 || i >= m || j < 0 || j >= n || out.has(i, j)) { c.fail("index:" + N, fmt("%s: element %d at (%d,%d) out of range or repeated", nm, k, i, j)); return false; } out.set(i, j, A->elems.ep[k].val); }
        return true;
    }
    int np = kind == ARMASSP_CSR ? m : n, other = kind == ARMASSP_CSR ? n : m;
    if (A->nptr != np) { c.fail("nptr:" + N, fmt("%s: nptr %d, expected %d", nm, A->nptr, np)); return false; }
    if (A->ptr[0] != 0 || A->ptr[np] != A->nnz) { c.fail("ptr:" + N, fmt("%s: pointers run from %d to %d with %d elements", nm, A->ptr[0], A->ptr[np], A->nnz)); return false; }
    for (int q = 0; q < np; q++) if (A->ptr[q] > A->ptr[q + 1] || A->ptr[q] < 0 || A->ptr[q + 1] > A->nnz) { c.fail("ptr:" + N, fmt("%s: pointer %d runs %d..%d", nm, q, A->ptr[q], A->ptr[q + 1])); return false; }
    for (int q = 0; q < np; q++) for (int k = A->ptr[q]; k < A->ptr[q + 1]; k++) {
        int t = A->ix[k]; if (t < 0 || t >= other) { c.fail("index:" + N, fmt("%s: index %d of line %d out of range", nm, t, q)); return false; }
        int i = kind == ARMASSP_CSR ? q : t, j = kind == ARMASSP_CSR ? t : q;
        if (out.has(i, j)) { c.fail("dup:" + N, fmt("%s: element (%d,%d) stored twice", nm, i, j)); return false; }
        if (sorted && k > A->ptr[q] && A->ix[k - 1] >= t) { c.fail("order:" + N, fmt("%s: line %d is not in ascending index order", nm, q)); return false; }
        out.set(i, j, A->elems.v[k]);
    }
    c.obs("structures");
    return true;
}
static inline void sp_same(Ctx &c, const char *nm, const Pat &got, const Pat &want) {
    for (int j = 0; j < want.c; j++) for (int i = 0; i < want.r; i++) {
        if (got.has(i, j) != want.has(i, j)) { c.fail(std::string("pattern:") + nm, fmt("%s: element (%d,%d) is %s", nm, i, j, got.has(i, j) ? "stored but should not be" : "lost")); return; }
        if (got.has(i, j) && !bits_eq(got.get(i, j), want.get(i, j))) { c.fail(std::string("value:") + nm, fmt("%s(%d,%d) = %.17g, expected %.17g", nm, i, j, got.get(i, j), want.get(i, j))); return; }
    }
    c.obs("elements", want.nnz());
}
static inline void sp_check(Ctx &c, const char *nm, const armas_sparse_t *A, int kind, const Pat &want, bool sorted) { Pat got; if (sp_read(c, nm, A, kind, want.r, want.c, got, sorted)) sp_same(c, nm, got, want); }
