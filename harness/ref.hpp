// Reference semantics shared by the BLAS-like harnesses.
#pragma once
#include "h.hpp"

static inline const char *fl(int flags) {
    static thread_local char b[128]; b[0] = 0;
    if (flags & ARMAS_LOWER) strcat(b, "L"); if (flags & ARMAS_UPPER) strcat(b, "U");
    if (flags & ARMAS_UNIT) strcat(b, "1"); if (flags & ARMAS_LEFT) strcat(b, "<"); if (flags & ARMAS_RIGHT) strcat(b, ">");
    if (flags & ARMAS_TRANSA) strcat(b, "Ta"); if (flags & ARMAS_TRANSB) strcat(b, "Tb");
    if (flags & ARMAS_CTRANSA) strcat(b, "Ca"); if (flags & ARMAS_CTRANSB) strcat(b, "Cb");
    if (flags & ARMAS_ABSA) strcat(b, "|a|"); if (flags & ARMAS_ABSB) strcat(b, "|b|");
    if (!b[0]) strcat(b, "-");
    return b;
}
static inline bool in_tri(int i, int j, int flags) {
    if (flags & ARMAS_LOWER) return i >= j;
    if (flags & ARMAS_UPPER) return i <= j;
    return true;
}
// operand of a triangular op: poison what must not be referenced
static inline void poison_tri(Mat &A, int flags) {
    for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++)
        if (!in_tri(i, j, flags) || ((flags & ARMAS_UNIT) && i == j)) A.at(i, j) = poison(7777 + i + 1000 * j);
}
// explicit matrix of a triangular operand
static inline LMat tri(const Mat &A, int flags) {
    LMat l(A.r, A.c);
    for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++) {
        if (i == j && (flags & ARMAS_UNIT)) l(i, j) = 1;
        else if (in_tri(i, j, flags)) l(i, j) = A.get(i, j);
    }
    return l;
}
static inline LMat symfull(const Mat &A, int flags) {
    LMat l(A.r, A.c);
    for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++) l(i, j) = in_tri(i, j, flags) ? A.get(i, j) : A.get(j, i);
    return l;
}
static inline LMat oldmat(const Mat &A) { LMat l(A.r, A.c); for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++) l(i, j) = A.old(i, j); return l; }
static inline double pick_scal(Ctx &c, bool zero = true) {
    switch (c.rng.below(7)) { case 0: return zero ? 0.0 : 2.0; case 1: case 2: return 1.0; case 3: return -1.0; default: return c.rng.uni() * 2.5; }
}
// a zero multiplier means the old content of a result is not referenced: make it NaN (the saved
// image keeps finite values, which the reference multiplies by zero)
template <class F> static inline void nanify(Ctx &c, Mat &M, double beta, bool nonempty, F mask) {
    if (beta != 0 || !nonempty || !c.rng.chance(60)) return;
    for (int j = 0; j < M.c; j++) for (int i = 0; i < M.r; i++) if (mask(i, j)) M.at(i, j) = c.rng.chance(50) ? NAN : INFINITY;
    c.D("old=nan"); c.obs("nan-targets");
}
static inline bool all_mask(int, int) { return true; }
// multiplication keeps zero factors (no skipping), for |A||B| style bounds use LMat::abs
static inline void expect_ok(Ctx &c, int rc, Config &cf) {
    if (rc != 0) c.fail("ret", fmt("returned %d (conf error %d) for valid operands", rc, cf.cf.error));
}
// C[mask] == ref within k*eps*bnd
template <class F> static inline void cmp_mat(Ctx &c, const char *nm, const Mat &C, const LMat &ref, const LMat &bnd, double k, F mask) {
    Cmp q(c, nm);
    for (int j = 0; j < C.c; j++) for (int i = 0; i < C.r; i++) if (mask(i, j)) q(C.get(i, j), ref(i, j), bnd(i, j), k, i, j);
    c.obs("elements", (long)C.r * C.c);
}

// vector operand in any orientation
static inline void mkvec(Ctx &c, Mat &m, int n, int kind, const char *nm, bool strided = true) {
    int o = c.rng.below(strided ? 3 : 1);
    if (o == 0) m.init(c, n, 1, kind);
    else if (o == 1) m.init(c, 1, n, kind);
    else {
        m.alloc(c, 1, n, c.rng.range(1, 23));
        for (int i = 0; i < n; i++) m.v(i) = gen_value(c.rng, kind < 0 ? 0 : kind);
    }
    m.save();
    c.D("%s=%dx%d/%d", nm, m.r, m.c, m.step);
}
static inline LMat lvec(const Mat &x) { LMat l(x.r * x.c, 1); for (int i = 0; i < x.r * x.c; i++) l(i, 0) = x.getv(i); return l; }
static inline LMat loldvec(const Mat &x) { LMat l(x.r * x.c, 1); for (int i = 0; i < x.r * x.c; i++) l(i, 0) = x.oldv(i); return l; }
// make a triangular operand solvable without overflow
static inline void solvable(Ctx &c, Mat &A, int flags) {
    int n = A.r;
    double s = c.rng.chance(50) ? 1.0 / std::sqrt((double)std::max(1, n)) : 0.5;
    if (n > 150) s = 1.0 / std::sqrt((double)n);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        if (i == j) A.at(i, j) = (c.rng.chance(50) ? 1 : -1) * (0.7 + c.rng.u01());
        else A.at(i, j) = s * c.rng.uni();
    }
}
