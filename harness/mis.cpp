// Workspace protocol and refusal of mismatched operands, for every operation that takes a caller's workspace.
// Oracle: return codes, bit images of every operand, guards around the workspace, and the operation's own
// result with the workspace it asked for.
#include "lap.hpp"
#include <functional>
#include <valgrind/memcheck.h>
#include <memory>

enum { EL = 0, ABS, NONE, SIGNLESS_LOW };
typedef armas_dense_t D;
struct S {
    std::vector<std::unique_ptr<Mat>> M; std::vector<std::string> nm; std::vector<int> how;
    std::vector<D> H;                                      // headers given to the call
    std::vector<std::unique_ptr<Piv>> P;
    std::function<int(armas_wbuf_t *, armas_conf_t *)> call; // with workspace
    std::function<int(armas_conf_t *)> plain;               // allocating its own
    std::function<bool()> ok;                              // shapes in H are consistent
    std::vector<std::vector<double>> img; std::vector<std::vector<int>> pimg;
    std::vector<int> vecs; int cmp = 0; int flags = 0;                            // part of the result that is defined
    std::function<bool(int, int, int)> part;               // operand, row, column: belongs to the result
    int add(Ctx &c, const char *n, int r, int cc, int h = EL, bool spd = false) {
        std::unique_ptr<Mat> m(new Mat); m->alloc(c, r, cc, c.rng.chance(50) ? 0 : c.rng.below(6)); for (int j = 0; j < cc; j++) for (int i = 0; i < r; i++) m->at(i, j) = c.rng.uni();
        M.push_back(std::move(m)); nm.push_back(n); how.push_back(h); return (int)M.size() - 1;
    }
    int vec(Ctx &c, const char *n, int r) { int k = add(c, n, r, 1); vecs.push_back(k); return k; }
    int piv(Ctx &c, int n, int fill) { P.emplace_back(new Piv(c, n, fill)); return (int)P.size() - 1; }
    Mat &m(int i) { return *M[i]; }
    D *h(int i) { return &H[i]; }
    void freeze() { H.clear(); for (auto &x : M) { H.push_back(x->m); x->save(); } img.clear(); for (auto &x : M) img.push_back(x->snap); pimg.clear(); for (auto &p : P) pimg.push_back(p->d); }
    void restore() { H.clear(); for (size_t k = 0; k < M.size(); k++) { memcpy(M[k]->raw, img[k].data(), img[k].size() * 8); H.push_back(M[k]->m); } for (size_t k = 0; k < P.size(); k++) P[k]->d = pimg[k]; }
    bool same(Ctx &c, const char *when) {
        int f0 = c.failures;
        for (size_t k = 0; k < M.size(); k++) { M[k]->is_const(c, (nm[k] + when).c_str()); }
        for (size_t k = 0; k < P.size(); k++) if (P[k]->d != pimg[k]) c.fail(std::string("wrote:P") + when, "pivot table changed");
        return c.failures == f0;
    }
    std::vector<std::vector<double>> result() { std::vector<std::vector<double>> r; for (auto &x : M) { std::vector<double> v; for (int j = 0; j < x->c; j++) for (int i = 0; i < x->r; i++) v.push_back(x->get(i, j)); r.push_back(v); } for (auto &p : P) r.push_back(std::vector<double>(p->d.begin(), p->d.end())); return r; }
    // same result up to rounding
    void agree(Ctx &c, const std::vector<std::vector<double>> &a, const char *when) {
        auto b = result();
        for (size_t k = 0; k < a.size(); k++) {
            if (k >= M.size()) { if (a[k] != b[k]) c.fail(std::string("differs:P") + when, "pivots differ from those with the queried workspace"); continue; }
            if (how[k] == NONE) continue; double mx = 1; int r = M[k]->r; for (size_t i = 0; i < a[k].size(); i++) if (!part || part(k, i % r, i / r)) mx = std::max(mx, fabs(a[k][i]));
            for (size_t i = 0; i < a[k].size(); i++) { if (part && !part(k, i % r, i / r)) continue; double x = a[k][i], y = b[k][i]; if (how[k] == ABS) x = fabs(x), y = fabs(y); if (!(fabs(x - y) <= 1e-6 * mx)) { c.fail("differs:" + nm[k] + when, fmt("element (%d,%d) of %s is %.17g, with the queried workspace %.17g", (int)i % r, (int)i / r, nm[k].c_str(), b[k][i], a[k][i])); return; } }
        }
        c.obs("results-compared");
    }
};
static int err_of(Config &cf, armas_conf_t *p) { return p ? p->error : armas_conf_default()->error; }

static void drive(Ctx &c, S &s, bool works = true) {
    Rng &r = c.rng; Config cf(c, true, 0x7); armas_conf_t *p = r.chance(12) ? nullptr : (armas_conf_t *)cf; if (!p) c.D("null-conf"); armas_conf_default()->error = 0;
    s.freeze(); c.nontrivial = true; int rc;
    // query
    armas_wbuf_t q = ARMAS_WBNULL; rc = s.call(&q, p); c.obs("queries"); c.D("need=%ld", (long)q.bytes);
    if (rc < 0) { c.fail("query", fmt("workspace query failed with %d (error %d)", rc, err_of(cf, p))); return; }
    if (q.buf || q.offset) c.fail("query-buffer", "workspace query changed the buffer"); if (!s.same(c, ":query")) return;
    size_t need = q.bytes;
    if (need > (1u << 26)) { c.fail("query-size", fmt("workspace of %ld bytes requested", (long)need)); return; }
    // exact size
    auto run = [&](size_t n, size_t off, int &rc) { Work w(c, n + off); w.w.offset = off; VALGRIND_MAKE_MEM_DEFINED(w.w.buf, off); s.restore(); if (p) p->error = 0; rc = s.call(&w.w, p); w.check(c); if (w.w.bytes != n + off || w.w.buf != w.raw + (ASAN ? 0 : 64)) c.fail("work-header", "workspace descriptor changed"); if (w.w.offset != off) c.fail("work-offset", fmt("space reserved in the workspace is not returned: offset %ld -> %ld", (long)off, (long)w.w.offset));
        for (size_t k = 0; k < off; k++) if ((unsigned char)w.w.buf[k] != 0xff) { c.fail("work-reserved", "reserved part of the workspace was written"); break; } };
    if (need == 0) { armas_wbuf_t z = ARMAS_WBNULL; s.restore(); rc = s.call(&z, p); if (z.bytes == 0) c.obs("no-workspace-needed"); }
    int rc0; run(need ? need : 8, 0, rc0); if (rc0 < 0) { c.fail("exact", fmt("refused with the workspace it asked for (%ld bytes): %d, error %d", (long)need, rc0, err_of(cf, p))); return; }
    auto ref = s.result(); for (auto &m : s.M) m->only_outside(c, "operand"); for (auto &x : s.P) x->guards(c); c.obs("exact-runs");
    for (int t = 0; t < 2; t++) { size_t n = t == 0 ? need + r.range(1, 16) : r.pick({need * 2 + 8, need * 10 + 4096, need + 8 * (size_t)r.range(1, 4000), need + (1u << 20)}); size_t off = r.chance(30) ? 8 * r.range(1, 20) : 0; c.tag = "larger";
        run(n, off, rc); if (rc < 0) c.fail("larger", fmt("refused with %ld bytes when %ld were requested: %d", (long)n, (long)need, rc)); else s.agree(c, ref, ":larger"); c.obs("larger-runs"); c.tag = ""; }
    for (int t = 0; t < 4 && need > 1; t++) { size_t n; switch (r.below(6)) { case 0: n = need > 8 ? need - 8 : need - 1; break; case 1: n = need - 1; break; case 2: n = need / 2; break; case 3: n = r.range(1, 24); break; case 4: n = need > 16 ? 8 * (size_t)r.range(1, need / 8) : 1; break; default: n = (size_t)r.range(1, need - 1); } if (n == 0 || n >= need) continue; size_t off = r.chance(30) ? 8 * r.range(1, 20) : 0;
        c.tag = "short"; run(n, off, rc); if (rc < 0) { c.obs("short-refused"); if (!err_of(cf, p)) c.fail("error-code", "no error recorded for short workspace"); else if (err_of(cf, p) != ARMAS_EWORK) c.fail("error-kind", fmt("short workspace recorded as error %d", err_of(cf, p))); s.same(c, ":short"); } else { c.obs("short-accepted"); s.agree(c, ref, ":short"); } c.tag = ""; }
    if (s.plain) { s.restore(); if (p) p->error = 0; rc = s.plain(p); if (rc < 0) c.fail("plain", fmt("refused without caller workspace: %d", rc)); else s.agree(c, ref, ":plain"); }
    // no workspace at all
    if (r.chance(30)) { s.restore(); if (p) p->error = 0; c.tag = "null-work"; rc = s.call(nullptr, p); if (rc < 0) { c.obs("null-refused"); if (!err_of(cf, p)) c.fail("error-code", "no error recorded for missing workspace"); s.same(c, ":nowork"); } else { c.obs("null-accepted"); s.agree(c, ref, ":nowork"); } c.tag = ""; }
    // vectors longer than needed: refused, or the same result
    for (int k : s.vecs) if (r.chance(50)) {
        s.restore(); Mat L; bool row = r.chance(40); int ex = row ? r.below(2) : r.range(1, 4), n0 = s.M[k]->r; if (row && n0 + ex < 2) continue; L.alloc(c, row ? 1 : n0 + ex, row ? n0 + ex : 1, row ? r.below(3) : 0); for (int i = 0; i < n0; i++) L.v(i) = s.M[k]->get(i, 0); const char *lt = row ? ":row" : ":longer"; L.save(); s.H[k] = L.m; if (p) p->error = 0; Work w(c, need + 64); rc = s.call(&w.w, p); w.check(c); c.tag = s.nm[k];
        if (rc < 0) { c.obs(row ? "row-refused" : "longer-refused"); s.same(c, lt); L.is_const(c, (s.nm[k] + lt).c_str()); }
        else { for (int i = 0; i < n0; i++) s.M[k]->at(i, 0) = L.getv(i); s.agree(c, ref, lt); L.untouched(c, (s.nm[k] + lt).c_str(), [&](int i, int j) { return i + j < n0; }); c.obs(row ? "row-accepted" : "longer-accepted"); }
        c.tag = "";
    }
    // inconsistent shapes
    if (s.ok) for (int t = 0; t < 3; t++) {
        s.restore(); int k = r.below((int)s.M.size()); if (s.M[k]->n() < 2) continue; bool row = r.chance(50); int d = r.chance(80) ? 1 : 2; if (row ? s.H[k].rows <= d : s.H[k].cols <= d) continue;
        if (row) s.H[k].rows -= d; else s.H[k].cols -= d; if (s.ok()) { c.obs("perturbed-still-valid"); continue; }
        std::vector<D> h0 = s.H; if (p) p->error = 0; armas_conf_default()->error = 0; bool pl = s.plain && r.chance(50); Work w(c, need + 64); rc = pl ? s.plain(p) : s.call(&w.w, p); w.check(c); c.tag = fmt("%s%s", s.nm[k].c_str(), row ? "rows" : "cols");
        if (rc >= 0) c.fail("accepted", fmt("mismatched operand accepted: %s with %d %s less", s.nm[k].c_str(), d, row ? "rows" : "columns")); else { c.obs("shape-refused"); if (!err_of(cf, p)) c.fail("error-code", "no error recorded for mismatched shapes"); s.same(c, ":shape"); }
        for (size_t i = 0; i < h0.size(); i++) if (memcmp(&h0[i], &s.H[i], sizeof(D))) c.fail("header", "operand header changed by a refused call"); c.tag = "";
    }
    s.restore(); if (p) cf.check(c);
}
#define SET(s, W, PL) do { (s).call = [&](armas_wbuf_t *w, armas_conf_t *cf) -> int { return W; }; (s).plain = [&](armas_conf_t *cf) -> int { return PL; }; } while (0)
static int dim(Ctx &c) { Rng &r = c.rng; return r.chance(60) ? r.range(2, 20) : r.range(2, 48); }
static bool vec(const D &h) { return h.rows == 1 || h.cols == 1; }
static long sz(const D &h) { return (long)h.rows * h.cols; }

enum { QR = 0, LQ, QL, RQ };
static bool colwise(int k) { return k == QR || k == QL; }
static int fw(int k, D *A, D *t, armas_wbuf_t *w, armas_conf_t *cf) { switch (k) { case QR: return armas_qrfactor_w(A, t, w, cf); case LQ: return armas_lqfactor_w(A, t, w, cf); case QL: return armas_qlfactor_w(A, t, w, cf); default: return armas_rqfactor_w(A, t, w, cf); } }
static int fp(int k, D *A, D *t, armas_conf_t *cf) { switch (k) { case QR: return armas_qrfactor(A, t, cf); case LQ: return armas_lqfactor(A, t, cf); case QL: return armas_qlfactor(A, t, cf); default: return armas_rqfactor(A, t, cf); } }
static int bw(int k, D *A, const D *t, int K, armas_wbuf_t *w, armas_conf_t *cf) { switch (k) { case QR: return armas_qrbuild_w(A, t, K, w, cf); case LQ: return armas_lqbuild_w(A, t, K, w, cf); case QL: return armas_qlbuild_w(A, t, K, w, cf); default: return armas_rqbuild_w(A, t, K, w, cf); } }
static int bp(int k, D *A, const D *t, int K, armas_conf_t *cf) { switch (k) { case QR: return armas_qrbuild(A, t, K, cf); case LQ: return armas_lqbuild(A, t, K, cf); case QL: return armas_qlbuild(A, t, K, cf); default: return armas_rqbuild(A, t, K, cf); } }
static int mw(int k, D *C, D *A, const D *t, int f, armas_wbuf_t *w, armas_conf_t *cf) { switch (k) { case QR: return armas_qrmult_w(C, A, t, f, w, cf); case LQ: return armas_lqmult_w(C, A, t, f, w, cf); case QL: return armas_qlmult_w(C, A, t, f, w, cf); default: return armas_rqmult_w(C, A, t, f, w, cf); } }
static int mp(int k, D *C, D *A, const D *t, int f, armas_conf_t *cf) { switch (k) { case QR: return armas_qrmult(C, A, t, f, cf); case LQ: return armas_lqmult(C, A, t, f, cf); case QL: return armas_qlmult(C, A, t, f, cf); default: return armas_rqmult(C, A, t, f, cf); } }
static void qshape(Ctx &c, int kind, int &m, int &n, int &k, int &p) { int a = dim(c), b = dim(c); p = std::max(a, b); k = std::min(a, b); m = colwise(kind) ? p : k; n = colwise(kind) ? k : p; c.D("%dx%d", m, n); }
static const char *kn[] = {"qr", "lq", "ql", "rq"};

OP(mis_qfactor, 4) {
    S s; int kind = c.rng.below(4), m, n, k, p; c.D("%s", kn[kind]); qshape(c, kind, m, n, k, p); int A = s.add(c, "A", m, n), t = s.vec(c, "tau", k);
    SET(s, fw(kind, s.h(A), s.h(t), w, cf), fp(kind, s.h(A), s.h(t), cf));
    s.ok = [&] { auto &a = s.H[0]; return (colwise(kind) ? a.rows >= a.cols : a.cols >= a.rows) && vec(s.H[1]) && sz(s.H[1]) >= std::min(a.rows, a.cols); };
    drive(c, s);
}
OP(mis_qbuild, 4) {
    S s; int kind = c.rng.below(4), m, n, k, p; c.D("%s", kn[kind]); qshape(c, kind, m, n, k, p); int A = s.add(c, "A", m, n), t = s.vec(c, "tau", k); int K = c.rng.chance(50) ? k : c.rng.range(1, k); c.D("K=%d", K);
    if (fp(kind, s.m(A), s.m(t), nullptr)) return;
    SET(s, bw(kind, s.h(A), s.h(t), K, w, cf), bp(kind, s.h(A), s.h(t), K, cf));
    s.ok = [&] { auto &a = s.H[0]; return (colwise(kind) ? a.rows >= a.cols : a.cols >= a.rows) && K <= std::min(a.rows, a.cols); };
    drive(c, s);
}
OP(mis_qmult, 4) {
    S s; int kind = c.rng.below(4), m, n, k, p; c.D("%s", kn[kind]); qshape(c, kind, m, n, k, p); int A = s.add(c, "A", m, n), t = s.vec(c, "tau", k); if (fp(kind, s.m(A), s.m(t), nullptr)) return;
    bool right = c.rng.chance(50); int o = dim(c), f = (right ? ARMAS_RIGHT : ARMAS_LEFT) | (c.rng.chance(50) ? ARMAS_TRANS : 0); int C = s.add(c, "C", right ? o : p, right ? p : o); c.D("%s", fl(f));
    SET(s, mw(kind, s.h(C), s.h(A), s.h(t), f, w, cf), mp(kind, s.h(C), s.h(A), s.h(t), f, cf));
    s.ok = [&, C, right] { auto &a = s.H[0]; auto &b = s.H[C]; int q = colwise(kind) ? a.rows : a.cols; return (colwise(kind) ? a.rows >= a.cols : a.cols >= a.rows) && (right ? b.cols : b.rows) == q && sz(s.H[1]) >= std::min(a.rows, a.cols); };
    drive(c, s);
}
OP(mis_qsolve, 3) {
    S s; int kind = c.rng.below(2), m, n, k, p; c.D("%s", kn[kind]); qshape(c, kind, m, n, k, p); int A = s.add(c, "A", m, n), t = s.vec(c, "tau", k); for (int i = 0; i < k; i++) s.m(A).at(i, i) += p; if (fp(kind, s.m(A), s.m(t), nullptr)) return;
    int o = dim(c), f = c.rng.chance(50) ? ARMAS_TRANS : 0; int B = s.add(c, "B", p, o); c.D("%s", fl(f));
    SET(s, kind ? armas_lqsolve_w(s.h(B), s.h(A), s.h(t), f, w, cf) : armas_qrsolve_w(s.h(B), s.h(A), s.h(t), f, w, cf), kind ? armas_lqsolve(s.h(B), s.h(A), s.h(t), f, cf) : armas_qrsolve(s.h(B), s.h(A), s.h(t), f, cf));
    s.ok = [&] { auto &a = s.H[0]; return (colwise(kind) ? a.rows >= a.cols : a.cols >= a.rows) && s.H[2].rows == std::max(a.rows, a.cols); };
    drive(c, s);
}
OP(mis_qrt, 2) {
    S s; int m, n, k, p; qshape(c, QR, m, n, k, p); int lb = c.rng.chance(40) ? n : c.rng.range(1, n); int A = s.add(c, "A", m, n), T = s.add(c, "T", lb, n); c.D("lb=%d", lb);
    SET(s, armas_qrtfactor_w(s.h(A), s.h(T), w, cf), armas_qrtfactor(s.h(A), s.h(T), cf));
    s.part = [lb](int o, int i, int j) { return o == 0 || i <= j % lb; };
    drive(c, s);
}
OP(mis_trd, 4) {
    S s; int n = dim(c), f = c.rng.pki({ARMAS_LOWER, ARMAS_UPPER}), what = c.rng.below(3); c.D("%s what=%d n=%d", fl(f), what, n); int A = s.add(c, "A", n, n), t = s.vec(c, "tau", n); s.m(t).v(n - 1) = 0; s.m(t).v(0) = 0;
    auto sq = [&] { return s.H[0].rows == s.H[0].cols && vec(s.H[1]) && sz(s.H[1]) >= s.H[0].cols; };
    if (what == 0) { SET(s, armas_trdreduce_w(s.h(A), s.h(t), f, w, cf), armas_trdreduce(s.h(A), s.h(t), f, cf)); s.ok = sq; s.part = [=](int o, int i, int j) { return o || (f & ARMAS_LOWER ? i >= j : i <= j); }; drive(c, s); return; }
    if (armas_trdreduce(s.m(A), s.m(t), f, nullptr)) return;
    if (what == 1) { int K = c.rng.chance(60) ? n - 1 : c.rng.range(1, n - 1); c.D("K=%d", K); SET(s, armas_trdbuild_w(s.h(A), s.h(t), K, f, w, cf), armas_trdbuild(s.h(A), s.h(t), K, f, cf)); s.ok = [&, K] { return s.H[0].rows == s.H[0].cols && K <= s.H[0].rows; }; drive(c, s); return; }
    bool right = c.rng.chance(50); int o = dim(c), g = f | (right ? ARMAS_RIGHT : ARMAS_LEFT) | (c.rng.chance(50) ? ARMAS_TRANS : 0); int C = s.add(c, "C", right ? o : n, right ? n : o); c.D("%s", fl(g));
    SET(s, armas_trdmult_w(s.h(C), s.h(A), s.h(t), g, w, cf), armas_trdmult(s.h(C), s.h(A), s.h(t), g, cf)); s.ok = [&, right] { return s.H[0].rows == s.H[0].cols && (right ? s.H[2].cols : s.H[2].rows) == s.H[0].rows; };
    drive(c, s);
}
OP(mis_hess, 3) {
    S s; int n = dim(c); int A = s.add(c, "A", n, n), t = s.vec(c, "tau", n - 1); c.D("n=%d", n);
    if (c.rng.chance(50)) { SET(s, armas_hessreduce_w(s.h(A), s.h(t), w, cf), armas_hessreduce(s.h(A), s.h(t), cf)); s.ok = [&] { return s.H[0].rows == s.H[0].cols && vec(s.H[1]) && sz(s.H[1]) >= s.H[0].cols - 1; }; drive(c, s); return; }
    if (armas_hessreduce(s.m(A), s.m(t), nullptr)) return; bool right = c.rng.chance(50); int o = dim(c), g = (right ? ARMAS_RIGHT : ARMAS_LEFT) | (c.rng.chance(50) ? ARMAS_TRANS : 0); int C = s.add(c, "C", right ? o : n, right ? n : o); c.D("%s", fl(g));
    SET(s, armas_hessmult_w(s.h(C), s.h(A), s.h(t), g, w, cf), armas_hessmult(s.h(C), s.h(A), s.h(t), g, cf)); s.ok = [&, right] { return s.H[0].rows == s.H[0].cols && (right ? s.H[2].cols : s.H[2].rows) == s.H[0].rows; }; drive(c, s);
}
OP(mis_bd, 4) {
    S s; int m = dim(c), n = c.rng.chance(30) ? m : dim(c), k = std::min(m, n), what = c.rng.below(3); c.D("%dx%d what=%d", m, n, what); int A = s.add(c, "A", m, n), tq = s.vec(c, "tauq", k), tp = s.vec(c, "taup", k); s.m(tq).v(k - 1) = 0; s.m(tp).v(k - 1) = 0;
    if (what == 0) { SET(s, armas_bdreduce_w(s.h(A), s.h(tq), s.h(tp), w, cf), armas_bdreduce(s.h(A), s.h(tq), s.h(tp), cf)); s.ok = [&] { int k = std::min(s.H[0].rows, s.H[0].cols); return vec(s.H[1]) && vec(s.H[2]) && sz(s.H[1]) >= (s.H[0].rows < s.H[0].cols ? k - 1 : k) && sz(s.H[2]) >= (s.H[0].rows < s.H[0].cols ? k : k - 1); }; s.part = [=](int o, int i, int) { return o == 0 || i < k - 1 || (o == 1 && m >= n) || (o == 2 && m < n); }; drive(c, s); return; }
    if (armas_bdreduce(s.m(A), s.m(tq), s.m(tp), nullptr)) return; bool wq = c.rng.chance(50); int tt = wq ? tq : tp;
    if (what == 1) {   // Q in A (m x n) with K = its columns, P^T in the rows
        // one taken from the small side, as svd does
        int K = wq ? std::min(m, n) : std::min(m, n); c.D("%s K=%d", wq ? "Q" : "P", K);
        SET(s, armas_bdbuild_w(s.h(A), s.h(tt), K, wq ? ARMAS_WANTQ : ARMAS_WANTP, w, cf), armas_bdbuild(s.h(A), s.h(tt), K, wq ? ARMAS_WANTQ : ARMAS_WANTP, cf)); drive(c, s); return; }
    bool right = c.rng.chance(50); int p = wq ? m : n, o = dim(c), g = (wq ? ARMAS_MULTQ : ARMAS_MULTP) | (right ? ARMAS_RIGHT : ARMAS_LEFT) | (c.rng.chance(50) ? ARMAS_TRANS : 0); int C = s.add(c, "C", right ? o : p, right ? p : o); c.D("%s flags=%x", wq ? "Q" : "P", g);
    SET(s, armas_bdmult_w(s.h(C), s.h(A), s.h(tt), g, w, cf), armas_bdmult(s.h(C), s.h(A), s.h(tt), g, cf)); s.ok = [&, right, wq, C] { return (right ? s.H[C].cols : s.H[C].rows) == (wq ? s.H[0].rows : s.H[0].cols); };
    drive(c, s);
}
static void spaced(Ctx &c, Mat &A) { for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++) A.at(i, j) *= 0.2; for (int i = 0; i < std::min(A.r, A.c); i++) A.at(i, i) += 3 * (i + 1); }
OP(mis_eigen, 4) {
    S s; int n = dim(c), f = c.rng.pki({ARMAS_LOWER, ARMAS_UPPER}) | (c.rng.chance(60) ? ARMAS_WANTV : 0), what = c.rng.below(3); c.D("%s what=%d n=%d wantv=%d", fl(f & 3), what, n, !!(f & ARMAS_WANTV));
    if (what == 0) { int Dd = s.add(c, "D", n, 1), A = s.add(c, "A", n, n, f & ARMAS_WANTV ? ABS : NONE); spaced(c, s.m(A)); SET(s, armas_eigen_sym_w(s.h(Dd), s.h(A), f, w, cf), armas_eigen_sym(s.h(Dd), s.h(A), f, cf)); s.ok = [&] { return s.H[1].rows == s.H[1].cols && vec(s.H[0]) && sz(s.H[0]) == s.H[1].rows; }; drive(c, s); return; }
    if (what == 1) { int Dd = s.add(c, "D", n, 1), A = s.add(c, "A", n, n, NONE); f &= ~ARMAS_WANTV; spaced(c, s.m(A)); SET(s, armas_eigen_sym_selected_w(s.h(Dd), s.h(A), ARMAS_EIGEN_ALL, f, w, cf), armas_eigen_sym_selected(s.h(Dd), s.h(A), ARMAS_EIGEN_ALL, f, cf)); s.ok = [&] { return s.H[1].rows == s.H[1].cols && vec(s.H[0]) && sz(s.H[0]) >= s.H[1].rows; }; drive(c, s); return; }
    int Dd = s.add(c, "D", n, 1), E = s.add(c, "E", n - 1, 1, NONE), V = s.add(c, "V", n, n, ABS); for (int i = 0; i < n; i++) s.m(Dd).v(i) = 3 * (i + 1) + 0.3 * s.m(Dd).v(i); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) s.m(V).at(i, j) = i == j; if (!(f & ARMAS_WANTV)) s.how[V] = EL; f &= ARMAS_WANTV;
    SET(s, armas_trdeigen_w(s.h(Dd), s.h(E), f ? s.h(V) : nullptr, f, w, cf), armas_trdeigen(s.h(Dd), s.h(E), f ? s.h(V) : nullptr, f, cf));
    s.ok = [&, f] { int n = sz(s.H[0]); return sz(s.H[1]) == n - 1 && vec(s.H[0]) && (!f || s.H[2].cols == n); }; drive(c, s);
}
OP(mis_svd, 4) {
    S s; int m = dim(c), n = c.rng.chance(30) ? m : dim(c), k = std::min(m, n), what = c.rng.below(3), f = c.rng.pki({0, ARMAS_WANTU, ARMAS_WANTV, ARMAS_WANTU | ARMAS_WANTV}); c.D("what=%d %dx%d want=%s%s", what, m, n, f & ARMAS_WANTU ? "U" : "", f & ARMAS_WANTV ? "V" : "");
    if (what == 0) { bool fullu = c.rng.chance(30), fullv = c.rng.chance(30); int uc = fullu ? m : k, vr = fullv ? n : k; int Sg = s.add(c, "S", k, 1), U = s.add(c, "U", m, uc, ABS), V = s.add(c, "V", vr, n, ABS), A = s.add(c, "A", m, n, NONE); spaced(c, s.m(A)); c.D("U=%dx%d V=%dx%d", m, uc, vr, n);
        // columns beyond the rank are any orthonormal completion
        s.part = [=](int o, int i, int j) { return o == 1 ? j < k : o == 2 ? i < k : true; };
        SET(s, armas_svd_w(s.h(Sg), f & ARMAS_WANTU ? s.h(U) : nullptr, f & ARMAS_WANTV ? s.h(V) : nullptr, s.h(A), f, w, cf), armas_svd(s.h(Sg), f & ARMAS_WANTU ? s.h(U) : nullptr, f & ARMAS_WANTV ? s.h(V) : nullptr, s.h(A), f, cf));
        s.ok = [&, f, k] { auto &a = s.H[3]; int k = std::min(a.rows, a.cols); if (!vec(s.H[0]) || sz(s.H[0]) < k) return false; if (f & ARMAS_WANTU) { if (s.H[1].rows != a.rows || (s.H[1].cols != k && s.H[1].cols != a.rows)) return false; } if (f & ARMAS_WANTV) { if (s.H[2].cols != a.cols || (s.H[2].rows != k && s.H[2].rows != a.cols)) return false; } return true; }; drive(c, s); return; }
    n = k; int Dd = s.add(c, "D", n, 1), E = s.add(c, "E", n - 1, 1, NONE);
    if (what == 1) { for (int i = 0; i < n; i++) s.m(Dd).v(i) = 3 * (i + 1) + 0.2 * s.m(Dd).v(i); for (int i = 0; i < n - 1; i++) s.m(E).v(i) = fabs(s.m(E).v(i)); SET(s, armas_dqds_w(s.h(Dd), s.h(E), w, cf), armas_dqds(s.h(Dd), s.h(E), cf)); s.ok = [&] { return sz(s.H[1]) == sz(s.H[0]) - 1; }; drive(c, s); return; }
    int U = s.add(c, "U", n, n, ABS), V = s.add(c, "V", n, n, ABS); for (int i = 0; i < n; i++) s.m(Dd).v(i) = 3 * (i + 1) + 0.3 * s.m(Dd).v(i); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) s.m(U).at(i, j) = s.m(V).at(i, j) = i == j;
    int g = f | c.rng.pki({ARMAS_UPPER, ARMAS_LOWER}); c.D("%s", fl(g & 3)); SET(s, armas_bdsvd_w(s.h(Dd), s.h(E), f & ARMAS_WANTU ? s.h(U) : nullptr, f & ARMAS_WANTV ? s.h(V) : nullptr, g, w, cf), armas_bdsvd(s.h(Dd), s.h(E), f & ARMAS_WANTU ? s.h(U) : nullptr, f & ARMAS_WANTV ? s.h(V) : nullptr, g, cf));
    s.ok = [&, f] { int n = sz(s.H[0]); return sz(s.H[1]) == n - 1 && (!(f & ARMAS_WANTU) || s.H[2].cols == n) && (!(f & ARMAS_WANTV) || s.H[3].rows == n); }; drive(c, s);
}
OP(mis_sym, 4) {
    S s; int n = dim(c), f = c.rng.pki({ARMAS_LOWER, ARMAS_UPPER}), what = c.rng.below(7); bool pv = what == 3 || c.rng.chance(60); c.D("%s what=%d n=%d pv=%d", fl(f), what, n, pv); int A = s.add(c, "A", n, n); bool spd = what == 0 || what == 4; for (int i = 0; i < n; i++) s.m(A).at(i, i) += (spd ? 1 : c.rng.chance(50) ? 1 : -1) * (n + 1.0 + 2 * i); int p = s.piv(c, n, 0); auto P = [&, pv, p] { return pv ? (armas_pivot_t *)*s.P[p] : ARMAS_NOPIVOT; };
    auto sq = [&] { return s.H[0].rows == s.H[0].cols; }; auto tri = [=](int o, int i, int j) { return o || (f & ARMAS_LOWER ? i >= j : i <= j); };
    switch (what) {
    case 0: SET(s, armas_cholfactor_w(s.h(A), P(), f, w, cf), armas_cholfactor(s.h(A), P(), f, cf)); s.ok = sq; s.part = tri; drive(c, s); break;
    case 1: SET(s, armas_ldlfactor_w(s.h(A), P(), f, w, cf), armas_ldlfactor(s.h(A), P(), f, cf)); s.ok = sq; s.part = tri; drive(c, s); break;
    case 2: pv = true; { auto Pp = (armas_pivot_t *)*s.P[p]; SET(s, armas_bkfactor_w(s.h(A), Pp, f, w, cf), armas_bkfactor(s.h(A), Pp, f, cf)); s.ok = sq; s.part = tri; drive(c, s); } break;
    case 3: { auto Pp = (armas_pivot_t *)*s.P[p]; if (armas_bkfactor(s.m(A), Pp, f, nullptr)) return; int B = s.add(c, "B", n, dim(c)); SET(s, armas_bksolve_w(s.h(B), s.h(A), Pp, f, w, cf), armas_bksolve(s.h(B), s.h(A), Pp, f, cf)); s.ok = [&] { return s.H[0].rows == s.H[0].cols && s.H[1].rows == s.H[0].rows; }; drive(c, s); } break;
    case 4: if (armas_cholfactor(s.m(A), ARMAS_NOPIVOT, f, nullptr)) return; SET(s, armas_cholinverse_w(s.h(A), f, w, cf), armas_cholinverse(s.h(A), f, cf)); s.ok = sq; s.part = tri; drive(c, s); break;
    case 5: if (armas_ldlfactor(s.m(A), P(), f, nullptr)) return; SET(s, armas_ldlinverse_w(s.h(A), P(), f, w, cf), armas_ldlinverse(s.h(A), P(), f, cf)); s.ok = sq; s.part = tri; drive(c, s); break;
    default: if (armas_lufactor(s.m(A), P(), nullptr)) return; SET(s, armas_luinverse_w(s.h(A), P(), w, cf), armas_luinverse(s.h(A), P(), cf)); s.ok = sq; drive(c, s); }
}
OP(mis_ext, 3) {
    S s; int n = dim(c), f = c.rng.pki({ARMAS_LOWER, ARMAS_UPPER}) | c.rng.pki({0, ARMAS_TRANS}) | c.rng.pki({0, ARMAS_UNIT}), A = s.add(c, "A", n, n); for (int i = 0; i < n; i++) s.m(A).at(i, i) += n; if (f & ARMAS_UNIT) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) s.m(A).at(i, j) /= n; double al = c.rng.uni();
    if (c.rng.chance(40)) { bool row = c.rng.chance(50); int X = s.add(c, "x", row ? 1 : n, row ? n : 1); c.D("%s vec n=%d", fl(f), n); SET(s, armas_ext_mvsolve_trm_w(s.h(X), al, s.h(A), f, w, cf), armas_ext_mvsolve_trm(s.h(X), al, s.h(A), f, cf)); s.ok = [&] { return s.H[0].rows == s.H[0].cols && sz(s.H[1]) == s.H[0].cols; }; drive(c, s); return; }
    bool right = c.rng.chance(50); int o = dim(c); f |= right ? ARMAS_RIGHT : ARMAS_LEFT; int X = s.add(c, "B", right ? o : n, right ? n : o); c.D("%s n=%d o=%d", fl(f), n, o);
    SET(s, armas_ext_solve_trm_w(s.h(X), al, s.h(A), f, w, cf), armas_ext_solve_trm(s.h(X), al, s.h(A), f, cf)); s.ok = [&, right] { return s.H[0].rows == s.H[0].cols && (right ? s.H[1].cols : s.H[1].rows) == s.H[0].cols; }; drive(c, s);
}
OP(mis_housemult, 2) {
    S s; int m = dim(c), k = c.rng.range(1, m), o = dim(c); bool right = c.rng.chance(50); int f = (right ? ARMAS_RIGHT : ARMAS_LEFT) | c.rng.pki({0, ARMAS_TRANS}) | c.rng.pki({0, ARMAS_UNIT}); int C = s.add(c, "C", right ? o : m, right ? m : o), t = s.vec(c, "tau", k), Q = s.add(c, "Q", m, k); c.D("%s m=%d k=%d o=%d", fl(f), m, k, o);
    if (f & ARMAS_UNIT) { if (armas_qrfactor(s.m(Q), s.m(t), nullptr)) return; } else for (int j = 0; j < k; j++) { double q = 0; for (int i = j; i < m; i++) q += s.m(Q).at(i, j) * s.m(Q).at(i, j); q = sqrt(2 / q); for (int i = j; i < m; i++) s.m(Q).at(i, j) *= q; }
    SET(s, armas_housemult_w(s.h(C), s.h(t), s.h(Q), f, w, cf), armas_housemult(s.h(C), s.h(t), s.h(Q), f, cf)); s.ok = [&, right, f] { return (right ? s.H[0].cols : s.H[0].rows) == s.H[2].rows && (!(f & ARMAS_UNIT) || sz(s.H[1]) == s.H[2].cols) && s.H[2].rows >= s.H[2].cols; }; drive(c, s);
}

// Functions without caller's workspace: a valid call is accepted, any inconsistent shape is refused.
static void shapes(Ctx &c, S &s) {
    Rng &r = c.rng; Config cf(c, true, 0x7); armas_conf_t *p = r.chance(12) ? nullptr : (armas_conf_t *)cf; if (!p) c.D("null-conf"); armas_conf_default()->error = 0;
    s.freeze(); c.nontrivial = true; int rc = s.plain(p); if (rc < 0) { c.fail("valid-refused", fmt("refused with consistent shapes: %d, error %d", rc, err_of(cf, p))); return; }
    for (auto &m : s.M) m->only_outside(c, "operand"); for (auto &x : s.P) x->guards(c); c.obs("exact-runs");
    for (int t = 0; t < 6; t++) {
        s.restore(); int np = r.chance(70) ? 1 : 2; std::string what;
        for (int q = 0; q < np; q++) {
            int k = r.below((int)s.M.size()); bool row = r.chance(50); int &x = row ? s.H[k].rows : s.H[k].cols, d = r.chance(70) ? 1 : r.range(1, 6); if (x <= d) continue; x -= d; what += fmt(" %s %d %s less", s.nm[k].c_str(), d, row ? "rows" : "columns");
        }
        if (s.ok()) { c.obs("perturbed-still-valid"); continue; }
        std::vector<D> h0 = s.H; if (p) p->error = 0; armas_conf_default()->error = 0; rc = s.plain(p);
        if (rc >= 0) c.fail("accepted", "mismatched operand accepted:" + what); else { c.obs("shape-refused"); if (!err_of(cf, p)) c.fail("error-code", "no error recorded for mismatched shapes:" + what); s.same(c, ":shape"); }
        for (size_t i = 0; i < h0.size(); i++) if (memcmp(&h0[i], &s.H[i], sizeof(D))) c.fail("header", "operand header changed by a refused call");
    }
    s.restore(); if (p) cf.check(c);
}
#define PL(e) s.plain = [=, &s](armas_conf_t *cf) mutable -> int { return e; }
#define SH(e) s.ok = [=, &s] { return e; }
#define R(k) (s.H[k].rows)
#define C_(k) (s.H[k].cols)
static int addv(Ctx &c, S &s, const char *n, int k) { bool row = c.rng.chance(30); return s.add(c, n, row ? 1 : k, row ? k : 1); }
static bool V(const D &h, int n) { return vec(h) && sz(h) == n; }
OP(mis_blas, 8) {
    S s; Rng &r = c.rng; int m = dim(c), n = dim(c), k = dim(c), ext = r.chance(40), what = r.below(15), up = r.pki({ARMAS_LOWER, ARMAS_UPPER}); double al = r.uni(), be = r.chance(30) ? 0 : r.uni(); bool ta = r.chance(50), tb = r.chance(50), right = r.chance(50); int f = up | (ta ? ARMAS_TRANS : 0) | (r.chance(30) ? ARMAS_UNIT : 0), side = right ? ARMAS_RIGHT : ARMAS_LEFT;
    c.D("%s what=%d %d,%d,%d %s%s%s", ext ? "ext" : "std", what, m, n, k, fl(f), right ? " right" : "", tb ? " tb" : ""); static const char *nm[] = {"mult", "mult_sym", "mult_trm", "solve_trm", "update_sym", "update2_sym", "update_trm", "mvmult", "mvmult_sym", "mvmult_trm", "mvsolve_trm", "mvupdate", "mvupdate_sym", "mvupdate2_sym", "mvupdate_trm"}; c.tag = std::string(ext ? "ext_" : "") + nm[what];
    auto spd = [&](int a) { for (int i = 0; i < std::min(s.m(a).r, s.m(a).c); i++) s.m(a).at(i, i) += 4; };
    switch (what) {
    case 0: { s.add(c, "C", m, n); s.add(c, "A", ta ? k : m, ta ? m : k); s.add(c, "B", tb ? n : k, tb ? k : n); int g = (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0); if (ext) PL(armas_ext_mult(be, s.h(0), al, s.h(1), s.h(2), g, cf)); else PL(armas_mult(be, s.h(0), al, s.h(1), s.h(2), g, cf)); SH((ta ? C_(1) : R(1)) == R(0) && (tb ? R(2) : C_(2)) == C_(0) && (ta ? R(1) : C_(1)) == (tb ? C_(2) : R(2))); shapes(c, s); break; }
    case 1: { s.add(c, "C", m, n); int q = right ? n : m; s.add(c, "A", q, q); s.add(c, "B", m, n); int g = up | side; if (ext) PL(armas_ext_mult_sym(be, s.h(0), al, s.h(1), s.h(2), g, cf)); else PL(armas_mult_sym(be, s.h(0), al, s.h(1), s.h(2), g, cf)); SH(R(1) == C_(1) && R(0) == R(2) && C_(0) == C_(2) && R(1) == (right ? C_(0) : R(0))); shapes(c, s); break; }
    case 2: case 3: { s.add(c, "B", m, n); int q = right ? n : m; s.add(c, "A", q, q); spd(1); int g = f | side; if (what == 2) { if (ext) PL(armas_ext_mult_trm(s.h(0), al, s.h(1), g, cf)); else PL(armas_mult_trm(s.h(0), al, s.h(1), g, cf)); } else { if (ext) PL(armas_ext_solve_trm(s.h(0), al, s.h(1), g, cf)); else PL(armas_solve_trm(s.h(0), al, s.h(1), g, cf)); } SH(R(1) == C_(1) && R(1) == (right ? C_(0) : R(0))); shapes(c, s); break; }
    case 4: { s.add(c, "C", m, m); s.add(c, "A", ta ? k : m, ta ? m : k); int g = up | (ta ? ARMAS_TRANS : 0); PL(armas_update_sym(be, s.h(0), al, s.h(1), g, cf)); SH(R(0) == C_(0) && (ta ? C_(1) : R(1)) == R(0)); shapes(c, s); break; }
    case 5: { s.add(c, "C", m, m); s.add(c, "A", ta ? k : m, ta ? m : k); s.add(c, "B", ta ? k : m, ta ? m : k); int g = up | (ta ? ARMAS_TRANS : 0); PL(armas_update2_sym(be, s.h(0), al, s.h(1), s.h(2), g, cf)); SH(R(0) == C_(0) && (ta ? C_(1) : R(1)) == R(0) && R(1) == R(2) && C_(1) == C_(2)); shapes(c, s); break; }
    case 6: { s.add(c, "C", m, n); s.add(c, "A", ta ? k : m, ta ? m : k); s.add(c, "B", tb ? n : k, tb ? k : n); int g = up | (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0); PL(armas_update_trm(be, s.h(0), al, s.h(1), s.h(2), g, cf)); SH((ta ? C_(1) : R(1)) == R(0) && (tb ? R(2) : C_(2)) == C_(0) && (ta ? R(1) : C_(1)) == (tb ? C_(2) : R(2))); shapes(c, s); break; }
    case 7: { s.add(c, "A", m, n); addv(c, s, "x", ta ? m : n); addv(c, s, "y", ta ? n : m); int g = ta ? ARMAS_TRANS : 0; if (ext) PL(armas_ext_mvmult(be, s.h(2), al, s.h(0), s.h(1), g, cf)); else PL(armas_mvmult(be, s.h(2), al, s.h(0), s.h(1), g, cf)); SH(V(s.H[1], ta ? R(0) : C_(0)) && V(s.H[2], ta ? C_(0) : R(0))); shapes(c, s); break; }
    case 8: { s.add(c, "A", n, n); addv(c, s, "x", n); addv(c, s, "y", n); if (ext) PL(armas_ext_mvmult_sym(be, s.h(2), al, s.h(0), s.h(1), up, cf)); else PL(armas_mvmult_sym(be, s.h(2), al, s.h(0), s.h(1), up, cf)); SH(R(0) == C_(0) && V(s.H[1], R(0)) && V(s.H[2], R(0))); shapes(c, s); break; }
    case 9: case 10: { s.add(c, "A", n, n); spd(0); addv(c, s, "x", n); if (what == 9) { if (ext) PL(armas_ext_mvmult_trm(s.h(1), al, s.h(0), f, cf)); else PL(armas_mvmult_trm(s.h(1), al, s.h(0), f, cf)); } else { if (ext) PL(armas_ext_mvsolve_trm(s.h(1), al, s.h(0), f, cf)); else PL(armas_mvsolve_trm(s.h(1), al, s.h(0), f, cf)); } SH(R(0) == C_(0) && V(s.H[1], R(0))); shapes(c, s); break; }
    case 11: { s.add(c, "A", m, n); addv(c, s, "x", m); addv(c, s, "y", n); if (ext) PL(armas_ext_mvupdate(be, s.h(0), al, s.h(1), s.h(2), cf)); else PL(armas_mvupdate(be, s.h(0), al, s.h(1), s.h(2), cf)); SH(V(s.H[1], R(0)) && V(s.H[2], C_(0))); shapes(c, s); break; }
    case 12: { s.add(c, "A", n, n); addv(c, s, "x", n); if (ext) PL(armas_ext_mvupdate_sym(be, s.h(0), al, s.h(1), up, cf)); else PL(armas_mvupdate_sym(be, s.h(0), al, s.h(1), up, cf)); SH(R(0) == C_(0) && V(s.H[1], R(0))); shapes(c, s); break; }
    case 13: { s.add(c, "A", n, n); addv(c, s, "x", n); addv(c, s, "y", n); if (ext) PL(armas_ext_mvupdate2_sym(be, s.h(0), al, s.h(1), s.h(2), up, cf)); else PL(armas_mvupdate2_sym(be, s.h(0), al, s.h(1), s.h(2), up, cf)); SH(R(0) == C_(0) && V(s.H[1], R(0)) && V(s.H[2], R(0))); shapes(c, s); break; }
    default: { s.add(c, "A", m, n); addv(c, s, "x", m); addv(c, s, "y", n); PL(armas_mvupdate_trm(be, s.h(0), al, s.h(1), s.h(2), up, cf)); SH(V(s.H[1], R(0)) && V(s.H[2], C_(0))); shapes(c, s); } }
}
OP(mis_vec, 4) {
    S s; Rng &r = c.rng; int m = dim(c), n = dim(c), what = r.below(12); double al = r.uni(), be = r.uni(), res = 0; bool ta = r.chance(50); int up = r.pki({ARMAS_LOWER, ARMAS_UPPER}); c.D("what=%d %dx%d", what, m, n); static const char *nm[] = {"axpy", "axpby", "swap", "adot", "copy", "scale", "ext_axpby", "ext_adot", "mcopy", "mplus", "mult_diag", "solve_diag"}; c.tag = nm[what];
    if (what < 8) { addv(c, s, "x", n); addv(c, s, "y", n); } SH(vec(s.H[0]) && V(s.H[1], sz(s.H[0])));
    switch (what) {
    case 0: PL(armas_axpy(s.h(0), al, s.h(1), cf)); break; case 1: PL(armas_axpby(be, s.h(0), al, s.h(1), cf)); break; case 2: PL(armas_swap(s.h(0), s.h(1), cf)); break; case 3: PL(armas_adot(&res, al, s.h(0), s.h(1), cf)); break; case 4: PL(armas_copy(s.h(0), s.h(1), cf)); SH(vec(s.H[0]) && vec(s.H[1])); break; case 5: PL(armas_scale(s.h(0), al, cf)); SH(vec(s.H[0])); break;
    case 6: PL(armas_ext_axpby(be, s.h(0), al, s.h(1), cf)); break; case 7: PL(armas_ext_adot(&res, al, s.h(0), s.h(1), cf)); break;
    case 8: case 9: s.add(c, "A", m, n); s.add(c, "B", ta ? n : m, ta ? m : n); if (what == 8) PL(armas_mcopy(s.h(0), s.h(1), ta ? ARMAS_TRANS : 0, cf)); else PL(armas_mplus(be, s.h(0), al, s.h(1), ta ? ARMAS_TRANS : 0, cf)); SH((what == 9 && sz(s.H[1]) == 1) || (vec(s.H[0]) && vec(s.H[1]) && sz(s.H[0]) == sz(s.H[1])) || R(0) == (ta ? C_(1) : R(1)) && C_(0) == (ta ? R(1) : C_(1))); break;
    default: s.add(c, "A", m, n); addv(c, s, "D", ta ? n : m); for (int i = 0; i < s.m(1).n(); i++) s.m(1).v(i) += 3; if (what == 10) PL(armas_mult_diag(s.h(0), al, s.h(1), ta ? ARMAS_RIGHT : ARMAS_LEFT, cf)); else PL(armas_solve_diag(s.h(0), al, s.h(1), ta ? ARMAS_RIGHT : ARMAS_LEFT, cf)); SH(V(s.H[1], ta ? C_(0) : R(0)) || (vec(s.H[0]) && V(s.H[1], sz(s.H[0])))); }
    shapes(c, s);
}
OP(mis_plain, 6) {
    S s; Rng &r = c.rng; int n = dim(c), o = dim(c), what = r.below(9), up = r.pki({ARMAS_LOWER, ARMAS_UPPER}); double al = 1, be = 1; bool pv = r.chance(50), ta = r.chance(50), right = r.chance(50); c.D("what=%d n=%d o=%d %s pv=%d", what, n, o, fl(up), pv); static const char *nm[] = {"lusolve", "cholsolve", "ldlsolve", "inverse_trm", "cholupdate", "pivot", "houseapply", "mult_rbt", "sort_eigenvec"}; c.tag = nm[what];
    auto A = [&](bool spd) { s.add(c, "A", n, n); for (int i = 0; i < n; i++) s.m(0).at(i, i) += (spd || r.chance(50) ? 1 : -1) * (n + i + 1.0); }; int pi = s.piv(c, n, 0); auto P = [&] { return pv ? (armas_pivot_t *)*s.P[pi] : ARMAS_NOPIVOT; };
    switch (what) {
    case 0: A(false); if (armas_lufactor(s.m(0), P(), nullptr)) return; s.add(c, "B", n, o); PL(armas_lusolve(s.h(1), s.h(0), P(), ta ? ARMAS_TRANS : 0, cf)); SH(R(0) == C_(0) && R(1) == R(0)); break;
    case 1: A(true); if (armas_cholfactor(s.m(0), P(), up, nullptr)) return; s.add(c, "B", n, o); PL(armas_cholsolve(s.h(1), s.h(0), P(), up, cf)); SH(R(0) == C_(0) && R(1) == R(0)); break;
    case 2: A(false); if (armas_ldlfactor(s.m(0), P(), up, nullptr)) return; s.add(c, "B", n, o); PL(armas_ldlsolve(s.h(1), s.h(0), P(), up, cf)); SH(R(0) == C_(0) && R(1) == R(0)); break;
    case 3: A(true); PL(armas_inverse_trm(s.h(0), up | (ta ? ARMAS_UNIT : 0), cf)); SH(R(0) == C_(0)); if (ta) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) s.m(0).at(i, j) /= n; break;
    case 4: A(true); if (armas_cholfactor(s.m(0), ARMAS_NOPIVOT, up, nullptr)) return; addv(c, s, "x", n); PL(armas_cholupdate(s.h(0), s.h(1), up, cf)); SH(R(0) == C_(0) && V(s.H[1], R(0))); break;
    case 5: { s.add(c, "A", ta ? n : o, ta ? o : n); for (int i = 0; i < n; i++) s.P[pi]->d[i + 4] = r.range(i, n - 1) + 1; auto Pp = (armas_pivot_t *)*s.P[pi]; int g = (ta ? ARMAS_PIVOT_ROWS : ARMAS_PIVOT_COLS) | (pv ? ARMAS_PIVOT_FORWARD : ARMAS_PIVOT_BACKWARD); PL(armas_pivot(s.h(0), Pp, g, cf)); SH((ta ? R(0) : C_(0)) >= n); break; }
    case 6: { s.add(c, "A", n, o); s.add(c, "v", (right ? o : n) - 1, 1); s.add(c, "w", right ? n : o, 1, NONE); s.add(c, "tau", 1, 1); PL(armas_houseapply(s.h(0), s.h(3), s.h(1), s.h(2), (right ? ARMAS_RIGHT : ARMAS_LEFT) | ARMAS_UNIT, cf)); SH((vec(s.H[0]) && sz(s.H[1]) == sz(s.H[0]) - 1) || (sz(s.H[1]) == (right ? C_(0) : R(0)) - 1) && sz(s.H[2]) >= (right ? R(0) : C_(0))); s.m(1); break; }
    case 7: { s.add(c, "A", n, o); s.add(c, "U", right ? o : n, 1 + r.below(3)); PL(armas_mult_rbt(s.h(0), s.h(1), right ? ARMAS_RIGHT : ARMAS_LEFT, cf)); SH(R(1) == (right ? C_(0) : R(0))); break; }
    default: { s.add(c, "D", n, 1); s.add(c, "U", o, n); s.add(c, "V", n, o); s.add(c, "C", o, n); bool hu = r.chance(70), hv = r.chance(70), hc = r.chance(70); int ud = ta ? 1 : -1; s.plain = [&, hu, hv, hc, ud](armas_conf_t *) -> int { return armas_sort_eigenvec(s.h(0), hu ? s.h(1) : nullptr, hv ? s.h(2) : nullptr, hc ? s.h(3) : nullptr, ud); }; SH(true); } }
    shapes(c, s);
}
