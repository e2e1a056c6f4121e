// Common harness: deterministic case generator, guarded operands, reference
// arithmetic helpers, allocation monitor, and the per-case monitor protocol.
#pragma once
#include <algorithm>
#include <atomic>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>

#include "dtype.h"
#include "dlpack.h"
#include "matrix.h"
#undef MAX
#undef MIN
#undef ABS
#undef SIGN
#undef SQRT
#undef HYPOT
#undef POW
#undef EXP
#undef COPYSIGN
#undef EPS
#undef require

typedef long double LD;
static const double EPSD = DBL_EPSILON;   // 2.2e-16 (unit roundoff is half of it)

#if defined(__SANITIZE_ADDRESS__)
static const bool ASAN = true;
#else
static const bool ASAN = false;
#endif
#if defined(__SANITIZE_THREAD__)
static const bool TSAN = true;
#else
static const bool TSAN = false;
#endif

// ---------------------------------------------------------------- rng
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }   // inclusive
    bool chance(int pct) { return below(100) < pct; }
    double u01() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni() { return 2.0 * u01() - 1.0; }
    double normal() {
        double u = u01(), v = u01();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((int)l.size())); }
    int pki(std::initializer_list<int> l) { return *(l.begin() + below((int)l.size())); }
};
static inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
static inline std::string fmt(const char *f, ...) {
    char buf[2048];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}

// ---------------------------------------------------------------- allocation monitor
// The link wraps malloc & co (-Wl,--wrap): every allocation of the library is counted, and can be
// made to fail on demand.
struct AllocMon {
    std::atomic<long> live{0}, total{0};
    std::atomic<long> fail_at{-1};        // countdown; fails the allocation that reaches 0
    std::atomic<long> failed{0};
    std::atomic<int> dirty{0};            // fill malloc'ed blocks with 0xff
    std::atomic<int> sticky{0};           // once failed, keep failing
};
extern AllocMon g_alloc;
long live_allocs();

// ---------------------------------------------------------------- context
struct Ctx {
    std::string op;
    long n = 0;
    uint64_t seed = 0;
    int tier = 0;           // 0 quick 1 thorough
    bool verbose = false;
    Rng rng;
    std::string desc;       // parameters of the case, for samples and replays
    std::string tag;        // stable part used in violation keys (flags etc.)
    bool nontrivial = false;
    int failures = 0;
    std::map<std::string, long> lobs;
    void merge(const Ctx &o) { for (auto &p : o.lobs) lobs[p.first] += p.second; failures += o.failures; }
    void fail(const std::string &what, const std::string &msg);
    void obs(const char *counter, long k = 1);
    void D(const char *f, ...) {
        char buf[1024]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
        if (!desc.empty()) desc += ' ';
        desc += buf;
    }
};
typedef void (*OpFn)(Ctx &);
struct OpReg { OpReg(const char *name, OpFn fn, int weight); };
#define OP(name, weight) \
    static void op_##name(Ctx &c); \
    static OpReg reg_##name(#name, op_##name, weight); \
    static void op_##name(Ctx &c)

// ---------------------------------------------------------------- guarded matrices
static inline double poison(uint64_t k) {
    uint64_t b = 0x7ff8000000000000ULL | ((k * 0x9E3779B97F4A7C15ULL) >> 16 & 0x0007ffffffffffffULL);
    double d; memcpy(&d, &b, 8); return d;
}
static inline bool bits_eq(double a, double b) { return memcmp(&a, &b, 8) == 0; }

enum { GEN_UNI = 0, GEN_INT, GEN_WIDE, GEN_ZEROS, GEN_POS, NGEN };
double gen_value(Rng &r, int kind);

struct Mat {
    double *raw = nullptr;     // exact allocation
    size_t nraw = 0, off = 0;
    int r = 0, c = 0, step = 0;
    armas_dense_t m;
    std::vector<double> snap;
    Mat() { memset(&m, 0, sizeof m); }
    Mat(Ctx &c, int r, int cc, int kind = -1) { init(c, r, cc, kind); }
    Mat(const Mat &) = delete;
    Mat &operator=(const Mat &) = delete;
    Mat(Mat &&o) noexcept { *this = std::move(o); }
    Mat &operator=(Mat &&o) noexcept {
        std::swap(raw, o.raw); std::swap(nraw, o.nraw); std::swap(off, o.off);
        std::swap(r, o.r); std::swap(c, o.c); std::swap(step, o.step);
        std::swap(m, o.m); std::swap(snap, o.snap); return *this;
    }
    ~Mat() { delete[] raw; }
    void alloc(Ctx &cx, int rr, int cc, int pad) {
        Rng &rng = cx.rng;
        delete[] raw;
        r = rr; c = cc;
        step = std::max(1, r) + pad;
        size_t ext = (r > 0 && c > 0) ? (size_t)step * (c - 1) + r : 0;
        size_t post = 0;
        off = ASAN ? (size_t)rng.below(3) : (size_t)(4 + rng.below(9));
        if (!ASAN) post = 16;
        nraw = off + ext + post;
        raw = new double[nraw ? nraw : 1];
        for (size_t i = 0; i < nraw; i++) raw[i] = poison(i + 1);
        memset(&m, 0, sizeof m);
        m.elems = raw + off; m.step = step; m.rows = r; m.cols = c;
    }
    void init(Ctx &cx, int rr, int cc, int kind = -1) {
        Rng &rng = cx.rng;
        int pad = rng.chance(45) ? 0 : rng.below(9);
        alloc(cx, rr, cc, pad);
        if (kind < 0) kind = rng.chance(60) ? GEN_UNI : rng.below(NGEN);
        for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) at(i, j) = gen_value(rng, kind);
    }
    double &at(int i, int j) { return raw[off + (size_t)j * step + i]; }
    double get(int i, int j) const { return raw[off + (size_t)j * step + i]; }
    double &v(int i) { return r == 1 ? at(0, i) : at(i, 0); }
    double getv(int i) const { return r == 1 ? get(0, i) : get(i, 0); }
    int n() const { return r * c; }
    armas_dense_t *operator&() { return &m; }
    operator armas_dense_t *() { return &m; }
    void save() { snap.assign(raw, raw + nraw); }
    double old(int i, int j) const { return snap[off + (size_t)j * step + i]; }
    double oldv(int i) const { return r == 1 ? old(0, i) : old(i, 0); }
    // everything not allowed by mask must be bit-identical to the snapshot; header fields too
    template <class F> void untouched(Ctx &cx, const char *nm, F allowed) const {
        if (m.elems != raw + off || m.rows != r || m.cols != c || m.step != step || m.__data != nullptr)
            cx.fail(std::string("header:") + nm, fmt("operand %s: matrix header changed by the call", nm));
        size_t ext = (r > 0 && c > 0) ? (size_t)step * (c - 1) + r : 0;
        for (size_t k = 0; k < nraw; k++) {
            if (bits_eq(raw[k], snap[k])) continue;
            if (k >= off && k < off + ext) {
                int j = (int)((k - off) / step), i = (int)((k - off) % step);
                if (i < r && allowed(i, j)) continue;
                if (i < r) {
                    cx.fail(std::string("wrote:") + nm, fmt("operand %s (%dx%d): element (%d,%d) is not part of the result but changed %.17g -> %.17g", nm, r, c, i, j, snap[k], raw[k]));
                    return;
                }
            }
            cx.fail(std::string("outside:") + nm, fmt("operand %s (%dx%d step %d): memory outside the operand changed at element offset %ld", nm, r, c, step, (long)k - (long)off));
            return;
        }
    }
    void is_const(Ctx &cx, const char *nm) const { untouched(cx, nm, [](int, int) { return false; }); }
    void only_outside(Ctx &cx, const char *nm) const { untouched(cx, nm, [](int, int) { return true; }); }
};

// plain column major long double matrix
struct LMat {
    int r = 0, c = 0;
    std::vector<LD> d;
    LMat() {}
    LMat(int r, int c) : r(r), c(c), d((size_t)r * c, 0.0L) {}
    LD &operator()(int i, int j) { return d[(size_t)j * r + i]; }
    LD operator()(int i, int j) const { return d[(size_t)j * r + i]; }
    static LMat of(const Mat &m) {
        LMat l(m.r, m.c);
        for (int j = 0; j < m.c; j++) for (int i = 0; i < m.r; i++) l(i, j) = m.get(i, j);
        return l;
    }
    LMat T() const { LMat t(c, r); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) t(j, i) = (*this)(i, j); return t; }
    LMat abs() const { LMat t(*this); for (auto &x : t.d) x = fabsl(x); return t; }
    LD maxabs() const { LD m = 0; for (auto x : d) { if (std::isnan(x)) return x; m = std::max(m, fabsl(x)); } return m; }
    LD frob() const { LD s = 0; for (auto x : d) s += x * x; return sqrtl(s); }
    LD norm1() const { LD m = 0; for (int j = 0; j < c; j++) { LD s = 0; for (int i = 0; i < r; i++) s += fabsl((*this)(i, j)); if (std::isnan(s)) return s; m = std::max(m, s); } return m; }
    static LMat eye(int n) { LMat e(n, n); for (int i = 0; i < n; i++) e(i, i) = 1; return e; }
};
LMat mul(const LMat &a, const LMat &b);
LMat sub(const LMat &a, const LMat &b);
LMat add(const LMat &a, const LMat &b, LD beta = 1);

// |got - ref| <= (k + slack) * eps * bound, element by element
struct Cmp {
    Ctx &c; const char *nm; double worst = 0; bool bad = false;
    Cmp(Ctx &c, const char *nm) : c(c), nm(nm) {}
    void operator()(double got, LD ref, LD bound, double k, int i, int j) {
        if (bad) return;
        LD tol = (LD)(k + 12) * EPSD * bound + 1e-290L;
        LD e = fabsl((LD)got - ref);
        if (!(e <= tol)) {
            bad = true;
            c.fail(std::string("value:") + nm, fmt("%s(%d,%d) = %.17g, expected %.17Lg (error %.3Lg, tolerance %.3Lg)", nm, i, j, got, ref, e, tol));
        }
    }
};

// ---------------------------------------------------------------- library configuration of a case
struct Config {
    armas_conf_t own, saved;
    bool null = false;              // the functions are given a null pointer: cf is the library's default configuration then
    armas_conf_t &cf;
    static armas_conf_t &choose(Ctx &c, Config &self);
    armas_wbuf_t wb;
    char *work = nullptr; size_t nwork = 0;
    Config(Ctx &c, bool blocks = true, int optmask = 0x1f);
    ~Config();
    Config(const Config &) = delete;
    void check(Ctx &c);             // guard bytes around the caller supplied workspace
    operator armas_conf_t *() { return null ? nullptr : &cf; }
};
void reset_env();
extern bool g_no_null_conf;           // set to keep Config from choosing the default configuration
// set while several threads run cases at the same time: the shared environment is left alone
extern std::atomic<int> g_concurrent;
// called at the end of Config's construction and at the start of its destruction
extern void (*g_config_hook)(Ctx &, Config &);
extern void (*g_config_unhook)(Config &);
// sees every reported failure first; may throw to end the case
extern void (*g_fail_hook)(Ctx &, const std::string &what, const std::string &msg);
// replaces main() when the program is started with --cold
extern int (*g_cold_main)(int, char **);
extern armas_env_t g_env0;               // settings between cases
void set_out(FILE *f);                   // where violations are written
extern uint64_t g_seed;
struct OpEnt { const char *name; OpFn fn; int w; };
const std::vector<OpEnt> &all_ops();
extern Ctx *g_case;                      // case being run, for watchdogs
extern std::atomic<long> g_case_no;
int pick_size(Ctx &c, int big);          // 0..big with emphasis on block edges
int pick_dim(Ctx &c, int big);           // >= 1

// caller workspace with guards, filled with NaN poison
struct Work {
    std::vector<unsigned char> g; char *raw; size_t n;
    armas_wbuf_t w;
    Work(Ctx &c, size_t bytes);
    ~Work();
    Work(const Work &) = delete;
    void check(Ctx &c);
};
