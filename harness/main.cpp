#include <signal.h>
#include <valgrind/memcheck.h>
#include "h.hpp"

AllocMon g_alloc;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static bool inject() {
    if (g_alloc.fail_at.load(std::memory_order_relaxed) < 0) return g_alloc.sticky.load(std::memory_order_relaxed) == 2;
    long k = g_alloc.fail_at.fetch_sub(1);
    if (k == 0) { g_alloc.failed++; if (g_alloc.sticky.load() == 1) g_alloc.sticky = 2; return true; }
    return false;
}
void *__wrap_malloc(size_t n) {
    g_alloc.total.fetch_add(1, std::memory_order_relaxed);
    if (inject()) return nullptr;
    void *p = __real_malloc(n);
    if (p) { g_alloc.live.fetch_add(1, std::memory_order_relaxed); if (g_alloc.dirty.load(std::memory_order_relaxed)) memset(p, 0xff, n); }
    return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    g_alloc.total.fetch_add(1, std::memory_order_relaxed);
    if (inject()) return nullptr;
    void *p = __real_calloc(a, b);
    if (p) g_alloc.live.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void *__wrap_realloc(void *q, size_t n) {
    g_alloc.total.fetch_add(1, std::memory_order_relaxed);
    if (inject()) return nullptr;
    void *p = __real_realloc(q, n);
    if (p && !q) g_alloc.live.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void __wrap_free(void *p) { if (p) g_alloc.live.fetch_sub(1, std::memory_order_relaxed); __real_free(p); }
}
long live_allocs() { return g_alloc.live.load(); }

static std::vector<OpEnt> &ops() { static std::vector<OpEnt> v; return v; }
static std::vector<OpEnt> g_all;
const std::vector<OpEnt> &all_ops() { return g_all; }
std::atomic<int> g_concurrent{0};
void (*g_config_hook)(Ctx &, Config &) = nullptr;
void (*g_config_unhook)(Config &) = nullptr;
int (*g_cold_main)(int, char **) = nullptr;
void (*g_fail_hook)(Ctx &, const std::string &, const std::string &) = nullptr;
uint64_t g_seed = 1;
Ctx *g_case = nullptr;
std::atomic<long> g_case_no{-1};
OpReg::OpReg(const char *name, OpFn fn, int weight) { ops().push_back({name, fn, weight}); }

static FILE *g_out;
static std::map<std::string, long> g_viol;
static std::map<std::string, long> g_obs;
static long g_nfail;
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;

static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}
void Ctx::fail(const std::string &what, const std::string &msg) {
    if (g_fail_hook) g_fail_hook(*this, what, msg);
    pthread_mutex_lock(&g_mx);
    failures++;
    std::string key = op + ":" + what;
    if (!tag.empty()) key += ":" + tag;
    g_nfail++;
    if (g_viol[key]++ < 3) {
        fprintf(g_out, "{\"t\":\"v\",\"key\":\"%s\",\"n\":%ld,\"op\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}\n", jesc(key).c_str(), n,
            jesc(op).c_str(), jesc(msg).c_str(), jesc(desc).c_str());
        fflush(g_out);
    }
    if (verbose) fprintf(stderr, "  FAIL %s: %s\n", key.c_str(), msg.c_str());
    pthread_mutex_unlock(&g_mx);
}
// kept per context (no lock: a lock here would order the threads under test)
void Ctx::obs(const char *k, long v) { lobs[k] += v; }

double gen_value(Rng &r, int kind) {
    switch (kind) {
    case GEN_INT: return (double)r.range(-9, 9);
    case GEN_WIDE: { double v = r.uni(); if (std::fabs(v) < 1e-3) v = 1e-3; return v * std::pow(10.0, r.range(-6, 6)); }
    case GEN_ZEROS: return r.chance(40) ? 0.0 : r.uni();
    case GEN_POS: return 0.1 + r.u01();
    default: return r.uni();
    }
}
LMat mul(const LMat &a, const LMat &b) {
    LMat x(a.r, b.c);
    for (int j = 0; j < b.c; j++)
        for (int k = 0; k < a.c; k++) {
            LD t = b(k, j);
            if (t == 0) { continue; }
            const LD *ap = a.d.data() + (size_t)k * a.r; LD *xp = x.d.data() + (size_t)j * x.r;
            for (int i = 0; i < a.r; i++) xp[i] += ap[i] * t;
        }
    return x;
}
LMat add(const LMat &a, const LMat &b, LD beta) { LMat x(a); for (size_t i = 0; i < x.d.size(); i++) x.d[i] += beta * b.d[i]; return x; }
LMat sub(const LMat &a, const LMat &b) { return add(a, b, -1); }

armas_env_t g_env0;
extern bool g_no_null_conf;
static bool g_env_saved = false;
void set_out(FILE *f) { g_out = f; }
void reset_env() {
    if (g_concurrent) { armas_cbuf_release_thread_global(); return; }
    armas_env_t *e = armas_getenv();
    if (!g_env_saved) { g_env0 = *e; g_env_saved = true; }
    *e = g_env0;
    armas_cbuf_release_thread_global();
}
armas_conf_t &Config::choose(Ctx &c, Config &self) {
    reset_env();
    self.saved = *armas_conf_default();
    self.null = !g_concurrent && !g_no_null_conf && c.rng.chance(6);
    return self.null ? *armas_conf_default() : self.own;
}
bool g_no_null_conf = false;
Config::Config(Ctx &c, bool blocks, int optmask) : cf(choose(c, *this)) {
    Rng &r = c.rng;
    cf = saved;
    cf.error = 0;
    armas_env_t *e = armas_getenv();
    std::string s = "cfg=default";
    memset(&wb, 0, sizeof wb);
    if (g_concurrent) blocks = false;
    if (blocks && r.chance(70)) {
        // block shapes with mb <= nb <= kb down to small ones, so that small operands cross block edges
        int nb = 4 * r.range(2, r.chance(70) ? 6 : 24);
        int mb = r.chance(50) ? nb : 4 * r.range(2, nb / 4);
        if (mb > nb) mb = nb;
        int kb = 4 * r.range(nb / 4, r.chance(70) ? nb / 4 + 8 : 60);
        if (kb < 16) kb = 16;
        e->mb = mb; e->nb = nb; e->kb = kb;
        e->lb = r.chance(15) ? 0 : r.chance(70) ? r.range(1, 16) : r.range(17, 64);
        e->blas1min = r.chance(50) ? r.range(4, 64) : 1024;
        e->blas2min = r.chance(50) ? r.range(4, 48) : 256;
        e->fixed = r.chance(50);
        if (!e->fixed || r.chance(30)) e->cmem = 1024 * r.pick({4, 6, 8, 16, 32, 64, 256});
        size_t need = (size_t)kb * (mb + 2 * nb) * 8;
        if (e->fixed && r.chance(80) && e->cmem < need) e->cmem = need;
        e->l1mem = r.chance(50) ? 1024 * r.pick({1, 2, 4, 8, 32}) : e->cmem / 8;
        s = fmt("cfg=mb%d,nb%d,kb%d,lb%d,b1_%d,b2_%d,c%zu,l%zu,f%d", e->mb, e->nb, e->kb, e->lb, e->blas1min, e->blas2min, e->cmem, e->l1mem, e->fixed);
    } else if (blocks && r.chance(30)) {
        e->lb = r.pick({0, 1, 4, 8, 24, 32});
        s = fmt("cfg=lb%d", e->lb);
    }
    int o = r.below(12);
    cf.optflags = 0;
    if (o == 0 && (optmask & 1)) cf.optflags = ARMAS_ONAIVE;
    else if (o == 1 && (optmask & 2)) cf.optflags = ARMAS_ORECURSIVE;
    else if (o == 2 && (optmask & 4)) cf.optflags = ARMAS_OKAHAN;
    else if (o == 3 && (optmask & 8)) cf.optflags = ARMAS_CBUF_LOCAL;
    else if (o == 4 && (optmask & 16)) {
        nwork = e->cmem + r.below(3) * 64;
        work = new char[nwork + 64];
        memset(work, 0xff, nwork + 64); VALGRIND_MAKE_MEM_UNDEFINED(work, nwork);
        wb.buf = work; wb.bytes = nwork; wb.offset = 0;
        cf.work = &wb;
    }
    s += fmt(" opt=%x%s%s", cf.optflags, work ? "+work" : "", null ? " null-conf" : "");
    c.D("%s", s.c_str());
    if (g_config_hook) g_config_hook(c, *this);
}
void Config::check(Ctx &c) {
    if (work) {
        for (int i = 0; i < 64; i++)
            if ((unsigned char)work[nwork + i] != 0xff) { c.fail("cfgwork-overrun", "memory past the caller's cache workspace was written"); break; }
    }
}
Config::~Config() { if (g_config_unhook) g_config_unhook(*this); if (null) *armas_conf_default() = saved; delete[] work; reset_env(); }

Work::Work(Ctx &c, size_t bytes) {
    n = bytes;
    raw = new char[bytes + (ASAN ? 0 : 128) + 1];
    memset(raw, 0xff, bytes + (ASAN ? 0 : 128));
    w.buf = raw + (ASAN ? 0 : 64); w.bytes = bytes; w.offset = 0; VALGRIND_MAKE_MEM_UNDEFINED(w.buf, bytes);
}
Work::~Work() { delete[] raw; }
void Work::check(Ctx &c) {
    if (ASAN) return;
    for (int i = 0; i < 64; i++)
        if ((unsigned char)raw[i] != 0xff || (unsigned char)raw[64 + n + i] != 0xff) {
            c.fail("workspace-overrun", "memory outside the caller's workspace was written"); return;
        }
}

int pick_size(Ctx &c, int big) {
    Rng &r = c.rng;
    if (r.below(2500) == 0) return r.range(big, 4 * big);   // now and then far beyond every block
    int k = r.below(100);
    if (k < 3) return 0;
    if (k < 10) return 1;
    if (k < 55) return r.range(2, std::min(big, 20));
    if (k < 80) return r.range(2, std::min(big, 48));
    if (k < 94) return r.range(2, std::min(big, 110));
    // around multiples of usual block sizes
    if (k < 97) { int b = r.pick({8, 16, 32, 64, 128}); int v = b * r.range(1, 3) + r.range(-1, 1); return std::min(v, big); }
    return r.range(1, big);
}
int pick_dim(Ctx &c, int big) { int v = pick_size(c, big); return v < 1 ? 1 : v; }

static volatile sig_atomic_t g_stop;
int main(int argc, char **argv) {
    std::sort(ops().begin(), ops().end(), [](const OpEnt &a, const OpEnt &b) { return strcmp(a.name, b.name) < 0; });
    g_all = ops();
    if (argc > 1 && !strcmp(argv[1], "--cold")) return g_cold_main ? g_cold_main(argc, argv) : 3;
    uint64_t seed = 1; long from = 0, to = 0, stride = 1; int tier = 0; long one = -1;
    const char *out = nullptr, *state = nullptr, *only = nullptr;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--from") from = atol(argv[++i]);
        else if (a == "--to") to = atol(argv[++i]);
        else if (a == "--stride") stride = atol(argv[++i]);
        else if (a == "--one") one = atol(argv[++i]);
        else if (a == "--tier") tier = !strcmp(argv[++i], "thorough");
        else if (a == "--out") out = argv[++i];
        else if (a == "--state") state = argv[++i];
        else if (a == "--op") only = argv[++i];
        else if (a == "--list") list = true;
    }
    g_seed = seed;
    if (only) {
        std::vector<OpEnt> v; bool not_ = *only == '!'; if (not_) only++;
        for (auto &e : ops()) if (not_ != (std::string(",") .append(only).append(",").find(std::string(",") + e.name + ",") != std::string::npos)) v.push_back(e);
        ops() = v;
    }
    std::vector<int> cyc;
    { // interleave by weight
        int mx = 0; for (auto &e : ops()) mx = std::max(mx, e.w);
        for (int k = 0; k < mx; k++) for (size_t i = 0; i < ops().size(); i++) if (k < ops()[i].w) cyc.push_back((int)i);
    }
    if (list) { for (auto &e : ops()) printf("%s %d\n", e.name, e.w); printf("cycle %zu\n", cyc.size()); return 0; }
    if (cyc.empty()) { fprintf(stderr, "no ops\n"); return 3; }
    g_out = out ? fopen(out, "a") : stdout;
    if (!g_out) { perror("out"); return 3; }
    int sfd = state ? open(state, O_RDWR | O_CREAT, 0644) : -1;
    if (one >= 0) { from = one; to = one + 1; stride = 1; }
    std::map<std::string, long> opcount;
    std::set<uint64_t> sigs;
    long evals = 0, nsample = 0;
    const char *dirty = getenv("VP_DIRTY");
    g_alloc.dirty = dirty ? atoi(dirty) : !RUNNING_ON_VALGRIND;
    signal(SIGTERM, [](int) { g_stop = 1; });   // finish the case under way and report what was observed
    for (long n = from; n < to && !g_stop; n += stride) {
        const OpEnt &e = ops()[cyc[n % cyc.size()]];
        Ctx c;
        c.op = e.name; c.n = n; c.seed = seed; c.tier = tier; c.verbose = one >= 0;
        c.rng = Rng(hash_str(std::string(e.name) + fmt("#%llu#%ld", (unsigned long long)seed, n)));
        c.rng.next();
        if (sfd >= 0) { char b[128]; int k = snprintf(b, sizeof b, "%-20ld %-60s\n", n, e.name); (void)!pwrite(sfd, b, k, 0); }
        reset_env();
        armas_conf_default()->error = 0;
        long live0 = live_allocs();
        g_case = &c; g_case_no = n;
        e.fn(c);
        g_case = nullptr;
        for (auto &o : c.lobs) g_obs[o.first] += o.second;
        reset_env();
        long live1 = live_allocs();
        if (live1 != live0)
            c.fail("leak", fmt("%ld allocations not released (case %s)", live1 - live0, c.desc.c_str()));
        evals++; opcount[e.name]++;
        if (c.nontrivial) sigs.insert(hash_str(c.op + "|" + c.desc));
        if (one >= 0) fprintf(stderr, "case %ld op=%s %s failures=%d\n", n, e.name, c.desc.c_str(), c.failures);
        if (nsample < 4 && c.nontrivial) {
            nsample++;
            fprintf(g_out, "{\"t\":\"s\",\"n\":%ld,\"op\":\"%s\",\"case\":\"%s\"}\n", n, e.name, jesc(c.desc).c_str());
        }
        if ((evals & 255) == 0) fflush(g_out);
    }
    fprintf(g_out, "{\"t\":\"end\",\"evals\":%ld,\"ops\":{", evals);
    bool f = true;
    for (auto &p : opcount) { fprintf(g_out, "%s\"%s\":%ld", f ? "" : ",", p.first.c_str(), p.second); f = false; }
    fprintf(g_out, "},\"obs\":{"); f = true;
    for (auto &p : g_obs) { fprintf(g_out, "%s\"%s\":%ld", f ? "" : ",", jesc(p.first).c_str(), p.second); f = false; }
    fprintf(g_out, "},\"sigs\":["); f = true;
    for (auto s : sigs) { fprintf(g_out, "%s%llu", f ? "" : ",", (unsigned long long)(s >> 12)); f = false; }
    fprintf(g_out, "]}\n");
    fclose(g_out);
    return one >= 0 && g_nfail ? 1 : 0;
}
