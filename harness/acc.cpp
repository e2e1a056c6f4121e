// Accelerators: results, lifecycle, races, deadlocks, faults.
#include "blas3.cpp"
extern "C" {
#define private private_
#include "accel.h"
#undef private
}
#include <sched.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <time.h>
#include <errno.h>

// ------------------------------------------------------------------ monitors under the library
// -Wl,--wrap puts these between the library and libpthread.
namespace mon {
std::atomic<long> created{0}, finished{0}, joined{0}, detached{0}, refused{0};
std::atomic<long> fail_at{-1};           // refuse the thread creation that counts down to zero
std::atomic<int> fail_all{0};
std::atomic<int> delay{0};               // 1 of `delay` synchronisation calls is delayed
std::atomic<uint64_t> dseed{1};
std::atomic<long> nlog{0};
static const long LOGN = 1 << 14;
std::atomic<unsigned short> logv[LOGN];  // order of synchronisation calls by thread
std::atomic<int> rank{1};
thread_local unsigned short myrank = 0;
thread_local uint64_t myrng = 0;
// threads that take part (the watchdog looks at these)
static const int MAXT = 8192;
std::atomic<int> tids[MAXT]; std::atomic<int> ntid{0};
static inline uint64_t rnd() {
    if (!myrng) myrng = dseed.load(std::memory_order_relaxed) * 0x9E3779B97F4A7C15ULL + 77 * myrank + 1;
    myrng ^= myrng << 13; myrng ^= myrng >> 7; myrng ^= myrng << 17; return myrng;
}
static inline void point() {
    long k = nlog.fetch_add(1, std::memory_order_relaxed);
    if (k < LOGN) logv[k].store(myrank, std::memory_order_relaxed);
    int d = delay.load(std::memory_order_relaxed);
    if (d && rnd() % d == 0) {
        uint64_t w = rnd() % 8;
        if (w < 3) sched_yield();
        else { struct timespec t = {0, (long)(1000 * (1 + rnd() % (w == 7 ? 2000 : 150)))}; nanosleep(&t, 0); }
    }
}
static int add_tid() { int k = ntid.fetch_add(1, std::memory_order_relaxed); if (k < MAXT) tids[k].store((int)syscall(SYS_gettid), std::memory_order_relaxed); return k; }
static void del_tid(int k) { if (k < MAXT) tids[k].store(0, std::memory_order_relaxed); }
struct Start { void *(*fn)(void *); void *arg; };
}
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
void *__real_malloc(size_t); void __real_free(void *);
static void *tramp(void *p) {
    mon::Start s = *(mon::Start *)p; __real_free(p);
    mon::myrank = (unsigned short)mon::rank.fetch_add(1, std::memory_order_relaxed); mon::myrng = 0;
    int k = mon::add_tid();
    mon::point();
    void *r = s.fn(s.arg);
    mon::point();
    mon::del_tid(k);
    mon::finished.fetch_add(1, std::memory_order_relaxed);
    return r;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    mon::point();
    if (mon::fail_all.load(std::memory_order_relaxed) ||
        (mon::fail_at.load(std::memory_order_relaxed) >= 0 && mon::fail_at.fetch_sub(1, std::memory_order_relaxed) == 0)) { mon::refused.fetch_add(1, std::memory_order_relaxed); return EAGAIN; }
    mon::Start *s = (mon::Start *)__real_malloc(sizeof *s); s->fn = fn; s->arg = arg;
    mon::created.fetch_add(1, std::memory_order_relaxed);
    int rc = __real_pthread_create(t, a, tramp, s);
    if (rc) { mon::created.fetch_sub(1, std::memory_order_relaxed); __real_free(s); return rc; }
    int ds = 0; if (a) { pthread_attr_getdetachstate(a, &ds); if (ds == PTHREAD_CREATE_DETACHED) mon::detached.fetch_add(1, std::memory_order_relaxed); }
    mon::point();
    return rc;
}
int __wrap_pthread_join(pthread_t t, void **r) { mon::point(); int rc = __real_pthread_join(t, r); if (!rc) mon::joined.fetch_add(1, std::memory_order_relaxed); return rc; }
int __wrap_pthread_detach(pthread_t t) { int rc = __real_pthread_detach(t); if (!rc) mon::detached.fetch_add(1, std::memory_order_relaxed); return rc; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { mon::point(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int rc = __real_pthread_mutex_unlock(m); mon::point(); return rc; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    mon::point();
    // POSIX allows a wait to end without a signal; so does this one, now and then
    if (mon::delay.load(std::memory_order_relaxed) && mon::rnd() % 8 == 0) { __real_pthread_mutex_unlock(m); sched_yield(); return __real_pthread_mutex_lock(m); }
    return __real_pthread_cond_wait(c, m);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { mon::point(); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { mon::point(); return __real_pthread_cond_broadcast(c); }
}

// ------------------------------------------------------------------ deadlock watchdog
static void *watchdog(void *) {
    long last = -2, still = 0, cpu0 = -1, prev = -1;
    for (;;) {
        struct timespec ts = {0, 500000000}; nanosleep(&ts, 0);
        long n = g_case_no.load(std::memory_order_relaxed);
        long ticks = 0; bool asleep = true;
        int nt = std::min(mon::ntid.load(std::memory_order_relaxed), mon::MAXT);
        for (int i = 0; i < nt; i++) {
            int t = mon::tids[i].load(std::memory_order_relaxed); if (!t) continue;
            char b[512]; snprintf(b, sizeof b, "/proc/self/task/%d/stat", t);
            int fd = open(b, O_RDONLY); if (fd < 0) continue;
            ssize_t k = read(fd, b, sizeof b - 1); close(fd); if (k <= 0) continue; b[k] = 0;
            char *q = strrchr(b, ')'); if (!q) continue;
            char st = q[2]; if (st != 'S') asleep = false;
            unsigned long u, s; if (sscanf(q + 4, "%*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s) == 2) ticks += u + s;
        }
        if (n != last) { last = n; still = 0; cpu0 = ticks; prev = ticks; continue; }
        if (asleep && ticks == prev) still++; else still = 0;
        prev = ticks;
        bool live = ticks - cpu0 > 90 * sysconf(_SC_CLK_TCK);
        if (still >= 24 || live) {
            const char *w = live ? "livelock" : "deadlock";
            Ctx *c = g_case;
            if (c) c->fail(w, live ? "no progress although 90 s of processor time were used" : "every thread of the process sleeps forever");
            fprintf(stderr, "DEADLOCK\n"); fflush(stderr);
            _exit(70);
        }
    }
    return 0;
}
static void monitors_on() {
    static bool on = false; if (on) return; on = true;
    mon::add_tid();
    pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    __real_pthread_create(&t, &a, watchdog, 0); pthread_attr_destroy(&a);
}
// threads of the harness itself
static pthread_t spawn(void *(*fn)(void *), void *arg) {
    mon::Start *s = (mon::Start *)__real_malloc(sizeof *s); s->fn = fn; s->arg = arg; mon::created++;
    pthread_t t; if (__real_pthread_create(&t, 0, tramp, s)) { fprintf(stderr, "no thread\n"); _exit(3); } return t;
}
static void await(pthread_t t) { __real_pthread_join(t, 0); mon::joined++; }

static std::set<uint64_t> g_inter;
struct Phase {      // one monitored stretch: thread and interleaving accounting
    long c0, f0, j0, d0;
    Phase(Ctx &c) {
        monitors_on();
        c0 = mon::created; f0 = mon::finished; j0 = mon::joined; d0 = mon::detached;
        mon::ntid.store(1); mon::rank = 1; mon::nlog = 0; mon::dseed = c.rng.next() | 1; mon::myrng = 0;
        int d = c.rng.below(4); mon::delay = d == 0 ? 0 : d == 1 ? 40 : d == 2 ? 12 : 4;
    }
    void end(Ctx &c, const char *when) {
        mon::delay = 0;
        for (int i = 0; i < 4000 && mon::finished - f0 != mon::created - c0; i++) { struct timespec t = {0, 1000000}; nanosleep(&t, 0); }
        long cr = mon::created - c0, fi = mon::finished - f0, jo = mon::joined - j0, de = mon::detached - d0;
        if (fi != cr) c.fail(std::string("threads-left:") + when, fmt("%ld of %ld threads still run", cr - fi, cr));
        else if (jo + de != cr) c.fail(std::string("threads-unreaped:") + when, fmt("%ld of %ld finished threads were neither joined nor detached", cr - jo - de, cr));
        c.obs("threads", cr);
        long n = std::min(mon::nlog.load(), mon::LOGN); c.obs("sync-events", mon::nlog.load());
        uint64_t h = 1469598103934665603ULL; for (long i = 0; i < n; i++) { h ^= mon::logv[i].load(std::memory_order_relaxed); h *= 1099511628211ULL; }
        if (cr && g_inter.insert(h).second) c.obs("interleavings");
    }
};

static const char *KINDS[] = {"SIMPLE", "WORKERS", "TRANSIENT"};
static struct armas_ac_env g_acenv0; static bool g_acsaved = false;
static std::string set_acenv(Rng &r, long size, bool small) {
    struct armas_ac_env *e = armas_ac_getenv();
    if (!g_acsaved) { g_acenv0 = *e; g_acsaved = true; }
    *e = g_acenv0;
    e->max_cores = r.chance(15) ? 1 : r.range(2, small ? 4 : 9);
    e->options = 0;
    if (r.chance(50)) e->options |= ARMAS_OBLAS_TILED; else if (r.chance(50)) e->options |= ARMAS_OBLAS_BLOCKED;
    int k = r.below(3); if (k == 0) e->options |= ARMAS_OSCHED_ROUNDROBIN; else if (k == 1) e->options |= ARMAS_OSCHED_RANDOM;
    if (r.chance(40)) e->options |= ARMAS_OSCHED_TWO;
    if (e->options & ARMAS_OBLAS_TILED) e->num_items = r.chance(10) ? 160000 : r.chance(small ? 10 : 5) ? r.range(2, 5) : r.range(6, 70);
    else e->num_items = r.chance(8) ? 160000 : std::max(1L, size / r.range(1, 12));
    e->weight = r.chance(80) ? 1.0 : r.pick({0.5, 2.0, 3.5});
    return fmt("cores=%zu items=%zu opt=%x w=%g", e->max_cores, e->num_items, e->options, e->weight);
}
static void restore_acenv() { if (g_acsaved) *armas_ac_getenv() = g_acenv0; }

// ------------------------------------------------------------------ C07: operations of blas3.cpp, dispatched
static armas_ac_handle_t g_ac; static Ctx *g_acc; static Phase *g_ph; static int g_kind;
static void acc_config(Ctx &c, Config &cf) {
    Rng &r = c.rng; g_acc = &c; g_ac = nullptr;
    std::string s = set_acenv(r, r.pick({300, 2000, 10000, 30000}), false);
    g_kind = r.below(3); g_ph = new Phase(c);
    c.D("%s %s", KINDS[g_kind], s.c_str());
    if (armas_ac_init(&g_ac, KINDS[g_kind]) != 0 || !g_ac) { c.fail("init", "accelerator cannot be created"); return; }
    cf.cf.accel = g_ac;
}
static void acc_unconfig(Config &cf) {
    long before = mon::created - g_ph->c0;
    armas_ac_release(g_ac); g_ac = nullptr; cf.cf.accel = nullptr;
    g_ph->end(*g_acc, "release");
    if (before) g_acc->obs(fmt("threaded-%s", KINDS[g_kind]).c_str());
    delete g_ph; g_ph = nullptr; restore_acenv();
}
static struct HookUp { HookUp() { g_config_hook = acc_config; g_config_unhook = acc_unconfig; } } hookup;
static void unhook() { g_config_hook = nullptr; g_config_unhook = nullptr; }
static void rehook() { g_config_hook = acc_config; g_config_unhook = acc_unconfig; }

// ------------------------------------------------------------------ exact problems
// Small integer operands: every result is an exactly representable integer in whatever order it is
// computed, so dispatched results are compared bit by bit.
struct Prob {
    int op, m, n, k, f; double al, be;
    Mat A, B, C; std::vector<double> want;
    armas_dense_t *out() { return op < 2 ? &C : &B; }
    Mat &res() { return op < 2 ? C : B; }
    static double iv(Rng &r, int w = 4) { return (double)r.range(-w, w); }
    void make(Ctx &c, int big, int o = -1) {
        Rng &r = c.rng; op = o >= 0 ? o : r.below(4); m = r.range(1, big); n = r.range(1, big); k = r.range(1, big);
        al = r.pick({1.0, -1.0, 2.0}); be = r.pick({0.0, 1.0, -1.0, 2.0});
        int tri_ = r.pick({ARMAS_LOWER, ARMAS_UPPER});
        auto fill = [&](Mat &M, int rr, int cc) { M.alloc(c, rr, cc, r.below(4)); for (int j = 0; j < cc; j++) for (int i = 0; i < rr; i++) M.at(i, j) = iv(r); };
        if (op == 0) {
            int ta = r.chance(50), tb = r.chance(50);
            f = (ta ? r.pick({ARMAS_TRANSA, ARMAS_CTRANSA}) : 0) | (tb ? r.pick({ARMAS_TRANSB, ARMAS_CTRANSB}) : 0);
            fill(A, ta ? k : m, ta ? m : k); fill(B, tb ? n : k, tb ? k : n); fill(C, m, n);
            LMat a = LMat::of(A), b = LMat::of(B); if (ta) a = a.T(); if (tb) b = b.T(); LMat p = mul(a, b); ref(p);
        } else if (op == 1) {
            bool right = r.chance(50), tb = r.chance(40); f = tri_ | (right ? ARMAS_RIGHT : ARMAS_LEFT) | (tb ? ARMAS_TRANSB : 0);
            int na = right ? n : m; fill(A, na, na); fill(B, tb ? n : m, tb ? m : n); fill(C, m, n); poison_tri(A, tri_);
            LMat a = symfull(A, f), b = LMat::of(B); if (tb) b = b.T(); LMat p = right ? mul(b, a) : mul(a, b); ref(p);
        } else {
            bool right = r.chance(50), tr = r.chance(50), un = op == 3 || r.chance(40);
            f = tri_ | (right ? ARMAS_RIGHT : ARMAS_LEFT) | (tr ? ARMAS_TRANS : 0) | (un ? ARMAS_UNIT : 0);
            int na = right ? n : m; fill(A, na, na);
            poison_tri(A, f); fill(B, m, n);
            LMat a = tri(A, f); if (tr) a = a.T(); LMat x = LMat::of(B), p = right ? mul(x, a) : mul(a, x);
            want.resize((size_t)m * n);
            if (op == 2) { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) want[(size_t)j * m + i] = (double)(al * p(i, j)); }
            else {     // B := A X; the solve must give back al * X
                for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { want[(size_t)j * m + i] = al * B.get(i, j); B.at(i, j) = (double)p(i, j); }
            }
        }
        A.save(); B.save(); if (op < 2) C.save();
    }
    void ref(const LMat &p) { want.resize((size_t)m * n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) want[(size_t)j * m + i] = (double)(al * p(i, j) + be * (LD)C.get(i, j)); }
    int call(armas_conf_t *cf) {
        switch (op) {
        case 0: return armas_mult(be, &C, al, &A, &B, f, cf);
        case 1: return armas_mult_sym(be, &C, al, &A, &B, f, cf);
        case 2: return armas_mult_trm(&B, al, &A, f, cf);
        default: return armas_solve_trm(&B, al, &A, f, cf);
        }
    }
    std::string str() const { static const char *N[] = {"mult", "symm", "trmm", "trsm"}; return fmt("%s %s m=%d n=%d k=%d", N[op], fl(f), m, n, k); }
    bool correct() { Mat &R = res(); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (R.get(i, j) != want[(size_t)j * m + i]) return false; return true; }
    void verify(Ctx &c, int rc, int err, bool may_fail) {
        A.is_const(c, "A"); if (op < 2) { B.is_const(c, "B"); C.only_outside(c, "C"); } else B.only_outside(c, "B");
        if (rc == 0) { if (!correct()) c.fail("wrong", str() + ": success reported for a wrong result"); else c.obs("results"); }
        else if (!may_fail) c.fail("ret", fmt("%s: returned %d", str().c_str(), rc));
        else { c.obs("refusals"); if (rc > 0) c.fail("positive", fmt("%s: returned %d", str().c_str(), rc)); if (err == 0) c.fail("noerror", fmt("%s: returned %d but recorded no error", str().c_str(), rc)); }
    }
};
static armas_conf_t conf0() { armas_conf_t cf = *armas_conf_default(); cf.error = 0; cf.optflags = 0; cf.work = nullptr; cf.accel = nullptr; return cf; }

// ------------------------------------------------------------------ faults while dispatching
OP(acc_faults, 6) {
    unhook(); Rng &r = c.rng; Prob P; P.make(c, 40);
    std::string s = set_acenv(r, (long)P.m * P.n, true); int kind = r.below(3); int what = r.below(3);
    Phase ph(c); armas_conf_t cf = conf0(); armas_ac_handle_t ac = nullptr;
    int when = r.chance(15) ? -1 : r.below(8);
    c.D("%s %s fault=%d,%d %s", KINDS[kind], s.c_str(), what, when, P.str().c_str()); c.nontrivial = true;
    armas_cbuf_release_thread_global();
    if (what == 2 && r.chance(30)) {     // memory runs out while the accelerator is created
        g_alloc.failed = 0; g_alloc.fail_at = r.below(6);
        int rc = armas_ac_init(&ac, KINDS[kind]); g_alloc.fail_at = -1;
        if (rc == 0 && !ac) c.fail("init-null", "success without a handle");
        if (rc < 0 && ac) c.fail("init-handle", "failure with a handle");
        if (g_alloc.failed) c.obs("faults");
    } else if (armas_ac_init(&ac, KINDS[kind]) != 0) c.fail("init", "accelerator cannot be created");
    cf.accel = ac;
    int calls = r.range(1, 3);
    for (int i = 0; i < calls; i++) {
        if (i) P.make(c, 40);
        long r0 = mon::refused; g_alloc.failed = 0;
        if (what < 2) { if (when < 0) mon::fail_all = 1; else mon::fail_at = when; }
        else { if (when < 0) g_alloc.sticky = 1; g_alloc.fail_at = r.below(6); }
        int rc = P.call(&cf);
        mon::fail_all = 0; mon::fail_at = -1; g_alloc.fail_at = -1; g_alloc.sticky = 0;
        bool hit = mon::refused > r0 || g_alloc.failed > 0;
        if (hit) c.obs("faults");
        P.verify(c, rc, cf.error, hit); cf.error = 0;
    }
    armas_ac_release(ac); ph.end(c, "release"); restore_acenv(); armas_cbuf_release_thread_global(); rehook();
}
// very elongated results: the index arithmetic of the partition
OP(acc_wide, 1) {
    unhook(); Rng &r = c.rng; Prob P; P.op = 0; P.f = 0; P.m = 1; P.k = 1; P.n = TSAN || ASAN ? 2000 : r.range(47000, 60000); if (r.chance(50)) std::swap(P.m, P.n);
    P.al = 1; P.be = 0; P.A.alloc(c, P.m, 1, 0); P.B.alloc(c, 1, P.n, 0); P.C.alloc(c, P.m, P.n, 0);
    for (int i = 0; i < P.m; i++) P.A.at(i, 0) = i % 97 + 1; for (int j = 0; j < P.n; j++) P.B.at(0, j) = j % 89 + 1; for (int j = 0; j < P.n; j++) for (int i = 0; i < P.m; i++) P.C.at(i, j) = 0;
    P.ref(mul(LMat::of(P.A), LMat::of(P.B))); P.A.save(); P.B.save(); P.C.save();
    set_acenv(r, 1, false); struct armas_ac_env *e = armas_ac_getenv(); e->options = r.pick({0, (int)ARMAS_OBLAS_TILED}); e->num_items = 1; int kind = r.below(3);
    Phase ph(c); mon::delay = 0; armas_conf_t cf = conf0(); c.D("%s m=%d n=%d opt=%x cores=%zu", KINDS[kind], P.m, P.n, e->options, e->max_cores); c.nontrivial = true;
    if (armas_ac_init(&cf.accel, KINDS[kind])) c.fail("init", "accelerator cannot be created");
    int rc = P.call(&cf); P.verify(c, rc, cf.error, false);
    armas_ac_release(cf.accel); ph.end(c, "release"); restore_acenv(); rehook();
}

// ------------------------------------------------------------------ C08: histories
struct Caller {
    Ctx cx; std::vector<armas_ac_handle_t> *shared; std::vector<std::unique_ptr<Prob>> probs; std::vector<int> which; int private_kind = -1;
    std::vector<int> rc, err; bool bad_init = false; std::atomic<int> *gate;
};
static void *caller(void *p) {
    Caller &k = *(Caller *)p;
    armas_ac_handle_t mine = nullptr;
    k.gate->fetch_sub(1, std::memory_order_relaxed); while (k.gate->load(std::memory_order_relaxed) > 0) sched_yield();
    if (k.private_kind >= 0 && (armas_ac_init(&mine, KINDS[k.private_kind]) != 0 || !mine)) k.bad_init = true;
    for (size_t i = 0; i < k.probs.size(); i++) {
        armas_conf_t cf = conf0();
        cf.accel = k.which[i] < 0 ? mine : (*k.shared)[k.which[i]];
        int rc = k.probs[i]->call(&cf);
        k.rc.push_back(rc); k.err.push_back(cf.error);
    }
    armas_ac_release(mine);
    armas_cbuf_release_thread_global();
    return 0;
}
OP(acc_history, 10) {
    unhook(); Rng &r = c.rng; std::string s = set_acenv(r, r.pick({60, 400, 1500}), true);
    Phase ph(c); int nacc = r.range(1, 3), nphase = r.range(1, 2);
    std::vector<armas_ac_handle_t> acc(nacc); std::string kinds; c.nontrivial = true;
    for (int i = 0; i < nacc; i++) { int kd = r.below(3); kinds += KINDS[kd][0]; if (armas_ac_init(&acc[i], KINDS[kd])) c.fail("init", "accelerator cannot be created"); }
    int total = 0, ncalls = 0;
    for (int p = 0; p < nphase; p++) {
        int nc = r.range(1, 4); std::atomic<int> gate{nc}; std::vector<std::unique_ptr<Caller>> cs;
        for (int i = 0; i < nc; i++) {
            auto *k = new Caller; cs.emplace_back(k); k->cx.op = c.op; k->cx.n = c.n; k->cx.tier = c.tier; k->cx.verbose = c.verbose; k->cx.rng = Rng(r.next()); k->gate = &gate; k->shared = &acc;
            if (r.chance(35)) k->private_kind = r.below(3);
            int n = r.range(1, 4);
            for (int q = 0; q < n; q++) { k->probs.emplace_back(new Prob); k->probs.back()->make(k->cx, 30, r.chance(60) ? 0 : -1); k->which.push_back(k->private_kind >= 0 && r.chance(50) ? -1 : r.below(nacc)); }
            ncalls += n;
        }
        total += nc;
        std::vector<pthread_t> th;
        for (int i = 1; i < nc; i++) th.push_back(spawn(caller, cs[i].get()));
        caller(cs[0].get());
        for (auto t : th) await(t);
        for (auto &k : cs) {
            if (k->bad_init) c.fail("init", "accelerator cannot be created in a caller's thread");
            for (size_t i = 0; i < k->probs.size(); i++) k->probs[i]->verify(k->cx, k->rc[i], k->err[i], false);
            c.merge(k->cx);
        }
        // between phases an accelerator may be released and replaced
        if (p + 1 < nphase && r.chance(60)) { int i = r.below(nacc); armas_ac_release(acc[i]); if (armas_ac_init(&acc[i], KINDS[r.below(3)])) c.fail("init", "accelerator cannot be created again"); }
    }
    c.D("%s accs=%s callers=%d phases=%d calls=%d", s.c_str(), kinds.c_str(), total, nphase, ncalls);
    for (auto a : acc) armas_ac_release(a);
    ph.end(c, "release"); c.obs("histories"); restore_acenv(); rehook();
}
// creation and release without use, release in another order, null handles
OP(acc_idle, 1) {
    unhook(); Rng &r = c.rng; set_acenv(r, 400, true); Phase ph(c); mon::delay = 0; c.nontrivial = true;
    int kind = r.below(3); armas_ac_handle_t a = nullptr, b = nullptr;
    int what = r.below(4); c.D("%s what=%d", KINDS[kind], what);
    if (what == 0) { armas_ac_init(&a, KINDS[kind]); armas_ac_release(a); armas_ac_release(nullptr); }
    else if (what == 1) {
        a = (armas_ac_handle_t)&a; if (armas_ac_init(&a, nullptr) >= 0) c.fail("null-name", "accelerator without a name accepted");
        a = (armas_ac_handle_t)&a; if (armas_ac_init(&a, "no/such/accelerator.so") >= 0) c.fail("bad-name", "unknown accelerator accepted"); else if (a) c.fail("bad-handle", "handle left behind by a refused creation");
        armas_conf_t cf = conf0(); Prob P; P.make(c, 20); P.verify(c, P.call(&cf), cf.error, false);   // no accelerator at all
    } else if (what == 2) {     // an idle pool takes no processor time
        armas_ac_init(&a, KINDS[1]); armas_ac_getenv()->num_items = 16; armas_conf_t cf = conf0(); cf.accel = a; Prob P; P.make(c, 30, 0); P.verify(c, P.call(&cf), cf.error, false);
        struct timespec t = {0, 120000000}, x, y; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &x); nanosleep(&t, 0); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &y);
        double ms = (y.tv_sec - x.tv_sec) * 1e3 + (y.tv_nsec - x.tv_nsec) * 1e-6; c.obs("idle-checks");
        if (ms > 80) c.fail("idle-cpu", fmt("an idle worker pool used %.0f ms of processor time in 120 ms", ms));
        armas_ac_release(a);
    } else {     // pinning
        cpu_set_t have; sched_getaffinity(0, sizeof have, &have); std::vector<int> l; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &have)) l.push_back(i);
        struct armas_ac_env *e = armas_ac_getenv(); CPU_ZERO(&e->cpus); int nc = r.range(0, 3); for (int i = 0; i < nc; i++) CPU_SET(l[r.below((int)l.size())], &e->cpus);
        cpu_set_t want = e->cpus; e->num_items = 16; e->options &= ~ARMAS_OBLAS_TILED;
        armas_ac_init(&a, KINDS[1]); armas_conf_t cf = conf0(); cf.accel = a; Prob P; P.make(c, 30, 0); P.verify(c, P.call(&cf), cf.error, false);
        int nt = std::min(mon::ntid.load(), mon::MAXT);
        for (int i = 1; i < nt; i++) { int t = mon::tids[i]; cpu_set_t got; if (!t || sched_getaffinity(t, sizeof got, &got)) continue;
            if (CPU_COUNT(&want) == 0) { if (!CPU_EQUAL(&got, &have)) c.fail("pinned", "worker pinned although no processors were configured"); }
            else { cpu_set_t both; CPU_AND(&both, &got, &want); if (CPU_COUNT(&got) != 1 || !CPU_EQUAL(&both, &got)) c.fail("pinning", fmt("worker thread not pinned to one of the configured processors (allowed on %d, configured %d, common %d)", CPU_COUNT(&got), CPU_COUNT(&want), CPU_COUNT(&both))); }
            c.obs("pinning-checks"); }
        armas_ac_release(a);
    }
    ph.end(c, "release"); restore_acenv(); rehook();
}

// ------------------------------------------------------------------ first use from several threads in a fresh process
static std::atomic<int> cold_gate; static std::atomic<int> cold_bad{0};
static void *cold_thread(void *p) {
    Caller &k = *(Caller *)p; Rng &r = k.cx.rng;
    cold_gate.fetch_sub(1, std::memory_order_relaxed); while (cold_gate.load(std::memory_order_relaxed) > 0) ;
    int what = r.below(4); armas_ac_handle_t a = nullptr;
    armas_conf_t cf; memset(&cf, 0, sizeof cf);
    if (what == 0) { armas_env_t *e = armas_getenv(); if (e->mb <= 0 || e->cmem < 4096) cold_bad |= 1; }
    if (what == 1) { if (armas_ac_init(&a, KINDS[r.below(3)]) || !a) cold_bad |= 2; cf.accel = a; }
    if (what == 2) { armas_conf_t *d = armas_conf_default(); if (d->tolmult <= 0) cold_bad |= 4; }
    if (what == 3) { struct armas_ac_env *e = armas_ac_getenv(); if (e->max_cores < 1 || e->num_items < 1) cold_bad |= 8; }
    for (auto &q : k.probs) { int rc = q->call(&cf); if (rc || !q->correct()) cold_bad |= 16; }
    armas_ac_release(a); armas_cbuf_release_thread_global();
    return 0;
}
static int cold_main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[2], 0, 10); Rng r(seed); r.next(); int nt = r.range(2, 6);
    std::vector<std::unique_ptr<Caller>> cs; std::vector<pthread_t> th; cold_gate = nt;
    for (int i = 0; i < nt; i++) { auto *k = new Caller; cs.emplace_back(k); k->cx.rng = Rng(r.next()); int n = r.range(1, 2); for (int q = 0; q < n; q++) { k->probs.emplace_back(new Prob); k->probs.back()->make(k->cx, 30); } }
    for (int i = 0; i < nt; i++) { pthread_t t; __real_pthread_create(&t, 0, cold_thread, cs[i].get()); th.push_back(t); }
    for (auto t : th) __real_pthread_join(t, 0);
    if (cold_bad) { fprintf(stderr, "COLD wrong %d\n", cold_bad.load()); return 9; }
    return 0;
}
static struct ColdUp { ColdUp() { g_cold_main = cold_main; } } coldup;
OP(acc_cold, 2) {
    unhook(); Rng &r = c.rng; uint64_t s = r.next() >> 1; c.nontrivial = true; monitors_on();
    static const char *E1[] = {"", "24,24,32,8,64,32,y", "16,16,16", "64,64,160,32,1024,256,n"}, *E2[] = {"", "64,4,BR", "20,3,TZ2,0-1", "100,2"}, *E3[] = {"", "65536,8192", "128K,16K"};
    const char *e1 = E1[r.below(4)], *e2 = E2[r.below(4)], *e3 = E3[r.below(3)]; c.D("seed=%llu cfg=%s ac=%s cache=%s", (unsigned long long)s, e1, e2, e3);
    int pp[2]; if (pipe(pp)) return; fflush(0);
    char sb[32], exe[512]; snprintf(sb, sizeof sb, "%llu", (unsigned long long)s); ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[k > 0 ? k : 0] = 0;
    std::vector<std::string> ev; for (char **e = environ; *e; e++) if (strncmp(*e, "ARMAS_", 6)) ev.push_back(*e);
    if (*e1) ev.push_back(std::string("ARMAS_CONFIG=") + e1); if (*e2) ev.push_back(std::string("ARMAS_AC_CONFIG=") + e2); if (*e3) ev.push_back(std::string("ARMAS_CACHE=") + e3);
    std::vector<char *> env; for (auto &x : ev) env.push_back(&x[0]); env.push_back(0);
    char *argv[] = {exe, (char *)"--cold", sb, 0};
    pid_t pid = vfork(); if (pid == 0) { dup2(pp[1], 2); close(pp[0]); execve(exe, argv, env.data()); _exit(127); }
    close(pp[1]); std::string log; char buf[4096]; while ((k = read(pp[0], buf, sizeof buf)) > 0) if (log.size() < 20000) log.append(buf, k); close(pp[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (st) {
        std::string key = WIFSIGNALED(st) ? fmt("signal-%d", WTERMSIG(st)) : fmt("exit-%d", WEXITSTATUS(st)); size_t q = log.find("SUMMARY: ");
        if (q != std::string::npos) { std::string l = log.substr(q, log.find('\n', q) - q); size_t i = l.rfind(" in "); key = l.find("data race") != std::string::npos ? "race" : "sanitizer"; if (i != std::string::npos) key += ":" + l.substr(i + 4); }
        c.fail("cold:" + key, log.substr(0, 1500));
    }
    c.obs("cold-starts"); rehook();
}
