// Library configuration: every setting the environment can produce, in this process and in fresh ones.
#include "ref.hpp"
#define private private_
extern "C" {
#include "accel.h"
}
#undef private
#include <sched.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <set>
extern char **environ;

// ------------------------------------------------------------------ settings that the environment can produce, applied under the oracles of every operation
static Rng *h_rng; static armas_env_t h_env; static std::string h_desc; static long h_hooks;
static void hostile_hook(Ctx &c, Config &) { *armas_getenv() = h_env; armas_cbuf_release_thread_global(); h_hooks++; c.D("%s", h_desc.c_str()); }
static void hostile_env(Rng &r) {
    armas_env_t e = g_env0;
    auto blk = [&](int big) { int k = r.below(10); return k < 4 ? r.range(1, 12) : k < 7 ? 4 * r.range(1, 40) : k < 9 ? r.range(1, 300) : r.pick({big, 1 << 30, INT_MAX, 65536, 1 << 20}); };
    int what = r.below(1 << 8);
    if (what & 1) { e.mb = blk(4096); } if (what & 2) e.nb = blk(4096); if (what & 4) e.kb = blk(4096);
    if (r.chance(6)) { e.mb = r.pick({1 << 29, 1 << 30, 1 << 28}); e.nb = r.pick({1 << 29, 1 << 30, 1 << 28}); e.kb = r.pick({1 << 29, 1 << 30, INT_MAX}); }
    if (what & 8) e.lb = r.chance(60) ? r.range(1, 12) : r.chance(70) ? r.range(1, 200) : r.pick({500, 1024, 2048});
    if (what & 16) e.blas1min = r.chance(60) ? r.range(2, 20) : r.pick({64, 1000, 65536, INT_MAX});
    if (what & 32) e.blas2min = r.chance(60) ? r.range(2, 20) : r.pick({64, 1000, 65536, INT_MAX});
    if (what & 64) { e.cmem = r.chance(50) ? 4096 + r.below(4096) : r.chance(60) ? 4096 + r.below(100000) : (size_t)r.pick({1 << 20, 4 << 20, 1 << 24}); }
    if (what & 128) { e.l1mem = r.chance(50) ? 1024 + r.below(4096) : r.pick({1025, 100000, 1 << 24, INT_MAX}); }
    e.fixed = r.chance(40);
    h_env = e;
    h_desc = fmt("host=mb%d,nb%d,kb%d,lb%d,b1_%d,b2_%d,c%zu,l%zu,f%d", e.mb, e.nb, e.kb, e.lb, e.blas1min, e.blas2min, e.cmem, e.l1mem, e.fixed);
}
static bool own(const char *n) { return !strncmp(n, "cfg_", 4); }
static const OpEnt &any_op(Rng &r) { const OpEnt *e; do e = &all_ops()[r.below((int)all_ops().size())]; while (own(e->name)); return *e; }
OP(cfg_hostile, 24) {
    Rng &r = c.rng; hostile_env(r); const OpEnt &e = any_op(r);
    c.op = std::string("hostile:") + e.name; h_hooks = 0; g_config_hook = hostile_hook;
    c.D("%s", e.name); e.fn(c); g_config_hook = nullptr;
    if (h_hooks) { c.obs("hostile-cases"); static std::set<std::string> seen; if (seen.insert(e.name).second) c.obs("distinct-operations"); }
}

// the same call with the same data under two settings agrees (up to rounding) element by element
OP(cfg_pair, 4) {
    Rng &r = c.rng; reset_env(); int n = pick_dim(c, 150), m = pick_dim(c, 150), k = pick_dim(c, 120); int what = r.below(8);
    Mat A(c, m, k, GEN_UNI), B(c, k, n, GEN_UNI), S(c, m, m, GEN_UNI), C0(c, m, n, GEN_UNI);
    for (int i = 0; i < m; i++) S.at(i, i) = 4 * m + 1;
    int f = r.pick({ARMAS_LOWER, ARMAS_UPPER}); std::vector<double> first; std::string d; LD scale = 0;
    uint64_t seed0 = r.next();
    for (int round = 0; round < 3; round++) {
        reset_env(); if (round) { hostile_env(r); *armas_getenv() = h_env; armas_cbuf_release_thread_global(); d += " " + h_desc; }
        armas_conf_t cf = *armas_conf_default(); cf.error = 0; cf.work = nullptr; cf.accel = nullptr;
        cf.optflags = round == 2 ? r.pick({0, (int)ARMAS_ONAIVE, (int)ARMAS_ORECURSIVE, (int)ARMAS_CBUF_LOCAL}) : 0;
        Mat C(c, m, n), T(c, m, m); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) C.at(i, j) = C0.get(i, j); for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) T.at(i, j) = S.get(i, j);
        Mat *out = std::addressof(C); int rc = 0; double tolm = 1;
        switch (what) {
        case 0: rc = armas_mult(0.5, C, 2, A, B, 0, &cf); tolm = k + 4; break;
        case 1: rc = armas_mult_sym(0, C, 1, S, C0, f | ARMAS_LEFT, &cf); tolm = 8 * m; break;
        case 2: rc = armas_mult_trm(C, 1, S, f | ARMAS_LEFT, &cf); tolm = 8 * m; break;
        case 3: rc = armas_solve_trm(C, 1, S, f | ARMAS_LEFT, &cf); tolm = m + 4; break;
        case 4: out = std::addressof(T); rc = armas_update_sym(1, T, 1, A, f, &cf); tolm = 8 * m + k; break;
        case 5: out = std::addressof(T); rc = armas_lufactor(T, nullptr, &cf); tolm = 40 * m; break;
        case 6: out = std::addressof(T); for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) T.at(i, j) = i == j ? 4 * m + 1 : 0.5 * (S.get(i, j) + S.get(j, i)); rc = armas_cholfactor(T, nullptr, f, &cf); tolm = 40 * m; break;
        default: { Mat tau(c, m, 1); out = std::addressof(T); rc = armas_qrfactor(T, tau, &cf); tolm = 400 * m; } break;
        }
        if (rc) { c.fail("rc", fmt("op %d refused (%d, error %d) under%s", what, rc, cf.error, d.c_str())); break; }
        std::vector<double> v; for (int j = 0; j < out->c; j++) for (int i = 0; i < out->r; i++) v.push_back(out->get(i, j));
        if (!round) { first = v; for (double x : v) scale = std::max(scale, fabsl((LD)x)); continue; }
        for (size_t i = 0; i < v.size(); i++) if (!(fabsl((LD)v[i] - first[i]) <= 8 * tolm * 2.3e-16L * (scale + 1))) { c.fail(fmt("differs-%d", what), fmt("%dx%d,%d element %zu: %.17g default, %.17g under%s", m, n, k, i, first[i], v[i], d.c_str())); break; }
        c.obs("compared", v.size());
    }
    c.D("pair op=%d %dx%d,%d%s", what, m, n, k, d.c_str()); c.nontrivial = m > 1 && n > 1;
}

// ------------------------------------------------------------------ fresh process started with environment strings
static armas_env_t e_parsed;
static void parsed_hook(Ctx &, Config &) { *armas_getenv() = e_parsed; armas_cbuf_release_thread_global(); }
static int cfg_main(int argc, char **argv) {
    alarm(100); set_out(stdout);
    uint64_t seed = strtoull(argv[2], 0, 10); int nops = atoi(argv[3]); Rng r(seed); r.next();
    int first = r.below(4);      // which call reads the environment
    if (first == 0) armas_conf_default(); else if (first == 1) armas_ac_getenv(); else if (first == 2) armas_cbuf_create_thread_global();
    armas_env_t e = *armas_getenv(); struct armas_ac_env *a = armas_ac_getenv(); e_parsed = e;
    unsigned long mask = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET(i, &a->cpus)) mask |= 1ul << i;
    printf("CFG %d %d %d %d %d %d %zu %zu %d %zu %zu %x %lx %d\n", e.mb, e.nb, e.kb, e.lb, e.blas1min, e.blas2min, e.cmem, e.l1mem, e.fixed, (size_t)a->num_items, (size_t)a->max_cores, a->options, mask, CPU_COUNT(&a->cpus));
    for (const char *n : {"ARMAS_CONFIG", "ARMAS_CACHE", "ARMAS_AC_CONFIG"}) { const char *v = getenv(n); printf("ENV %s %s\n", v ? "=" : "-", v ? v : ""); }
    fflush(stdout);
    g_config_hook = parsed_hook; armas_cbuf_release_thread_global(); armas_conf_default()->error = 0;
    long live = 0, n = 0;
    for (int i = 0; i < nops; i++) {
        Ctx c; const OpEnt &op = any_op(r); c.op = std::string("env:") + op.name; c.n = i; c.rng = Rng(r.next());
        printf("OP %s\n", op.name); fflush(stdout);
        op.fn(c); n++; reset_env();
    }
    // an accelerator created under the parsed settings works
    for (const char *k : {"SIMPLE", "WORKERS", "TRANSIENT"}) {
        armas_ac_handle_t h = nullptr; printf("OP accel-%s\n", k); fflush(stdout);
        if (armas_ac_init(&h, k)) { printf("BAD accel\n"); continue; }
        Ctx c; c.op = "env:accel"; c.rng = Rng(r.next());
        { int m = 90; Mat A(c, m, m, GEN_UNI), B(c, m, m, GEN_UNI), C(c, m, m, GEN_UNI); *armas_getenv() = e_parsed; armas_conf_t cf = *armas_conf_default(); cf.accel = h; cf.work = nullptr; cf.error = 0; cf.optflags = 0;
          int rc = armas_mult(0, C, 1, A, B, 0, &cf); LMat want = mul(LMat::of(A), LMat::of(B)); LD worst = 0; for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) worst = std::max(worst, fabsl(C.get(i, j) - want(i, j)));
          if (rc || !(worst < 1e-12)) printf("BAD accel %s rc %d err %d worst %Lg\n", k, rc, cf.error, worst); }
        armas_ac_release(h); reset_env();
    }
    printf("DONE %ld\n", n + live); fflush(stdout);
    return 0;
}
static struct ColdUp { ColdUp() { g_cold_main = cfg_main; } } coldup;

// one field: text and the values the library may take for it (the default is always known)
struct Fld { std::string text; std::set<long> ok; };
static Fld int_field(Rng &r, long dflt, long lo, long hi, long ceil) {
    Fld f; int k = r.below(20);
    if (k < 11) { long v = r.chance(50) ? r.range(lo, std::min(hi, lo + 40)) : r.range(lo, hi); f.text = fmt("%ld", v); f.ok = {v}; if (ceil && v >= ceil) f.ok = {dflt, v > dflt ? dflt : v}; }
    else if (k < 13) { f.text = ""; f.ok = {dflt}; }
    else {
        static const char *bad[] = {"0", "-1", "-64", "abc", " ", "x12", "y", "99999999999", "4294967297", "-99999999999999999999", "99999999999999999999999", "--5", "%s%n", "\xff\xfe", "0x", "+"};
        f.text = bad[r.below(16)]; f.ok = {dflt};
    }
    if (r.chance(4) && f.text.size() && isdigit((unsigned char)f.text[0])) { f.text += r.pick({' ', 'z', '.'}); f.ok.insert(dflt); }
    return f;
}
static Fld size_field(Rng &r, long dflt, long lo) {
    Fld f; int k = r.below(20);
    if (k < 4) { long v = r.range(lo, 1 << 20); f.text = fmt("%ld", v); f.ok = {v}; }
    else if (k < 8) { long v = r.range((int)(lo + 1023) / 1024, 2000); f.text = fmt("%ld%c", v, r.pick({'K', 'k'})); f.ok = {v * 1024}; }
    else if (k < 10) { long v = r.range(1, 16); f.text = fmt("%ld%c", v, r.pick({'M', 'm'})); f.ok = {v << 20}; }
    else if (k < 12) { long v = r.range(1, (int)lo - 1); f.text = fmt("%ld", v); f.ok = {lo, dflt}; }
    else if (k < 14) { f.ok = {dflt}; }
    else {
        static const char *bad[] = {"0", "-1", "-4096", "K", "M", "abc", " ", "18446744073709551615M", "99999999999999999999999", "-1M", "0K", "y", "18014398509481985K"};
        f.text = bad[r.below(13)]; f.ok = {dflt};
    }
    return f;
}
OP(cfg_env, 4) {
    Rng &r = c.rng; long np = sysconf(_SC_NPROCESSORS_ONLN); uint64_t s = r.next() >> 1; reset_env();
    std::string cfg, cache, ac; std::vector<std::set<long>> want(14);
    long D[11] = {64, 64, 160, 64, 1024, 256, 262144, 32768, 0, 160000, np};
    for (int i = 0; i < 11; i++) want[i] = {D[i]};
    bool h1 = r.chance(75), h2 = r.chance(60), h3 = r.chance(55);
    if (h1) {
        int n = r.chance(60) ? 7 : r.range(1, 9);
        for (int i = 0; i < n; i++) {
            Fld f; if (i < 6) { f = int_field(r, D[i], 1, i >= 4 ? 2000 : i == 3 ? 100 : 400, 0); if (i >= 4 && f.ok.count(1)) f.ok.insert({2, D[i]}); want[i] = f.ok; }
            else if (i == 6) { int k = r.below(6); f.text = k == 0 ? "y" : k == 1 ? "Y" : k == 2 ? "yes" : k == 3 ? "n" : k == 4 ? "no" : ""; want[8] = {k < 3}; }
            else f.text = r.pick({std::string("n"), std::string("77"), std::string(""), std::string("junk")});
            if (i) cfg += ","; cfg += f.text;
        }
    }
    if (h2) {
        int n = r.chance(70) ? 2 : r.range(1, 4);
        for (int i = 0; i < n; i++) { Fld f; if (i < 2) { f = size_field(r, D[6 + i], i ? 1024 : 4096); want[6 + i] = f.ok; } else f.text = r.pick({std::string("n"), std::string("77"), std::string("")}); if (i) cache += ","; cache += f.text; }
    }
    unsigned long mask = 0; bool maskknown = true; std::set<long> opts = {0};
    if (h3) {
        Fld f = int_field(r, D[9], 1, 100000, 0); want[9] = f.ok; ac = f.text; int n = r.range(0, 6);
        if (n > 0) { f = int_field(r, np, 1, 12, np); want[10] = f.ok; ac += "," + f.text; }
        if (n > 1) {
            long o = 0; std::string t; int k = r.below(4); if (k == 1) { t += r.pick({'B', 'b'}); o |= ARMAS_OBLAS_BLOCKED; } else if (k == 2) { t += r.pick({'T', 't'}); o |= ARMAS_OBLAS_TILED; }
            if (k && t.size()) { k = r.below(3); if (k == 1) { t += r.pick({'R', 'r'}); o |= ARMAS_OSCHED_ROUNDROBIN; } else if (k == 2) { t += r.pick({'Z', 'z'}); o |= ARMAS_OSCHED_RANDOM; }
                if (r.chance(30)) { t += '2'; o |= ARMAS_OSCHED_TWO; } }
            opts = {o}; ac += "," + t;
        }
        for (int i = 2; i < n; i++) {
            auto set = [&](long v) { if (v >= 0 && v < np && v < 64) mask |= 1ul << v; };
            int k = r.below(8); std::string t;
            if (k == 0) { long v = r.range(0, (int)np + 2); t = fmt("%ld", v); set(v); }
            else if (k == 1) { long a = r.range(0, (int)np), b = r.range(0, (int)np + 40), st = r.range(1, 4); bool w = r.chance(50); t = w ? fmt("%ld-%ld/%ld", a, b, st) : fmt("%ld-%ld", a, b); for (long v = a; v <= b; v += w ? st : 1) set(v); }
            else if (k == 2) { unsigned long m = r.next() & (r.chance(50) ? 0xffUL : ~0UL); t = fmt("0x%lx", m); for (int b = 0; b < 64; b++) if (m >> b & 1) set(b); }
            else if (k == 3) { long a = r.range(0, (int)np); unsigned long m = r.next() & (r.chance(50) ? 0xfUL : ~0UL); t = fmt("%ld:0x%lx", a, m); for (int b = 0; b < 64; b++) if (m >> b & 1) set(a + b); }
            else if (k == 4) t = "";
            else { static const char *bad[] = {"-1", "-3-2", "99999999999999999999", "abc", ":", "-", "/", "2-1", "x", "5-7/0", "0-7/-1", "-5:0xff", "99999999999999999999:0x1", "9223372036854775807:0xff", "1:zz", "0x", "z:1"};
                   t = bad[r.below(17)]; if (t == "5-7/0") { /* no step: nothing, or the range once */ maskknown = false; } if (t == "0-7/-1") maskknown = false; }
            ac += "," + t;
        }
    }
    // the three strings, and a child process
    char sb[32], nb[8], exe[512]; snprintf(sb, sizeof sb, "%llu", (unsigned long long)s); snprintf(nb, sizeof nb, "%d", r.range(2, 8));
    ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[k > 0 ? k : 0] = 0;
    std::vector<std::string> ev; for (char **e = environ; *e; e++) if (strncmp(*e, "ARMAS_", 6)) ev.push_back(*e);
    if (h1) ev.push_back("ARMAS_CONFIG=" + cfg); if (h2) ev.push_back("ARMAS_CACHE=" + cache); if (h3) ev.push_back("ARMAS_AC_CONFIG=" + ac);
    c.D("child seed=%s CONFIG=%s CACHE=%s AC=%s", sb, h1 ? cfg.c_str() : "-", h2 ? cache.c_str() : "-", h3 ? ac.c_str() : "-"); c.nontrivial = h1 || h2 || h3;
    std::vector<char *> env; for (auto &x : ev) env.push_back(&x[0]); env.push_back(0);
    char *argv[] = {exe, (char *)"--cold", sb, nb, 0}; int pp[2]; if (pipe(pp)) return; fflush(0);
    pid_t pid = vfork(); if (pid == 0) { dup2(pp[1], 1); dup2(pp[1], 2); close(pp[0]); close(pp[1]); execve(exe, argv, env.data()); _exit(127); }
    close(pp[1]); std::string log; char buf[4096]; while ((k = read(pp[0], buf, sizeof buf)) > 0) if (log.size() < 100000) log.append(buf, k); close(pp[0]);
    int st = 0; waitpid(pid, &st, 0);
    std::vector<long> got(14, -1); bool have = false, done = false; std::string lastop = "start"; std::vector<std::string> envs;
    for (size_t p = 0; p < log.size();) {
        size_t q = log.find('\n', p); if (q == std::string::npos) q = log.size(); std::string l = log.substr(p, q - p); p = q + 1;
        if (!l.compare(0, 4, "CFG ")) { unsigned long u[14]; int o = 0; have = sscanf(l.c_str(), "CFG %ld %ld %ld %ld %ld %ld %ld %ld %ld %ld %ld %lx %lx %ld", &got[0], &got[1], &got[2], &got[3], &got[4], &got[5], &got[6], &got[7], &got[8], &got[9], &got[10], (unsigned long *)&got[11], (unsigned long *)&got[12], &got[13]) == 14; }
        else if (!l.compare(0, 4, "ENV ")) envs.push_back(l.substr(4));
        else if (!l.compare(0, 3, "OP ")) lastop = l.substr(3);
        else if (!l.compare(0, 4, "BAD ")) c.fail("env-accel", l);
        else if (!l.compare(0, 5, "DONE ")) done = true;
        else if (l.find("\"t\":\"v\"") != std::string::npos) { size_t a = l.find("\"key\":\""); std::string key = a == std::string::npos ? "?" : l.substr(a + 7, l.find('"', a + 7) - a - 7); c.fail("child:" + key, l.substr(0, 600)); }
    }
    if (st || !done) {
        std::string key = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : fmt("signal-%d", WTERMSIG(st))) : fmt("exit-%d", WEXITSTATUS(st)); size_t q = log.find("SUMMARY: ");
        if (q != std::string::npos) { std::string l = log.substr(q, log.find('\n', q) - q); size_t i = l.rfind(" in "); key = "sanitizer"; if (i != std::string::npos) key += ":" + l.substr(i + 4); }
        c.fail("env-" + key, fmt("during %s: ", lastop.c_str()) + log.substr(log.size() > 1200 ? log.size() - 1200 : 0));
    }
    if (have) {
        static const char *nm[] = {"mb", "nb", "kb", "lb", "b1min", "b2min", "cmem", "l1mem", "fixed", "items", "maxproc"};
        for (int i = 0; i < 11; i++) if (!want[i].count(got[i])) c.fail(std::string("env-field-") + nm[i], fmt("%s is %ld, expected %ld (default %ld)", nm[i], got[i], *want[i].begin(), D[i]));
        if (!opts.count(got[11])) c.fail("env-field-policy", fmt("options %lx, expected %lx", got[11], *opts.begin()));
        if (maskknown && (unsigned long)got[12] != mask) c.fail("env-field-cpus", fmt("processors %lx, expected %lx", got[12], mask));
        c.obs("parsed-fields", 13);
        for (size_t i = 0; i < 3; i++) { std::string w = i == 0 ? (h1 ? "= " + cfg : "- ") : i == 1 ? (h2 ? "= " + cache : "- ") : (h3 ? "= " + ac : "- "); if (i >= envs.size() || envs[i] != w) c.fail("env-modified", fmt("environment string became '%s', was '%s'", i < envs.size() ? envs[i].c_str() : "?", w.c_str())); }
        c.obs("environments");
    } else if (!st) c.fail("env-nosettings", log.substr(0, 400));
}
