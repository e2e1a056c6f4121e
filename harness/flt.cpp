// Every allocation point of every operation fails in turn, under the operation's own oracle.
#include "ref.hpp"
#include <exception>

struct Reported { std::string what, msg; };
static std::string f_first; static bool f_on;
// A failure the harness notices after an allocation was refused is either the operation reporting it (the
// case ends there), or something wrong (kept).
static bool reports(const std::string &w, const std::string &m) {
    if (!w.compare(0, 5, "null:")) return true;
    if (!w.compare(0, 10, "error-code") && m.find("error code 8") != std::string::npos) return true;
    if (w == "token:type") return m.find("read as 0x80000") != std::string::npos;   // an error token, or end of file
    static const char *const k[] = {
#include "flt_keys.inc"
        nullptr };
    for (int i = 0; k[i]; i++) if (w == k[i]) return true;
    return false;
}
static void hook(Ctx &c, const std::string &w, const std::string &m) {
    if (!f_on || !g_alloc.failed || c.op.compare(0, 4, "flt:")) return;
    if (!reports(w, m)) return;
    if (w == "ret") {      // the operations with a configuration record the reason there
        int rc = 0, er = 0; if (sscanf(m.c_str(), "returned %d (conf error %d)", &rc, &er) == 2 && (rc >= 0 || er != ARMAS_EMEMORY)) { g_fail_hook = nullptr; c.fail("fault-code", fmt("out of memory reported as %d with error code %d", rc, er)); g_fail_hook = hook; }
    }
    throw Reported{w, m};
}
static bool own(const char *n) { return !strncmp(n, "flt_", 4) || !strncmp(n, "io_hostile", 10); }
struct Run { long allocs, failed, leak; bool reported; int failures; std::string desc; };
static Run once(Ctx &c, const OpEnt &e, uint64_t seed, long at, int sticky) {
    Run R; Ctx s; s.op = std::string("flt:") + e.name; s.n = c.n; s.seed = c.seed; s.tier = 0; s.verbose = c.verbose; s.rng = Rng(seed); s.rng.next();
    reset_env(); armas_conf_default()->error = 0;
    long l0 = live_allocs(), t0 = g_alloc.total; R.reported = false;
    if (at >= 0) { s.D("fault=%ld%s", at, sticky ? "+" : ""); s.tag = ""; }
    g_alloc.failed = 0; g_alloc.sticky = sticky; g_alloc.fail_at = at; f_on = at >= 0; g_fail_hook = hook;
    try { e.fn(s); } catch (Reported &r) { R.reported = true; f_first = r.what; }
    g_fail_hook = nullptr; f_on = false; g_alloc.fail_at = -1; g_alloc.sticky = 0;
    R.failed = g_alloc.failed; g_alloc.failed = 0; reset_env();
    R.allocs = g_alloc.total - t0; R.leak = live_allocs() - l0;
    if (R.leak) s.fail("leak", fmt("%ld allocations not released after %s (%s)", R.leak, at < 0 ? "a run without faults" : R.reported ? "a reported failure" : "success in spite of a failure", s.desc.c_str()));
    R.failures = s.failures; R.desc = s.desc; c.failures += s.failures;
    return R;
}
OP(flt_op, 1) {
    Rng &r = c.rng; const OpEnt *e; do e = &all_ops()[r.below((int)all_ops().size())]; while (own(e->name));
    uint64_t seed = r.next(); c.D("%s", e->name);
    Run b = once(c, *e, seed, -1, 0); c.D("%s allocations=%ld", b.desc.c_str(), b.allocs);
    c.obs("allocations", b.allocs); if (b.allocs) c.obs("allocating-cases"); c.nontrivial = b.allocs > 0;
    static std::set<std::string> seen, seenf; if (b.allocs && seen.insert(e->name).second) c.obs("allocating-operations");
    std::vector<long> at; long lim = c.tier ? 24 : 10; for (long k = 0; k < b.allocs; k++) at.push_back(k);
    while ((long)at.size() > lim) at.erase(at.begin() + r.below((int)at.size()));
    for (long k : at) for (int st = 0; st < 2; st++) {
        if (st && r.chance(50)) continue;
        Run x = once(c, *e, seed, k, st);
        c.obs("faults", x.failed); if (x.failed) { c.obs(x.reported ? "reported" : "survived"); }
        if (x.reported) { c.obs(("reported-" + f_first).c_str()); if (seenf.insert(e->name).second) c.obs("reporting-operations"); }
    }
}
