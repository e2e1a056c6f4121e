// Many threads, each with its own operands and configuration, over the operations of every other harness.
#include "spu.hpp"
#include <functional>
#include <sched.h>
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
}
struct Member { Ctx proto; std::vector<std::pair<int, uint64_t>> jobs; std::vector<std::unique_ptr<Ctx>> done; std::atomic<int> *gate; std::atomic<int> *inside, *peak; };
static std::atomic<int> g_overlap;
static void *member(void *p) {
    Member &m = *(Member *)p;
    m.gate->fetch_sub(1, std::memory_order_relaxed); while (m.gate->load(std::memory_order_relaxed) > 0) ;
    for (auto &j : m.jobs) {
        const OpEnt &e = all_ops()[j.first];
        Ctx *c = new Ctx; m.done.emplace_back(c);
        c->op = std::string("conc:") + e.name; c->n = m.proto.n; c->tier = m.proto.tier; c->verbose = m.proto.verbose; c->rng = Rng(j.second);
        int k = m.inside->fetch_add(1, std::memory_order_relaxed) + 1, pk = m.peak->load(std::memory_order_relaxed);
        while (k > pk && !m.peak->compare_exchange_weak(pk, k, std::memory_order_relaxed)) ;
        e.fn(*c);
        m.inside->fetch_sub(1, std::memory_order_relaxed);
    }
    armas_cbuf_release_thread_global();
    return 0;
}
static bool usable(const char *n) { return strcmp(n, "concurrent") && strcmp(n, "shared") && strcmp(n, "shared_factor") && strcmp(n, "same_op") && strcmp(n, "random") && strncmp(n, "io_hostile", 10); } // (the random number stream is one for the process)
static void team(Ctx &c, bool same) {
    Rng &r = c.rng; int nt = r.range(2, 6); std::atomic<int> gate{nt}, inside{0}, peak{0};
    std::vector<int> ok; for (int i = 0; i < (int)all_ops().size(); i++) if (usable(all_ops()[i].name)) ok.push_back(i);
    std::vector<std::unique_ptr<Member>> ms; std::string s; int fixed = ok[r.below((int)ok.size())]; uint64_t fs = r.next();
    for (int i = 0; i < nt; i++) {
        auto *m = new Member; ms.emplace_back(m); m->proto.n = c.n; m->proto.tier = 0; m->proto.verbose = c.verbose; m->gate = &gate; m->inside = &inside; m->peak = &peak;
        int n = r.range(1, 5);
        for (int k = 0; k < n; k++) { int o = same ? fixed : ok[r.below((int)ok.size())]; m->jobs.push_back({o, same && r.chance(50) ? fs : r.next()}); if (s.size() < 500) { s += all_ops()[o].name; s += ' '; } }
        s += "| ";
    }
    c.D("%s", s.c_str()); c.nontrivial = true;
    g_concurrent = 1;
    std::vector<pthread_t> th;
    for (int i = 1; i < nt; i++) { pthread_t t; if (pthread_create(&t, 0, member, ms[i].get())) { fprintf(stderr, "no thread\n"); _exit(3); } th.push_back(t); }
    member(ms[0].get());
    for (auto t : th) pthread_join(t, 0);
    g_concurrent = 0;
    long calls = 0;
    for (auto &m : ms) for (auto &k : m->done) { calls++; c.failures += k->failures; }
    c.obs("concurrent-calls", calls); c.obs("teams"); if (peak > 1) c.obs("overlapping-teams");
    // kinds of operation seen overlapping
    static std::set<int> seen; for (auto &m : ms) for (auto &j : m->jobs) if (seen.insert(j.first).second) c.obs("distinct-operations");
}
OP(concurrent, 4) { team(c, false); }
OP(same_op, 2) { team(c, true); }

// threads share read-only operands, each writes its own result
struct Sh { Ctx cx; Mat *A, *B, *LU, *S; armas_pivot_t *P; int op, f; Mat out; std::vector<double> want; std::atomic<int> *gate; int rc = 0; };
static void sh_run(Sh &s) {
    armas_conf_t cf = *armas_conf_default(); cf.error = 0; cf.accel = nullptr; cf.work = nullptr; cf.optflags = 0;
    switch (s.op) {
    case 0: s.rc = armas_mult(0, &s.out, 1, *s.A, *s.B, 0, &cf); break;
    case 1: s.rc = armas_mult_sym(0, &s.out, 1, *s.S, *s.A, ARMAS_LOWER | ARMAS_LEFT, &cf); break;
    case 2: s.rc = armas_update_sym(0, &s.out, 1, *s.A, ARMAS_UPPER, &cf); break;
    case 3: s.rc = armas_lusolve(&s.out, *s.LU, s.P, s.f, &cf); break;
    case 4: s.rc = armas_mult_trm(&s.out, 1, *s.LU, ARMAS_UPPER | ARMAS_RIGHT, &cf); break;
    case 5: s.rc = armas_solve_trm(&s.out, 1, *s.LU, ARMAS_LOWER | ARMAS_UNIT | ARMAS_LEFT, &cf); break;
    case 6: { armas_dense_t x; armas_column(&x, *s.B, 0); armas_dense_t y; armas_column(&y, &s.out, 0); s.rc = armas_mvmult(0, &y, 1, *s.S, &x, 0, &cf); break; }
    case 7: { s.out.at(0, 0) = armas_mnorm(*s.S, ARMAS_NORM_FRB, &cf) + armas_dot(*s.B, *s.B, &cf); break; }
    }
}
static void *sh_thread(void *p) {
    Sh &s = *(Sh *)p; s.gate->fetch_sub(1, std::memory_order_relaxed); while (s.gate->load(std::memory_order_relaxed) > 0) ;
    sh_run(s); armas_cbuf_release_thread_global(); return 0;
}
OP(shared, 2) {
    Rng &r = c.rng; int n = r.range(2, 70), nt = r.range(2, 6); c.nontrivial = true;
    Mat A(c, n, n), B(c, n, n), S(c, n, n), LU(c, n, n); if (r.chance(20)) B.init(c, n, n);
    armas_pivot_t P; armas_pivot_init(&P, n); armas_conf_t cf = *armas_conf_default(); cf.error = 0;
    for (int i = 0; i < n; i++) LU.at(i, i) += 4;
    armas_lufactor(&LU, &P, &cf); cf.error = 0;
    A.save(); B.save(); S.save(); LU.save(); std::vector<int> p0(n); for (int i = 0; i < n; i++) p0[i] = P.indexes[i];
    std::atomic<int> gate{nt}; std::vector<std::unique_ptr<Sh>> t; std::string d;
    for (int i = 0; i < nt; i++) {
        auto *s = new Sh; t.emplace_back(s); s->cx.rng = Rng(r.next()); s->A = std::addressof(A); s->B = std::addressof(B); s->S = std::addressof(S); s->LU = std::addressof(LU); s->P = &P; s->gate = &gate; s->op = r.below(8); s->f = r.chance(50) ? ARMAS_TRANS : 0;
        s->out.init(s->cx, n, s->op == 6 || s->op == 7 ? 1 : n); s->out.save();
        d += fmt("%d ", s->op);
        // the lone run
        sh_run(*s); s->want.assign(s->out.raw, s->out.raw + s->out.nraw); int rc = s->rc; if (rc) c.fail("alone", fmt("operation %d returned %d alone", s->op, rc));
        memcpy(s->out.raw, s->out.snap.data(), s->out.nraw * 8);
    }
    c.D("n=%d ops %s", n, d.c_str());
    armas_cbuf_release_thread_global();
    g_concurrent = 1; std::vector<pthread_t> th;
    for (int i = 1; i < nt; i++) { pthread_t q; if (pthread_create(&q, 0, sh_thread, t[i].get())) _exit(3); th.push_back(q); }
    sh_thread(t[0].get()); for (auto q : th) pthread_join(q, 0);
    g_concurrent = 0;
    for (auto &s : t) {
        if (s->rc) c.fail(fmt("ret:%d", s->op), fmt("operation %d returned %d with other threads running", s->op, s->rc));
        if (memcmp(s->want.data(), s->out.raw, s->out.nraw * 8)) c.fail(fmt("differs:%d", s->op), fmt("operation %d: result differs from that of the lone run", s->op));
        c.obs("shared-results");
    }
    A.is_const(c, "A"); B.is_const(c, "B"); S.is_const(c, "S"); LU.is_const(c, "LU");
    for (int i = 0; i < n; i++) if (P.indexes[i] != p0[i]) { c.fail("pivots", "shared pivot vector changed"); break; }
    armas_pivot_release(&P);
}

// threads share one factorization (or one sparse matrix and its preconditioner), each applies it to its own operand
struct Sf { Mat out; std::vector<double> want, got; armas_conf_t cf; std::function<int(Sf &)> fn; std::string nm; std::atomic<int> *gate; int rc = 0; };
static void sf_run(Sf &s) { s.cf.error = 0; s.rc = s.fn(s); s.got.assign(s.out.raw, s.out.raw + s.out.nraw); }
static void *sf_thread(void *p) {
    Sf &s = *(Sf *)p; s.gate->fetch_sub(1, std::memory_order_relaxed); while (s.gate->load(std::memory_order_relaxed) > 0) ;
    sf_run(s); armas_cbuf_release_thread_global(); return 0;
}
typedef int (*QFac)(armas_dense_t *, armas_dense_t *, armas_conf_t *);
typedef int (*QMul)(armas_dense_t *, const armas_dense_t *, const armas_dense_t *, int, armas_conf_t *);
OP(shared_factor, 3) {
    Rng &r = c.rng; int kind = r.below(14), nt = r.range(2, 6), n = r.range(2, 60), m = r.chance(40) ? n : n + r.range(0, 30), f = r.pki({ARMAS_LOWER, ARMAS_UPPER}), o = r.range(1, 30); c.nontrivial = true;
    if (r.chance(10)) n += 90, m += 90;
    Mat A, tq, tp, B; Sp S; Pat pat; Piv *P = nullptr; std::unique_ptr<Piv> Pp; armassp_precond_t M; memset(&M, 0, sizeof M);
    armas_conf_t cf = *armas_conf_default(); cf.error = 0; cf.work = nullptr; cf.accel = nullptr; cf.optflags = 0; int rc = 0;
    std::function<void(Sf &, Ctx &)> arm;
    static const QFac qf[] = {armas_qrfactor, armas_lqfactor, armas_qlfactor, armas_rqfactor}; static const QMul qm[] = {armas_qrmult, armas_lqmult, armas_qlmult, armas_rqmult}; static const char *qn[] = {"qrmult", "lqmult", "qlmult", "rqmult"};
    switch (kind) {
    case 0: case 1: case 2: case 3: {
        bool cw = kind == 0 || kind == 2; A.init(c, cw ? m : n, cw ? n : m, GEN_UNI); tq.init(c, n, 1); rc = qf[kind](&A, &tq, &cf);
        arm = [&](Sf &s, Ctx &cx) {
            bool solve = kind < 2 && cx.rng.chance(40); int tr = cx.rng.pki({0, ARMAS_TRANS});
            if (solve) { s.out.init(cx, m, o, GEN_UNI); s.nm = kind ? "lqsolve" : "qrsolve"; s.fn = [&, tr](Sf &t) { return kind ? armas_lqsolve(&t.out, &A, &tq, tr, &t.cf) : armas_qrsolve(&t.out, &A, &tq, tr, &t.cf); }; }
            else { bool right = cx.rng.chance(50); s.out.init(cx, right ? o : m, right ? m : o, GEN_UNI); s.nm = qn[kind]; int fl = tr | (right ? ARMAS_RIGHT : ARMAS_LEFT); s.fn = [&, fl](Sf &t) { return qm[kind](&t.out, &A, &tq, fl, &t.cf); }; }
        }; break; }
    case 4: { gen_spd(c, A, n, f); bool piv = r.chance(50); if (piv) { Pp.reset(new Piv(c, n)); P = Pp.get(); } rc = armas_cholfactor(&A, piv ? *P : ARMAS_NOPIVOT, f, &cf);
        arm = [&, piv](Sf &s, Ctx &cx) { s.out.init(cx, n, o, GEN_UNI); s.nm = "cholsolve"; s.fn = [&, piv](Sf &t) { return armas_cholsolve(&t.out, &A, piv ? (armas_pivot_t *)*P : ARMAS_NOPIVOT, f, &t.cf); }; }; break; }
    case 5: case 6: { if (kind == 5) gen_sym(c, A, n, f, GK_UNI); else gen_spd(c, A, n, f); Pp.reset(new Piv(c, n)); P = Pp.get(); rc = kind == 5 ? armas_bkfactor(&A, *P, f, &cf) : armas_ldlfactor(&A, *P, f, &cf);
        arm = [&](Sf &s, Ctx &cx) { s.out.init(cx, n, o, GEN_UNI); s.nm = kind == 5 ? "bksolve" : "ldlsolve"; s.fn = [&](Sf &t) { return kind == 5 ? armas_bksolve(&t.out, &A, *P, f, &t.cf) : armas_ldlsolve(&t.out, &A, *P, f, &t.cf); }; }; break; }
    case 7: { A.init(c, n, n, GEN_UNI); tq.init(c, n - 1 > 0 ? n - 1 : 1, 1); rc = armas_hessreduce(&A, &tq, &cf);
        arm = [&](Sf &s, Ctx &cx) { bool right = cx.rng.chance(50); int fl = (right ? ARMAS_RIGHT : ARMAS_LEFT) | cx.rng.pki({0, ARMAS_TRANS}); s.out.init(cx, right ? o : n, right ? n : o, GEN_UNI); s.nm = "hessmult"; s.fn = [&, fl](Sf &t) { return armas_hessmult(&t.out, &A, &tq, fl, &t.cf); }; }; break; }
    case 8: { gen_sym(c, A, n, f, GK_UNI); tq.init(c, n, 1); rc = armas_trdreduce(&A, &tq, f, &cf);
        arm = [&](Sf &s, Ctx &cx) { bool right = cx.rng.chance(50); int fl = f | (right ? ARMAS_RIGHT : ARMAS_LEFT) | cx.rng.pki({0, ARMAS_TRANS}); s.out.init(cx, right ? o : n, right ? n : o, GEN_UNI); s.nm = "trdmult"; s.fn = [&, fl](Sf &t) { return armas_trdmult(&t.out, &A, &tq, fl, &t.cf); }; }; break; }
    case 9: { A.init(c, m, n, GEN_UNI); tq.init(c, n, 1); tp.init(c, n, 1); rc = armas_bdreduce(&A, &tq, &tp, &cf);
        arm = [&](Sf &s, Ctx &cx) { bool right = cx.rng.chance(50), wq = cx.rng.chance(50); int d = wq ? m : n, fl = (wq ? ARMAS_MULTQ : ARMAS_MULTP) | (right ? ARMAS_RIGHT : ARMAS_LEFT) | cx.rng.pki({0, ARMAS_TRANS}); s.out.init(cx, right ? o : d, right ? d : o, GEN_UNI); s.nm = "bdmult"; s.fn = [&, fl, wq](Sf &t) { return armas_bdmult(&t.out, &A, wq ? &tq : &tp, fl, &t.cf); }; }; break; }
    case 10: { A.init(c, n, n, GEN_UNI); for (int i = 0; i < n; i++) A.at(i, i) = 2 + r.u01();
        arm = [&](Sf &s, Ctx &cx) {
            int w = cx.rng.below(8), tr = cx.rng.pki({0, ARMAS_TRANS}), un = cx.rng.pki({0, ARMAS_UNIT}), fl = cx.rng.pki({ARMAS_LOWER, ARMAS_UPPER}) | tr | un; bool right = cx.rng.chance(50);
            static const char *wn[] = {"mvmult_trm", "mvsolve_trm", "mult_trm", "solve_trm", "ext_mvmult_trm", "ext_mvsolve_trm", "ext_mult_trm", "ext_solve_trm"}; s.nm = wn[w];
            if (w % 4 < 2) s.out.init(cx, n, 1, GEN_UNI); else { s.out.init(cx, right ? o : n, right ? n : o, GEN_UNI); fl |= right ? ARMAS_RIGHT : ARMAS_LEFT; }
            s.fn = [&, w, fl](Sf &t) { switch (w) {
                case 0: return armas_mvmult_trm(&t.out, 1.5, &A, fl, &t.cf); case 1: return armas_mvsolve_trm(&t.out, 1.5, &A, fl, &t.cf); case 2: return armas_mult_trm(&t.out, 1.5, &A, fl, &t.cf); case 3: return armas_solve_trm(&t.out, 1.5, &A, fl, &t.cf);
                case 4: return armas_ext_mvmult_trm(&t.out, 1.5, &A, fl, &t.cf); case 5: return armas_ext_mvsolve_trm(&t.out, 1.5, &A, fl, &t.cf); case 6: return armas_ext_mult_trm(&t.out, 1.5, &A, fl, &t.cf); default: return armas_ext_solve_trm(&t.out, 1.5, &A, fl, &t.cf); } };
        }; break; }
    case 11: { A.init(c, n, n, GEN_UNI); B.init(c, n, n, GEN_UNI);
        arm = [&](Sf &s, Ctx &cx) {
            int w = cx.rng.below(12), tr = cx.rng.pki({0, ARMAS_TRANS, ARMAS_TRANSB, ARMAS_TRANS | ARMAS_TRANSB}), fl = f | cx.rng.pki({ARMAS_LEFT, ARMAS_RIGHT});
            static const char *wn[] = {"mult", "ext_mult", "mult_sym", "ext_mult_sym", "update2_sym", "update_trm", "mplus", "axpy", "mcopy", "mult_diag", "mvupdate", "mvmult"}; s.nm = wn[w];
            s.out.init(cx, n, w == 11 ? 1 : n, GEN_UNI);
            s.fn = [&, w, tr, fl](Sf &t) { switch (w) {
                case 0: return armas_mult(.5, &t.out, 1.5, &A, &B, tr, &t.cf); case 1: return armas_ext_mult(.5, &t.out, 1.5, &A, &B, tr, &t.cf);
                case 2: return armas_mult_sym(.5, &t.out, 1.5, &A, &B, fl, &t.cf); case 3: return armas_ext_mult_sym(.5, &t.out, 1.5, &A, &B, fl, &t.cf);
                case 4: return armas_update2_sym(.5, &t.out, 1.5, &A, &B, f | (tr & ARMAS_TRANS), &t.cf); case 5: return armas_update_trm(.5, &t.out, 1.5, &A, &B, f | tr, &t.cf);
                case 6: return armas_mplus(2, &t.out, 3, &A, tr & ARMAS_TRANS ? ARMAS_TRANS : 0, &t.cf); case 7: { armas_dense_t x, y; armas_row(&x, &A, 0); armas_row(&y, &t.out, 0); return armas_axpy(&y, 1.5, &x, &t.cf); }; case 8: return armas_mcopy(&t.out, &A, tr & ARMAS_TRANS ? ARMAS_TRANS : 0, &t.cf);
                case 9: { armas_dense_t d; armas_diag(&d, &A, 0); return armas_mult_diag(&t.out, 1.5, &d, fl & (ARMAS_LEFT | ARMAS_RIGHT), &t.cf); }
                case 10: { armas_dense_t x, y; armas_row(&x, &A, 0); armas_column(&y, &B, 1); return armas_mvupdate(.5, &t.out, 1.5, &x, &y, &t.cf); }
                default: { armas_dense_t x; armas_row(&x, &B, 1); return armas_mvmult(.5, &t.out, 1.5, &A, &x, tr & ARMAS_TRANS, &t.cf); } } };
        }; break; }
    case 12: case 13: {
        int sk = r.pki({ARMASSP_CSC, ARMASSP_CSR}); pat = gen_pat(c, n, n, false);
        for (int j = 0; j < n; j++) { for (int i = 0; i < n; i++) if (pat.has(i, j)) pat.set(i, j, r.uni()); } 
        for (int j = 0; j < n; j++) pat.set(j, j, 2.0 * n);
        if (kind == 13) for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) { if (pat.has(i, j)) pat.set(j, i, pat.get(i, j)); else if (pat.has(j, i)) pat.set(i, j, pat.get(j, i)); }
        S.init(c, pat, sk, false); static thread_local std::unique_ptr<Sp> F; 
        F.reset(new Sp(c, pat, sk, false)); rc = armassp_init_iluz(&M, *F); Sp *fp = F.get();
        arm = [&, fp](Sf &s, Ctx &cx) {
            int w = cx.rng.below(kind == 13 ? 9 : 6), tr = cx.rng.pki({0, ARMAS_TRANS}), un = cx.rng.pki({0, ARMAS_UNIT});
            static const char *wn[] = {"sp_mvmult", "sp_mvmult_sym", "sp_mvmult_trm", "sp_mvsolve_trm", "sp_mult", "pgmres", "cgrad", "cgnr", "gmres"}; s.nm = wn[w];
            std::shared_ptr<Mat> x(new Mat(cx, n, 1, GEN_UNI)); s.out.init(cx, n, 1, GEN_UNI);
            s.fn = [&, w, tr, un, x, fp](Sf &t) { switch (w) {
                case 0: return armassp_mvmult(.5, &t.out, 1.5, &S, *x, tr, &t.cf); case 1: return armassp_mvmult_sym(.5, &t.out, 1.5, &S, *x, f, &t.cf);
                case 2: return armassp_mvmult_trm(&t.out, 1.5, &S, f | tr | un, &t.cf); case 3: return armassp_mvsolve_trm(&t.out, 1.5, &S, f | tr | un, &t.cf);
                case 4: { armas_sparse_t *C = armassp_mult(1.5, &S, *fp, 0, &t.cf); if (!C) return -100; t.out.at(0, 0) = C->elems.v[C->nnz - 1]; t.out.at(n - 1, 0) = C->nnz; armassp_free(C); return 0; }
                case 5: { t.cf.stop = 1e-9; t.cf.maxiter = 50; int k = armassp_pgmres(&t.out, &S, *x, &M, &t.cf); return k == -ARMAS_ECONVERGE ? 0 : k; }
                case 6: { t.cf.stop = 1e-9; t.cf.maxiter = 50; int k = armassp_cgrad(&t.out, &S, *x, f, &t.cf); return k == -ARMAS_ECONVERGE ? 0 : k; }
                case 7: { t.cf.stop = 1e-9; t.cf.maxiter = 50; int k = armassp_cgnr(&t.out, &S, *x, &t.cf); return k == -ARMAS_ECONVERGE ? 0 : k; }
                default: { t.cf.stop = 1e-9; t.cf.maxiter = 50; int k = armassp_gmres(&t.out, &S, *x, &t.cf); return k == -ARMAS_ECONVERGE ? 0 : k; } } };
        }; break; }
    }
    if (rc < 0) { c.obs("unfactored"); return; }
    if (A.r) A.save(); if (B.r) B.save(); if (tq.r) tq.save(); if (tp.r) tp.save(); std::vector<int> p0; if (P) p0.assign(P->p.indexes, P->p.indexes + n);
    std::atomic<int> gate{nt}; std::vector<std::unique_ptr<Sf>> t; std::vector<std::unique_ptr<Ctx>> cx; std::string d;
    for (int i = 0; i < nt; i++) {
        Sf *s = new Sf; t.emplace_back(s); cx.emplace_back(new Ctx); cx.back()->rng = Rng(r.next()); s->gate = &gate; s->cf = cf;
        arm(*s, *cx.back()); s->out.save(); d += s->nm + " ";
        sf_run(*s); s->want = s->got; if (s->rc < 0) c.fail("alone:" + s->nm, fmt("%s returned %d (error %d) alone", s->nm.c_str(), s->rc, s->cf.error));
        memcpy(s->out.raw, s->out.snap.data(), s->out.nraw * 8);
    }
    c.D("kind %d m=%d n=%d %s ops %s", kind, m, n, f == ARMAS_LOWER ? "lower" : "upper", d.c_str());
    armas_cbuf_release_thread_global();
    g_concurrent = 1; std::vector<pthread_t> th;
    for (int i = 1; i < nt; i++) { pthread_t q; if (pthread_create(&q, 0, sf_thread, t[i].get())) _exit(3); th.push_back(q); }
    sf_thread(t[0].get()); for (auto q : th) pthread_join(q, 0);
    g_concurrent = 0;
    for (auto &s : t) {
        if (s->rc < 0) c.fail("ret:" + s->nm, fmt("%s returned %d (error %d) with other threads running", s->nm.c_str(), s->rc, s->cf.error));
        if (memcmp(s->want.data(), s->got.data(), s->got.size() * 8)) c.fail("differs:" + s->nm, fmt("%s: result differs from that of the lone run", s->nm.c_str()));
        c.obs("shared-results"); c.obs("shared-factor-results");
    }
    if (A.r) A.is_const(c, "A"); if (B.r) B.is_const(c, "B"); if (tq.r) tq.is_const(c, "tauq"); if (tp.r) tp.is_const(c, "taup"); if (S.nptr) S.is_const(c, "S");
    for (size_t i = 0; i < p0.size(); i++) if (P->p.indexes[i] != p0[i]) { c.fail("pivots", "shared pivot vector changed"); break; }
}
