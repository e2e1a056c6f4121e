// Reading and writing of matrices: JSON and Matrix Market, round trips, streams with several records,
// failing and short output, and hostile input.
#include "spu.hpp"
#include <sys/resource.h>
extern "C" {
const char *__asan_default_options() { return "max_allocation_size_mb=512"; }
ssize_t __real_getline(char **, size_t *, FILE *);
void armas_ios_wbuf(armas_iostream_t *, struct armas_wbuf *);
void *__wrap_malloc(size_t); void __wrap_free(void *);
// the line buffer is allocated inside the C library and released by the caller
ssize_t __wrap_getline(char **p, size_t *n, FILE *f) {
    bool had = *p != nullptr;
    if (!had) { void *t = __wrap_malloc(1); if (!t) return -1; ssize_t k = __real_getline(p, n, f); if (!*p) __wrap_free(t); else { __wrap_free(t); g_alloc.live.fetch_add(1, std::memory_order_relaxed); } return k; }
    return __real_getline(p, n, f);
}
}

// ---------------------------------------------------------------- streams over memory
struct Src { const char *p; size_t n, o = 0; int chunk = 0; long err = -1; Rng r{1}; };
static ssize_t src_read(void *q, char *b, size_t n) {
    Src *s = (Src *)q; if (s->err >= 0 && (long)s->o >= s->err) { errno = EIO; return -1; }
    size_t k = std::min(n, s->n - s->o); if (s->chunk && k) k = std::min(k, (size_t)s->r.range(1, s->chunk)); if (s->err >= 0) k = std::min(k, (size_t)(s->err - s->o));
    memcpy(b, s->p + s->o, k); s->o += k; return k;
}
struct Snk { std::string d; long err = -1; };
static ssize_t snk_write(void *q, const char *b, size_t n) { Snk *s = (Snk *)q; if (s->err >= 0 && (long)(s->d.size() + n) > s->err) { size_t k = s->err - s->d.size(); s->d.append(b, k); return k ? (ssize_t)k : 0; } s->d.append(b, n); return n; }
// exactly sized copy of the input
struct Text { char *p; size_t n; Src s; FILE *f = nullptr; Text(const std::string &t) : p(new char[t.size()]), n(t.size()) { memcpy(p, t.data(), n); s.p = p; s.n = n; }
    FILE *open(Ctx &c, bool err = false) { s.chunk = c.rng.pki({0, 0, 1, 7}); if (err) s.err = c.rng.range(0, (int)n); s.r = c.rng; cookie_io_functions_t io = {src_read, nullptr, nullptr, nullptr}; f = fopencookie(&s, "r", io); if (c.rng.chance(30)) setvbuf(f, nullptr, _IONBF, 0); return f; }
    ~Text() { if (f) fclose(f); delete[] p; } };
struct Out { Snk s; FILE *f; Out(Ctx &c, long err = -1) { s.err = err; cookie_io_functions_t io = {nullptr, snk_write, nullptr, nullptr}; f = fopencookie(&s, "w", io); if (err >= 0 || c.rng.chance(30)) setvbuf(f, nullptr, _IONBF, 0); }
    std::string &done() { fflush(f); return s.d; } ~Out() { fclose(f); } };

static double io_val(Ctx &c) {
    Rng &r = c.rng; union { double d; uint64_t u; } x;
    switch (r.below(12)) {
    case 0: return r.chance(50) ? 0.0 : -0.0;
    case 1: return r.range(-100, 100);
    case 2: x.u = r.next(); if (((x.u >> 52) & 0x7ff) == 0x7ff) x.u &= ~(1ULL << 62); return x.d;
    case 3: x.u = (r.next() >> r.range(12, 60)) | (r.chance(50) ? 1ULL << 63 : 0); return x.d; // denormal
    case 4: return r.pick({DBL_MAX, -DBL_MAX, DBL_MIN, 4.9406564584124654e-324, 1.0 / 3, 0.1, DBL_EPSILON, 123456789012345678.0, 1e22, 1e23, 2147483648.0, -2147483649.0});
    case 5: return r.uni() * 1e12;
    case 6: return std::ldexp(1.0, r.range(-1074, 1023));
    default: return r.uni();
    }
}
static std::string num(Ctx &c, double v) { const char *f; switch (c.rng.below(4)) { case 0: f = "%.17g"; break; case 1: f = "%.16e"; break; case 2: f = "%.20E"; break; default: if (v == std::floor(v) && std::fabs(v) < 1e9 && !(v == 0 && std::signbit(v))) return fmt("%d", (int)v); f = "%.18g"; } return fmt(f, v); }

// ---------------------------------------------------------------- independent JSON parser
struct Js { enum { NIL, NUM, STR, ARR, OBJ } t = NIL; double n = 0; std::string raw, s; std::vector<Js> a; std::vector<std::pair<std::string, Js>> o; const Js *get(const char *k) const { for (auto &x : o) if (x.first == k) return &x.second; return nullptr; } };
struct JP {
    const char *p, *e; bool bad = false;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
    bool lit(const char *w) { size_t n = strlen(w); if ((size_t)(e - p) < n || memcmp(p, w, n)) { bad = true; return false; } p += n; return true; }
    Js val() {
        Js v; ws(); if (p >= e) { bad = true; return v; }
        if (*p == '{') { v.t = Js::OBJ; p++; ws(); if (p < e && *p == '}') { p++; return v; }
            while (!bad) { Js k = val(); if (k.t != Js::STR) bad = true; ws(); if (!lit(":")) break; v.o.push_back({k.s, val()}); ws(); if (p < e && *p == ',') { p++; continue; } lit("}"); break; } return v; }
        if (*p == '[') { v.t = Js::ARR; p++; ws(); if (p < e && *p == ']') { p++; return v; } while (!bad) { v.a.push_back(val()); ws(); if (p < e && *p == ',') { p++; continue; } lit("]"); break; } return v; }
        if (*p == '"') { v.t = Js::STR; p++; while (p < e && *p != '"') { if (*p == '\\' || (unsigned char)*p < 32) { bad = true; return v; } v.s += *p++; } lit("\""); return v; }
        if (*p == 'n') { lit("null"); return v; }
        const char *b = p; if (p < e && *p == '-') p++; auto digs = [&] { int k = 0; while (p < e && *p >= '0' && *p <= '9') { p++; k++; } if (!k) bad = true; };
        bool z = p < e && *p == '0'; const char *d0 = p; digs(); if (z && p - d0 > 1) bad = true; if (p < e && *p == '.') { p++; digs(); } if (p < e && (*p == 'e' || *p == 'E')) { p++; if (p < e && (*p == '-' || *p == '+')) p++; digs(); }
        v.t = Js::NUM; v.raw.assign(b, p); v.n = strtod(v.raw.c_str(), nullptr); return v;
    }
};

// ---------------------------------------------------------------- records
struct Rec { int kind, r, c, flags = 0, sk = 0; std::vector<double> v; Pat p; bool null = false;   // kind 0 JSON, 1 dense MM, 2 sparse MM
    std::vector<coo_elem_t> order; std::string text; };
static int iodim(Ctx &c) { Rng &r = c.rng; if (r.below(1500) == 0) return r.range(40, 600); int k = r.below(20); return k < 4 ? 1 : k < 18 ? r.range(1, 9) : r.range(1, 40); }
static void bad_dims(Ctx &c, const char *nm, int r, int cc, int R, int C) { c.fail(std::string("shape:") + nm, fmt("%s read back as %dx%d, written as %dx%d", nm, r, cc, R, C)); }

static Rec gen_rec(Ctx &c, int kind) {
    Rng &r = c.rng; Rec q; q.kind = kind; q.r = iodim(c); q.c = iodim(c);
    if (r.chance(3)) q.r = 0; if (r.chance(3)) q.c = 0;
    if (kind == 0 && r.chance(5)) { q.null = true; q.r = q.c = 0; }
    if (kind == 0) q.flags = r.chance(40) ? r.pki({ARMAS_SYMM, ARMAS_LOWER, ARMAS_UPPER, 1 << 20, -1, INT_MIN, INT_MAX}) : 0;
    if (kind == 1 && r.chance(40)) { q.flags = ARMAS_SYMM; q.c = q.r; }
    if (kind == 2) { q.r = std::max(1, q.r); q.c = std::max(1, q.c); q.sk = r.below(3); q.flags = r.chance(40) ? ARMAS_MM_SYMMETRIC : 0; if (q.flags) q.c = q.r; q.p = gen_pat(c, q.r, q.c); for (size_t k = 0; k < q.p.v.size(); k++) if (q.p.p[k]) q.p.v[k] = io_val(c); if (q.flags) for (int j = 0; j < q.c; j++) for (int i = 0; i < j; i++) q.p.del(i, j); }
    else { q.v.resize((size_t)q.r * q.c); for (auto &x : q.v) x = io_val(c); }
    return q;
}
// writes a record with the library; checks what was written against the format
static int write_rec(Ctx &c, Rec &q, FILE *f, armas_iostream_t *ios) {
    int rc;
    if (q.kind == 2) { Sp S(c, q.p, q.sk, c.rng.chance(40)); rc = armassp_mmdump(f, S, q.flags); S.is_const(c, "A");
        if (q.sk == ARMASSP_COO) q.order.assign(S.ep, S.ep + S.nnz); else { q.order.clear(); for (int k = 0; k < S.nptr; k++) for (int t = S.ptr[k]; t < S.ptr[k + 1]; t++) { coo_elem_t e; e.i = q.sk == ARMASSP_CSR ? k : S.ix[t]; e.j = q.sk == ARMASSP_CSR ? S.ix[t] : k; e.val = S.e[t]; q.order.push_back(e); } } return rc; }
    if (q.null) return ios ? armas_json_write(ios, nullptr, q.flags) : armas_json_dump(f, nullptr, q.flags);
    Mat A(c, q.r, q.c); for (int j = 0; j < q.c; j++) for (int i = 0; i < q.r; i++) A.at(i, j) = q.v[(size_t)j * q.r + i]; A.save();
    rc = q.kind == 1 ? armas_mmdump(f, &A, q.flags) : ios ? armas_json_write(ios, &A, q.flags) : armas_json_dump(f, &A, q.flags);
    A.is_const(c, "A"); return rc;
}
static void check_json_text(Ctx &c, const Rec &q, const std::string &t) {
    JP p{t.data(), t.data() + t.size()}; Js v = p.val(); p.ws();
    if (p.bad || p.p != p.e) { c.fail("json:grammar", "what was written is not JSON: " + t.substr(0, 200)); return; }
    if (q.null) { if (v.t != Js::NIL) c.fail("json:null", "no matrix written as " + t.substr(0, 80)); return; }
    const Js *R = v.get("rows"), *C = v.get("cols"), *D = v.get("data"), *F = v.get("flags");
    if (!R || !C || !D || R->n != q.r || C->n != q.c || D->t != Js::ARR) { c.fail("json:members", "rows, cols or data wrong in " + t.substr(0, 120)); return; }
    if (q.flags ? !F || F->raw != fmt("%d", q.flags) : F && F->n != 0) c.fail("json:flags", "flags wrong in " + t.substr(0, 120));
    if (D->a.size() != q.v.size()) { c.fail("json:count", fmt("%zu values written for %dx%d", D->a.size(), q.r, q.c)); return; }
    for (size_t k = 0; k < q.v.size(); k++) if (D->a[k].t != Js::NUM || !bits_eq(D->a[k].n, q.v[k])) { c.fail("json:value", fmt("value %zu written as %s, is %.17g", k, D->a[k].raw.c_str(), q.v[k])); return; }
    c.obs("texts");
}
static void check_mm_text(Ctx &c, const Rec &q, const std::string &t) {
    size_t o = 0; auto line = [&](std::string &l) { if (o >= t.size()) return false; size_t e = t.find('\n', o); if (e == std::string::npos) return false; l = t.substr(o, e - o); o = e + 1; return true; };
    std::string l; bool sym = q.kind == 1 ? q.flags & ARMAS_SYMM : q.flags & ARMAS_MM_SYMMETRIC;
    if (!line(l)) { c.fail("mm:banner", "no banner written"); return; }
    for (auto &x : l) x = tolower(x);
    if (l != fmt("%%%%matrixmarket matrix %s real %s", q.kind == 1 ? "array" : "coordinate", sym ? "symmetric" : "general")) { c.fail("mm:banner", "banner written: " + l); return; }
    while (line(l)) if (l.empty() || l[0] != '%') break;
    if (l != (q.kind == 1 ? fmt("%d %d", q.r, q.c) : fmt("%d %d %d", q.r, q.c, q.p.nnz()))) { c.fail("mm:size", "size line written: " + l); return; }
    size_t k = 0;
    if (q.kind == 1) { for (int j = 0; j < q.c; j++) for (int i = sym ? j : 0; i < q.r; i++, k++) if (!line(l) || !bits_eq(strtod(l.c_str(), nullptr), q.v[(size_t)j * q.r + i])) { c.fail("mm:value", fmt("value (%d,%d) = %.17g written as %s", i, j, q.v[(size_t)j * q.r + i], l.c_str())); return; } }
    else for (auto &e : q.order) { int i, j; char b[64]; if (!line(l) || sscanf(l.c_str(), "%d %d %63s", &i, &j, b) != 3 || i != e.i + 1 || j != e.j + 1 || !bits_eq(strtod(b, nullptr), e.val)) { c.fail("mm:entry", fmt("entry (%d,%d) = %.17g written as %s", e.i, e.j, e.val, l.c_str())); return; } }
    if (o != t.size()) c.fail("mm:surplus", fmt("%zu bytes written after the last entry", t.size() - o));
    c.obs("texts");
}
static void well_formed(Ctx &c, const char *nm, const armas_dense_t *A) {
    std::string N(nm);
    if (A->rows < 0 || A->cols < 0) { c.fail("form:" + N, fmt("%s: matrix of %dx%d", nm, A->rows, A->cols)); return; }
    if (A->rows && A->cols) {
        if (!A->elems || !A->__data || A->step < A->rows) { c.fail("form:" + N, fmt("%s: %dx%d matrix without its elements", nm, A->rows, A->cols)); return; }
        volatile double s = 0; size_t tot = (size_t)A->rows * A->cols;
        if (tot <= 2000000) for (int j = 0; j < A->cols; j++) for (int i = 0; i < A->rows; i++) s = A->elems[(size_t)j * A->step + i];
        else { s = A->elems[0]; s = A->elems[(size_t)(A->cols - 1) * A->step + A->rows - 1]; }
    }
    c.obs("well-formed");
}
// closes a stream when the case ends early
struct IosEnd { armas_iostream_t *s; bool on = true; IosEnd(armas_iostream_t *s) : s(s) {} void now() { if (on) { on = false; armas_ios_close(s); } } ~IosEnd() { now(); } };
// reads a record back with the library and compares
static bool read_rec(Ctx &c, const Rec &q, FILE *f, armas_iostream_t *ios) {
    Rng &r = c.rng;
    if (q.kind == 0) {
        armas_dense_t S, *A = nullptr; memset(std::addressof(S), 0, sizeof S); bool mine = r.chance(50); if (mine) { if (r.chance(50)) memset(std::addressof(S), 0x5a, sizeof S); A = std::addressof(S); }
        int rc = ios ? armas_json_read(&A, ios) : armas_json_load(&A, f);
        if (rc < 0) { c.fail("json:refused", fmt("JSON of a %dx%d matrix refused (%d)", q.r, q.c, rc)); return false; }
        if (q.null) { if (A) { c.fail("json:null", "null read as a matrix"); if (!mine) armas_free(A); } return true; }
        if (!A || (mine && A != std::addressof(S))) { c.fail("json:target", "matrix not put where it was asked for"); return false; }
        if (A->rows != q.r || A->cols != q.c) bad_dims(c, "json", A->rows, A->cols, q.r, q.c);
        else { well_formed(c, "json", A); for (int j = 0; j < q.c; j++) for (int i = 0; i < q.r; i++) if (!bits_eq(armas_get_unsafe(A, i, j), q.v[(size_t)j * q.r + i])) { c.fail("json:readback", fmt("(%d,%d) read as %.17g, was %.17g", i, j, armas_get_unsafe(A, i, j), q.v[(size_t)j * q.r + i])); i = q.r; j = q.c; } }
        if (mine) armas_release(A); else armas_free(A); c.obs("json"); return true;
    }
    if (q.kind == 1) {
        armas_dense_t S; memset(std::addressof(S), 0x5a, sizeof S); int fl = 0x5a5a5a5a, rc = armas_mmload(std::addressof(S), &fl, f); bool sym = q.flags & ARMAS_SYMM;
        if (rc < 0) { c.fail("mm:refused", fmt("Matrix Market file of a %dx%d matrix refused (%d)", q.r, q.c, rc)); return false; }
        if (fl != (sym ? ARMAS_SYMM : 0)) c.fail("mm:flags", fmt("flags %#x for a %s matrix", fl, sym ? "symmetric" : "general"));
        if (S.rows != q.r || S.cols != q.c) bad_dims(c, "mm", S.rows, S.cols, q.r, q.c);
        else { well_formed(c, "mm", std::addressof(S)); for (int j = 0; j < q.c; j++) for (int i = 0; i < q.r; i++) { double w = sym && i < j ? 0.0 : q.v[(size_t)j * q.r + i], g = armas_get_unsafe(std::addressof(S), i, j); if (!bits_eq(g, w)) { c.fail("mm:readback", fmt("(%d,%d) read as %.17g, was %.17g", i, j, g, w)); i = q.r; j = q.c; } } }
        armas_release(std::addressof(S)); c.obs("dense-mm"); return true;
    }
    int tc = 0; Lib A(armassp_mmload(&tc, f)); if (!A) { c.fail("spmm:refused", fmt("Matrix Market file of a sparse %dx%d matrix refused", q.r, q.c)); return false; }
    int want = ARMAS_MM_MATRIX | ARMAS_MM_REAL | ARMAS_MM_COORDINATE | (q.flags ? ARMAS_MM_SYMMETRIC : ARMAS_MM_GENERAL); if (tc != want) c.fail("spmm:type", fmt("type code %#x, expected %#x", tc, want));
    sp_check(c, "spmm", A, ARMASSP_COO, q.p, false);
    if (A->nnz == (int)q.order.size()) for (int k = 0; k < A->nnz; k++) if (A->elems.ep[k].i != q.order[k].i || A->elems.ep[k].j != q.order[k].j) { c.fail("spmm:order", fmt("entry %d moved", k)); break; }
    c.obs("sparse-mm"); return true;
}

OP(io_roundtrip, 6) {
    Rng &r = c.rng; int n = r.chance(40) ? 1 : r.range(2, 5), via = r.below(4); std::vector<Rec> q; std::string all; std::vector<std::string> sep;
    c.D("via%d n=%d", via, n);
    bool json_only = via < 2; size_t cap = 0; std::vector<char> buf; struct armas_wbuf wb = ARMAS_WBNULL;
    for (int k = 0; k < n; k++) { q.push_back(gen_rec(c, json_only ? 0 : r.below(3))); c.D("k%d:%dx%d f=%x", q.back().kind, q.back().r, q.back().c, q.back().flags); if (q.back().r > 1 && q.back().c > 1) c.nontrivial = true; cap += 200 + q.back().v.size() * 30; }
    armas_iostream_t ios;
    auto checked = [&](Rec &x, const std::string &t) { if (x.kind == 0) check_json_text(c, x, t); else check_mm_text(c, x, t); x.text = t; };
    if (json_only) { // through a work buffer
        buf.assign(cap + 64, 0x55); wb.buf = buf.data(); wb.bytes = cap; armas_ios_wbuf(&ios, &wb);
        for (auto &x : q) { size_t o = wb.offset; if (write_rec(c, x, nullptr, &ios) < 0) { c.fail("json:write", "writing failed"); return; } checked(x, std::string(wb.buf + o, wb.offset - o)); std::string s(r.below(3), r.pki({' ', '\n', '\t'})); for (char ch : s) armas_ios_putchar(&ios, ch); }
        for (int k = 0; k < 64; k++) if (buf[cap + k] != 0x55) { c.fail("wbuf:outside", "memory after the buffer written"); break; }
        armas_ios_close(&ios); all.assign(wb.buf, wb.offset);
        if (via == 0) { wb.bytes = wb.offset; wb.offset = 0; armas_ios_wbuf(&ios, &wb); IosEnd e(&ios); for (auto &x : q) if (!read_rec(c, x, nullptr, &ios)) break; }
        else { Text T(all); { armas_ios_string(&ios, T.p, (int)T.n); IosEnd e(&ios); for (auto &x : q) if (!read_rec(c, x, nullptr, &ios)) break; } if (std::string(T.p, T.n) != all) c.fail("string:changed", "the string read from was changed"); }
        c.obs("round-trips", n); return;
    }
    { Out O(c); for (auto &x : q) { size_t o = O.done().size(); int rc = write_rec(c, x, O.f, nullptr); std::string t = O.done().substr(o); if (rc < 0 || (x.kind && rc != (int)t.size())) { c.fail("write:code", fmt("writing %zu bytes returned %d", t.size(), rc)); return; } checked(x, t); if (x.kind == 0) fputs(r.pick({"\n", "\n", " \t\n"}), O.f); } all = O.done(); }
    std::string tail = r.chance(50) ? "" : "Ztail"; Text T(all + tail); FILE *f = T.open(c);
    for (auto &x : q) { if (!read_rec(c, x, f, nullptr)) return; if (x.kind == 0) { int ch; while ((ch = fgetc(f)) == ' ' || ch == '\t'); if (ch != '\n') { c.fail("json:position", fmt("reader stopped before character %d", ch)); return; } } }
    std::string rest; for (int ch; (ch = fgetc(f)) != EOF;) rest += (char)ch;
    if (rest != tail) c.fail("stream:position", fmt("what follows the last matrix is \"%s\", expected \"%s\"", rest.c_str(), tail.c_str()));
    c.obs("round-trips", n); c.obs("positions");
}
// text as other programs write it
static std::string jsep(Ctx &c) { return c.rng.chance(70) ? "" : c.rng.pick({" ", "\n", "\t ", "\r\n", "   "}); }
struct Txt { std::string t; Rec q; };
static Txt gen_json(Ctx &c, bool key_first = true) {
    Rng &r = c.rng; Txt x; Rec &q = x.q = gen_rec(c, 0); auto S = [&] { return jsep(c); };
    if (q.null) { x.t = r.chance(50) ? S() + "null" : S() + "{" + S() + "}"; return x; }
    if (!q.r || !q.c) { q.r = q.r ? q.r : 1; q.c = q.c ? q.c : 1; q.v.assign((size_t)q.r * q.c, 0.0); for (auto &v : q.v) v = io_val(c); }
    std::vector<std::string> m; m.push_back("\"rows\"" + S() + ":" + S() + fmt("%d", q.r)); m.push_back("\"cols\"" + S() + ":" + S() + fmt("%d", q.c));
    if (r.chance(30)) m.push_back("\"flags\"" + S() + ":" + S() + fmt("%d", q.flags)); if (r.chance(30)) m.push_back("\"nnz\":" + S() + fmt("%d", r.below(100)));
    for (int i = (int)m.size() - 1; i > 0; i--) std::swap(m[i], m[r.below(i + 1)]);
    std::string d; bool coord = r.chance(35);
    if (coord) { std::vector<size_t> ix; for (size_t k = 0; k < q.v.size(); k++) if (r.chance(60)) ix.push_back(k); else q.v[k] = 0.0; if (ix.empty()) { ix.push_back(0); q.v[0] = 2.5; } for (int i = (int)ix.size() - 1; i > 0; i--) std::swap(ix[i], ix[r.below(i + 1)]);
        bool f = true; for (size_t k : ix) { if (!f) d += S() + "," + S(); f = false; if (r.chance(10)) { bool rw = r.chance(50); d += fmt("[%d,%d,7.5],", rw ? q.r + (r.chance(50) ? 0 : r.below(50)) : r.below(q.r), rw ? r.below(q.c) : q.c + (r.chance(50) ? 0 : r.below(1000000))); c.obs("out-of-range-entries"); } if (r.chance(3)) d += fmt("[-1,%d,7.5],", r.below(q.c)); d += "[" + S() + fmt("%d", (int)(k % q.r)) + S() + "," + S() + fmt("%d", (int)(k / q.r)) + "," + S() + num(c, q.v[k]) + S() + "]"; } }
    else for (size_t k = 0; k < q.v.size(); k++) { if (k) d += S() + "," + S(); d += num(c, q.v[k]); }
    m.push_back("\"data\"" + S() + ":" + S() + "[" + S() + d + S() + "]");
    x.t = S() + "{" + S(); for (size_t k = 0; k < m.size(); k++) { if (k) x.t += S() + "," + S(); x.t += m[k]; } x.t += S() + "}"; c.D("json%s %dx%d", coord ? "-coord" : "", q.r, q.c); return x;
}
static std::string rcase(Ctx &c, std::string s) { if (c.rng.chance(40)) for (auto &x : s) if (c.rng.chance(50)) x = toupper(x); return s; }
static std::string comments(Ctx &c) { std::string s; while (c.rng.chance(25)) s += c.rng.pick({"%\n", "% a comment 3 4 5\n", "%%%\n"}); if (c.rng.chance(3)) s += "% " + std::string(c.rng.range(100, 3000), 'x') + "\n"; return s; }
static Txt gen_mm(Ctx &c, int kind) { // 1 dense reader, 2 sparse reader
    Rng &r = c.rng; Txt x; Rec &q = x.q = gen_rec(c, kind); bool coord = kind == 2 || r.chance(40);
    if (kind == 1 && coord) { q.sk = 1; q.p = gen_pat(c, q.r, q.c); if (q.flags) for (int j = 0; j < q.c; j++) for (int i = 0; i < j; i++) q.p.del(i, j); }
    std::string sp = "%%" + rcase(c, "MatrixMarket") + " " + rcase(c, "matrix") + " " + rcase(c, coord ? "coordinate" : "array") + " " + rcase(c, "real") + " " + rcase(c, q.flags ? "symmetric" : "general");
    x.t = sp + "\n" + comments(c);
    auto sz = [&](int v) { return std::string(r.chance(15) ? " " : "") + fmt("%d", v); };
    if (!coord) { x.t += sz(q.r) + " " + sz(q.c) + (r.chance(10) ? " " : "") + "\n"; for (int j = 0; j < q.c; j++) for (int i = q.flags ? j : 0; i < q.r; i++) { if (r.chance(2)) x.t += comments(c); x.t += (r.chance(10) ? " " : "") + num(c, q.v[(size_t)j * q.r + i]) + "\n"; } }
    else {
        std::vector<coo_elem_t> es; for (int j = 0; j < q.c; j++) for (int i = 0; i < q.r; i++) if (q.p.has(i, j)) { double v = io_val(c); q.p.set(i, j, v); coo_elem_t e; e.i = i; e.j = j; e.val = v; es.push_back(e); }
        for (int i = (int)es.size() - 1; i > 0; i--) std::swap(es[i], es[r.below(i + 1)]);
        q.order = es; x.t += sz(q.r) + " " + sz(q.c) + " " + sz((int)es.size()) + "\n"; for (auto &e : es) { if (r.chance(2)) x.t += comments(c); x.t += sz(e.i + 1) + r.pick({" ", " ", "  ", "\t"}) + fmt("%d", e.j + 1) + " " + num(c, e.val) + "\n"; }
        if (kind == 1) { q.v.assign((size_t)q.r * q.c, 0.0); for (auto &e : es) q.v[(size_t)e.j * q.r + e.i] = e.val; }
    }
    if (r.chance(20) && x.t.back() == '\n') x.t.pop_back();
    c.D("mm%d%s %dx%d", kind, coord ? "-coord" : "", q.r, q.c); return x;
}
OP(io_foreign, 4) {
    Rng &r = c.rng; int k = r.below(3); Txt x = k == 0 ? gen_json(c) : gen_mm(c, k); if (x.q.r > 1 && x.q.c > 1) c.nontrivial = true;
    Text T(x.t); armas_iostream_t ios;
    if (k == 0 && r.chance(50)) { armas_ios_string(&ios, T.p, (int)T.n); IosEnd e(&ios); read_rec(c, x.q, nullptr, &ios); }
    else read_rec(c, x.q, T.open(c), nullptr);
    c.obs("foreign-texts");
}
OP(io_short_output, 2) { // output that ends early must be reported, and nothing written past the buffer
    Rng &r = c.rng; int kind = r.below(3); Rec q = gen_rec(c, kind); c.D("k%d %dx%d f=%x", kind, q.r, q.c, q.flags); c.nontrivial = q.r > 1 && q.c > 1; std::string full;
    { Out O(c); if (write_rec(c, q, O.f, nullptr) < 0) { c.fail("write", "writing failed"); return; } full = O.done(); }
    int cut = r.chance(10) ? (int)full.size() : r.below((int)full.size()); if (r.chance(20)) cut = (int)full.size() - 1; c.D("cut=%d/%zu", cut, full.size()); bool fits = cut == (int)full.size();
    if (kind == 0 && r.chance(60)) {
        std::vector<char> b(cut + 64, 0x55); struct armas_wbuf wb = ARMAS_WBNULL; wb.buf = b.data(); wb.bytes = cut; armas_iostream_t ios; armas_ios_wbuf(&ios, &wb); int rc = write_rec(c, q, nullptr, &ios);
        if (fits != (rc >= 0)) c.fail("short:wbuf", fmt("writing %zu bytes to space for %d returned %d", full.size(), cut, rc));
        for (int k = 0; k < 64; k++) if (b[cut + k] != 0x55) { c.fail("wbuf:outside", "memory after the buffer written"); break; }
        if (memcmp(b.data(), full.data(), cut)) c.fail("short:content", "what fits in the buffer is wrong");
    } else if (q.kind != 2) { Out O(c, cut); int rc = write_rec(c, q, O.f, nullptr); if (fits != (rc >= 0)) c.fail("short:file", fmt("writing %zu bytes to a file that takes %d returned %d", full.size(), cut, rc)); }
    else { Rec p = q; Out O(c, cut); int rc = write_rec(c, p, O.f, nullptr); std::string f2 = O.s.d; if ((int)f2.size() == cut && fits != (rc >= 0) && cut < (int)full.size()) c.fail("short:file", fmt("writing %zu bytes to a file that takes %d returned %d", full.size(), cut, rc)); }
    c.obs("short-outputs");
}
OP(io_nonfinite, 1) {
    Rng &r = c.rng; Rec q = gen_rec(c, 0); if (q.null || q.v.empty()) return; q.v[r.below((int)q.v.size())] = r.pick({(double)INFINITY, -(double)INFINITY, std::nan("")}); c.D("%dx%d", q.r, q.c); c.nontrivial = true;
    Out O(c); int rc = write_rec(c, q, O.f, nullptr); std::string t = O.done(); if (rc >= 0) { JP p{t.data(), t.data() + t.size()}; p.val(); c.fail("nonfinite", fmt("nan or infinity written as JSON%s without an error", p.bad ? " that no reader accepts" : "")); } c.obs("rejections");
}
OP(io_tokens, 2) { // token level: strings, literals and integers
    Rng &r = c.rng; std::vector<char> b(4096, 0); struct armas_wbuf wb = ARMAS_WBNULL; wb.buf = b.data(); wb.bytes = b.size(); armas_iostream_t ios; armas_ios_wbuf(&ios, &wb); struct Tk { int t; std::string s; long i = 0; double d = 0; }; std::vector<Tk> ts; int n = r.range(1, 12); c.D("tokens=%d", n); c.nontrivial = n > 1;
    for (int k = 0; k < n; k++) {
        Tk t; t.t = r.pki({'{', '}', '[', ']', ':', ',', ARMAS_JSON_STRING, ARMAS_JSON_STRING, ARMAS_JSON_INT, ARMAS_JSON_NUMBER, ARMAS_JSON_TRUE, ARMAS_JSON_FALSE, ARMAS_JSON_NULL}); int rc;
        if (t.t == ARMAS_JSON_STRING) { int l = r.below(40); for (int i = 0; i < l; i++) t.s += (char)(r.chance(15) ? r.pki({'"', '\\', '/', '\n', '\r', '\t', '\b', '\f', '\v', 1, 0x1f, 0x7f}) : r.chance(10) ? r.range(0xa1, 0xff) : r.range(32, 126)); char *p = new char[l]; memcpy(p, t.s.data(), l); rc = armas_json_write_token(t.t, l ? p : "", l, &ios); delete[] p; c.D("%d", l); }
        else if (t.t == ARMAS_JSON_INT) { bool lg = r.chance(40); t.i = lg ? (long)r.next() >> r.below(50) : (int)r.next(); int v = (int)t.i; rc = lg ? armas_json_write_token(t.t, &t.i, sizeof t.i, &ios) : armas_json_write_token(t.t, &v, sizeof v, &ios); }
        else if (t.t == ARMAS_JSON_NUMBER) { if (r.chance(70)) { t.d = io_val(c); rc = armas_json_write_token(t.t, &t.d, sizeof t.d, &ios); } else { float f = (float)(r.uni() * std::pow(10, r.range(-30, 30))); t.d = f; t.i = 1; rc = armas_json_write_token(t.t, &f, sizeof f, &ios); } }
        else rc = armas_json_write_simple_token(t.t, &ios);
        if (rc < 0) { c.fail("token:write", fmt("token %#x refused", t.t)); return; }
        armas_ios_putchar(&ios, r.pki({' ', '\n', '\t', '\r'})); ts.push_back(t);
    }
    std::string all(wb.buf, wb.offset); Text T(all); bool file = r.chance(30); if (file) armas_ios_file(&ios, T.open(c)); else armas_ios_string(&ios, T.p, (int)T.n);
    for (auto &t : ts) {
        char iob[64]; memset(iob, 0x33, sizeof iob); int k = armas_json_read_token(iob, sizeof iob, &ios), w = t.t == ARMAS_JSON_INT ? ARMAS_JSON_NUMBER : t.t;
        if (k != w && !(t.t == ARMAS_JSON_INT && k == ARMAS_JSON_INT)) { c.fail("token:type", fmt("token %#x read as %#x", t.t, k)); break; }
        if (t.t == ARMAS_JSON_STRING && t.s != iob) { c.fail("token:string", fmt("string of %zu bytes read back differently", t.s.size())); break; }
        if (t.t == ARMAS_JSON_INT && strtol(iob, nullptr, 10) != t.i) { c.fail("token:int", fmt("%ld read as %s", t.i, iob)); break; }
        if (t.t == ARMAS_JSON_NUMBER && (t.i == 1 ? strtof(iob, nullptr) != (float)t.d : !bits_eq(strtod(iob, nullptr), t.d))) { c.fail("token:number", fmt("%.17g read as %s", t.d, iob)); break; }
    }
    { char iob[64]; int k = armas_json_read_token(iob, sizeof iob, &ios); if (!c.failures && k != ARMAS_JSON_EOF) c.fail("token:end", fmt("token %#x after the last one", k)); }
    if (!file) armas_ios_close(&ios); c.obs("tokens", n);
}
// ---------------------------------------------------------------- hostile input
static const char *dict_j[] = {"{", "}", "[", "]", ":", ",", "\"rows\"", "\"cols\"", "\"data\"", "\"nnz\"", "\"flags\"", "\"xx\"", "null", "true", "false", "nul", "-", "1", "0", "-1", "2147483647", "2147483648", "4294967297", "65536", "65537", "-2147483648", "1e5", "1e309", "-1e-400", "1.", ".5", "1e", "1e+", "99999999999999999999", "\"", "\\u00e9", "\"\\u1234\"", "\"\\x\"", "[[", "]]", "[0,0,1]", "[1000000,2,3]", "NaN", "\x80", "0000000000000000000000000000000000000000000000000000000000000000000001"};
static const char *dict_m[] = {"%%MatrixMarket", "matrix", "array", "coordinate", "real", "complex", "pattern", "integer", "symmetric", "general", "hermitian", "skew-symmetric", "\n", "\n\n", "%", "% x\n", " ", "0", "1", "-1", "2", "65536", "46341", "2147483647", "2147483648", "-2147483648", "4294967297", "99999999999999999999", "1e3", "1e999", "nan", "inf", "-inf", "0x10", "abc", "\r\n", "\t", "1.5.2", "\x80\xff"};
static std::string mutate(Ctx &c, std::string t, bool js) {
    Rng &r = c.rng; int n = r.range(1, 4); auto word = [&] { return std::string(js ? dict_j[r.below(sizeof dict_j / sizeof *dict_j)] : dict_m[r.below(sizeof dict_m / sizeof *dict_m)]); };
    for (int q = 0; q < n; q++) {
        int k = r.below(11), L = (int)t.size(); if (!L) { t = word(); continue; } int i = r.below(L);
        if (r.chance(50)) i = r.below(std::min(L, 90));
        switch (k) {
        case 0: t.resize(i); break;
        case 1: t[i] = (char)r.next(); break;
        case 2: t.insert(i, word()); break;
        case 3: t.erase(i, r.range(1, 8)); break;
        case 4: t.insert(i, t.substr(r.below(L), r.range(1, 30))); break;
        case 5: case 6: { // replace a word
            auto isw = [&](char ch) { return isalnum((unsigned char)ch) || ch == '.' || ch == '-' || ch == '+'; }; int a = i; while (a < L && !isw(t[a])) a++; int e = a; while (e < L && isw(t[e])) e++; while (a > 0 && a < L && isw(t[a - 1])) a--; if (e > a) t.replace(a, e - a, word()); break; }
        case 7: t += t.substr(i); break;
        case 8: t[i] ^= 1 << r.below(8); break;
        case 9: t.insert(i, std::string(r.range(1, 700), r.pki({' ', '\n', '0', '[', '"', 'a', '1', '\0', '%'}))); break;
        default: { size_t a = t.rfind('\n', i), e = t.find('\n', i); if (e == std::string::npos) e = L - 1; a = a == std::string::npos ? 0 : a + 1; if ((int)a <= (int)e) { std::string l = t.substr(a, e - a + 1); if (r.chance(50)) t.erase(a, e - a + 1); else t.insert(a, l); } }
        }
    }
    return t;
}
static std::string soup(Ctx &c, bool js) { Rng &r = c.rng; std::string t; int n = r.range(0, 60); if (r.chance(20)) { for (int k = 0; k < n * 4; k++) t += (char)r.next(); return t; } if (!js && r.chance(80)) { t = "%%MatrixMarket matrix "; t += r.pick({"array", "coordinate"}); t += r.pick({" real ", " real", " complex "}); t += r.pick({"general", "symmetric", "", "hermitian"}); t += "\n"; } if (js && r.chance(60)) t = "{\"rows\":3,"; for (int k = 0; k < n; k++) { t += js ? dict_j[r.below(sizeof dict_j / sizeof *dict_j)] : dict_m[r.below(sizeof dict_m / sizeof *dict_m)]; if (!js || r.chance(20)) t += r.chance(70) ? " " : "\n"; } return t; }
static void limit_memory() { static bool done = false; if (!done && !ASAN) { struct rlimit l = {3UL << 30, 3UL << 30}; setrlimit(RLIMIT_AS, &l); } done = true; }
OP(io_hostile, 10) {
    Rng &r = c.rng; limit_memory(); int k = r.below(3); std::string t; int how = r.below(10);
    if (how < 8) { Txt x = k == 0 ? gen_json(c) : gen_mm(c, k); t = x.t; if (k == 1 && r.chance(10)) t = gen_mm(c, 2).t; t = mutate(c, t, k == 0); } else t = soup(c, k == 0);
    c.D("hostile k%d bytes=%zu h=%llx", k, t.size(), (unsigned long long)hash_str(t)); c.nontrivial = !t.empty();
    Text T(t); armas_iostream_t ios; bool err = r.chance(15), fault = r.chance(20); if (fault) { g_alloc.sticky = r.chance(30); g_alloc.fail_at = r.below(4); long f0 = g_alloc.failed; (void)f0; }
    auto endfault = [&] { g_alloc.fail_at = -1; g_alloc.sticky = 0; };
    if (k == 0) {
        bool str = r.chance(60); if (str) armas_ios_string(&ios, T.p, (int)T.n); else armas_ios_file(&ios, T.open(c, err));
        for (int n = 0; n < 3; n++) { // read on as a consumer of a stream would
            armas_dense_t S, *A = nullptr; memset(std::addressof(S), 0, sizeof S); bool mine = r.chance(50); if (mine) { memset(std::addressof(S), 0x5a, sizeof S); A = std::addressof(S); }
            int rc = armas_json_read(&A, &ios);
            if (rc < 0) { if (!mine && A) c.fail("hostile:target", "matrix returned with an error"); c.obs("rejections"); break; }
            if (mine && A && A != std::addressof(S)) c.fail("hostile:target", "matrix put elsewhere");
            if (A) { well_formed(c, "json", A); if (mine) armas_release(A); else armas_free(A); }
            c.obs("accepted");
        }
        if (str) armas_ios_close(&ios);
    } else if (k == 1) {
        FILE *f = T.open(c, err);
        for (int n = 0; n < 2; n++) { armas_dense_t S; memset(std::addressof(S), 0x5a, sizeof S); int fl = 0, rc = armas_mmload(std::addressof(S), r.chance(80) ? &fl : nullptr, f); if (rc < 0) { c.obs("rejections"); break; } well_formed(c, "mm", std::addressof(S)); armas_release(std::addressof(S)); c.obs("accepted"); }
    } else {
        FILE *f = T.open(c, err); int tc = 0; armas_sparse_t *A = armassp_mmload(&tc, f);
        if (!A) c.obs("rejections");
        else { c.obs("accepted"); if (A->rows < 0 || A->cols < 0 || A->kind != ARMASSP_COO || A->nnz < 0 || A->nnz > A->size) c.fail("form:spmm", fmt("%dx%d with %d of %d", A->rows, A->cols, A->nnz, A->size)); else for (int q = 0; q < A->nnz; q++) if (A->elems.ep[q].i < 0 || A->elems.ep[q].i >= A->rows || A->elems.ep[q].j < 0 || A->elems.ep[q].j >= A->cols) { c.fail("form:spmm", fmt("element (%d,%d) of a %dx%d matrix", A->elems.ep[q].i, A->elems.ep[q].j, A->rows, A->cols)); break; }
            armassp_free(A); }
    }
    endfault(); if (fault) c.obs("faults"); if (err) c.obs("read-errors"); c.obs("hostile-inputs");
}
OP(io_hostile_tokens, 2) {
    Rng &r = c.rng; std::string t = r.chance(60) ? mutate(c, gen_json(c).t, true) : soup(c, true); c.D("tokens bytes=%zu h=%llx", t.size(), (unsigned long long)hash_str(t)); c.nontrivial = !t.empty();
    Text T(t); armas_iostream_t ios; bool str = r.chance(70); if (str) armas_ios_string(&ios, T.p, (int)T.n); else armas_ios_file(&ios, T.open(c));
    int len = r.pki({1, 2, 3, 8, 16, 64, 1000}); char *iob = new char[len];
    for (size_t n = 0; n < t.size() + 3; n++) { int k = armas_json_read_token(iob, len, &ios); if (k == ARMAS_JSON_EOF) break; if (k == ARMAS_JSON_NUMBER || k == ARMAS_JSON_STRING) { if (!memchr(iob, 0, len)) { c.fail("token:unterminated", "token text is not terminated"); break; } if (k == ARMAS_JSON_NUMBER) { char *e; strtod(iob, &e); if (e == iob || *e) { c.fail("token:number", fmt("\"%s\" taken for a number", iob)); break; } } } else if (k == ARMAS_JSON_EINVAL || k == ARMAS_JSON_E2BIG) c.obs("rejections"); else if (!strchr("{}[]:,", k) && k != ARMAS_JSON_TRUE && k != ARMAS_JSON_FALSE && k != ARMAS_JSON_NULL) { c.fail("token:unknown", fmt("token %#x", k)); break; } c.obs("hostile-tokens"); if (n == t.size() + 2) c.fail("token:stuck", "more tokens than characters"); }
    delete[] iob; if (str) armas_ios_close(&ios);
}
