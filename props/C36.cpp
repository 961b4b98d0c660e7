// C36: the work an operation does grows in proportion to its input, does not
// grow with the team, and is shared by the team; so does the memory it takes.
#include "pipeline.hpp"
#include <new>
#include <cstdlib>
#include <malloc.h>
#include <functional>

// ---- memory: everything allocated by operator new, and its peak
inline bool g_mem_on; inline i64 g_mem, g_peak;
#if VP_PART == 0         // once for all parts
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
static void* took(void* p) { if (p && g_mem_on) { g_mem += (i64)malloc_usable_size(p); if (g_mem > g_peak) g_peak = g_mem; } return p; }
void* __wrap_malloc(size_t n) { return took(__real_malloc(n)); }
void* __wrap_calloc(size_t n, size_t k) { return took(__real_calloc(n, k)); }
void* __wrap_realloc(void* p, size_t n) { if (p && g_mem_on) g_mem -= (i64)malloc_usable_size(p); return took(__real_realloc(p, n)); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) took(*p); return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { return took(__real_aligned_alloc(a, n)); }
void __wrap_free(void* p) { if (p && g_mem_on) g_mem -= (i64)malloc_usable_size(p); __real_free(p); }
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

extern "C" {
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* a, const void* b, size_t n) { rt_work_add(n / 8); return __real_memcpy(a, b, n); }
void* __wrap_memmove(void* a, const void* b, size_t n) { rt_work_add(n / 8); return __real_memmove(a, b, n); }
void* __wrap_memset(void* a, int b, size_t n) { rt_work_add(n / 8); return __real_memset(a, b, n); }
}
#endif

struct Cost { u64 work, span, mem; bool tasks; };
static Cost measure(const std::function<void()>& f, unsigned threads) {
    RtSched sc; sc.threads = threads; sc.policy = 5; rt_set(sc);
    g_mem = g_peak = 0; g_mem_on = true; rt_work_start();
    f();
    RtWork w = rt_work(); g_mem_on = false;
    RtSched one; one.threads = 1; rt_set(one);
    return {w.total, w.span, (u64)g_peak, w.tasks};
}
typedef typename C::L L; typedef typename C::O O; typedef typename C::W W;
typedef std::function<void()> Fn;
// An input of about n entries and the operation on it; freed by the returned object
struct Job { Fn run; std::function<void()> done = [] {}; u64 bytes = 0; };

struct Shape { unsigned per_row = 1, comments = 0; u64 seed = 0; bool hub = false, sorted = false; u64 scale = 1; };
static std::vector<Ent> make(u64 n, const Shape& sh) {
    pbt::Src r; r.seed(sh.seed + n);
    std::vector<Ent> es(n); u64 lim = std::max<u64>(2, n / sh.per_row);
    for (auto& e : es) { e.x = r.next() % lim; e.y = r.next() % lim; i64 v = (i64)(r.next() % (sizeof(W) == 1 ? 100 : 30000)); e.w.v = v; e.w.t = std::to_string(v); }
    if (sh.hub) for (size_t i = 0; i < es.size(); i += 2) es[i].x = lim / 2;
    if (sh.sorted) std::sort(es.begin(), es.end());
    for (auto& e : es) { e.x *= sh.scale; e.y *= sh.scale; }
    return es;
}
static std::string text(const std::vector<Ent>& es, const Shape& sh, bool wgt, u64 base) {
    std::string t; size_t k = 0;
    for (auto& e : es) { t += std::to_string(e.x + base) + " " + std::to_string(e.y + base); if (wgt) t += " " + e.w.t; t += '\n'; if (sh.comments && ++k % sh.comments == 0) t += "# a comment\n"; }
    return t;
}
static std::string graph_text(const std::vector<Ent>& es, u64 n) {
    std::vector<std::string> rows(n); for (auto& e : es) rows[e.x] += std::to_string(e.y) + " ";
    std::string t = std::to_string(n) + " " + std::to_string(es.size()) + "\n"; for (auto& r : rows) t += r + "\n";
    return t;
}
enum Op { READ_EL, READ_EL_SYM, READ_EL_UT, READ_EL_SYM_UT, READ_MM, READ_CSR_EL, READ_GRAPH, READ_DI, READ_GRAPH_COO, READ_MAT, READ_TEN, TO_CSR, TO_COO, TO_SYM, TO_DI, TO_MAT, COPY, TRANSPOSE, SORT, DEDUP, WRITE, SAVE_COO, LOAD_COO, SAVE_CSR, LOAD_CSR, TEN_MAX, TEN_WRITE, TEN_SAVE, TEN_LOAD, TEN_COPY, SAVE_DI, LOAD_DI, SEARCH, NOPS };
static const char* OP[] = {"read edge list", "read edge list, symmetric", "read edge list, upper triangle", "read edge list, symmetric upper triangle", "read Matrix Market", "read edge list as CSR", "read .graph as CSR", "read edge list as DiGraph", "read .graph as COO", "read Matrix Market as Matrix", "read tensor", "CSR of a COO", "COO of a CSR", "symmetric COO of a CSR", "DiGraph of a COO", "Matrix of a COO", "copy a COO", "transpose", "sort", "remove duplicates", "write text", "save COO", "load COO", "save CSR", "load CSR", "largest labels", "write tensor", "save tensor", "load tensor", "copy a tensor", "save DiGraph", "load DiGraph", "search a file"};
template <class T, class... A> static Fn reads(const std::string& fn, A... a) { return [=] { Own<T> x(fn, a...); }; }

template <bool wgt> static Job job(unsigned op, u64 n, const Shape& sh) {
    typedef CooT<C, false, false, false, wgt> X; typedef CsrT<C, wgt> Y; typedef DiT<C, wgt> D; typedef MatT<C, wgt> M; typedef TenT<C, wgt> T;
    Job j; auto es = make(n, sh); Dims d = dims_of(es); u64 lim = d.n;
    auto file = [&](const char* name, const std::string& t) { j.bytes = t.size(); return put_file(std::string(name), t); };
    std::string out = pbt::path("out");
    auto coo = [&] { auto p = std::make_shared<Own<X>>((L)d.n, (L)d.nr, (L)d.nc, (O)es.size()); fill_coo<X, wgt>(**p, es); return p; };
    auto csr = [&] { auto p = std::make_shared<Own<Y>>((L)d.n, (O)es.size(), (L)d.n, (L)d.n); fill_csr<Y, wgt>(**p, rows_of(es, d.n, wgt)); return p; };
    auto ten = [&] { std::string fn = file("in.tns", text(es, sh, wgt, 1)); return std::make_shared<Own<T>>(fn); };
    switch (op) {
        case READ_EL: j.run = reads<X>(file("in.el", text(es, sh, wgt, 0))); break;
        case READ_EL_SYM: j.run = reads<CooT<C, true, false, false, wgt>>(file("in.el", text(es, sh, wgt, 0))); break;
        case READ_EL_UT: j.run = reads<CooT<C, false, true, true, wgt>>(file("in.el", text(es, sh, wgt, 0))); break;
        case READ_EL_SYM_UT: j.run = reads<CooT<C, true, true, false, wgt>>(file("in.el", text(es, sh, wgt, 0))); break;
        case READ_MM: j.run = reads<X>(file("in.mtx", std::string(wgt ? "%%MatrixMarket matrix coordinate real general\n" : "%%MatrixMarket matrix coordinate pattern general\n") + std::to_string(lim) + " " + std::to_string(lim) + " " + std::to_string(n) + "\n" + text(es, Shape(), wgt, 1))); break;
        case READ_MAT: j.run = reads<M>(file("in.mtx", std::string(wgt ? "%%MatrixMarket matrix coordinate real general\n" : "%%MatrixMarket matrix coordinate pattern general\n") + std::to_string(lim) + " " + std::to_string(lim) + " " + std::to_string(n) + "\n" + text(es, Shape(), wgt, 1))); break;
        case READ_CSR_EL: j.run = reads<Y>(file("in.el", text(es, sh, wgt, 0))); break;
        case READ_DI: j.run = reads<D>(file("in.el", text(es, sh, wgt, 0))); break;
        case READ_GRAPH: j.run = reads<Y>(file("in.graph", graph_text(es, lim))); break;
        case READ_GRAPH_COO: j.run = reads<X>(file("in.graph", graph_text(es, lim))); break;
        case READ_TEN: j.run = reads<T>(file("in.tns", text(es, sh, wgt, 1))); break;
        case TO_CSR: { auto p = coo(); j.run = [p] { Own<Y> y(**p); }; break; }
        case TO_COO: { auto p = csr(); j.run = [p] { Own<X> y(**p); }; break; }
        case TO_SYM: if constexpr (!wgt) { auto p = csr(); j.run = [p] { Own<CooT<C, true>> y(**p); }; } break;
        case TO_DI: { auto p = coo(); j.run = [p] { Own<D> y(**p); }; break; }
        case TO_MAT: { auto p = coo(); j.run = [p] { Own<M> y(**p); }; break; }
        case COPY: { auto p = coo(); j.run = [p] { Own<X> y(**p); }; break; }
        case TRANSPOSE: { auto p = coo(); j.run = [p] { (*p)->transpose(); }; break; }
        case SORT: { auto p = csr(); j.run = [p] { (*p)->sort(); }; break; }
        case DEDUP: { auto p = csr(); j.run = [p] { auto q = (*p)->new_csr_without_dups(); q.free(); }; break; }
        case WRITE: { auto p = coo(); j.run = [p, out] { (*p)->write(out); }; break; }
        case SAVE_COO: { auto p = coo(); j.run = [p, out] { (*p)->save(out); }; break; }
        case LOAD_COO: { auto p = coo(); (*p)->save(out); j.run = reads<X>(out); break; }
        case SAVE_CSR: { auto p = csr(); j.run = [p, out] { (*p)->save(out); }; break; }
        case LOAD_CSR: { auto p = csr(); (*p)->save(out); j.run = reads<Y>(out); break; }
        case TEN_MAX: { auto p = ten(); j.run = [p] { (*p)->max_labels(); }; break; }
        case TEN_WRITE: { auto p = ten(); j.run = [p, out] { (*p)->write(out); }; break; }
        case TEN_SAVE: { auto p = ten(); j.run = [p, out] { (*p)->save(out); }; break; }
        case TEN_COPY: { auto p = ten(); j.run = [p] { Own<T> t(**p); }; break; }
        case SAVE_DI: { auto p = coo(); auto q = std::make_shared<Own<D>>(**p); j.run = [q, out] { (*q)->save(out); }; break; }
        case LOAD_DI: { auto p = coo(); Own<D> q(**p); q->save(out); j.run = reads<D>(out); break; }
        case SEARCH: { std::string fn = file("in.txt", text(es, sh, wgt, 0)); j.run = [fn] { pigo::ROFile f(fn); auto r = f.reader().find_offsets<pigo::Tensor<O, O, O*, float, float*, false>>('\n'); r.free(); }; break; }
        case TEN_LOAD: { auto p = ten(); (*p)->save(out); j.run = reads<T>(out); break; }
    }
    return j;
}
// Which bounds hold: rows are handed out some ten thousand at a time by these
static bool in_chunks(unsigned op) { return op == SORT || op == DEDUP || op == TO_COO || op == TO_SYM || op == READ_GRAPH_COO; }
template <bool wgt> static void grows(Src& s, Ctx& c) {
    unsigned op = (unsigned)s.upto(NOPS - 1); if (wgt && op == TO_SYM) op = TO_COO; else if (wgt && (op == READ_GRAPH || op == READ_GRAPH_COO)) op = READ_CSR_EL;
    bool chunks = in_chunks(op), text = op < TO_CSR;
    unsigned threads = chunks ? 3 + (unsigned)s.upto(1) : 2 + (unsigned)s.upto(30);
    Shape sh; sh.per_row = chunks ? 1 : s.pick({1u, 4u, 16u, 64u}); sh.comments = s.pick({0u, 3u, 50u}); sh.seed = s.upto(999); sh.hub = op != READ_GRAPH && op != READ_GRAPH_COO && s.chance(1, 4); sh.sorted = s.chance(1, 4);
    u64 n = 1000 + s.upto(3000); if (chunks) n = 30000 + 2 * n; else if (!text) n *= 8;
    u64 big = 4 * n;
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << (wgt ? ", weighted" : "") << "; " << OP[op] << ", " << n << " and " << big << " entries, " << sh.per_row << " per row" << (sh.hub ? ", half of them in one row" : "") << (sh.sorted ? ", sorted" : "") << ", by 1 and " << threads << " threads"; });
    Cost a, b, p;
    { Job j = job<wgt>(op, n, sh); a = measure(j.run, 1); }
    { Job j = job<wgt>(op, big, sh); b = measure(j.run, 1); }
    { Job j = job<wgt>(op, big, sh); p = measure(j.run, threads); }
    if (getenv("VP_MEASURE")) {
        FILE* f = fopen(getenv("VP_MEASURE"), "a");
        fprintf(f, "M op=%u,%s%s per_row=%u%s%s T=%u n=%lu w1=%lu grow=%.2f wT=%.2f span*T=%.2f extra/T=%.0f mem/n=%.1f memgrow=%.2f memT=%.2f memx/T=%.0f\n", op, OP[op], wgt ? "W" : "", sh.per_row, sh.hub ? "h" : "", sh.sorted ? "s" : "", threads, n, a.work, (double)b.work / a.work, (double)p.work / b.work, (double)p.span * threads / b.work, ((double)p.span - (double)b.work / threads) / threads, (double)b.mem / big, (double)b.mem / std::max<u64>(1, a.mem), (double)p.mem / std::max<u64>(1, b.mem), ((double)p.mem - (double)b.mem) / threads); fclose(f);
    }
    auto show = [](const Cost& x) { std::ostringstream o; o << x.work << " accesses, " << x.span << " along the longest path, " << x.mem << " bytes"; return o.str(); };
    c.note([&](std::ostream& o) { o << "\n" << n << " entries by one thread: " << show(a) << "\n" << big << " by one: " << show(b) << "\n" << big << " by " << threads << ": " << show(p); });
    REQUIRE(b.work <= 7 * a.work + 20000, "four times the entries take " << b.work << " accesses after " << a.work);
    // (what a search finds is kept in vectors, which double)
    u64 twice = op == SEARCH ? 2 : 1;
    REQUIRE(b.mem <= 7 * twice * a.mem + 65536, "four times the entries take " << b.mem << " bytes after " << a.mem);
    REQUIRE(p.work <= b.work + b.work / 2 + 4000 * threads, "a team of " << threads << " does " << p.work << " accesses, one thread " << b.work);
    REQUIRE(p.mem <= twice * (b.mem + b.mem / 2) + 65536 + 4096 * threads, "a team of " << threads << " takes " << p.mem << " bytes, one thread " << b.mem);
    // a row is sorted by one thread; what a vector holds is initialised by the thread that makes it
    if (C::st != VEC && !p.tasks && !(chunks && sh.hub)) {
        u64 share = b.work / threads;
        REQUIRE(p.span <= 2 * share + share / 4 + 4000 + 400 * threads, "a team of " << threads << " takes as long as " << p.span << " accesses, one thread " << b.work);
        c.label("work shared");
    }
    c.nontrivial = true; c.label(OP[op]);
}
// Nothing is kept per label where only entries are: the same entries with
// labels far apart
template <bool wgt> static void labels(Src& s, Ctx& c) {
    static const unsigned OPS[] = {READ_EL, READ_EL_SYM, READ_EL_UT, READ_EL_SYM_UT, READ_MM, READ_TEN, COPY, TRANSPOSE, WRITE, SAVE_COO, LOAD_COO, TEN_MAX, TEN_WRITE, TEN_SAVE, TEN_LOAD};
    unsigned op = OPS[s.upto(sizeof OPS / sizeof *OPS - 1)], threads = 1 + (unsigned)s.upto(15);
    Shape sh; sh.per_row = s.pick({1u, 4u}); sh.seed = s.upto(999); Shape far = sh; far.scale = 1 + s.upto(500000); u64 n = 500 + s.upto(2000);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << (wgt ? ", weighted" : "") << "; " << OP[op] << ", " << n << " entries, the same with labels " << far.scale << " times as large, by " << threads << " threads"; });
    Cost a, b;
    { Job j = job<wgt>(op, n, sh); a = measure(j.run, threads); }
    { Job j = job<wgt>(op, n, far); b = measure(j.run, threads); }
    REQUIRE(b.work <= 5 * a.work + 20000, "larger labels take " << b.work << " accesses after " << a.work);
    REQUIRE(b.mem <= a.mem + a.mem / 2 + 65536, "larger labels take " << b.mem << " bytes after " << a.mem);
    c.nontrivial = far.scale > 1; c.label(OP[op]);
}
CPROP("C36/labels", 1, labels<false>);
CPROP("C36/labels weighted", 1, labels<true>);
CPROP("C36/work", 6, grows<false>);
CPROP("C36/work weighted", 6, grows<true>);
