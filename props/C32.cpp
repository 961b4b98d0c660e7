// C32: whole pipelines: any chain of reading, converting, transposing,
// sorting, removing duplicates, saving, loading and writing gives what its
// steps promise; so do the documented example programs.
#include "lib.hpp"
#include <iostream>
#include <cmath>

typedef typename C::L L; typedef typename C::O O; typedef typename C::W W;
static u64 lim_label() { return std::min<u64>(C::max_label() - 1, 300); }
static u64 lim_m() { return std::min<u64>((u64)std::numeric_limits<O>::max() / 4, 200); }

// What the object must hold: entries (in order while it is a COO), sizes
struct Model { std::vector<Got> es; u64 n = 0, nr = 0, nc = 0; };
static bool by_xy(const Got& a, const Got& b) { return a < b; }

template <bool wgt, class X> static void check_coo(X& x, Model& m, bool ordered, const std::string& what) {
    auto got = entries<wgt>(x); auto want = m.es;
    if (!ordered) { std::sort(got.begin(), got.end(), by_xy); std::sort(want.begin(), want.end(), by_xy); }
    REQUIRE(got.size() == want.size(), "after " << what << " the COO holds " << show(got, wgt) << ", expected " << show(want, wgt));
    for (size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == want[i], "after " << what << " entry " << i << " of the COO is (" << got[i].x << "," << got[i].y << "," << got[i].w << "), expected (" << want[i].x << "," << want[i].y << "," << want[i].w << ")");
    REQUIRE((u64)x.nrows() == m.nr && (u64)x.ncols() == m.nc, "after " << what << " sizes are " << show_dims(x) << ", expected nrows=" << m.nr << " ncols=" << m.nc);
    REQUIRE((u64)x.n() >= std::min(m.n, m.nr) && (u64)x.n() <= std::max({m.n, m.nr, m.nc}), "after " << what << " n is " << +x.n() << ", expected " << m.n << "; nrows=" << m.nr);
    m.es = entries<wgt>(x); m.n = (u64)x.n();
}
template <bool wgt, class X> static void check_csr(X& x, Model& m, bool sorted, const std::string& what) {
    REQUIRE((u64)x.n() == std::max(m.n, m.nr) && (u64)x.nrows() == m.nr && (u64)x.ncols() == m.nc && (u64)x.m() == m.es.size(), "after " << what << " sizes are " << show_dims(x) << ", expected n=" << std::max(m.n, m.nr) << " nrows=" << m.nr << " ncols=" << m.nc << " m=" << m.es.size());
    m.n = (u64)x.n(); Rows want(m.n); for (auto& e : m.es) want.at(e.x).push_back({e.y, wgt ? e.w : 0});
    Rows got = csr_rows<wgt>(x, m.n);
    if (sorted) sort_rows(want);
    require_rows(got, want, wgt, sorted, ("the CSR after " + what).c_str());
    m.es.clear(); for (u64 v = 0; v < m.n; ++v) for (auto& e : got[v]) m.es.push_back({v, e.y, e.w});
}
static void undirect(Model& m, bool ut, bool sl) {
    std::vector<Got> r;
    for (auto e : m.es) { if (e.x == e.y) { if (!sl) r.push_back(e); continue; } if (ut) { if (e.x > e.y) std::swap(e.x, e.y); r.push_back(e); } else { r.push_back(e); std::swap(e.x, e.y); r.push_back(e); } }
    m.es = r; m.nr = m.nc = std::max(m.nr, m.nc);
}

template <bool wgt> static void chain(Src& s, Ctx& c) {
    typedef CooT<C, false, false, false, wgt> X; typedef CsrT<C, wgt> Y; typedef CooT<C, true, false, false, wgt> XS; typedef CooT<C, true, true, false, wgt> XSU; typedef CooT<C, true, true, true, wgt> XSUL; typedef CooT<C, false, false, true, wgt> XL;
    auto sch = gen_sched(s, c, 16);
    EntSpec sp; sp.max_x = sp.max_y = lim_label(); sp.max_m = lim_m(); sp.max_bulk = C::max_bulk() / 4; auto es = gen_entries(s, c, sp); if (es.empty()) es.push_back(Ent());
    pbt::Bulk bulk(s, es.size() > pbt::BULK_FROM); for (auto& e : es) { e.w.v = wgt ? (ld)s.upto(4) : 0; e.w.t = std::to_string((int)e.w.v); }
    std::string text = el_text(s, c, es, wgt, Dress()), fn = put_file("chain.el", text);
    std::vector<unsigned> ops(1 + s.size(12)); for (auto& o : ops) o = (unsigned)s.upto(255);
    static const char* const CO[] = {"to CSR", "transpose", "copy", "save and load", "write and read", "write, read symmetric", "write, read upper triangle without loops", "write, read without loops", "DiGraph in-edges", "DiGraph out-edges", "Matrix columns", "saved DiGraph loaded, out-edges", "larger sizes set"};
    static const char* const CS[] = {"sort", "remove duplicates", "save and load", "to COO", "to symmetric COO", "to COO by file", "to symmetric upper COO"};
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << show(es, wgt) << "; operations"; for (auto x : ops) o << " " << x; o << "\nfile " << quote(text); });

    Model m; for (auto& e : es) m.es.push_back({e.x, e.y, e.w.v}); { Dims d = dims_of(es); m.n = d.n; m.nr = d.nr; m.nc = d.nc; }
    std::unique_ptr<X> x(new X(fn)); std::unique_ptr<Y> y;
    struct G { std::unique_ptr<X>& x; std::unique_ptr<Y>& y; ~G() { if (x) x->free(); if (y) y->free(); } } guard{x, y};
    std::string out = pbt::path("chain.out"), hist = "reading"; check_coo<wgt>(*x, m, true, hist);
    auto setx = [&](X* p) { if (x) x->free(); x.reset(p); if (y) y->free(); y.reset(); };
    auto sety = [&](Y* p) { if (y) y->free(); y.reset(p); if (x) x->free(); x.reset(); };
    auto as_read = [&](Model& q) { Dims d; for (auto& e : q.es) { d.nr = std::max(d.nr, e.x + 1); d.nc = std::max(d.nc, e.y + 1); } q.nr = d.nr; q.nc = d.nc; q.n = std::max(d.nr, d.nc); };
    unsigned done = 0;
    for (unsigned o : ops) {
        if (m.es.size() > (u64)std::numeric_limits<O>::max() / 2 || m.es.size() > std::max<u64>(1200, 3 * es.size())) break;
        if (x) {
            o = (o >= 240 ? 12 : o % 12); std::string what = hist + "; " + CO[o]; size_t mm = m.es.size();
            if (mm == 0 && o >= 3 && o < 12) continue;
            hist = what; ++done;
            switch (o) {
                case 0: { std::unique_ptr<Y> p(new Y(*x)); sety(p.release()); check_csr<wgt>(*y, m, false, what); break; }
                case 1: x->transpose(); for (auto& e : m.es) std::swap(e.x, e.y); std::swap(m.nr, m.nc); check_coo<wgt>(*x, m, true, what); break;
                case 12: {
                    auto grow = [&](u64 v) { return std::min<u64>(C::max_label(), v + s.upto(9)); };
                    u64 nr = grow(m.nr), nc = grow(m.nc), n = grow(std::max({m.n, nr, nc})); if (nr < m.nr || nc < m.nc) break;
                    x->set_nrows((L)nr); x->set_ncols((L)nc); x->set_n((L)n); m.nr = nr; m.nc = nc; m.n = n; check_coo<wgt>(*x, m, true, what); break;
                }
                case 2: { std::unique_ptr<X> p(new X(*x)); setx(p.release()); check_coo<wgt>(*x, m, true, what); break; }
                case 3: { x->save(out); std::unique_ptr<X> p(new X(out)); setx(p.release()); check_coo<wgt>(*x, m, true, what); break; }
                case 4: { x->write(out); std::unique_ptr<X> p(new X(out, pigo::EDGE_LIST)); setx(p.release()); as_read(m); check_coo<wgt>(*x, m, true, what); break; }
                case 5: { x->write(out); Own<XS> p(out, pigo::EDGE_LIST); as_read(m); undirect(m, false, false); as_read(m); Model k = m; check_coo<wgt>(*p, k, true, what); Own<Y> q(*p); check_csr<wgt>(*q, k, false, what); q->save(out); std::unique_ptr<X> r(new X(out)); setx(r.release()); m = k; check_coo<wgt>(*x, m, true, what); break; }
                case 6: { x->write(out); Own<XSUL> p(out, pigo::EDGE_LIST); undirect(m, true, true); Model k = m; { auto g = entries<wgt>(*p); k.nr = (u64)p->nrows(); k.nc = (u64)p->ncols(); k.n = (u64)p->n(); } check_coo<wgt>(*p, k, true, what); if (k.es.empty()) return; p->write(out); std::unique_ptr<X> r(new X(out, pigo::EDGE_LIST)); setx(r.release()); m = k; as_read(m); check_coo<wgt>(*x, m, true, what); break; }
                case 7: { x->write(out); Own<XL> p(out, pigo::EDGE_LIST); std::vector<Got> r; for (auto& e : m.es) if (e.x != e.y) r.push_back(e); m.es = r; m.nr = (u64)p->nrows(); m.nc = (u64)p->ncols(); m.n = (u64)p->n(); check_coo<wgt>(*p, m, true, what); if (r.empty()) return; p->save(out); std::unique_ptr<X> q(new X(out)); setx(q.release()); check_coo<wgt>(*x, m, true, what); break; }
                case 8: case 9: case 11: {
                    Own<DiT<C, wgt>> g(*x); bool in = o == 8;
                    if (in) { for (auto& e : m.es) std::swap(e.x, e.y); std::swap(m.nr, m.nc); }
                    Model k = m;
                    if (o == 11) { g->save(out); Own<DiT<C, wgt>> h(out); check_csr<wgt>(h->out(), k, false, what); h->out().save(out); } else { check_csr<wgt>(in ? g->in() : g->out(), k, false, what); (in ? g->in() : g->out()).save(out); }
                    std::unique_ptr<Y> p(new Y(out)); sety(p.release()); m = k; check_csr<wgt>(*y, m, false, what); break;
                }
                default: {
                    Own<MatT<C, wgt>> g(*x); for (auto& e : m.es) std::swap(e.x, e.y); std::swap(m.nr, m.nc); Model k = m; check_csr<wgt>(g->csc(), k, false, what);
                    Own<X> p(g->csc()); std::unique_ptr<X> q(new X(*p)); setx(q.release()); m = k; check_coo<wgt>(*x, m, true, what); break;
                }
            }
        } else {
            o %= 7; std::string what = hist + "; " + CS[o]; size_t mm = m.es.size(); if (mm == 0 && o == 5) continue;
            hist = what; ++done;
            switch (o) {
                case 0: y->sort(); std::sort(m.es.begin(), m.es.end(), by_xy); check_csr<wgt>(*y, m, true, what); break;
                case 1: { auto d = y->new_csr_without_dups(); struct F { decltype(d)& x; ~F() { x.free(); } } f{d}; std::sort(m.es.begin(), m.es.end(), by_xy); m.es.erase(std::unique(m.es.begin(), m.es.end(), [](const Got& a, const Got& b) { return a.x == b.x && a.y == b.y; }), m.es.end()); Model k = m; check_csr<wgt>(d, k, true, what); d.save(out); std::unique_ptr<Y> p(new Y(out)); sety(p.release()); m = k; check_csr<wgt>(*y, m, true, what); break; }
                case 2: { y->save(out); std::unique_ptr<Y> p(new Y(out)); sety(p.release()); check_csr<wgt>(*y, m, false, what); break; }
                case 3: { std::unique_ptr<X> p(new X(*y)); setx(p.release()); check_coo<wgt>(*x, m, true, what); break; }
                case 4: case 6: {
                    Model k = m; undirect(k, o == 6, false);
                    if (o == 4) { Own<XS> p(*y); check_coo<wgt>(*p, k, false, what); p->save(out); } else { Own<XSU> p(*y); check_coo<wgt>(*p, k, false, what); p->save(out); }
                    std::unique_ptr<X> q(new X(out)); setx(q.release()); m = k; check_coo<wgt>(*x, m, true, what); break;
                }
                default: { y->save(out); std::unique_ptr<X> p(new X(out)); setx(p.release()); check_coo<wgt>(*x, m, true, what); break; }
            }
        }
    }
    c.label(done > 4 ? "five or more steps" : "short chains"); c.nontrivial = done >= 2 && es.size() >= 2;
    (void)sch;
}
CPROP("C32/chain", 6, chain<false>);
CPROP("C32/chain weighted", 6, chain<true>);

#if VP_PART == 0 && defined(_OPENMP)
// The programs of the documentation, as they are
#include <iomanip>
#include <omp.h>
#define main program
namespace ex_clean { using pigo::COO; using pigo::CSR;
#include "examples/clean_graph.cpp"
}
namespace ex_symmetrize {
#include "examples/symmetrize.cpp"
}
namespace ex_find {
#include "examples/find_edge.cpp"
}
#undef main
struct Quiet { std::streambuf *a, *b; std::ostringstream o, e; Quiet() : a(std::cout.rdbuf()), b(std::cerr.rdbuf()) { std::cout.rdbuf(o.rdbuf()); std::cerr.rdbuf(e.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static int run_program(int (*f)(int, char**), std::vector<std::string> a, std::string* out = nullptr) {
    std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
    Quiet q; int r = f((int)a.size(), v.data()); if (out) *out = q.o.str(); return r;
}
static std::string lines(const std::vector<Got>& es) { std::string t; for (auto& e : es) t += std::to_string(e.x) + " " + std::to_string(e.y) + "\n"; return t; }
static void documented(Src& s, Ctx& c) {
    gen_sched(s, c, 16); unsigned k = (unsigned)s.upto(2);
    EntSpec sp; sp.max_x = sp.max_y = s.upto(3) ? 2000 : 12; sp.max_m = 250; auto es = gen_entries(s, c, sp); if (es.empty()) es.push_back(Ent());
    Dress dr; std::string text = el_text(s, c, es, false, dr), fn = put_file("messy.el", text), out = pbt::path("clean.el");
    Model m; for (auto& e : es) m.es.push_back({e.x, e.y, 0}); Dims d = dims_of(es);
    u64 a = s.upto(d.n), b = s.upto(d.n); if (s.upto(1)) { auto& e = es[s.upto(es.size() - 1)]; a = e.x; b = e.y; }
    c.note([&](std::ostream& o) { static const char* const N[] = {"clean_graph", "symmetrize", "find_edge"}; o << N[k] << "; " << show(rt_get()) << "; " << show(es, false); if (k == 2) o << "; edge " << a << " " << b; o << "\nfile " << quote(text); });
    if (k == 2) {
        bool have = false; for (auto& e : es) have |= e.x == a && e.y == b;
        bool outside = a >= d.n || b >= d.n; std::string said;
        try { int r = run_program(ex_find::program, {"find_edge", fn, std::to_string(a), std::to_string(b)}, &said); REQUIRE(!outside, "the program looked for an edge of a vertex that does not exist"); REQUIRE(r == (have ? 0 : 2), "the program says " << quote(said) << " (" << r << "), but the edge is " << (have ? "" : "not ") << "there"); }
        catch (pigo::Error&) { throw; } catch (std::runtime_error& e) { REQUIRE(outside, "the program ended with " << e.what()); }
        c.label(have ? "edge there" : outside ? "no such vertex" : "edge not there"); c.nontrivial = es.size() >= 2; return;
    }
    undirect(m, k == 0, k == 0); std::sort(m.es.begin(), m.es.end());
    if (k == 0) m.es.erase(std::unique(m.es.begin(), m.es.end()), m.es.end());
    if (m.es.empty()) return;
    int r = run_program(k == 0 ? ex_clean::program : ex_symmetrize::program, {"program", fn, out});
    REQUIRE(r == 0, "the program ended with " << r);
    std::string got = get_file(out), want = lines(m.es); REQUIRE(got == want, "the program wrote " << quote(got, 600) << " instead of " << quote(want, 600));
    c.label(k == 0 ? "clean_graph" : "symmetrize"); c.nontrivial = es.size() >= 2;
}
PROP("C32/documented programs", 6, documented);
#endif
