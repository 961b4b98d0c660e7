// C31: memory: whatever is made and freed (raw pointers) or goes out of scope
// (vectors, shared pointers) leaves the heap as it was, also when making it
// fails; freeing twice does nothing.
#include "pipeline.hpp"
#include <functional>
#include <map>

typedef typename C::L L; typedef typename C::O O; typedef typename C::W W;

// The first run may fill caches; the second must leave the heap as it was
static void require_even(const std::function<void()>& f, const std::string& what) {
    f();
    u64 a = rt_heap(); f(); u64 b = rt_heap();
    if (a != b) { a = rt_heap(); f(); b = rt_heap(); }
    REQUIRE(a == b, what << " leaves " << (i64)(b - a) << " bytes on the heap");
}

// A history over a few objects, all freed in the end
struct Step { unsigned op, a, b, c; };
template <bool wgt> static void objects(const std::vector<Step>& h, const std::string& fn, const std::string& tns) {
    typedef CooT<C, false, false, false, wgt> X; typedef CooT<C, true, false, false, wgt> XS; typedef CsrT<C, wgt> Y; typedef GraphT<C, wgt> G; typedef DiT<C, wgt> Z; typedef MatT<C, wgt> M; typedef TenT<C, wgt> T;
    const unsigned K = 3; std::unique_ptr<X> x[K]; std::unique_ptr<T> t[K]; std::unique_ptr<Y> y[K]; std::unique_ptr<XS> xs; std::unique_ptr<G> g; std::unique_ptr<Z> z; std::unique_ptr<M> m;
    auto drop = [](auto& p, unsigned how) { if (p) { p->free(); if (how % 3 == 1) p->free(); p.reset(); } };
    std::string out = pbt::path("life.out");
    for (auto& s : h) {
        unsigned a = s.a % K, b = s.b % K;
        switch (s.op) {
            case 0: drop(x[a], s.c); x[a].reset(new X(fn)); break;
            case 1: drop(x[a], s.c); x[a].reset(s.c % 4 ? new X((L)5, (L)5, (L)5, (O)(s.c % 4)) : s.c & 4 ? new X() : new X((L)0, (L)0, (L)0, (O)0)); { auto n = (size_t)x[a]->m(); for (size_t i = 0; i < n; ++i) raw(x[a]->x())[i] = raw(x[a]->y())[i] = (L)(i % 5); if constexpr (wgt) for (size_t i = 0; i < n; ++i) raw(x[a]->w())[i] = 1; } break;
            case 2: if (x[a] && a != b) { drop(x[b], s.c); x[b].reset(new X(*x[a])); } break;
            case 3: if (x[a] && x[b]) *x[b] = *x[a]; break;
            case 4: if (x[a]) x[a]->transpose(); break;
            case 5: if (x[a]) { x[a]->free(); if (s.c & 1) x[a]->free(); } break;
            case 6: if (x[a]) { drop(y[b], s.c); if (x[a]->m() > 0) y[b].reset(new Y(*x[a])); } break;
            case 7: if (y[a]) { drop(x[b], s.c); x[b].reset(new X(*y[a])); } break;
            case 8: if (y[a]) { y[a]->sort(); auto d = y[a]->new_csr_without_dups(); d.free(); } break;
            case 9: drop(y[a], s.c); if (s.c & 1) y[a].reset(new Y(fn)); else y[a].reset(new Y()); if (!(s.c & 1)) drop(y[a], s.c >> 1); break;
            case 10: if (x[a] && x[a]->m() > 0) { drop(z, s.c); z.reset(s.b & 1 ? new Z(*x[a]) : new Z(fn)); if (s.c & 1) { z->save(out); Z w(out); w.free(); } } break;
            case 11: if (x[a] && x[a]->m() > 0) { drop(m, s.c); m.reset(s.b & 1 ? new M(*x[a]) : new M(fn)); } break;
            case 12: drop(xs, s.c); if (y[a] && s.b & 1) xs.reset(new XS(*y[a])); else xs.reset(new XS(fn)); break;
            case 13: if (x[a]) { x[a]->save(out); drop(x[b], s.c); x[b].reset(new X(out)); if (x[b]->m() > 0 && (s.c & 1)) x[b]->write(out); } break;
            case 14: drop(g, s.c); g.reset(new G(fn)); if (s.c & 1) { g->save(out); Y w(out); w.free(); } break;
            case 15: drop(t[a], s.c); t[a].reset(s.c % 3 == 0 ? new T(tns) : s.c % 3 == 1 ? new T() : new T((O)(s.b & 3), (O)(s.c & 1))); { auto n = (size_t)t[a]->m(); if (s.c % 3 == 2) { for (size_t i = 0; i < n * (size_t)t[a]->order(); ++i) raw(t[a]->c())[i] = 1; if constexpr (wgt) for (size_t i = 0; i < n; ++i) raw(t[a]->w())[i] = 1; } } break;
            case 16: if (t[a] && a != b) { drop(t[b], s.c); t[b].reset(new T(*t[a])); } break;
            case 17: if (t[a] && t[b]) *t[b] = *t[a]; break;
            case 18: if (t[a]) { if (s.c & 1) t[a]->free(); else if (t[a]->m() > 0) t[a]->max_labels(); } break;
            case 20: if (x[a]) { x[a]->save(out); if (s.c & 1) { Y w(out); w.free(); } else if (s.c & 2) { Z w(out); w.free(); } else if (s.c & 4) { M w(out); w.free(); } else { G w(out); w.free(); } } break;     // read as another object, also without entries
            case 21: if (y[a]) { y[a]->save(out); if (s.c & 1) { X w(out); w.free(); } else if (s.c & 2) { Z w(out); w.free(); } else { XS w(out); w.free(); } } break;
            default: { pigo::ROFile f(tns); pigo::FileReader r = f.reader(); auto o = r.find_offsets<T>('\n'); o.free(); break; }
        }
    }
    for (unsigned i = 0; i < K; ++i) { drop(x[i], i); drop(t[i], i + 1); drop(y[i], i + 2); }
    drop(xs, 1); drop(g, 0); drop(z, 1); drop(m, 2);
}
template <bool wgt> static void life(Src& s, Ctx& c) {
    gen_sched(s, c, 8);
    TextCase t; for (;;) { t = gen_text(s, c, std::min<u64>(C::max_label(), 60) - 3, 30, wspec<W>(), wgt, false); if (!throws_error([&] { Own<CooT<C>> x(t.fn); })) break; }
    TensorCase tc = gen_tensor(s, c, std::min<u64>(C::max_label(), 60) - 3, 20, wspec<W>()); std::string tns = put_file("l.tns", tensor_text(s, c, tc, wgt));
    std::vector<Step> h(1 + s.size(20)); for (auto& x : h) { x.op = (unsigned)s.upto(22); x.a = (unsigned)s.upto(2); x.b = (unsigned)s.upto(2); x.c = (unsigned)s.upto(7); }
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << (wgt ? "; weighted" : "") << "; steps"; for (auto& x : h) o << " " << x.op << "(" << x.a << "," << x.b << "," << x.c << ")"; o << "\nfile " << quote(t.text); });
    if (!rt_has_heap()) return;
    require_even([&] { objects<wgt>(h, t.fn, tns); }, "making and freeing objects");
    c.label("histories"); c.nontrivial = h.size() >= 2;
}
CPROP("C31/life", 3, life<false>);
CPROP("C31/life weighted", 3, life<true>);

// What fails leaves nothing
template <class X> static void attempt_make(const std::string& fn, pigo::FileType ft) { try { X x(fn, ft); x.free(); } catch (pigo::Error&) { } }
template <bool wgt> static void failing(Src& s, Ctx& c) {
    gen_sched(s, c, 8);
    unsigned k = (unsigned)s.upto(6); std::string data, what; pigo::FileType ft = pigo::AUTO;
    u64 lim = std::min<u64>(C::max_label(), 60) - 3; std::string name = "in.bin", tmp = pbt::path("make.tmp");
    EntSpec sp; sp.max_x = sp.max_y = lim; sp.max_m = 20; sp.w = wspec<W>(); auto es = gen_entries(s, c, sp); no_neg_zero(es); Dims d = dims_of(es); d.nr = std::max<u64>(1, d.nr); d.nc = std::max<u64>(1, d.nc);
    typedef CooT<C, false, false, false, wgt> X; typedef CsrT<C, wgt> Y; typedef DiT<C, wgt> Z; typedef TenT<C, wgt> T; typedef MatT<C, wgt> M;
    if (k == 0) { what = "a contradicted header"; unsigned h = (unsigned)s.upto(2); data = mm_text(s, c, es, d.nr - (h == 0), d.nc - (h == 1), es.size() + (h == 2), wgt, Dress()); name = "in.mtx"; }
    else if (k == 1) { what = "a contradicted graph header"; GraphCase g = gen_graph(s, c, lim, 20, lim, true); std::string h = std::to_string(g.n) + " " + std::to_string(g.m), h2 = std::to_string(g.n + 3 * s.upto(1)) + " " + std::to_string(2 * g.m + 1); size_t p = 0; while (g.text[p] == '%' || g.text[p] == '#') p = g.text.find('\n', p) + 1; data = g.text.substr(0, p) + h2 + g.text.substr(p + h.size()); name = "in.graph"; }
    else if (k == 2) { what = "an unsupported format"; data = "%%MatrixMarket matrix array real general\n2 2\n1\n2\n3\n4\n"; name = "in.mtx"; }
    else {
        // a binary file, cut or with a wrong byte
        put_file("in.el", el_text(s, c, es, wgt, Dress())); std::string el = pbt::path("in.el"); unsigned b = (unsigned)s.upto(3);
        if (b == 0) { Own<X> x(el, pigo::EDGE_LIST); x->save(tmp); } else if (b == 1) { Own<Y> x(el, pigo::EDGE_LIST); x->save(tmp); } else if (b == 2) { Own<Z> x(el, pigo::EDGE_LIST); x->save(tmp); } else { TensorCase tc = gen_tensor(s, c, lim, 20, wspec<W>()); put_file("in.tns", tensor_text(s, c, tc, wgt)); Own<T> x(pbt::path("in.tns"), pigo::EDGE_LIST); x->save(tmp); }
        data = get_file(tmp);
        if (k == 3) { what = "a file cut short"; data.resize(s.upto(data.size() - 1)); if (data.empty()) data = "P"; }
        else if (k == 4) { what = "a file of another kind"; }
        else if (k == 5) { what = "other type sizes"; size_t p = (b == 0 ? 11 : b == 1 ? 11 : b == 2 ? 26 : 13) + s.upto(1); data[p] = (char)(data[p] == 8 ? 4 : data[p] * 2); }
        else { what = "a second graph cut short"; if (b == 2) data.resize(data.size() - 1 - s.upto(std::min<size_t>(data.size() - 30, 20))); else data.resize(data.size() / 2); }
        if (s.upto(1)) ft = s.pick<pigo::FileType>({pigo::PIGO_COO_BIN, pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN});
    }
    unsigned o = (unsigned)s.upto(6); static const char* const O_[] = {"COO", "CSR", "DiGraph", "Tensor", "Matrix", "COO without loops", "upper triangle COO"};
    c.note([&](std::ostream& q) { q << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << O_[o] << (wgt ? ", weighted" : "") << " from " << what << " (" << name << ", type " << (int)ft << ")\n" << quote(data, 400); });
    std::string fn = put_file(name, data); if (!rt_has_heap()) return;
    bool err = throws_error([&] { if (o == 0) Own<X> x(fn, ft); else if (o == 1) Own<Y> x(fn, ft); else if (o == 2) Own<Z> x(fn, ft); else if (o == 3) Own<T> x(fn, ft); else if (o == 4) Own<M> x(fn); else if (o == 5) Own<CooT<C, false, false, true, wgt>> x(fn, ft); else Own<CooT<C, false, true, false, wgt>> x(fn, ft); });
    require_even([&] {
        if (o == 0) attempt_make<X>(fn, ft); else if (o == 1) attempt_make<Y>(fn, ft); else if (o == 2) attempt_make<Z>(fn, ft); else if (o == 3) attempt_make<T>(fn, ft);
        else if (o == 4) { try { M x(fn); x.free(); } catch (pigo::Error&) { } } else if (o == 5) attempt_make<CooT<C, false, false, true, wgt>>(fn, ft); else attempt_make<CooT<C, false, true, false, wgt>>(fn, ft);
    }, std::string(err ? "failing to read " : "reading ") + O_[o] + " from " + what);
    c.label(what); c.label(err ? "refused" : "read"); c.nontrivial = err;
}
CPROP("C31/failing", 2, failing<false>);
CPROP("C31/failing weighted", 2, failing<true>);
