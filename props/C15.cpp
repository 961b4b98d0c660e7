// C15: a DiGraph or Matrix holds every entry in both directions.
#include "lib.hpp"
typedef Conf<(VP_PART + 2) % 8>::T C2;

template <class X, class Y> static void same_dims(X& a, const char* what, u64 n, u64 nr, u64 nc, u64 m) {
    REQUIRE((u64)a.n() >= n && (u64)a.n() <= std::max(n, std::max(nr, nc)) && (u64)a.nrows() == nr && (u64)a.ncols() == nc && (u64)a.m() == m, what << ": sizes are " << show_dims(a) << ", expected n=" << n << " nrows=" << nr << " ncols=" << nc << " m=" << m);
}
template <class G> static auto& fwd(G& g, int, decltype(&G::out)* = 0) { return g.out(); }
template <class G> static auto& bwd(G& g, int, decltype(&G::out)* = 0) { return g.in(); }
template <class G> static auto& fwd(G& g, long, decltype(&G::csr)* = 0) { return g.csr(); }
template <class G> static auto& bwd(G& g, long, decltype(&G::csr)* = 0) { return g.csc(); }

// Compare with weights read from text (want may be inexact)
template <bool wgt, class W> static void require_both(Rows got, const std::vector<Ent>& es, u64 n, bool tr, const char* what) {
    if (!wgt) { require_rows(got, rows_of(es, n, false, tr), false, false, what); return; }
    std::vector<std::vector<std::pair<u64, const Wgt*>>> want(n);
    for (auto& e : es) want.at(tr ? e.y : e.x).push_back({tr ? e.x : e.y, &e.w});
    for (u64 v = 0; v < n; ++v) {
        REQUIRE(got[v].size() == want[v].size(), what << ": row " << v << " has " << got[v].size() << " entries, expected " << want[v].size());
        std::sort(got[v].begin(), got[v].end()); std::sort(want[v].begin(), want[v].end(), [](auto& a, auto& b) { return a.first != b.first ? a.first < b.first : a.second->v < b.second->v; });
        for (size_t i = 0; i < got[v].size(); ++i) REQUIRE(got[v][i].y == want[v][i].first && weq<W>((W)got[v][i].w, *want[v][i].second), what << ": row " << v << " holds " << got[v][i].y << ":" << got[v][i].w << ", expected " << want[v][i].first << ":" << want[v][i].second->t);
    }
}
template <class G> struct IsDi { static const bool v = false; };
template <class L, class O, class LS, class OS, bool w, class W, class WS> struct IsDi<pigo::DiGraph<L, O, LS, OS, w, W, WS>> { static const bool v = true; };

template <bool wgt, class W, class G> static void check(G& g, const std::vector<Ent>& es, u64 n, u64 nr, u64 nc) {
    auto& f = fwd(g, 0); auto& b = bwd(g, 0); u64 m = es.size();
    // rows of each side: n, or as many rows as that side has
    auto rows = [&](u64 own) { return std::max<u64>(n, own); };
    REQUIRE((u64)f.n() == rows(nr) && (u64)f.nrows() == nr && (u64)f.ncols() == nc && (u64)f.m() == m, "rows side: sizes are " << show_dims(f) << ", expected n=" << rows(nr) << " nrows=" << nr << " ncols=" << nc << " m=" << m);
    REQUIRE((u64)b.n() == rows(nc) && (u64)b.nrows() == nc && (u64)b.ncols() == nr && (u64)b.m() == m, "columns side: sizes are " << show_dims(b) << ", expected n=" << rows(nc) << " nrows=" << nc << " ncols=" << nr << " m=" << m);
    require_both<wgt, W>(csr_rows<wgt>(f, (u64)f.n()), es, (u64)f.n(), false, "rows side");
    require_both<wgt, W>(csr_rows<wgt>(b, (u64)b.n()), es, (u64)b.n(), true, "columns side");
    REQUIRE((u64)g.nrows() == nr && (u64)g.ncols() == nc, "nrows() and ncols() are " << +g.nrows() << " and " << +g.ncols());
    if constexpr (IsDi<G>::v) REQUIRE((u64)g.m() == m && (u64)g.n() == (u64)f.n(), "m() and n() are " << +g.m() << " and " << +g.n());
}

template <class G, class CA, bool wgt, class W, bool sy = false, bool ut = false, bool sl = false>
static void memory(Src& s, Ctx& c) {
    gen_sched(s, c);
    u64 lim = std::min(C::max_label(), CA::max_label());
    EntSpec sp; sp.max_x = sp.max_y = lim; sp.max_m = std::min(C::max_m(), CA::max_m()); sp.max_bulk = std::min(C::max_bulk(), CA::max_bulk());
    auto es = mem_entries<W>(s, c, sp, wgt);
    Dims d = dims_of(es);
    if (s.chance(1, 3)) d.nr += s.upto(std::min<u64>(lim + 1 - d.nr, 5));
    if (s.chance(1, 3)) d.nc += s.upto(std::min<u64>(lim + 1 - d.nc, 5));
    d.n = std::max(d.nr, d.nc);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; n=" << d.n << " nrows=" << d.nr << " ncols=" << d.nc << "; " << show(es, false) << (wgt ? " weighted" : ""); });
    // the options of a COO say how it was read, not what its entries mean
    Own<CooT<CA, sy, ut, sl, wgt, W>> coo((typename CA::L)d.n, (typename CA::L)d.nr, (typename CA::L)d.nc, (typename CA::O)es.size());
    fill_coo<CooT<CA, sy, ut, sl, wgt, W>, wgt>(*coo, es);
    Own<G> g(*coo);
    for (auto& e : es) e.w.exact = true;
    check<wgt, W>(*g, es, d.n, d.nr, d.nc);
    auto after = entries<wgt>(*coo);
    REQUIRE((u64)coo->n() == d.n && (u64)coo->nrows() == d.nr && (u64)coo->ncols() == d.nc, "the sizes of the COO changed to " << show_dims(*coo));
    for (size_t i = 0; i < es.size(); ++i) REQUIRE(after[i].x == es[i].x && after[i].y == es[i].y && (!wgt || after[i].w == es[i].w.v), "the COO changed at entry " << i);
    if (d.nr != d.nc) c.label("rectangular");
    c.nontrivial = es.size() >= 2 && rt_multi();
}
CPROP("C15/digraph", 3, (memory<DiT<C>, C, false, C::W>));
CPROP("C15/digraph weighted", 3, (memory<DiT<C, true>, C, true, C::W>));
CPROP("C15/digraph other types", 2, (memory<DiT<C>, C2, false, C::W>));
CPROP("C15/matrix", 3, (memory<MatT<C>, C, false, C::W>));
CPROP("C15/matrix weighted", 3, (memory<MatT<C, true>, C, true, C::W>));
CPROP("C15/matrix other types", 2, (memory<MatT<C, true, int8_t>, C2, true, int8_t>));
CPROP("C15/digraph symmetric", 2, (memory<DiT<C>, C, false, C::W, true>));
CPROP("C15/digraph upper triangle", 2, (memory<DiT<C>, C, false, C::W, true, true>));
CPROP("C15/digraph weighted options", 1, (memory<DiT<C, true>, C, true, C::W, VP_PART % 2 == 0, VP_PART / 2 % 2 == 0, true>));
CPROP("C15/matrix symmetric", 1, (memory<MatT<C>, C, false, C::W, true, VP_PART % 2 == 1, VP_PART / 2 % 2 == 0>));
CPROP("C15/matrix weighted options", 1, (memory<MatT<C, true>, C, true, C::W, VP_PART / 2 % 2 == 1, true, VP_PART % 2 == 0>));

// From a file
template <class G, bool wgt>
static void file(Src& s, Ctx& c) {
    gen_sched(s, c);
    typedef typename C::W W;
    EntSpec sp; sp.max_x = sp.max_y = C::max_label() - 1; sp.max_m = C::max_m(); sp.max_bulk = C::max_bulk();
    if (wgt) sp.w = wspec<W>();
    auto es = gen_entries(s, c, sp);
    if (es.empty()) { Ent e; if (wgt) e.w = gen_wgt(s, sp.w); es.push_back(e); }
    Dims d = dims_of(es); std::string text, fn;
    if (s.upto(1)) {
        u64 hr = d.nr, hc = d.nc; u64 lim = C::max_label();
        if (s.upto(1)) hr += s.upto(std::min<u64>(lim - hr, 5));
        text = mm_text(s, c, es, hr, hc, es.size(), wgt, Dress()); fn = put_file("in.mtx", text); c.label("matrix market");
        for (auto& e : es) { ++e.x; ++e.y; }
        d.nr = hr + 1; d.nc = hc + 1; d.n = std::max(d.nr, d.nc);
    } else { text = el_text(s, c, es, wgt, Dress()); fn = put_file("in.el", text); c.label("edge list"); }
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << show(es, wgt) << "\nfile " << quote(text); });
    Own<G> g(fn);
    check<wgt, W>(*g, es, d.n, d.nr, d.nc);
    c.nontrivial = es.size() >= 2 && rt_multi();
}
CPROP("C15/digraph file", 2, (file<DiT<C>, false>));
CPROP("C15/digraph file weighted", 2, (file<DiT<C, true>, true>));
CPROP("C15/matrix file", 2, (file<MatT<C>, false>));
CPROP("C15/matrix file weighted", 2, (file<MatT<C, true>, true>));
