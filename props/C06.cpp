// C06: a CSR built from a COO has exactly its entries, row by row.
#include "lib.hpp"

typedef Conf<(VP_PART + 3) % 8>::T C2;      // the other side's types
static u64 lim_label() { return std::min(C::max_label(), C2::max_label()); }
static u64 lim_m() { return std::min(C::max_m(), C2::max_m()); }

struct Sizes { u64 n, nr, nc; };
static Sizes gen_sizes(Src& s, const std::vector<Ent>& es, u64 lim) {
    Dims d = dims_of(es);
    Sizes z{0, d.nr, d.nc};
    if (s.chance(1, 3)) z.nr += s.upto(std::min<u64>(lim + 1 - z.nr, 5));
    if (z.nc <= lim && s.chance(1, 3)) z.nc += s.upto(std::min<u64>(lim + 1 - z.nc, 5));
    z.n = z.nc > lim + 1 ? z.nr : std::max(z.nr, z.nc);
    if (s.chance(1, 6)) z.n += s.upto(std::min<u64>(lim + 1 - z.n, 9));
    return z;
}
template <bool wgt, class X> static void check(X& csr, const std::vector<Ent>& es, const Sizes& z, const char* what) {
    u64 n = std::max(z.n, z.nr);
    REQUIRE((u64)csr.n() == n && (u64)csr.nrows() == z.nr && (u64)csr.ncols() == z.nc && (u64)csr.m() == es.size(),
        what << ": sizes are " << show_dims(csr) << ", expected n=" << n << " nrows=" << z.nr << " ncols=" << z.nc << " m=" << es.size());
    require_rows(csr_rows<wgt>(csr, n), rows_of(es, n, wgt), wgt, false, what);
}

// From a COO built in memory, of the same or other types and storage
template <class CA, class CB, bool wgt, class W>
static void memory(Src& s, Ctx& c) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = lim_label(); sp.max_m = lim_m(); sp.max_bulk = std::min(C::max_bulk(), C2::max_bulk());
    auto es = mem_entries<W>(s, c, sp, wgt);
    widen(s, c, es, std::min(CA::max_sparse_label(), CB::max_sparse_label()));
    Sizes z = gen_sizes(s, es, lim_label());
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; n=" << z.n << " nrows=" << z.nr << " ncols=" << z.nc << "; " << show(es, false) << (wgt ? " weighted" : ""); });
    Own<CooV<CA, wgt, W>> coo((typename CA::L)z.n, (typename CA::L)z.nr, (typename CA::L)z.nc, (typename CA::O)es.size());
    fill_coo<CooV<CA, wgt, W>, wgt>(*coo, es);
    Own<CsrT<CB, wgt, W>> csr(*coo);
    check<wgt>(*csr, es, z, "CSR");
    auto after = entries<wgt>(*coo);
    for (size_t i = 0; i < es.size(); ++i) REQUIRE(after[i].x == es[i].x && after[i].y == es[i].y && (!wgt || after[i].w == es[i].w.v), "the COO changed at entry " << i);
    if (z.n > z.nr) c.label("rows without entries at the end");
    c.nontrivial = es.size() >= 2 && rt_multi();
}
CPROP("C06/same types", 6, (memory<C, C, false, C::W>));
CPROP("C06/same types weighted", 6, (memory<C, C, true, C::W>));
CPROP("C06/other types", 3, (memory<C2, C, false, C::W>));
CPROP("C06/other types weighted", 3, (memory<C2, C, true, int8_t>));

// Straight from an edge list, matrix market file or binary COO
template <bool wgt>
static void file(Src& s, Ctx& c) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = C::max_label() - 1; sp.max_m = C::max_m(); sp.max_bulk = C::max_bulk();
    typedef typename C::W W; typedef typename C::L L; typedef typename C::O O;
    unsigned kind = (unsigned)s.upto(2);
    if (wgt) sp.w = wspec<W>();
    auto es = gen_entries(s, c, sp);
    if (es.empty()) { Ent e; if (wgt) e.w = gen_wgt(s, sp.w); es.push_back(e); }
    Dims d = dims_of(es); Sizes z{d.n, d.nr, d.nc};
    std::string text, fn;
    if (kind == 0) { text = el_text(s, c, es, wgt, Dress()); fn = put_file("in.el", text); c.label("edge list"); }
    else if (kind == 1) {
        text = mm_text(s, c, es, d.nr, d.nc, es.size(), wgt, Dress()); fn = put_file("in.mtx", text); c.label("matrix market");
        for (auto& e : es) { ++e.x; ++e.y; }
        z = {d.n + 1, d.nr + 1, d.nc + 1};
    } else {
        Bytes b; b.str("PIGO-COO-v1").val<uint8_t>(sizeof(L)).val<uint8_t>(sizeof(O)).val<L>((L)z.nr).val<L>((L)z.nc).val<L>((L)z.n).val<O>((O)es.size());
        for (auto& e : es) b.val<L>((L)e.x);
        for (auto& e : es) b.val<L>((L)e.y);
        if (wgt) for (auto& e : es) b.val<W>((W)e.w.v);
        text = b.s; fn = put_file("in.bin", text); c.label("binary COO");
    }
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << show(es, wgt) << "\nfile " << quote(text); });
    Own<CsrT<C, wgt>> csr(fn);
    REQUIRE((u64)csr->n() == z.n && (u64)csr->nrows() == z.nr && (u64)csr->ncols() == z.nc && (u64)csr->m() == es.size(), "sizes are " << show_dims(*csr) << ", expected n=" << z.n << " nrows=" << z.nr << " ncols=" << z.nc << " m=" << es.size());
    Rows got = csr_rows<false>(*csr, z.n);
    require_rows(got, rows_of(es, z.n, false), false, false, "CSR of the file");
    if constexpr (wgt) {
        Rows gw = csr_rows<true>(*csr, z.n);
        // entries of one row and endpoint, by value
        std::vector<std::vector<Ent>> want(z.n); for (auto& e : es) want[e.x].push_back(e);
        for (u64 v = 0; v < z.n; ++v) {
            auto g = gw[v]; auto& w = want[v];
            std::sort(g.begin(), g.end());
            std::sort(w.begin(), w.end(), [](const Ent& a, const Ent& b) { return a.y != b.y ? a.y < b.y : a.w.v < b.w.v; });
            for (size_t i = 0; i < w.size(); ++i) REQUIRE(weq<W>((W)g[i].w, w[i].w), "row " << v << ", endpoint " << w[i].y << " has weight " << g[i].w << ", expected " << w[i].w.t);
        }
    }
    c.nontrivial = es.size() >= 2 && rt_multi();
}
CPROP("C06/file", 3, file<false>);
CPROP("C06/file weighted", 2, file<true>);

// From a COO read with the symmetric, triangle and loop options
template <bool sym, bool ut, bool sl>
static void options(Src& s, Ctx& c) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = C::max_label() - 1; sp.max_m = C::max_m() / 2; sp.max_bulk = C::max_bulk() / 2;
    auto es = gen_entries(s, c, sp);
    std::string text = el_text(s, c, es, false, Dress()), fn = put_file("in.el", text);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; symmetric=" << sym << " upper=" << ut << " no loops=" << sl << "; " << show(rt_get()) << "; " << show(es, false) << "\nfile " << quote(text); });
    Own<CooT<C, sym, ut, sl>> coo(fn, pigo::EDGE_LIST);
    auto in = entries<false>(*coo);
    Own<CsrT<C>> csr(*coo);
    u64 n = std::max<u64>((u64)coo->n(), (u64)coo->nrows());
    REQUIRE((u64)csr->n() == n && csr->nrows() == coo->nrows() && csr->ncols() == coo->ncols() && csr->m() == coo->m(), "sizes are " << show_dims(*csr) << ", of the COO " << show_dims(*coo));
    std::vector<Ent> want;
    for (auto& g : in) { Ent e; e.x = g.x; e.y = g.y; want.push_back(e); }
    require_rows(csr_rows<false>(*csr, n), rows_of(want, n, false), false, false, "CSR");
    c.label("read with options");
    c.nontrivial = es.size() >= 2 && rt_multi();
}
CPROP("C06/sym", 1, (options<true, false, false>));
CPROP("C06/sul", 1, (options<true, true, true>));
