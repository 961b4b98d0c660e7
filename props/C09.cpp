// C09: removing duplicates keeps every endpoint of a row exactly once.
#include "lib.hpp"

typedef Conf<(VP_PART + 1) % 8>::T C2;

// the source is sorted, which is documented, but keeps its entries
template <class CA, class CB, bool wgt, bool nwgt, class W, class NW>
static void dedup(Src& s, Ctx& c) {
    gen_sched(s, c);
    u64 lim = std::min(CA::max_label(), CB::max_label());
    EntSpec sp; sp.max_x = sp.max_y = lim; sp.max_m = std::min(CA::max_m(), CB::max_m()); sp.max_bulk = std::min(CA::max_bulk(), CB::max_bulk());
    auto es = mem_entries<W>(s, c, sp, wgt);
    if (wgt && !std::is_same<W, NW>::value) for (auto& e : es) e.w.v = (ld)s.upto(100);     // fits both weight types
    widen(s, c, es, std::min(CA::max_sparse_label(), CB::max_sparse_label()));
    Dims d = dims_of(es);
    u64 n = d.nr; if (s.chance(1, 3)) n += s.upto(std::min<u64>(lim + 1 - n, 9));
    typedef typename CA::L L; typedef typename CA::O O; typedef typename CB::L NL; typedef typename CB::O NO;
    Rows rows = rows_of(es, n, wgt);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; n=" << n << "; " << show(es, false) << (wgt ? " weighted" : ""); });
    Own<CsrT<CA, wgt, W>> csr((L)n, (O)es.size(), (L)d.nr, (L)d.nc);
    fill_csr<CsrT<CA, wgt, W>, wgt>(*csr, rows);
    typedef typename CB::template S<NL> NLS; typedef typename CB::template S<NO> NOS; typedef typename CB::template S<NW> NWS;
    auto got = csr->template new_csr_without_dups<NL, NO, NLS, NOS, nwgt, NW, NWS>();
    struct G { decltype(got)& x; ~G() { x.free(); } } g{got};
    Rows want(n); u64 m = 0; bool dups = false;
    for (u64 v = 0; v < n; ++v) {
        auto r = rows[v]; std::sort(r.begin(), r.end());
        for (size_t i = 0; i < r.size(); ++i) if (!i || r[i].y != r[i - 1].y) { want[v].push_back(nwgt ? r[i] : Nb{r[i].y, 0}); ++m; } else dups = true;
    }
    REQUIRE((u64)got.n() == n && (u64)got.nrows() == d.nr && (u64)got.ncols() == d.nc && (u64)got.m() == m, "sizes are " << show_dims(got) << ", expected n=" << n << " nrows=" << d.nr << " ncols=" << d.nc << " m=" << m);
    require_rows(csr_rows<nwgt>(got, n), want, nwgt, true, "without duplicates");
    require_rows(csr_rows<wgt>(*csr, n), rows, wgt, false, "the source");
    REQUIRE((u64)csr->m() == es.size() && (u64)csr->n() == n, "sizes of the source changed to " << show_dims(*csr));
    // nothing is left to remove
    auto twice = got.new_csr_without_dups();
    struct G2 { decltype(twice)& x; ~G2() { x.free(); } } g2{twice};
    REQUIRE((u64)twice.m() == m, "removing duplicates twice: m is " << +twice.m() << ", expected " << m);
    require_rows(csr_rows<nwgt>(twice, n), want, nwgt, true, "without duplicates twice");
    if (dups) c.label("had duplicates");
    if (n && rows[n - 1].size() == 0) c.label("empty last row");
    c.nontrivial = dups && rt_multi();
}
CPROP("C09/same types", 40, (dedup<C, C, false, false, C::W, C::W>));
CPROP("C09/same types weighted", 40, (dedup<C, C, true, true, C::W, C::W>));
CPROP("C09/other types", 30, (dedup<C, C2, false, false, C::W, C2::W>));
CPROP("C09/other types weighted", 30, (dedup<C, C2, true, true, C::W, C2::W>));
CPROP("C09/drop weights", 20, (dedup<C, C2, true, false, C::W, C2::W>));

#if VP_PART == 0 || VP_PART == 3 || VP_PART == 5
static void many_rows(Src& s, Ctx& c) {
    gen_sched(s, c);
    typedef typename C::L L; typedef typename C::O O;
    u64 n = 10000 + s.upto(pbt::thorough() ? 60000 : 25000), a = 1 + s.upto(99999), dens = 1 + s.upto(4);
    Rows rows(n); u64 m = 0, h = a;
    for (auto& r : rows) { h = (h ^ (h >> 13)) * 0x9e3779b97f4a7c15ull + a; for (u64 i = 0; i < (h >> 40) % (dens + 1); ++i) { h = h * 6364136223846793005ull + 1442695040888963407ull; r.push_back({(h >> 33) % 5, 0}); ++m; } }
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << n << " rows, " << m << " endpoints"; });
    Own<CsrT<C>> csr((L)n, (O)m, (L)n, (L)n);
    fill_csr<CsrT<C>, false>(*csr, rows);
    auto got = csr->new_csr_without_dups();
    struct G { decltype(got)& x; ~G() { x.free(); } } g{got};
    m = 0;
    for (auto& r : rows) { std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); m += r.size(); }
    REQUIRE((u64)got.m() == m, "m is " << +got.m() << ", expected " << m);
    require_rows(csr_rows<false>(got, n), rows, false, true, "without duplicates");
    c.label("more than 10000 rows"); c.nontrivial = true;
}
CPROP("C09/many rows", 1, many_rows);
#endif
