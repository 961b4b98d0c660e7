// C08: sorting a CSR orders every row and changes nothing else.
#include "lib.hpp"

template <bool wgt, class X, class W = typename C::W>
static void sort_it(Src& s, Ctx& c) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = C::max_label(); sp.max_m = C::max_m(); sp.max_bulk = C::max_bulk();
    auto es = mem_entries<W>(s, c, sp, wgt);
    widen(s, c, es, C::max_sparse_label());
    Dims d = dims_of(es);
    u64 n = d.nr; if (s.chance(1, 3)) n += s.upto(std::min<u64>(C::max_label() + 1 - n, 9));
    typedef typename C::L L; typedef typename C::O O;
    Rows rows = rows_of(es, n, wgt);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; n=" << n << "; " << show(es, false) << (wgt ? " weighted" : ""); });
    Own<X> csr((L)n, (O)es.size(), (L)d.nr, (L)d.nc);
    fill_csr<X, wgt>(*csr, rows);
    auto off = vals(csr->offsets(), n + 1, "offsets");
    csr->sort();
    REQUIRE((u64)csr->n() == n && (u64)csr->m() == es.size() && (u64)csr->nrows() == d.nr && (u64)csr->ncols() == d.nc, "sizes changed to " << show_dims(*csr));
    REQUIRE(vals(csr->offsets(), n + 1, "offsets") == off, "the offsets changed");
    auto got = csr_rows<wgt>(*csr, n);
    bool unsorted = false;
    for (auto& r : rows) unsorted |= !std::is_sorted(r.begin(), r.end());
    for (u64 v = 0; v < n; ++v) {
        auto want = rows[v]; std::sort(want.begin(), want.end());
        REQUIRE(got[v] == want, "row " << v << " is " << show_row(got[v], wgt) << ", expected " << show_row(want, wgt));
    }
    csr->sort();
    require_rows(csr_rows<wgt>(*csr, n), got, wgt, true, "sorted twice");
    if (unsorted) c.label("had an unsorted row");
    c.nontrivial = unsorted;
}
CPROP("C08/csr", 40, (sort_it<false, CsrT<C>>));
CPROP("C08/csr weighted", 50, (sort_it<true, CsrT<C, true>>));
CPROP("C08/graph weighted", 20, (sort_it<true, GraphT<C, true>>));
CPROP("C08/weights i8", 10, (sort_it<true, CsrT<C, true, int8_t>, int8_t>));

#if VP_PART == 0 || VP_PART == 3 || VP_PART == 5
// More rows than one chunk of the loop hands out
template <bool wgt>
static void many_rows(Src& s, Ctx& c) {
    gen_sched(s, c);
    typedef typename C::L L; typedef typename C::O O; typedef typename C::W W;
    u64 n = 10000 + s.upto(pbt::thorough() ? 60000 : 25000), a = 1 + s.upto(99999), dens = 1 + s.upto(3);
    Rows rows(n); u64 m = 0, h = a;
    for (auto& r : rows) { h = (h ^ (h >> 13)) * 0x9e3779b97f4a7c15ull + a; for (u64 i = 0; i < (h >> 40) % (dens + 1); ++i) { h = h * 6364136223846793005ull + 1442695040888963407ull; r.push_back({(h >> 33) % n, wgt ? (ld)((h >> 20) % 7) : 0}); ++m; } }
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << n << " rows, " << m << " endpoints"; });
    Own<CsrT<C, wgt>> csr((L)n, (O)m, (L)n, (L)n);
    fill_csr<CsrT<C, wgt>, wgt>(*csr, rows);
    csr->sort();
    for (auto& r : rows) std::sort(r.begin(), r.end());
    require_rows(csr_rows<wgt>(*csr, n), rows, wgt, true, "sorted");
    (void)sizeof(W);
    c.label("more than 10000 rows"); c.nontrivial = true;
}
PROP("C08/many rows" CONF_STR, 1, many_rows<false>);
PROP("C08/many rows weighted" CONF_STR, 1, many_rows<true>);
#endif
