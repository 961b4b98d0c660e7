// C07: a COO built from a CSR has exactly its entries; converting there and
// back loses nothing.
#include "lib.hpp"

typedef Conf<(VP_PART + 5) % 8>::T C2;
static u64 lim_label() { return std::min(C::max_label(), C2::max_label()); }
static u64 lim_m() { return std::min(C::max_m(), C2::max_m()); }

struct CsrCase { u64 n, nr, nc; std::vector<Ent> es; Rows rows; };
template <class W> static CsrCase gen_csr(Src& s, Ctx& c, bool wgt, u64 max_m, u64 max_bulk = 0, u64 wide_to = 0) {
    EntSpec sp; sp.max_x = sp.max_y = lim_label(); sp.max_m = max_m; sp.max_bulk = max_bulk;
    CsrCase k; k.es = mem_entries<W>(s, c, sp, wgt);
    bool wide = wide_to && widen(s, c, k.es, wide_to);
    Dims d = dims_of(k.es); k.nr = d.nr; k.nc = d.nc;
    if (s.chance(1, 3)) k.nr += s.upto(std::min<u64>(lim_label() + 1 - k.nr, 5));
    if (!wide && s.chance(1, 3)) k.nc += s.upto(std::min<u64>(lim_label() + 1 - k.nc, 5));
    k.n = !wide && s.upto(1) ? std::max(k.nr, k.nc) : k.nr;
    if (s.chance(1, 6)) k.n += s.upto(std::min<u64>(lim_label() + 1 - k.n, 9));
    k.rows = rows_of(k.es, k.n, wgt);
    return k;
}
static void show_case(std::ostream& o, const CsrCase& k, bool wgt) {
    o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; n=" << k.n << " nrows=" << k.nr << " ncols=" << k.nc << "; rows";
    size_t shown = 0;
    for (size_t v = 0; v < k.rows.size() && shown < 30; ++v) if (!k.rows[v].empty()) { o << " " << v << show_row(k.rows[v], wgt); ++shown; }
}

template <class CA, class CB, bool sym, bool ut, bool wgt, class W>
static void convert(Src& s, Ctx& c) {
    gen_sched(s, c);
    CsrCase k = gen_csr<W>(s, c, wgt, sym && !ut ? lim_m() / 2 : lim_m(), std::min(C::max_bulk(), C2::max_bulk()), std::min(CA::max_sparse_label(), CB::max_sparse_label()));
    c.note([&](std::ostream& o) { show_case(o, k, wgt); o << "; symmetric=" << sym << " upper=" << ut; });
    Own<CsrT<CA, wgt, W>> csr((typename CA::L)k.n, (typename CA::O)k.es.size(), (typename CA::L)k.nr, (typename CA::L)k.nc);
    fill_csr<CsrT<CA, wgt, W>, wgt>(*csr, k.rows);
    Own<CooT<CB, sym, ut, false, wgt, W>> coo(*csr);
    std::vector<Got> want; u64 loops = 0;
    for (u64 v = 0; v < k.n; ++v) for (auto& e : k.rows[v]) {
        u64 x = v, y = e.y; loops += x == y;
        if (sym && ut && x > y) std::swap(x, y);
        if (sym && !ut && x != y) want.push_back({y, x, e.w});
        want.push_back({x, y, e.w});
    }
    auto got = entries<wgt>(*coo);
    REQUIRE(got.size() == want.size(), "holds " << show(got, wgt) << ", expected " << show(want, wgt));
    if (sym) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }    // the order is not promised
    for (size_t i = 0; i < want.size(); ++i)
        REQUIRE(got[i] == want[i], "entry " << i << " is (" << got[i].x << "," << got[i].y << "," << got[i].w << "), expected (" << want[i].x << "," << want[i].y << "," << want[i].w << ")");
    u64 nr = sym ? std::max(k.nr, k.nc) : k.nr, nc = sym ? nr : k.nc;
    REQUIRE((u64)coo->nrows() == nr && (u64)coo->ncols() == nc, "sizes are " << show_dims(*coo) << ", expected nrows=" << nr << " ncols=" << nc);
    REQUIRE((u64)coo->n() >= k.n && (u64)coo->n() <= std::max(k.n, nr), "n is " << +coo->n() << ", of the CSR " << k.n);
    require_rows(csr_rows<wgt>(*csr, k.n), k.rows, wgt, true, "the CSR after the conversion");
    if (loops) c.label("self loops");
    c.nontrivial = k.es.size() >= 2 && rt_multi();
}
CPROP("C07/plain", 4, (convert<C, C, false, false, false, C::W>));
CPROP("C07/plain weighted", 4, (convert<C, C, false, false, true, C::W>));
CPROP("C07/sym", 3, (convert<C, C, true, false, false, C::W>));
CPROP("C07/sym weighted", 3, (convert<C, C, true, false, true, C::W>));
CPROP("C07/sym upper", 2, (convert<C, C, true, true, false, C::W>));
CPROP("C07/sym upper weighted", 2, (convert<C, C, true, true, true, C::W>));
CPROP("C07/other types", 3, (convert<C2, C, false, false, true, uint16_t>));
CPROP("C07/other types sym", 2, (convert<C2, C, true, false, false, C::W>));

// COO -> CSR -> COO and CSR -> COO -> CSR
template <bool wgt>
static void round_trip(Src& s, Ctx& c) {
    typedef typename C::W W;
    gen_sched(s, c);
    CsrCase k = gen_csr<W>(s, c, wgt, lim_m(), std::min(C::max_bulk(), C2::max_bulk()));
    k.n = std::max(k.nr, k.nc); k.rows = rows_of(k.es, k.n, wgt);
    c.note([&](std::ostream& o) { show_case(o, k, wgt); o << "; round trip"; });
    typedef typename C::L L; typedef typename C::O O;
    Own<CooT<C, false, false, false, wgt>> coo((L)k.n, (L)k.nr, (L)k.nc, (O)k.es.size());
    fill_coo<CooT<C, false, false, false, wgt>, wgt>(*coo, k.es);
    Own<CsrT<C, wgt>> csr(*coo);
    Own<CooT<C, false, false, false, wgt>> back(*csr);
    auto a = entries<wgt>(*coo), b = entries<wgt>(*back);
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    REQUIRE(a == b, "COO to CSR to COO: " << show(b, wgt) << ", expected " << show(a, wgt));
    REQUIRE(back->n() == coo->n() && back->nrows() == coo->nrows() && back->ncols() == coo->ncols(), "COO to CSR to COO: sizes " << show_dims(*back) << ", expected " << show_dims(*coo));
    Own<CsrT<C, wgt>> again(*back);
    require_rows(csr_rows<wgt>(*again, k.n), k.rows, wgt, false, "CSR to COO to CSR");
    c.label("round trip");
    c.nontrivial = k.es.size() >= 2 && rt_multi();
}
CPROP("C07/round trip", 2, round_trip<false>);
CPROP("C07/round trip weighted", 2, round_trip<true>);

// A conversion that is not supported is refused, never silently wrong
template <bool sym, bool ut, bool sl, bool wgt>
static void refused(Src& s, Ctx& c) {
    gen_sched(s, c, 8);
    CsrCase k = gen_csr<typename C::W>(s, c, wgt, std::min<u64>(lim_m(), 50));
    c.note([&](std::ostream& o) { show_case(o, k, wgt); o << "; symmetric=" << sym << " upper=" << ut << " no loops=" << sl; });
    typedef typename C::L L; typedef typename C::O O;
    Own<CsrT<C, wgt>> csr((L)k.n, (O)k.es.size(), (L)k.nr, (L)k.nc);
    fill_csr<CsrT<C, wgt>, wgt>(*csr, k.rows);
    // Either refused, or the entries the options promise
    std::vector<Got> want;
    for (u64 v = 0; v < k.n; ++v) for (auto& e : k.rows[v]) {
        u64 x = v, y = e.y;
        if (sl && x == y) continue;
        if (!sym && ut && x > y) continue;
        if (sym && ut && x > y) std::swap(x, y);
        if (sym && !ut && x != y) want.push_back({y, x, e.w});
        want.push_back({x, y, e.w});
    }
    try {
        Own<CooT<C, sym, ut, sl, wgt>> coo(*csr);
        auto got = entries<wgt>(*coo);
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        REQUIRE(got == want, "holds " << show(got, wgt) << ", expected " << show(want, wgt) << " or a refusal");
    } catch (pigo::Error&) { c.label("refused"); }
    c.nontrivial = k.es.size() >= 1;
}
CPROP("C07/refused u", 1, (refused<false, true, false, false>));
CPROP("C07/refused l", 1, (refused<false, false, true, true>));
CPROP("C07/refused sl", 1, (refused<true, false, true, false>));
CPROP("C07/refused sul", 1, (refused<true, true, true, false>));
