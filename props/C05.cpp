// C05: adjacency (.graph) files.
#include "lib.hpp"

static u64 max_n() { return std::min<u64>((u64)std::numeric_limits<C::L>::max() - 2, pbt::thorough() ? 3000 : 800); }
static u64 bulk_n() { return std::max(max_n(), std::min<u64>((u64)std::numeric_limits<C::L>::max() - 2, C::max_bulk())); }
static u64 max_edges() { return std::min<u64>((u64)std::numeric_limits<C::O>::max() / 2 - 1, 1500); }

template <class G> static void check_csr(G& g, const GraphCase& gc) {
    u64 b = gc.one_based ? 1 : 0, total = gc.total();
    REQUIRE((u64)g.m() == total, "m is " << +g.m() << ", expected " << total);
    REQUIRE((u64)g.n() == gc.n, "n is " << +g.n() << ", expected " << gc.n);
    REQUIRE((u64)g.nrows() == gc.n + b, "nrows is " << +g.nrows() << ", expected " << gc.n + b);
    u64 mx = 0; for (auto& r : gc.rows) for (auto y : r) mx = std::max(mx, y);
    REQUIRE((u64)g.ncols() == mx + 1, "ncols is " << +g.ncols() << ", expected " << mx + 1);
    auto off = vals(g.offsets(), gc.n + b + 1, "offsets"); auto ep = vals(g.endpoints(), total, "endpoints");
    REQUIRE(off[0] == 0, "the first offset is " << +off[0]);
    u64 k = 0;
    for (u64 v = 0; v < gc.n + b; ++v) {
        REQUIRE((u64)off[v] == k, "offset of vertex " << v << " is " << +off[v] << ", expected " << k);
        for (auto y : gc.rows[v]) { REQUIRE((u64)ep[k] == y, "endpoint " << k << " (vertex " << v << ") is " << +ep[k] << ", expected " << y); ++k; }
        REQUIRE((u64)off[v + 1] == k, "offset after vertex " << v << " is " << +off[v + 1] << ", expected " << k);
    }
}
static std::string put_graph(Src& s, const std::string& text, pigo::FileType& ft) {
    bool ext = s.upto(1); ft = ext ? pigo::AUTO : pigo::GRAPH;
    return put_file(ext ? "in.graph" : "in.adj", text);
}
static void show_graph(std::ostream& o, const GraphCase& g) {
    o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << (g.one_based ? "1" : "0") << "-based, n=" << g.n << ", header m=" << g.m << ", " << g.total() << " endpoints\nfile " << quote(g.text);
}

static void read(Src& s, Ctx& c) {
    gen_sched(s, c);
    GraphCase g = gen_graph(s, c, max_n(), max_edges(), bulk_n(), false, bulk_n(), C::max_bulk());
    c.note([&](std::ostream& o) { show_graph(o, g); });
    pigo::FileType ft; std::string fn = put_graph(s, g.text, ft);
    if (s.upto(1)) {
        Own<GraphT<C>> gr(fn, ft);
        check_csr(*gr, g);
        for (u64 v = g.one_based; v < g.rows.size(); ++v) {
            REQUIRE((u64)gr->degree((C::L)v) == g.rows[v].size(), "degree of " << v << " is " << +gr->degree((C::L)v));
            size_t k = 0; auto it = gr->neighbors((C::L)v);
            for (auto y : it) { REQUIRE(k < g.rows[v].size() && (u64)y == g.rows[v][k], "neighbor " << k << " of " << v << " is " << +y); ++k; }
            REQUIRE(k == g.rows[v].size(), "vertex " << v << " has " << k << " neighbors");
        }
    } else {
        Own<CsrT<C>> csr(fn, ft);
        check_csr(*csr, g);
    }
    REQUIRE(get_file(fn) == g.text, "reading changed the input file");
    c.nontrivial = g.total() >= 2 && rt_multi();
}
CPROP("C05/read", 6, read);

// Through a CSR into a COO.  A 1-based file whose last vertex has edges is
// the recorded finding K1 and excluded by construction.
template <bool sym>
static void to_coo(Src& s, Ctx& c) {
    gen_sched(s, c);
    GraphCase g = gen_graph(s, c, max_n(), std::min<u64>(max_edges(), (u64)std::numeric_limits<C::O>::max() / 4 - 1), bulk_n(), true, bulk_n(), C::max_bulk() / 2);
    c.note([&](std::ostream& o) { show_graph(o, g); o << "\ninto a COO" << (sym ? ", symmetrized" : ""); });
    pigo::FileType ft; std::string fn = put_graph(s, g.text, ft);
    Own<CooT<C, sym>> coo(fn, ft);
    auto got = entries<false>(*coo);
    std::vector<Got> want;
    for (u64 v = 0; v < g.rows.size(); ++v) for (auto y : g.rows[v]) { want.push_back({v, y, 0}); if (sym && v != y) want.push_back({y, v, 0}); }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    REQUIRE(got == want, "holds " << show(got, false) << ", expected " << show(want, false));
    c.label("into COO");
    c.nontrivial = g.total() >= 2 && rt_multi();
}
CPROP("C05/coo", 2, to_coo<false>);
CPROP("C05/coo sym", 1, to_coo<true>);

// Headers the rows contradict
static void contradict(Src& s, Ctx& c) {
    gen_sched(s, c);
    GraphCase g = gen_graph(s, c, std::min<u64>(max_n() - 8, 200), max_edges() / 2, max_n(), false);
    u64 total = g.total(), n2 = g.n, m2 = g.m;
    unsigned k = (unsigned)s.upto(3);
    // endpoints after the last row
    bool has_zero = false; for (auto& r : g.rows) for (auto y : r) has_zero |= y == 0;
    if (k == 3 && (g.one_based || has_zero)) {
        size_t last = g.rows.size();
        while (last > g.one_based && g.rows[last - 1].empty()) --last;
        // the last row with endpoints is after all rows the header has
        if (last > (size_t)g.one_based) n2 = last - 1 - (g.one_based ? 1 : 0) - (s.chance(1, 2) ? 0 : s.upto(last - 1 - (g.one_based ? 1 : 0)));
        else n2 = g.n + 3;
    }
    else if (k == 0) { m2 = total + 1 + s.upto(std::min<u64>(50, (u64)std::numeric_limits<C::O>::max() / 2 - total - 2)); }
    else if (k == 1 && total > 0) { m2 = s.upto(total - 1); if (2 * m2 == total) { m2 = total + 1; } }
    else { n2 = g.n + 3 + s.upto(4); }
    // replace the header line
    std::string h = std::to_string(g.n) + " " + std::to_string(g.m), h2 = std::to_string(n2) + " " + std::to_string(m2);
    size_t p = 0; while (g.text[p] == '%' || g.text[p] == '#') p = g.text.find('\n', p) + 1;
    REQUIRE(g.text.compare(p, h.size(), h) == 0, "harness: no header");
    g.text = g.text.substr(0, p) + h2 + g.text.substr(p + h.size());
    c.note([&](std::ostream& o) { show_graph(o, g); o << "\nwith the contradicting header " << h2; });
    pigo::FileType ft; std::string fn = put_graph(s, g.text, ft);
    REQUIRE(throws_error([&] { Own<CsrT<C>> csr(fn, ft); }), "header " << h2 << " was accepted for " << g.n << " rows and " << total << " endpoints");
    c.label(n2 > g.n ? "header:too many rows" : n2 < g.n ? "header:too few rows" : "header:wrong edge count");
    c.nontrivial = true;
}
CPROP("C05/contradict", 1, contradict);

static void weighted(Src& s, Ctx& c) {
    gen_sched(s, c, 8);
    GraphCase g = gen_graph(s, c, 50, 50, max_n(), true);
    c.note([&](std::ostream& o) { show_graph(o, g); o << "\nread as weighted"; });
    pigo::FileType ft; std::string fn = put_graph(s, g.text, ft);
    REQUIRE(throws_error([&] { Own<CsrT<C, true>> csr(fn, ft); }), "a weighted CSR was read from a file without weights");
    c.nontrivial = true;
}
CPROP("C05/weighted", 1, weighted);

#if VP_PART == 0
// Recorded finding K1
static void k1(Src& s, Ctx&) {
    rt_set(RtSched());
    (void)s;
    std::string fn = put_file("in.graph", "3 2\n2\n1 3\n2\n");
    Own<CooT<C>> coo(fn);
    auto got = entries<false>(*coo);
    std::vector<Got> want = {{1, 2, 0}, {2, 1, 0}, {2, 3, 0}, {3, 2, 0}};
    std::sort(got.begin(), got.end());
    REQUIRE(got == want, "the row of vertex 3 is lost");
}
KNOWN("K1", k1);
#endif
