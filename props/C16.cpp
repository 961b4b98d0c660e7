// C16: the graph accessors enumerate exactly the neighbors of a vertex.
#include "lib.hpp"

template <bool wgt>
static void access(Src& s, Ctx& c) {
    gen_sched(s, c);
    typedef typename C::L L; typedef typename C::O O;
    EntSpec sp; sp.max_x = sp.max_y = std::min<u64>(C::max_label(), s.chance(1, 300) ? 70000 : pbt::thorough() ? 3000 : 600); sp.max_m = std::min<u64>(C::max_m(), pbt::thorough() ? 3000 : 800); sp.max_bulk = C::max_bulk();
    auto es = mem_entries<typename C::W>(s, c, sp, wgt);
    bool wide = widen(s, c, es, C::max_sparse_label());
    Dims d = dims_of(es); if (wide) d.n = d.nr;
    u64 n = d.n; bool made = s.upto(1);
    // the accessors depend on the offsets only
    if (!made && s.chance(1, 3)) { d.nr = s.upto(n); d.nc = s.upto(n); }
    Rows rows = rows_of(es, n, wgt);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; n=" << n << "; " << show(es, false) << (made ? "; from a COO" : "; from its arrays"); });
    Own<CooV<C, wgt>> coo((L)d.n, (L)d.nr, (L)d.nc, (O)es.size());
    std::unique_ptr<Own<GraphT<C, wgt>>> own;
    if (made) { fill_coo<CooV<C, wgt>, wgt>(*coo, es); own.reset(new Own<GraphT<C, wgt>>(*coo)); }
    else { own.reset(new Own<GraphT<C, wgt>>((L)n, (O)es.size(), (L)d.nr, (L)d.nc)); fill_csr<GraphT<C, wgt>, wgt>(**own, rows); }
    GraphT<C, wgt>& g = **own;
    u64 total = 0;
    auto visit = [&](bool ordered, const char* what) {
        total = 0;
        for (u64 v = 0; v < n; ++v) {
            REQUIRE((u64)g.degree((L)v) == rows[v].size(), what << ": degree of " << v << " is " << +g.degree((L)v) << ", expected " << rows[v].size());
            REQUIRE((u64)g.neighbor_start((L)v) == total, what << ": neighbors of " << v << " start at " << +g.neighbor_start((L)v) << ", expected " << total);
            std::vector<Nb> it, ix;
            for (auto y : g.neighbors((L)v)) { REQUIRE(it.size() < rows[v].size(), what << ": more neighbors of " << v << " than its degree"); it.push_back({(u64)y, 0}); }
            auto ep = raw(g.endpoints());
            for (u64 i = (u64)g.neighbor_start((L)v); i < (u64)g.neighbor_end((L)v); ++i) ix.push_back({(u64)ep[i], 0});
            REQUIRE(it == ix, what << ": iterating over the neighbors of " << v << " gives " << show_row(it, false) << ", the range holds " << show_row(ix, false));
            auto want = rows[v]; for (auto& e : want) e.w = 0;
            if (!ordered) { std::sort(it.begin(), it.end()); std::sort(want.begin(), want.end()); }
            REQUIRE(it == want, what << ": neighbors of " << v << " are " << show_row(it, false) << ", expected " << show_row(want, false));
            total += rows[v].size();
        }
        REQUIRE(total == (u64)g.m(), "degrees add up to " << total << ", m is " << +g.m());
    };
    visit(!made, "as built");
    // sorted, an edge is found by binary search (find_edge example)
    g.sort();
    sort_rows(rows); visit(true, "sorted");
    for (unsigned i = 0; i < 8 && n; ++i) {
        u64 a = s.upto(n - 1), b = wide && s.upto(1) ? es[s.upto(es.size() - 1)].y : s.upto(n - 1);
        auto ep = raw(g.endpoints());
        bool found = std::binary_search(ep + g.neighbor_start((L)a), ep + g.neighbor_end((L)a), (L)b), want = false;
        for (auto& e : rows[a]) want |= e.y == b;
        REQUIRE(found == want, "edge " << a << " -> " << b << (found ? " was found" : " was not found"));
    }
    // the iterator gives access to the stored endpoints (storage shared or raw)
    if (C::st != VEC && n) {
        u64 v = s.upto(n - 1);
        for (auto& y : g.neighbors((L)v)) y = (L)(y == 0 ? 0 : y - 1);
        for (auto& e : rows[v]) e.y = e.y == 0 ? 0 : e.y - 1;
        visit(true, "changed through the iterator");
    }
    c.nontrivial = es.size() >= 2;
}
CPROP("C16/access", 3, access<false>);
CPROP("C16/access weighted", 1, access<true>);
