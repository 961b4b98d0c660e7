// C03: the symmetric, upper-triangle and self-loop options keep exactly the
// entries they promise.
#include "lib.hpp"

template <bool sym, bool ut, bool sl, bool wgt>
static void options(Src& s, Ctx& c) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = C::max_sparse_label() - 1; sp.max_m = C::max_m() / 2; sp.max_bulk = C::max_bulk() / 2;
    if (wgt) sp.w = wspec<C::W>();
    auto es = gen_entries(s, c, sp);
    bool mm = s.chance(1, 4);
    std::string text, fn; u64 base = 0, hr = 0, hc = 0;
    if (mm) {
        base = 1; Dims d = dims_of(es);
        u64 lim = (u64)std::numeric_limits<C::L>::max() - 1;
        hr = std::max<u64>(1, d.nr); hc = std::max<u64>(1, d.nc);
        if (s.chance(1, 3)) hr += s.upto(std::min<u64>(3, lim - hr));
        if (s.chance(1, 3)) hc += s.upto(std::min<u64>(3, lim - hc));
        text = mm_text(s, c, es, hr, hc, es.size(), wgt, Dress());
        fn = put_file("in.mtx", text); c.label("matrix market");
    } else { text = el_text(s, c, es, wgt, Dress()); fn = put_file("in.el", text); }
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; symmetric=" << sym << " upper=" << ut << " no loops=" << sl << "; " << show(rt_get()) << "; " << show(es, wgt) << "\nfile " << quote(text); });
    std::vector<Ent> want; u64 any = 0, loops = 0, low = 0;
    u64 kr = 0, kc = 0;
    for (auto e : es) {
        e.x += base; e.y += base;
        any = std::max(any, std::max(e.x, e.y)); loops += e.x == e.y; low += e.x > e.y;
        if (sl && e.x == e.y) continue;
        if (!sym && ut && e.x > e.y) continue;
        if (sym && ut && e.x > e.y) std::swap(e.x, e.y);
        want.push_back(e);
        if (sym && !ut && e.x != e.y) { std::swap(e.x, e.y); want.push_back(e); }
    }
    for (auto& e : want) { kr = std::max(kr, e.x); kc = std::max(kc, e.y); }
    Own<CooT<C, sym, ut, sl, wgt>> coo(fn, mm ? pigo::MATRIX_MARKET : pigo::EDGE_LIST);
    auto got = entries<wgt>(*coo);
    REQUIRE(got.size() == want.size(), "holds " << show(got, wgt) << ", expected " << show(want, wgt));
    // The option decides which entries are kept; their order is the file's,
    // with the two directions of an entry next to each other
    for (size_t i = 0; i < want.size();) {
        size_t k = 1;
        if (sym && !ut && want[i].x != want[i].y) k = 2;
        bool ok = true, rev = k == 2;
        for (size_t j = 0; j < k; ++j) {
            ok &= got[i + j].x == want[i + j].x && got[i + j].y == want[i + j].y;
            rev = rev && got[i + j].x == want[i + 1 - j].x && got[i + j].y == want[i + 1 - j].y;
        }
        REQUIRE(ok || rev, "entry " << i << " is (" << got[i].x << "," << got[i].y << "), expected (" << want[i].x << "," << want[i].y << ") in " << show(got, wgt));
        if constexpr (wgt) for (size_t j = 0; j < k; ++j)
            REQUIRE(weq<C::W>((C::W)got[i + j].w, want[i].w), "entry " << i + j << " has weight " << got[i + j].w << ", expected " << want[i].w.t);
        i += k;
    }
    u64 n = (u64)coo->n(), nr = (u64)coo->nrows(), nc = (u64)coo->ncols();
    REQUIRE(n == std::max(nr, nc), "n is not the larger of nrows and ncols: " << show_dims(*coo));
    if (mm) {
        u64 er = hr + 1, ec = hc + 1; if (sym) er = ec = std::max(er, ec);
        REQUIRE(nr == er && nc == ec, "sizes are " << show_dims(*coo) << ", expected " << er << "x" << ec);
    } else if (want.empty()) {
        REQUIRE(n <= any + 1, "sizes of no entries: " << show_dims(*coo));
    } else {
        REQUIRE(nr > kr && nr <= any + 1 && nc > kc && nc <= any + 1, "sizes are " << show_dims(*coo) << " with largest kept labels " << kr << " and " << kc << ", largest label " << any);
        if (sym && !ut) REQUIRE(nr == nc, "a symmetric matrix is not square: " << show_dims(*coo));
        if (!sl && !ut && !sym) REQUIRE(nr == kr + 1 && nc == kc + 1, "sizes are " << show_dims(*coo));
    }
    if (loops) c.label("self loops");
    if (low) c.label("lower triangle");
    c.nontrivial = es.size() >= 2 && (loops || low) && rt_multi();
}
CPROP("C03/s--", 2, (options<true, false, false, false>));
CPROP("C03/-u-", 2, (options<false, true, false, false>));
CPROP("C03/--l", 2, (options<false, false, true, false>));
CPROP("C03/su-", 2, (options<true, true, false, false>));
CPROP("C03/s-l", 2, (options<true, false, true, false>));
CPROP("C03/-ul", 2, (options<false, true, true, false>));
CPROP("C03/sul", 2, (options<true, true, true, false>));
CPROP("C03/s--w", 2, (options<true, false, false, true>));
CPROP("C03/-u-w", 2, (options<false, true, false, true>));
CPROP("C03/--lw", 2, (options<false, false, true, true>));
CPROP("C03/su-w", 2, (options<true, true, false, true>));
CPROP("C03/s-lw", 2, (options<true, false, true, true>));
CPROP("C03/-ulw", 2, (options<false, true, true, true>));
CPROP("C03/sulw", 2, (options<true, true, true, true>));
