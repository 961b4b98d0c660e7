// C02: every entry keeps its own weight, with the value its text denotes.
#include "lib.hpp"

template <class W, bool sym, bool ut, bool sl>
static void check(Src& s, Ctx& c, const std::vector<Ent>& es, const std::string& text, pigo::FileType ft, const std::string& fn, u64 hdr) {
    (void)s; (void)ft; (void)hdr; (void)c; (void)text;
    // the entries that are kept, in order
    std::vector<Ent> want;
    for (auto e : es) {
        if (sl && e.x == e.y) continue;
        if (!sym && ut && e.x > e.y) continue;
        if (sym && ut && e.x > e.y) std::swap(e.x, e.y);
        want.push_back(e);
        if (sym && !ut && e.x != e.y) { std::swap(e.x, e.y); want.push_back(e); }
    }
    InLocale lc(s, c); Own<CooT<C, sym, ut, sl, true, W>> coo(fn, ft); lc.end();
    auto x = vals(coo->x(), (size_t)coo->m(), "x"), y = vals(coo->y(), (size_t)coo->m(), "y");
    auto w = vals(coo->w(), (size_t)coo->m(), "w");
    REQUIRE((u64)coo->m() == want.size(), "read " << show(entries<true>(*coo), true) << ", expected " << show(want, true));
    for (size_t i = 0; i < want.size(); ++i) {
        REQUIRE((u64)x[i] == want[i].x && (u64)y[i] == want[i].y, "entry " << i << " is (" << +x[i] << "," << +y[i] << "), expected (" << want[i].x << "," << want[i].y << ")");
        REQUIRE(weq<W>(w[i], want[i].w), "entry " << i << " (" << +x[i] << "," << +y[i] << ") has weight " << (ld)w[i] << ", expected " << want[i].w.t);
    }
}

template <class W, bool mm>
static void weights(Src& s, Ctx& c) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = C::max_sparse_label() - 1; sp.max_m = C::max_m() / 2; sp.max_bulk = C::max_bulk() / 2; sp.w = wspec<W>();
    auto es = gen_entries(s, c, sp);
    Dress d; d.extra_cols = s.upto(1);
    std::string text, fn; pigo::FileType ft = pigo::EDGE_LIST;
    if (mm) {
        Dims dm = dims_of(es); u64 r = std::max<u64>(dm.nr, 1), q = std::max<u64>(dm.nc, 1);
        text = mm_text(s, c, es, r, q, es.size(), true, d); ft = pigo::MATRIX_MARKET;
        fn = put_file("in.mtx", text);
        for (auto& e : es) { ++e.x; ++e.y; }
    } else { text = el_text(s, c, es, true, d); fn = put_file("in.wel", text); }
    unsigned opt = mm ? 0 : (unsigned)s.upto(5);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; weight of " << sizeof(W) << " bytes, kind " << sp.w.kind << "; options " << opt << "; " << show(rt_get()) << "; " << show(es, true) << "\nfile " << quote(text); });
    switch (opt) {
        case 1: check<W, true, false, false>(s, c, es, text, ft, fn, 0); c.label("options:symmetrize"); break;
        case 2: check<W, false, true, false>(s, c, es, text, ft, fn, 0); c.label("options:upper"); break;
        case 3: check<W, true, false, true>(s, c, es, text, ft, fn, 0); c.label("options:symmetrize,no loops"); break;
        default: check<W, false, false, false>(s, c, es, text, ft, fn, 0); break;
    }
    unsigned distinct = 0; for (size_t i = 1; i < es.size(); ++i) distinct += es[i].w.t != es[0].w.t;
    c.nontrivial = distinct >= 1 && rt_multi();
}
CPROP("C02/el", 6, (weights<C::W, false>));
CPROP("C02/mm", 2, (weights<C::W, true>));
#if VP_PART == 0
CPROP("C02/el double", 3, (weights<double, false>));
#elif VP_PART == 1
CPROP("C02/el u32", 3, (weights<uint32_t, false>));
#elif VP_PART == 2
CPROP("C02/el float", 3, (weights<float, false>));
#elif VP_PART == 3
CPROP("C02/el i64", 3, (weights<int64_t, false>));
#elif VP_PART == 4
CPROP("C02/el float", 3, (weights<float, false>));
#elif VP_PART == 6
CPROP("C02/el i16", 3, (weights<int16_t, false>));
#endif
