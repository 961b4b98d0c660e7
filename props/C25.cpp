// C25: whatever bytes a text file holds, reading it ends, and either gives a
// consistent object or a pigo::Error; no memory outside of the file or the
// object is touched (the address sanitizer decides; file mappings end at
// inaccessible bytes).
#include "pipeline.hpp"

template <class X, bool wgt> static void coo_sound(X& x) {
    auto es = entries<wgt>(x);
    REQUIRE((u64)x.m() < (1u << 20), "m is " << +x.m());
    // (the count one beyond the largest label may not fit its type)
    u64 nr = (u64)x.nrows(), nc = (u64)x.ncols();
    for (auto& e : es) REQUIRE((!nr || e.x < nr) && (!nc || e.y < nc), "an entry (" << e.x << ", " << e.y << ") of " << es.size() << ", with " << nr << " rows and " << nc << " columns");
}
template <bool wgt>
static void coo(Src& s, Ctx& c) {
    gen_sched(s, c);
    std::string text = damaged(s, c, (unsigned)std::numeric_limits<C::L>::digits10);
    pigo::FileType ft = s.pick<pigo::FileType>({pigo::EDGE_LIST, pigo::MATRIX_MARKET, pigo::AUTO});
    unsigned o = (unsigned)s.upto(4);
    c.note([&](std::ostream& q) { q << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; COO, type " << (int)ft << ", options " << o << ", " << (wgt ? "weighted" : "unweighted") << "\nfile " << quote(text); });
    std::string fn = put_file("in.txt", text); u64 m = 0;
    auto use = [&](auto& x, auto isw) {
        coo_sound<typename std::remove_reference<decltype(*x)>::type, decltype(isw)::value>(*x); m = (u64)x->m();
        if (m) x->write(pbt::path("out.txt"));
        x->save(pbt::path("out.bin"));
    };
    std::integral_constant<bool, wgt> isw;
    bool err = throws_error([&] {
        if (o == 0) { Own<CooT<C, false, false, false, wgt>> x(fn, ft); use(x, isw); }
        else if (o == 1) { Own<CooT<C, true, false, false, wgt>> x(fn, ft); use(x, isw); }
        else if (o == 2) { Own<CooT<C, true, true, false, wgt>> x(fn, ft); use(x, isw); }
        else if (o == 3) { Own<CooT<C, false, true, true, wgt>> x(fn, ft); use(x, isw); }
        else { Own<CooT<C, false, false, true, wgt>> x(fn, ft); use(x, isw); }
    });
    c.label(err ? "refused" : m ? "read" : "read, empty"); c.nontrivial = err || m > 0;
}
CPROP("C25/coo", 3, coo<false>);
CPROP("C25/coo weighted", 3, coo<true>);

// Labels beyond their type: whatever is made of them, what is counted is stored
template <bool wgt>
static void beyond(Src& s, Ctx& c) {
    if constexpr (!std::is_unsigned<C::L>::value) { c.label("signed labels"); return; } else {
    gen_sched(s, c);
    const unsigned bits = 8 * sizeof(C::L); const unsigned __int128 mod = (unsigned __int128)1 << bits;
    unsigned o = (unsigned)s.upto(4); u64 lines = 1 + s.size(40), over = 0; u64 most = s.pick<u64>({2, 20, 200});
    std::string text;
    auto label = [&]() { unsigned __int128 v = s.upto(std::min<u64>(most, C::max_sparse_label())); if (s.chance(1, 3)) { v += mod * (1 + s.upto(bits > 32 ? 3 : 200)); ++over; } std::string r; do r.insert(r.begin(), (char)('0' + (int)(v % 10))); while (v /= 10); return r; };
    for (u64 i = 0; i < lines; ++i) { text += label() + " "; text += label(); if (wgt || s.chance(1, 8)) text += " " + std::to_string(s.upto(9)); text += "\n"; }
    c.note([&](std::ostream& q) { q << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; COO, options " << o << ", " << (wgt ? "weighted" : "unweighted") << ", labels beyond their type\nfile " << quote(text); });
    std::string fn = put_file("in.el", text); u64 m = 0;
    auto use = [&](auto& x) { coo_sound<typename std::remove_reference<decltype(*x)>::type, wgt>(*x); m = (u64)x->m(); REQUIRE(m <= 2 * lines, m << " entries from " << lines << " lines"); };
    bool err = throws_error([&] {
        if (o == 0) { Own<CooT<C, false, false, false, wgt>> x(fn, pigo::EDGE_LIST); use(x); }
        else if (o == 1) { Own<CooT<C, true, false, true, wgt>> x(fn, pigo::EDGE_LIST); use(x); }
        else if (o == 2) { Own<CooT<C, true, true, false, wgt>> x(fn, pigo::EDGE_LIST); use(x); }
        else if (o == 3) { Own<CooT<C, false, true, true, wgt>> x(fn, pigo::EDGE_LIST); use(x); }
        else { Own<CooT<C, false, false, true, wgt>> x(fn, pigo::EDGE_LIST); use(x); }
    });
    c.label(err ? "refused" : "read, labels beyond"); c.nontrivial = over && (err || m > 0);
    }
}
CPROP("C25/labels beyond", 1, beyond<false>);
CPROP("C25/labels beyond weighted", 1, beyond<true>);

// Objects whose size depends on the labels
template <bool wgt>
static void graphs(Src& s, Ctx& c) {
    gen_sched(s, c);
    std::string text = damaged(s, c, std::min(4, std::numeric_limits<C::L>::digits10));
    unsigned kind = (unsigned)s.upto(3); const char* ext = s.pick<const char*>({"in.el", "in.mtx", "in.graph", "in.graph"});
    c.note([&](std::ostream& q) { q << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << (kind == 0 ? "CSR" : kind == 1 ? "DiGraph" : kind == 2 ? "Matrix" : "COO of a graph") << " from " << ext << (wgt ? ", weighted" : "") << "\nfile " << quote(text); });
    std::string fn = put_file(ext, text); u64 m = 0;
    bool lost = false;
    bool err = throws_error([&] {
        // the known finding K1 of C05: the last row of a 1-based graph file
        // is no part of what a COO or DiGraph is made from
        if (kind && !strcmp(ext, "in.graph")) { Own<CsrT<C, wgt>> x(fn); size_t n = (size_t)x->n(); lost = (size_t)x->nrows() > n && (u64)vals(x->offsets(), n + 1, "offsets")[n] != (u64)x->m(); if (lost) return; }
        if (kind == 0) { Own<CsrT<C, wgt>> x(fn); m = (u64)x->m(); csr_rows<wgt>(*x, (size_t)x->nrows() > (size_t)x->n() ? (size_t)x->nrows() : (size_t)x->n()); }
        else if (kind == 1) { Own<DiT<C, wgt>> x(fn); m = (u64)x->m(); vals(x->out().endpoints(), m, "endpoints"); vals(x->in().endpoints(), m, "endpoints"); }
        else if (kind == 2) { Own<MatT<C, wgt>> x(fn); m = (u64)x->csr().m(); vals(x->csr().endpoints(), m, "endpoints"); vals(x->csc().endpoints(), m, "endpoints"); }
        else { Own<CooT<C, true, false, false, wgt>> x(fn); m = (u64)x->m(); entries<wgt>(*x); }
    });
    if (lost) { c.label("K1"); return; }
    c.label(err ? "refused" : m ? "read" : "read, empty"); c.nontrivial = err || m > 0;
}
CPROP("C25/graphs", 3, graphs<false>);
CPROP("C25/graphs weighted", 2, graphs<true>);

template <bool wgt>
static void tensor(Src& s, Ctx& c) {
    gen_sched(s, c);
    std::string text = damaged(s, c, (unsigned)std::numeric_limits<C::L>::digits10);
    c.note([&](std::ostream& q) { q << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; Tensor" << (wgt ? ", weighted" : "") << "\nfile " << quote(text); });
    std::string fn = put_file("in.tns", text); u64 m = 0;
    bool err = throws_error([&] {
        Own<TenT<C, wgt>> x(fn); m = (u64)x->m();
        vals(x->c(), (size_t)x->order() * m, "c"); if constexpr (wgt) vals(x->w(), m, "w");
        auto k = x->max_labels(); REQUIRE(k.size() == (size_t)x->order(), "largest labels of " << k.size() << " coordinates, order is " << +x->order());
        if (m && s.upto(1)) x->write(pbt::path("out.tns"));
        if (s.upto(1)) { x->save(pbt::path("out.bin")); Own<TenT<C, wgt>> y(pbt::path("out.bin")); REQUIRE(y->m() == x->m() && y->order() == x->order(), "saved with order " << +x->order() << " and " << +x->m() << " entries, loaded with order " << +y->order() << " and " << +y->m()); }
    });
    c.label(err ? "refused" : m ? "read" : "read, empty"); c.nontrivial = err || m > 0;
}
CPROP("C25/tensor", 1, tensor<false>);
CPROP("C25/tensor weighted", 1, tensor<true>);
