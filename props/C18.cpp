// C18: reading a tensor file gives its order and exactly its entries.
#include "lib.hpp"

static u64 max_order_m(u64 order) { return std::min<u64>(C::max_m(), 1200) / (order > 4 ? 2 : 1); }

template <bool wgt, class W>
static void read(Src& s, Ctx& c) {
    gen_sched(s, c);
    TensorCase t = gen_tensor(s, c, C::max_sparse_label(), std::min<u64>(max_order_m(8), (u64)std::numeric_limits<C::O>::max()), wgt ? wspec<W>() : WSpec(), C::max_bulk() / 2);
    std::string text = tensor_text(s, c, t, wgt);
    bool given = s.upto(1);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << show(t, wgt) << "\nfile " << quote(text); });
    std::string fn = put_file("in.tns", text);
    InLocale lc(s, c); Own<TenT<C, wgt, W>> x(fn, given ? pigo::EDGE_LIST : pigo::AUTO); lc.end();
    REQUIRE((u64)x->m() == t.m(), "read " << +x->m() << " entries, expected " << t.m());
    if (t.m()) REQUIRE((u64)x->order() == t.order, "the order is " << +x->order() << ", expected " << t.order);
    auto got = vals(x->c(), t.m() * t.order, "c");
    for (size_t i = 0; i < t.m(); ++i) for (size_t k = 0; k < t.order; ++k)
        REQUIRE((u64)got[i * t.order + k] == t.c[i][k], "coordinate " << k << " of entry " << i << " is " << +got[i * t.order + k] << ", expected " << t.c[i][k]);
    if constexpr (wgt) {
        auto w = vals(x->w(), t.m(), "w");
        for (size_t i = 0; i < t.m(); ++i) REQUIRE(weq<W>(w[i], t.w[i]), "weight of entry " << i << " is " << (ld)w[i] << ", expected " << t.w[i].t);
    }
    REQUIRE(get_file(fn) == text, "reading changed the input file");
    c.nontrivial = t.m() >= 2 && rt_multi();
}
CPROP("C18/weighted", 4, (read<true, C::W>));
CPROP("C18/weighted double", 1, (read<true, double>));
CPROP("C18/weighted i16", 1, (read<true, int16_t>));
CPROP("C18/unweighted", 4, (read<false, C::W>));

// formats a tensor cannot come from
static void refused(Src& s, Ctx& c) {
    gen_sched(s, c, 4);
    TensorCase t = gen_tensor(s, c, 50, 5, wspec<C::W>());
    pigo::FileType ft = s.pick<pigo::FileType>({pigo::MATRIX_MARKET, pigo::GRAPH, pigo::PIGO_COO_BIN, pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN});
    std::string text = tensor_text(s, c, t, true);
    c.note([&](std::ostream& o) { o << "a text file read as type " << (int)ft << ": " << quote(text); });
    std::string fn = put_file("in.tns", text);
    REQUIRE(throws_error([&] { Own<TenT<C>> x(fn, ft); }), "a tensor was read as file type " << (int)ft);
    c.nontrivial = t.m() > 0; c.label("refused type");
}
CPROP("C18/refused", 1, refused);
