// C01: reading an edge list gives exactly its entries, in file order.
#include "lib.hpp"

static void el_read(Src& s, Ctx& c) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = C::max_sparse_label(); sp.max_m = C::max_m(); sp.max_bulk = C::max_bulk();
    auto es = gen_entries(s, c, sp);
    std::string text = el_text(s, c, es, false, Dress());
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << show(es, false) << "\nfile " << quote(text); });
    std::string fn = put_file("in.el", text);
    Own<CooT<C>> coo(fn, pigo::EDGE_LIST);
    auto got = entries<false>(*coo);
    REQUIRE(got.size() == es.size(), "read " << show(got, false) << ", expected " << show(es, false));
    for (size_t i = 0; i < es.size(); ++i)
        REQUIRE(got[i].x == es[i].x && got[i].y == es[i].y, "entry " << i << " is (" << got[i].x << "," << got[i].y << "), expected (" << es[i].x << "," << es[i].y << ")");
    Dims d = dims_of(es);
    if (es.empty()) {
        REQUIRE((u64)coo->n() <= 1 && (u64)coo->nrows() <= 1 && (u64)coo->ncols() <= 1, "sizes of an empty list: " << show_dims(*coo));
    } else
        REQUIRE((u64)coo->n() == d.n && (u64)coo->nrows() == d.nr && (u64)coo->ncols() == d.nc, "sizes are " << show_dims(*coo) << ", expected n=" << d.n << " nrows=" << d.nr << " ncols=" << d.nc);
    REQUIRE(get_file(fn) == text, "reading changed the input file");
    c.nontrivial = es.size() >= 2 && rt_multi();
}
CPROP("C01/read", 10, el_read);

// Many entries for the label type and lines of very different lengths
static void el_big(Src& s, Ctx& c) {
    gen_sched(s, c);
    u64 m = 500 + s.upto(C::max_m() > 500 ? C::max_m() - 500 : 0);
    if (m > C::max_m()) m = C::max_m();
    u64 mx = s.upto(1) ? std::min<u64>(9, C::max_sparse_label()) : C::max_sparse_label();
    u64 a = 1 + s.upto(1000000), b = s.upto(1000000);
    std::vector<Ent> es(m); std::string text;
    u64 cm = s.upto(40);    // a comment line every cm lines
    for (u64 i = 0; i < m; ++i) {
        u64 h = (i * a + b) * 0x9e3779b97f4a7c15ull; h ^= h >> 29;
        es[i].x = mx == UINT64_MAX ? h : h % (mx + 1); h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
        es[i].y = mx == UINT64_MAX ? h : h % (mx + 1);
        if (cm && i % cm == cm - 1) text += "# 1 2 3\n";
        text += std::to_string(es[i].x) + ((h >> 7) % 5 ? " " : std::string((h >> 9) % 40, ' ') + "\t") + std::to_string(es[i].y) + "\n";
    }
    c.label("large");
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << m << " entries, labels up to " << mx << ", file of " << text.size() << " bytes: " << quote(text, 300); });
    std::string fn = put_file("in.txt", text);
    Own<CooT<C>> coo(fn);
    auto got = entries<false>(*coo);
    REQUIRE(got.size() == m, "read " << got.size() << " entries, expected " << m);
    for (size_t i = 0; i < m; ++i)
        REQUIRE(got[i].x == es[i].x && got[i].y == es[i].y, "entry " << i << " is (" << got[i].x << "," << got[i].y << "), expected (" << es[i].x << "," << es[i].y << ")");
    Dims d = dims_of(es);
    REQUIRE((u64)coo->n() == d.n && (u64)coo->nrows() == d.nr && (u64)coo->ncols() == d.nc, "sizes are " << show_dims(*coo));
    c.nontrivial = rt_multi();
}
CPROP("C01/large", 1, el_big);
