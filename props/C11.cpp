// C11: the binary formats are the documented byte layouts, in both directions.
#include "lib.hpp"
#define SAME(a, b, what) do { auto a_ = (a); auto b_ = (b); REQUIRE(a_ == b_, what << " is " << +a_ << ", expected " << +b_); } while (0)

template <bool wgt> static std::string csr_bytes(const Rows& rows, u64 nr, u64 nc) {
    typedef typename C::L L; typedef typename C::O O; typedef typename C::W W;
    u64 m = 0; for (auto& r : rows) m += r.size();
    Bytes b; b.str("PIGO-CSR-v2").template val<uint8_t>(sizeof(L)).template val<uint8_t>(sizeof(O)).template val<L>((L)rows.size()).template val<O>((O)m).template val<L>((L)nr).template val<L>((L)nc);
    u64 k = 0; b.template val<O>(0); for (auto& r : rows) { k += r.size(); b.template val<O>((O)k); }
    for (auto& r : rows) for (auto& e : r) b.template val<L>((L)e.y);
    if (wgt) for (auto& r : rows) for (auto& e : r) b.template val<W>((W)e.w);
    return b.s;
}
template <bool wgt> static std::string coo_bytes(const std::vector<Ent>& es, u64 n, u64 nr, u64 nc) {
    typedef typename C::L L; typedef typename C::O O; typedef typename C::W W;
    Bytes b; b.str("PIGO-COO-v1").template val<uint8_t>(sizeof(L)).template val<uint8_t>(sizeof(O)).template val<L>((L)nr).template val<L>((L)nc).template val<L>((L)n).template val<O>((O)es.size());
    for (auto& e : es) b.template val<L>((L)e.x);
    for (auto& e : es) b.template val<L>((L)e.y);
    if (wgt) for (auto& e : es) b.template val<W>((W)e.w.v);
    return b.s;
}
struct Case { std::vector<Ent> es; u64 n, nr, nc; Rows rows; };
template <bool wgt> static Case gen_case(Src& s, Ctx& c, bool rows) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = rows ? std::min<u64>(C::max_label(), 3000) : C::max_sparse_label(); sp.max_m = C::max_m(); sp.max_bulk = C::max_bulk();
    Case k; k.es = mem_entries<typename C::W>(s, c, sp, wgt); Dims d = dims_of(k.es); k.n = d.n; k.nr = d.nr; k.nc = d.nc;
    if (rows) k.rows = rows_of(k.es, k.n, wgt);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; n=" << k.n << " nrows=" << k.nr << " ncols=" << k.nc << "; " << show(k.es, false) << (wgt ? " weighted" : ""); });
    c.nontrivial = k.es.size() >= 2 && rt_multi();
    return k;
}
static void same_file(const std::string& fn, const std::string& want) {
    std::string got = get_file(fn);
    REQUIRE(got.size() == want.size(), "the file has " << got.size() << " bytes, expected " << want.size());
    size_t i = 0; while (i < got.size() && got[i] == want[i]) ++i;
    REQUIRE(i == got.size(), "byte " << i << " of the file is " << (unsigned)(unsigned char)got[i] << ", expected " << (unsigned)(unsigned char)want[i] << "; expected file " << quote(want, 200));
}

template <bool wgt> static void coo_save(Src& s, Ctx& c) {
    Case k = gen_case<wgt>(s, c, false); typedef typename C::L L; typedef typename C::O O;
    Own<CooV<C, wgt>> a((L)k.n, (L)k.nr, (L)k.nc, (O)k.es.size());
    fill_coo<CooV<C, wgt>, wgt>(*a, k.es);
    std::string fn = pbt::path("o.bin"); a->save(fn);
    same_file(fn, coo_bytes<wgt>(k.es, k.n, k.nr, k.nc)); c.label("COO saved");
}
template <bool wgt> static void coo_load(Src& s, Ctx& c) {
    Case k = gen_case<wgt>(s, c, false);
    Own<CooV<C, wgt>> a(put_file("i.bin", coo_bytes<wgt>(k.es, k.n, k.nr, k.nc)));
    SAME((u64)a->n(), k.n, "n"); SAME((u64)a->nrows(), k.nr, "nrows"); SAME((u64)a->ncols(), k.nc, "ncols"); SAME((u64)a->m(), (u64)k.es.size(), "m");
    auto g = entries<wgt>(*a);
    for (size_t i = 0; i < g.size(); ++i) REQUIRE(g[i].x == k.es[i].x && g[i].y == k.es[i].y && (!wgt || g[i].w == k.es[i].w.v), "entry " << i << " is (" << g[i].x << "," << g[i].y << "," << g[i].w << ")");
    c.label("COO loaded");
}
template <bool wgt> static void csr_save(Src& s, Ctx& c) {
    Case k = gen_case<wgt>(s, c, true); typedef typename C::L L; typedef typename C::O O;
    Own<CsrT<C, wgt>> a((L)k.n, (O)k.es.size(), (L)k.nr, (L)k.nc);
    fill_csr<CsrT<C, wgt>, wgt>(*a, k.rows);
    std::string fn = pbt::path("o.bin"), want = csr_bytes<wgt>(k.rows, k.nr, k.nc); a->save(fn);
    same_file(fn, want); SAME((u64)a->save_size(), (u64)want.size(), "save_size()"); c.label("CSR saved");
}
template <bool wgt> static void csr_load(Src& s, Ctx& c) {
    Case k = gen_case<wgt>(s, c, true);
    Own<GraphT<C, wgt>> a(put_file("i.bin", csr_bytes<wgt>(k.rows, k.nr, k.nc)));
    SAME((u64)a->n(), k.n, "n"); SAME((u64)a->nrows(), k.nr, "nrows"); SAME((u64)a->ncols(), k.nc, "ncols"); SAME((u64)a->m(), (u64)k.es.size(), "m");
    require_rows(csr_rows<wgt>(*a, k.n), k.rows, wgt, true, "loaded"); c.label("CSR loaded");
}
template <bool wgt> static void digraph_save(Src& s, Ctx& c) {
    Case k = gen_case<wgt>(s, c, true); typedef typename C::L L; typedef typename C::O O;
    Own<CooV<C, wgt>> coo((L)k.n, (L)k.nr, (L)k.nc, (O)k.es.size());
    fill_coo<CooV<C, wgt>, wgt>(*coo, k.es);
    Own<DiT<C, wgt>> a(*coo);
    a->in().sort(); a->out().sort();
    std::string fn = pbt::path("o.bin"); a->save(fn);
    Rows out = k.rows, in = rows_of(k.es, k.n, wgt, true); sort_rows(out); sort_rows(in);
    same_file(fn, "PIGO-DiGraph-v1" + csr_bytes<wgt>(in, k.nc, k.nr) + csr_bytes<wgt>(out, k.nr, k.nc)); c.label("DiGraph saved");
}
template <bool wgt> static void digraph_load(Src& s, Ctx& c) {
    Case k = gen_case<wgt>(s, c, true); Rows in = rows_of(k.es, k.n, wgt, true);
    Own<DiT<C, wgt>> a(put_file("i.bin", "PIGO-DiGraph-v1" + csr_bytes<wgt>(in, k.nc, k.nr) + csr_bytes<wgt>(k.rows, k.nr, k.nc)));
    SAME((u64)a->n(), k.n, "n"); SAME((u64)a->nrows(), k.nr, "nrows"); SAME((u64)a->ncols(), k.nc, "ncols"); SAME((u64)a->m(), (u64)k.es.size(), "m");
    require_rows(csr_rows<wgt>(a->out(), k.n), k.rows, wgt, true, "loaded out"); require_rows(csr_rows<wgt>(a->in(), k.n), in, wgt, true, "loaded in"); c.label("DiGraph loaded");
}
template <bool wgt, bool load> static void tensor(Src& s, Ctx& c) {
    Case k = gen_case<wgt>(s, c, false); typedef typename C::L L; typedef typename C::O O; typedef typename C::W W;
    u64 order = 1 + s.upto(5), m = k.es.size();
    Bytes b; b.str("PIGO-Tensor-2").template val<uint8_t>(sizeof(L)).template val<uint8_t>(sizeof(O)); if (wgt) b.template val<uint8_t>(sizeof(W));
    b.template val<O>((O)order).template val<O>((O)m);
    std::vector<L> cs; for (auto& e : k.es) for (u64 i = 0; i < order; ++i) cs.push_back((L)(i % 2 ? e.y : e.x + i / 2));
    for (auto v : cs) b.val(v);
    if (wgt) for (auto& e : k.es) b.template val<W>((W)e.w.v);
    if (load) {
        Own<TenT<C, wgt>> a(put_file("i.bin", b.s));
        SAME((u64)a->order(), order, "order"); SAME((u64)a->m(), m, "m");
        auto g = vals(a->c(), m * order, "c"); REQUIRE(g == cs, "loaded coordinates differ");
        if constexpr (wgt) { auto w = vals(a->w(), m, "w"); for (u64 i = 0; i < m; ++i) REQUIRE(w[i] == (W)k.es[i].w.v, "weight " << i << " is " << +w[i]); }
        c.label("Tensor loaded");
    } else {
        Own<TenT<C, wgt>> a((O)order, (O)m);
        for (size_t i = 0; i < cs.size(); ++i) raw(a->c())[i] = cs[i];
        if constexpr (wgt) for (u64 i = 0; i < m; ++i) raw(a->w())[i] = (W)k.es[i].w.v;
        std::string fn = pbt::path("o.bin"); a->save(fn);
        same_file(fn, b.s); c.label("Tensor saved");
    }
}
CPROP("C11/coo save", 1, coo_save<false>);
CPROP("C11/coo save weighted", 1, coo_save<true>);
CPROP("C11/coo load", 1, coo_load<false>);
CPROP("C11/coo load weighted", 1, coo_load<true>);
CPROP("C11/csr save", 1, csr_save<false>);
CPROP("C11/csr save weighted", 1, csr_save<true>);
CPROP("C11/csr load", 1, csr_load<false>);
CPROP("C11/csr load weighted", 1, csr_load<true>);
CPROP("C11/digraph save", 1, digraph_save<false>);
CPROP("C11/digraph save weighted", 1, digraph_save<true>);
CPROP("C11/digraph load", 1, digraph_load<false>);
CPROP("C11/digraph load weighted", 1, digraph_load<true>);
CPROP("C11/tensor save", 1, (tensor<true, false>));
CPROP("C11/tensor save unweighted", 1, (tensor<false, false>));
CPROP("C11/tensor load", 1, (tensor<true, true>));
CPROP("C11/tensor load unweighted", 1, (tensor<false, true>));
