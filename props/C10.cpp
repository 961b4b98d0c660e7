// C10: saving to a PIGO binary file and loading it gives back the same object.
#include "lib.hpp"

template <class T> static bool same_bits(const std::vector<T>& a, const std::vector<T>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(T))); }
// The same types, stored in another way
template <class CX> struct Other { static const St st = CX::st == RAW ? VEC : CX::st == VEC ? SPTR : RAW; typedef Cfg<typename CX::L, typename CX::O, st, typename CX::W> T; };
typedef Other<C>::T CO;

struct Raw { u64 n, nr, nc, m; unsigned fseed; };
// sizes need not belong to the entries
static Raw gen_raw(Src& s, Ctx& c, u64 max_n) {
    Raw r; r.m = s.size(C::max_m(), C::max_bulk());
    u64 lim = std::min<u64>(max_n, (u64)std::numeric_limits<C::L>::max());
    r.n = s.biased(lim); r.nr = s.upto(2) ? s.biased(r.n) : s.biased(lim); r.nc = s.biased(lim);
    r.fseed = (unsigned)s.upto(0xffff);
    c.label(r.m == 0 ? "entries:0" : r.m <= 6 ? "entries:1-6" : r.m <= 100 ? "entries:7-100" : "entries:>100");
    return r;
}
template <class T> static void fill_random(T* p, size_t k, u64 seed) {
    char* b = (char*)p; u64 h = seed * 2 + 1;
    for (size_t i = 0; i < k * sizeof(T); ++i) { h = h * 6364136223846793005ull + 1442695040888963407ull; b[i] = (char)(seed % 5 == 0 ? 0 : h >> 56); }
}
static std::string show_raw(const Raw& r) { std::ostringstream o; o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; n=" << r.n << " nrows=" << r.nr << " ncols=" << r.nc << " m=" << r.m << ", contents from seed " << r.fseed; return o.str(); }
static const char* gen_name(Src& s) { return s.pick<const char*>({"out.bin", "out.mtx", "out.graph", "out", "out.el"}); }
#define SAME_DIMS(a, b) REQUIRE((a).n() == (b).n() && (a).nrows() == (b).nrows() && (a).ncols() == (b).ncols() && (a).m() == (b).m(), "loaded sizes are " << show_dims(a) << ", saved were " << show_dims(b))

template <class CL, bool wgt>
static void coo(Src& s, Ctx& c) {
    gen_sched(s, c);
    Raw r = gen_raw(s, c, UINT64_MAX); const char* name = gen_name(s); bool at = s.upto(1);
    c.note([&](std::ostream& o) { o << show_raw(r) << "; COO saved as " << name; });
    typedef typename C::L L; typedef typename C::O O;
    Own<CooV<C, wgt>> a((L)r.n, (L)r.nr, (L)r.nc, (O)r.m);
    fill_random(raw(a->x()), r.m, r.fseed); fill_random(raw(a->y()), r.m, r.fseed + 1); if constexpr (wgt) fill_random(raw(a->w()), r.m, r.fseed + 2);
    auto x = vals(a->x(), r.m, "x"), y = vals(a->y(), r.m, "y");
    std::string fn = pbt::path(name);
    a->save(fn);
    REQUIRE(same_bits(vals(a->x(), r.m, "x"), x) && same_bits(vals(a->y(), r.m, "y"), y), "saving changed the object");
    gen_sched(s, c);
    Own<CooV<CL, wgt>> b(fn, at ? pigo::AUTO : pigo::PIGO_COO_BIN);
    SAME_DIMS(*b, *a);
    REQUIRE(same_bits(vals(b->x(), r.m, "x"), x) && same_bits(vals(b->y(), r.m, "y"), y), "loaded entries differ");
    if constexpr (wgt) REQUIRE(same_bits(vals(b->w(), r.m, "w"), vals(a->w(), r.m, "w")), "loaded weights differ");
    c.label("COO"); c.nontrivial = r.m >= 2;
}
CPROP("C10/coo", 2, (coo<C, false>));
CPROP("C10/coo weighted", 2, (coo<CO, true>));

template <class A, class B> static void require_csr(A& b, B& a, bool, u64 n, u64 m) {
    SAME_DIMS(b, a);
    REQUIRE(same_bits(vals(b.offsets(), n + 1, "offsets"), vals(a.offsets(), n + 1, "offsets")), "loaded offsets differ");
    REQUIRE(same_bits(vals(b.endpoints(), m, "endpoints"), vals(a.endpoints(), m, "endpoints")), "loaded endpoints differ");
}
template <class X, class Y, bool wgt>
static void csr(Src& s, Ctx& c) {
    gen_sched(s, c);
    Raw r = gen_raw(s, c, std::min<u64>(3000, (u64)std::numeric_limits<C::L>::max() - 1)); const char* name = gen_name(s); bool at = s.upto(1);
    c.note([&](std::ostream& o) { o << show_raw(r) << "; CSR saved as " << name; });
    typedef typename C::L L; typedef typename C::O O;
    Own<X> a((L)r.n, (O)r.m, (L)r.nr, (L)r.nc);
    fill_random(raw(a->offsets()), r.n + 1, r.fseed); fill_random(raw(a->endpoints()), r.m, r.fseed + 1); if constexpr (wgt) fill_random(raw(a->weights()), r.m, r.fseed + 2);
    std::string fn = pbt::path(name);
    a->save(fn);
    REQUIRE(get_file(fn).size() == a->save_size(), "the file has " << get_file(fn).size() << " bytes, save_size() is " << a->save_size());
    gen_sched(s, c);
    Own<Y> b(fn, at ? pigo::AUTO : pigo::PIGO_CSR_BIN);
    require_csr(*b, *a, wgt, r.n, r.m);
    if constexpr (wgt) REQUIRE(same_bits(vals(b->weights(), r.m, "w"), vals(a->weights(), r.m, "w")), "loaded weights differ");
    c.label("CSR"); c.nontrivial = r.m >= 2;
}
CPROP("C10/csr", 2, (csr<CsrT<C>, CsrT<CO>, false>));
CPROP("C10/csr weighted", 2, (csr<CsrT<C, true>, CsrT<C, true>, true>));
CPROP("C10/graph", 1, (csr<GraphT<C, true>, GraphT<CO, true>, true>));

template <bool wgt>
static void digraph(Src& s, Ctx& c) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = std::min<u64>(C::max_label(), 5000); sp.max_m = C::max_m(); sp.max_bulk = C::max_bulk();
    auto es = mem_entries<typename C::W>(s, c, sp, wgt); Dims d = dims_of(es); const char* name = gen_name(s); bool at = s.upto(1);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << show(es, false) << "; DiGraph saved as " << name; });
    typedef typename C::L L; typedef typename C::O O;
    Own<CooV<C, wgt>> coo((L)d.n, (L)d.nr, (L)d.nc, (O)es.size());
    fill_coo<CooV<C, wgt>, wgt>(*coo, es);
    Own<DiT<C, wgt>> a(*coo);
    std::string fn = pbt::path(name);
    a->save(fn);
    gen_sched(s, c);
    Own<DiT<CO, wgt>> b(fn, at ? pigo::AUTO : pigo::PIGO_DIGRAPH_BIN);
    u64 m = es.size();
    require_csr(b->in(), a->in(), wgt, (u64)a->in().n(), m); require_csr(b->out(), a->out(), wgt, (u64)a->out().n(), m);
    if constexpr (wgt) REQUIRE(same_bits(vals(b->in().weights(), m, "w"), vals(a->in().weights(), m, "w")) && same_bits(vals(b->out().weights(), m, "w"), vals(a->out().weights(), m, "w")), "loaded weights differ");
    c.label("DiGraph"); c.nontrivial = m >= 2;
}
CPROP("C10/digraph", 1, digraph<false>);
CPROP("C10/digraph weighted", 1, digraph<true>);

template <class CL, bool wgt>
static void tensor(Src& s, Ctx& c) {
    gen_sched(s, c);
    Raw r = gen_raw(s, c, 100); const char* name = gen_name(s); bool at = s.upto(1);
    u64 order = 1 + s.upto(6);
    c.note([&](std::ostream& o) { o << show_raw(r) << "; Tensor of order " << order << " saved as " << name; });
    typedef typename C::O O;
    Own<TenT<C, wgt>> a((O)order, (O)r.m);
    u64 k = order * r.m;
    fill_random(raw(a->c()), k, r.fseed); if constexpr (wgt) fill_random(raw(a->w()), r.m, r.fseed + 2);
    std::string fn = pbt::path(name);
    a->save(fn);
    gen_sched(s, c);
    Own<TenT<CL, wgt>> b(fn, at ? pigo::AUTO : pigo::PIGO_TENSOR_BIN);
    REQUIRE((u64)b->order() == order && (u64)b->m() == r.m, "loaded order " << +b->order() << " and m " << +b->m() << ", saved " << order << " and " << r.m);
    REQUIRE(same_bits(vals(b->c(), k, "c"), vals(a->c(), k, "c")), "loaded coordinates differ");
    if constexpr (wgt) REQUIRE(same_bits(vals(b->w(), r.m, "w"), vals(a->w(), r.m, "w")), "loaded weights differ");
    c.label("Tensor"); c.nontrivial = r.m >= 2;
}
CPROP("C10/tensor", 2, (tensor<CO, true>));
CPROP("C10/tensor unweighted", 1, (tensor<C, false>));

// Several objects, one after another, from one open binary file
template <bool wgt>
static void in_file(Src& s, Ctx& c) {
    gen_sched(s, c);
    typedef typename C::L L; typedef typename C::O O;
    u64 k = 1 + s.upto(3); size_t pad = s.upto(20), total = pad;
    std::vector<std::unique_ptr<Own<CsrT<C, wgt>>>> v;
    std::vector<Raw> rs;
    for (u64 i = 0; i < k; ++i) {
        Raw r = gen_raw(s, c, std::min<u64>(200, (u64)std::numeric_limits<C::L>::max() - 1));
        v.emplace_back(new Own<CsrT<C, wgt>>((L)r.n, (O)r.m, (L)r.nr, (L)r.nc)); auto& a = **v.back();
        fill_random(raw(a.offsets()), r.n + 1, r.fseed); fill_random(raw(a.endpoints()), r.m, r.fseed + 1); if constexpr (wgt) fill_random(raw(a.weights()), r.m, r.fseed + 2);
        total += a.save_size(); rs.push_back(r);
    }
    c.note([&](std::ostream& o) { o << k << " CSRs after " << pad << " bytes in one file: "; for (auto& r : rs) o << show_raw(r) << "; "; });
    std::string fn = pbt::path("multi.bin");
    {
        pigo::WFile w(fn, total);
        if (pad && pad < total) w.seek(pad);
        for (auto& a : v) (**a).save(w);
    }
    REQUIRE(get_file(fn).size() == total, "the file has " << get_file(fn).size() << " bytes, expected " << total);
    pigo::ROFile f(fn);
    if (pad) f.seek(pad);
    for (size_t i = 0; i < k; ++i) {
        Own<CsrT<C, wgt>> b(f, s.upto(1) ? pigo::AUTO : pigo::PIGO_CSR_BIN);
        require_csr(*b, **v[i], wgt, rs[i].n, rs[i].m);
        if constexpr (wgt) REQUIRE(same_bits(vals(b->weights(), rs[i].m, "w"), vals((**v[i]).weights(), rs[i].m, "w")), "loaded weights differ");
    }
    c.label("open file"); c.nontrivial = k >= 2;
}
CPROP("C10/open file", 1, in_file<true>);
