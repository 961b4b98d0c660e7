// C27: the type of a file is told by what it begins with, else by its name;
// every way of naming a file and its type gives the same object; what an
// object cannot be read from is refused.
#include "pipeline.hpp"
#include <sys/stat.h>

enum Content { T_EL, T_MM, T_GRAPH, B_COO, B_CSR, B_DI, B_TEN, T_TEN, BAD, N_CONTENT };
static const char* const CNAME[] = {"edge list", "matrix market", "graph", "COO", "CSR", "DiGraph", "Tensor", "tensor text", "other version"};
static bool ends(const std::string& s, const char* e) { size_t n = strlen(e); return s.size() >= n && s.compare(s.size() - n, n, e) == 0; }
static std::string gen_name(Src& s) {
    static const char* BASE[] = {"", "in", "graph", "mtx", "a.b", "x.mtx", "y.graph", "z.mtx.el", "w.graph.txt", ".hidden", "in.MTX", "in.Graph", "PIGO-COO-v1"};
    static const char* EXT[] = {"", ".mtx", ".graph", ".el", ".txt", ".tns", ".bin", ".mtx.gz", ".graphs", "mtx", "graph", ".mt", ".graph.mtx", ".mtx.graph", ".GRAPH"};
    std::string n = std::string(BASE[s.upto(sizeof BASE / sizeof *BASE - 1)]) + EXT[s.upto(sizeof EXT / sizeof *EXT - 1)];
    if (s.chance(1, 12)) n = s.pick<const char*>({"with space ", "\xc3\xa9t\xc3\xa9", "-", "%d%s", "a\nb"}) + n;
    else if (s.chance(1, 12)) n = std::string(1 + s.upto(200), 'n') + n;
    if (n.empty()) n = "f";
    if (s.chance(1, 12)) { std::string d = s.pick<const char*>({"d.mtx", "d.graph", "d", "d.el"}); if (s.upto(1)) d += std::string(s.upto(200), 'd'); mkdir(pbt::path(d).c_str(), 0700); n = d + "/" + n; }
    return n;
}
static pigo::FileType type_of(Content k) {
    switch (k) { case T_MM: return pigo::MATRIX_MARKET; case T_GRAPH: return pigo::GRAPH; case B_COO: return pigo::PIGO_COO_BIN; case B_CSR: return pigo::PIGO_CSR_BIN; case B_DI: return pigo::PIGO_DIGRAPH_BIN; case B_TEN: return pigo::PIGO_TENSOR_BIN; default: return pigo::EDGE_LIST; }
}
static const char* ft_name(pigo::FileType t) { static const char* N[] = {"MATRIX_MARKET", "EDGE_LIST", "PIGO_COO_BIN", "PIGO_CSR_BIN", "PIGO_DIGRAPH_BIN", "PIGO_TENSOR_BIN", "GRAPH", "AUTO"}; return N[(int)t]; }
template <bool wgt> static std::string gen_content(Src& s, Ctx& c, Content k) {
    u64 lim = std::min<u64>(C::max_label(), 60) - 3; WSpec w = wspec<C::W>(); std::string tmp = pbt::path("make.tmp");
    EntSpec sp; sp.max_x = sp.max_y = lim; sp.max_m = 25;
    if (k == T_EL || k == T_MM) {
        sp.w = w; auto es = gen_entries(s, c, sp); no_neg_zero(es); Dims d = dims_of(es);
        return k == T_EL ? el_text(s, c, es, wgt, Dress()) : mm_text(s, c, es, std::max<u64>(1, d.nr), std::max<u64>(1, d.nc), es.size(), wgt, Dress());
    }
    if (k == T_GRAPH) return gen_graph(s, c, lim, 25, lim, true).text;
    if (k == T_TEN || k == B_TEN) {
        TensorCase x = gen_tensor(s, c, lim, 25, w); std::string t = tensor_text(s, c, x, wgt);
        if (k == T_TEN) return t;
        put_file("make.tmp", t); Own<TenT<C, wgt>> y(tmp, pigo::EDGE_LIST); y->save(tmp); return get_file(tmp);
    }
    if (k == BAD) { std::string t = s.pick<const char*>({"PIGO", "PIGO-COO-v2", "PIGO-CSR-v1", "PIGO-DiGraph-v", "PIGO-Tensor-", "PIGO-COO", "PIGO 1 2\n"}); if (s.upto(1)) t += std::string(s.upto(60), '\1'); return t; }
    auto es = mem_entries<C::W>(s, c, sp, wgt); Dims d = dims_of(es);
    Own<CooT<C, false, false, false, wgt>> coo((C::L)d.n, (C::L)d.nr, (C::L)d.nc, (C::O)es.size()); fill_coo<CooT<C, false, false, false, wgt>, wgt>(*coo, es);
    if (k == B_COO) coo->save(tmp);
    else if (k == B_CSR) { Own<CsrT<C, wgt>> g(*coo); g->save(tmp); }
    else { Own<DiT<C, wgt>> g(*coo); g->save(tmp); }
    return get_file(tmp);
}
// One object, as text
enum Obj { O_COO, O_CSR, O_GRAPH, O_DI, O_TEN, N_OBJ };
static const char* const ONAME[] = {"COO", "CSR", "Graph", "DiGraph", "Tensor"};
template <bool wgt, class X> static std::string csr_text(X& g) { size_t n = (size_t)g.n(); Rows r = csr_rows<wgt>(g, n); sort_rows(r); return canon(r, wgt) + show_dims(g); }
template <bool wgt, class A, class... B> static std::string build(Obj o, A&& a, B&&... b) {
    try {
        if (o == O_COO) { Own<CooT<C, false, false, false, wgt>> x(a, b...); return canon(entries<wgt>(*x), wgt) + show_dims(*x); }
        if (o == O_CSR) { Own<CsrT<C, wgt>> x(a, b...); return csr_text<wgt>(*x); }
        if (o == O_GRAPH) { Own<GraphT<C, wgt>> x(a, b...); return csr_text<wgt>(*x); }
        if (o == O_DI) { Own<DiT<C, wgt>> x(a, b...); return csr_text<wgt>(x->in()) + "\nout " + csr_text<wgt>(x->out()); }
        Own<TenT<C, wgt>> t(a, b...); std::string v; size_t k = (size_t)t->order(), m = (size_t)t->m();
        auto c = vals(t->c(), k * m, "c"); for (auto l : c) v += std::to_string((u64)l) + " ";
        char q[60]; if constexpr (wgt) for (auto w : vals(t->w(), m, "w")) { snprintf(q, sizeof q, "%.9Lg ", (ld)w); v += q; }
        return v + " order " + std::to_string(k) + " m " + std::to_string(m);
    } catch (pigo::Error&) { return "refused"; }
}
// What the documentation lets an object be read from
static bool can(Obj o, pigo::FileType t) {
    bool text = t == pigo::EDGE_LIST || t == pigo::MATRIX_MARKET || t == pigo::GRAPH, base = text || t == pigo::PIGO_COO_BIN || t == pigo::PIGO_CSR_BIN;
    if (o == O_TEN) return t == pigo::EDGE_LIST || t == pigo::PIGO_TENSOR_BIN;
    if (o == O_DI) return base || t == pigo::PIGO_DIGRAPH_BIN;
    return base;
}
template <bool wgt> static void detect(Src& s, Ctx& c) {
    gen_sched(s, c, 12);
    Content k = (Content)s.upto(N_CONTENT - 1); std::string data = gen_content<wgt>(s, c, k), name = gen_name(s);
    // half of the text is named after its type
    if ((k == T_MM || k == T_GRAPH) && s.upto(1)) name += k == T_MM ? ".mtx" : ".graph";
    bool bin = k == B_COO || k == B_CSR || k == B_DI || k == B_TEN;
    pigo::FileType want = bin ? type_of(k) : ends(name, ".mtx") ? pigo::MATRIX_MARKET : ends(name, ".graph") ? pigo::GRAPH : pigo::EDGE_LIST, real = type_of(k);
    Obj o = k == T_TEN ? O_TEN : (Obj)s.upto(N_OBJ - 1);      // tensor text can hold weights where others expect labels
    c.note([&](std::ostream& q) { q << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << CNAME[k] << (wgt ? ", weighted" : "") << " named " << quote(name) << " read as " << ONAME[o] << "\n" << quote(data); });
    std::string fn = put_file(name, data);
    {
        pigo::ROFile f(fn); pigo::FileType t = pigo::AUTO;
        bool err = throws_error([&] { t = f.guess_file_type(); });
        REQUIRE(err == (k == BAD), "detecting the type was " << (err ? "refused" : "not refused"));
        if (!err) REQUIRE(t == want, "the detected type is " << ft_name(t) << ", expected " << ft_name(want));
        REQUIRE(f.fp() == f.reader().d && f.reader().size() == data.size(), "detecting the type moved the position");
    }
    if (k == BAD) {
        REQUIRE((build<wgt>(o, fn)) == "refused", ONAME[o] << " was read from another version's file");
        pigo::FileType ft = s.pick<pigo::FileType>({pigo::PIGO_COO_BIN, pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN});
        REQUIRE((build<wgt>(o, fn, ft)) == "refused", ONAME[o] << " was read from another version's file as " << ft_name(ft));
    } else {
        // with the right type: one answer, whatever the file is called
        std::string a = build<wgt>(o, fn, real);
        bool ok = can(o, real) && !(wgt && real == pigo::GRAPH) && !(k == T_TEN && o != O_TEN);
        if (ok) REQUIRE(a != "refused", ONAME[o] << " was refused from " << CNAME[k]);
        if (!can(o, real)) REQUIRE(a == "refused", ONAME[o] << " was read from " << CNAME[k]);
        { pigo::ROFile f(fn); std::string b = build<wgt>(o, static_cast<pigo::File&>(f), real); REQUIRE(a == b, ONAME[o] << " of an open file is " << quote(b) << ", by name " << quote(a)); }
        if (want == real) {
            std::string b = build<wgt>(o, fn), d = build<wgt>(o, fn, pigo::AUTO);
            REQUIRE(a == b, ONAME[o] << " without a type is " << quote(b) << ", with " << ft_name(real) << " " << quote(a));
            REQUIRE(a == d, ONAME[o] << " with AUTO is " << quote(d) << ", with " << ft_name(real) << " " << quote(a));
            pigo::ROFile f(fn); std::string e = build<wgt>(o, static_cast<pigo::File&>(f), pigo::AUTO);
            REQUIRE(a == e, ONAME[o] << " of an open file with AUTO is " << quote(e) << ", with " << ft_name(real) << " " << quote(a));
        }
        // and binary types that the file is not are refused
        if (bin) {
            pigo::FileType ft = s.pick<pigo::FileType>({pigo::PIGO_COO_BIN, pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN});
            if (ft != real) REQUIRE((build<wgt>(o, fn, ft)) == "refused", ONAME[o] << " was read from " << CNAME[k] << " as " << ft_name(ft));
        }
    }
    REQUIRE(get_file(fn) == data, "the file was changed");
    c.label(CNAME[k]); c.label(std::string("as ") + ONAME[o]); c.nontrivial = true;
}
CPROP("C27/detect", 4, detect<false>);
CPROP("C27/detect weighted", 3, detect<true>);

// From the position of an open file on
template <bool wgt> static void at(Src& s, Ctx& c) {
    gen_sched(s, c, 12);
    Content k = (Content)s.upto(T_TEN); std::string data = gen_content<wgt>(s, c, k), head;
    for (u64 i = 0, n = 1 + s.upto(30); i < n; ++i) head += s.upto(1) ? (char)('0' + s.upto(9)) : (char)s.upto(255);
    if (s.chance(1, 4)) head = s.pick<const char*>({"PIGO-COO-v1", "PIGO-CSR-v2", "PIGO", "PIGO-DiGraph-v1", "% x", "1 2\n"});
    pigo::FileType real = type_of(k); Obj o = k == T_TEN ? O_TEN : (Obj)s.upto(N_OBJ - 1);
    bool bin = k == B_COO || k == B_CSR || k == B_DI || k == B_TEN, automatic = bin && s.upto(1);
    c.note([&](std::ostream& q) { q << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << CNAME[k] << (wgt ? ", weighted" : "") << " after " << quote(head) << " read as " << ONAME[o] << (automatic ? ", detected" : "") << "\n" << quote(data); });
    std::string want = build<wgt>(o, put_file("plain.bin", data), real);
    std::string fn = put_file("in.bin", head + data); pigo::ROFile f(fn); f.seek(head.size());
    std::string got = build<wgt>(o, static_cast<pigo::File&>(f), automatic ? pigo::AUTO : real);
    REQUIRE(got == want, ONAME[o] << " read from byte " << head.size() << " on is " << quote(got) << ", expected " << quote(want));
    c.label(std::string("from a position: ") + CNAME[k]); c.nontrivial = want != "refused";
}
CPROP("C27/position", 2, at<false>);
CPROP("C27/position weighted", 2, at<true>);
