// C24: results do not depend on the label, ordinal, weight and storage types
// or on the alias an object is named by.
#include "pipeline.hpp"

typedef Cfg<uint64_t, uint64_t, VEC, int64_t> Ref;

template <class CX, bool wgt, class W>
static void types(Src& s, Ctx& c) {
    gen_sched(s, c);
    u64 lim = std::min<u64>(C::max_label() - 1, s.upto(3) ? 100 : 2000);
    WSpec w; if (wgt) { w.kind = WUNSIGNED; w.lo = 0; w.hi = 100; }
    TextCase t = gen_text(s, c, lim, std::min<u64>(C::max_m() / 2, 400), w, wgt, true, C::max_bulk() / 8);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << " against u64,u64,vector; " << show(rt_get()) << (wgt ? "; weighted" : "") << "\nfile " << t.fn.substr(t.fn.rfind('/') + 1) << " " << quote(t.text); });
    Results want = t.tensor ? run_tensor<Ref, wgt, int64_t>(t.fn, false, false) : run_all<Ref, wgt, int64_t>(t.fn, t.ft, DO_GRAPHS | DO_OPTIONS);
    Results got = t.tensor ? run_tensor<CX, wgt, W>(t.fn, false, false) : run_all<CX, wgt, W>(t.fn, t.ft, DO_GRAPHS | DO_OPTIONS);
    require_same(got, want, "the types " + std::string(CONF_NAME[VP_PART]));
    c.nontrivial = t.m >= 2;
}
CPROP("C24/types", 3, (types<C, false, C::W>));
CPROP("C24/types weighted", 3, (types<C, true, C::W>));
CPROP("C24/storage", 2, (types<Cfg<C::L, C::O, C::st == RAW ? VEC : C::st == VEC ? SPTR : RAW, C::W>, true, C::W>));

#if VP_PART < 3
// The names the documentation gives to common choices
template <bool wgt, class X> static std::string coo_text(X& x) { return canon(entries<wgt>(x), wgt) + show_dims(x); }
template <bool wgt, class X> static std::string csr_text(X& x) { x.sort(); return canon(csr_rows<wgt>(x, (size_t)x.n()), wgt) + show_dims(x); }
template <class L, class O, class W, bool sym, bool ut, bool sl> static void coo_aliases(Results& r, const std::string& fn) {
    attempt(r, "WCOO", [&] { Own<pigo::WCOO<L, O, std::vector<L>, W, std::vector<W>, sym, ut, sl>> x(fn); return coo_text<true>(*x); });
    attempt(r, "WCOOPtr", [&] { Own<pigo::WCOOPtr<L, O, W, sym, ut, sl>> x(fn); return coo_text<true>(*x); });
    attempt(r, "COO", [&] { Own<pigo::COO<L, O, L*, sym, ut, sl>> x(fn); return coo_text<false>(*x); });
}
template <class L, class O, class W, bool sym, bool ut, bool sl> static void coo_reference(Results& r, const std::string& fn) {
    auto w = [&] { Own<pigo::COO<uint64_t, uint64_t, std::shared_ptr<uint64_t>, sym, ut, sl, true, double, std::shared_ptr<double>>> x(fn); return coo_text<true>(*x); };
    attempt(r, "WCOO", w); attempt(r, "WCOOPtr", w);
    attempt(r, "COO", [&] { Own<pigo::COO<uint64_t, uint64_t, std::shared_ptr<uint64_t>, sym, ut, sl, false, double, std::shared_ptr<double>>> x(fn); return coo_text<false>(*x); });
}
static void aliases(Src& s, Ctx& c) {
    gen_sched(s, c);
    WSpec w; w.kind = WUNSIGNED; w.hi = 100;
    EntSpec sp; sp.max_x = sp.max_y = 300; sp.max_m = 200; sp.w = w; auto es = gen_entries(s, c, sp);
    bool weighted = s.upto(1);
    std::string text, fn;
    if (s.upto(1)) { Dims d = dims_of(es); text = mm_text(s, c, es, std::max<u64>(1, d.nr), std::max<u64>(1, d.nc), es.size(), true, Dress()); fn = put_file("in.mtx", text); }
    else { text = el_text(s, c, es, true, Dress()); fn = put_file("in.el", text); }
    c.note([&](std::ostream& o) { o << "aliases; " << show(rt_get()) << "\nfile " << quote(text); });
    Results got, want;
    if (weighted) {
        coo_aliases<uint32_t, uint64_t, float, false, false, false>(got, fn); coo_reference<uint32_t, uint64_t, float, false, false, false>(want, fn);
#if VP_PART == 0
        coo_aliases<uint64_t, uint32_t, double, true, false, false>(got, fn); coo_reference<uint64_t, uint32_t, double, true, false, false>(want, fn);
#elif VP_PART == 1
        coo_aliases<int32_t, uint32_t, int, false, true, false>(got, fn); coo_reference<int32_t, uint32_t, int, false, true, false>(want, fn);
#else
        coo_aliases<uint16_t, int64_t, int16_t, false, false, true>(got, fn); coo_reference<uint16_t, int64_t, int16_t, false, false, true>(want, fn);
        attempt(got, "WCSRPtr", [&] { Own<pigo::WCSRPtr<uint32_t, uint64_t, int>> x(fn); return csr_text<true>(*x); });
        attempt(want, "WCSRPtr", [&] { Own<pigo::CSR<uint64_t, uint64_t, std::vector<uint64_t>, std::vector<uint64_t>, true, double, std::vector<double>>> x(fn); return csr_text<true>(*x); });
#endif
    } else {
        auto ref = [&] { Own<pigo::CSR<uint64_t, uint64_t, std::vector<uint64_t>, std::vector<uint64_t>, false, double, std::vector<double>>> x(fn); return csr_text<false>(*x); };
        attempt(got, "Graph", [&] { Own<pigo::Graph> x(fn); return csr_text<false>(*x); }); attempt(want, "Graph", ref);
        attempt(got, "BigGraph", [&] { Own<pigo::BigGraph> x(fn); return csr_text<false>(*x); }); attempt(want, "BigGraph", ref);
        attempt(got, "CSC", [&] { Own<pigo::CSC<>> x(fn); return csr_text<false>(*x); }); attempt(want, "CSC", ref);
        attempt(got, "SymMatrix", [&] { Own<pigo::SymMatrix<>> x(fn); return csr_text<false>(*x); }); attempt(want, "SymMatrix", ref);
        attempt(got, "CSR", [&] { Own<pigo::CSR<>> x(fn); return csr_text<false>(*x); }); attempt(want, "CSR", ref);
        attempt(got, "COO", [&] { Own<pigo::COO<>> x(fn); return coo_text<false>(*x); });
        attempt(want, "COO", [&] { Own<pigo::COO<uint64_t, uint64_t, std::vector<uint64_t>, false, false, false, false, double, std::vector<double>>> x(fn); return coo_text<false>(*x); });
        attempt(got, "DiGraph", [&] { Own<pigo::DiGraph<>> x(fn); return csr_text<false>(x->out()) + csr_text<false>(x->in()); });
        attempt(want, "DiGraph", [&] { Own<pigo::DiGraph<uint64_t, uint64_t, std::vector<uint64_t>, std::vector<uint64_t>, false, double, std::vector<double>>> x(fn); return csr_text<false>(x->out()) + csr_text<false>(x->in()); });
        attempt(got, "Matrix", [&] { Own<pigo::Matrix<>> x(fn); return csr_text<false>(x->csr()) + csr_text<false>(x->csc()); });
        attempt(want, "Matrix", [&] { Own<pigo::Matrix<uint64_t, uint64_t, std::vector<uint64_t>, std::vector<uint64_t>, false, double, std::vector<double>>> x(fn); return csr_text<false>(x->csr()) + csr_text<false>(x->csc()); });
    }
    require_same(got, want, "an alias");
    c.label(weighted ? "weighted aliases" : "aliases"); c.nontrivial = es.size() >= 2;
}
CPROP("C24/aliases", 4, aliases);
#endif
