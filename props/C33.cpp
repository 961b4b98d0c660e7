// C33: the released single header, and the one its generator makes now, do
// what the modular headers do; each can be included in many files of a program.
#if VP_PART >= 8
// parts 1k: the committed release header, 2k: a freshly generated one
#if VP_PART >= 20
#define VP_WHICH generated
#define VP_HEADER VP_GENERATED
#else
#define VP_WHICH released
#define VP_HEADER VP_RELEASED
#endif
#if VP_PART % 10 == 0
#undef VP_PART
#define VP_PART 0
#elif VP_PART % 10 == 1
#undef VP_PART
#define VP_PART 1
#elif VP_PART % 10 == 4
#undef VP_PART
#define VP_PART 4
#endif
#define CAT__(a, b) a##_##b
#define CAT_(a, b) CAT__(a, b)
// The same names from other headers must be other names to the linker
#define pigo CAT_(pigo, VP_WHICH)
#define run_all CAT_(run_all, VP_WHICH)
#define run_tensor CAT_(run_tensor, VP_WHICH)
#define scan CAT_(scan, VP_WHICH)
#include VP_HEADER
#define VP_OTHER
#else
#define VP_WHICH modular
#define CAT__(a, b) a##_##b
#define CAT_(a, b) CAT__(a, b)
#endif
#include "pipeline.hpp"
#include <cmath>

typedef typename C::W W;
// What the scanner and the file functions make of a text
template <class CX> std::string scan(const std::string& fn) {
    std::ostringstream o;
    try {
        pigo::ROFile f(fn); o << f.size() << " type " << (int)f.guess_file_type() << " byte " << (int)f.template read<uint8_t>() << ";";
        pigo::FileReader r = f.reader(); pigo::FileReader q = r;
        { auto x = q.template find_offsets<pigo::Tensor<uint64_t, uint64_t, uint64_t*>>('\n'); for (u64 i = 0; i < x.m(); ++i) o << " " << x.c()[i]; x.free(); }
        for (r.move_to_first_int(); r.good(); r.move_to_next_int()) { pigo::FileReader k = r; o << " " << (u64)k.template read_int<typename CX::L>() << "/" << k.size(); }
        o << ";"; q.move_to_fp(); if (q.good()) o << (double)q.template read_fp<double>(); o << " " << q.size();
    } catch (pigo::Error& e) { o << " error"; }
    return o.str();
}
static Results all(bool wgt, bool tensor, const std::string& fn, int ft) {
    Results r;
    if (tensor) r = wgt ? run_tensor<C, true, W>(fn, true) : run_tensor<C, false, W>(fn, true);
    else r = wgt ? run_all<C, true, W>(fn, (pigo::FileType)ft, DO_BYTES | DO_GRAPHS | DO_OPTIONS | DO_TEXT) : run_all<C, false, W>(fn, (pigo::FileType)ft, DO_BYTES | DO_GRAPHS | DO_OPTIONS | DO_TEXT);
    r.add("scanner", scan<C>(fn));
    return r;
}
#define ALL_NAME(w) CAT_(CAT_(all, w), VP_PART)
#ifdef VP_OTHER
Results ALL_NAME(VP_WHICH)(bool wgt, bool tensor, const std::string& fn, int ft) { return all(wgt, tensor, fn, ft); }
#else
Results ALL_NAME(released)(bool wgt, bool tensor, const std::string& fn, int ft);
Results ALL_NAME(generated)(bool wgt, bool tensor, const std::string& fn, int ft);
static void same(Src& s, Ctx& c) {
    gen_sched(s, c, 16); bool wgt = s.upto(1), bad = s.chance(1, 4); TextCase t;
    if (bad) { t.text = damaged(s, c, std::min<unsigned>(5, (unsigned)std::numeric_limits<typename C::L>::digits10)); unsigned k = (unsigned)s.upto(3); static const char* N[] = {"in.el", "in.mtx", "in.graph", "in.tns"}; t.fn = put_file(N[k], t.text); t.tensor = k == 3; t.m = 2; c.label("damaged text"); }
    else t = gen_text(s, c, std::min<u64>(C::max_label() - 1, s.upto(3) ? 100 : 2000), std::min<u64>(C::max_m() / 2, 200), wspec<W>(), wgt);
    bool gen = s.upto(1);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << ", " << (gen ? "freshly generated" : "released") << " header against modular headers; " << show(rt_get()) << (wgt ? "; weighted" : "") << "\nfile " << t.fn.substr(t.fn.rfind('/') + 1) << " " << quote(t.text); });
    if (bad && t.fn.find(".graph") != std::string::npos) {     // finding K1: no row for the last vertex
        try { Own<CsrT<C>> x(t.fn); size_t n = (size_t)x->n(); if ((u64)vals(x->offsets(), n + 1, "offsets")[n] != (u64)x->m()) { c.label("K1"); return; } } catch (pigo::Error&) { }
    }
    if (bad && wgt) {       // sorting leaves the places of these to chance
        bool odd = false;
        try { if (t.tensor) { Own<TenT<C, true, W>> x(t.fn); for (auto w : vals(x->w(), (size_t)x->m(), "w")) odd |= !(w - w == 0) || (w == 0 && std::signbit((double)w)); }
              else { Own<CooT<C, false, false, false, true, W>> x(t.fn); for (auto w : vals(x->w(), (size_t)x->m(), "w")) odd |= !(w - w == 0) || (w == 0 && std::signbit((double)w)); } } catch (pigo::Error&) { }
        if (odd) { c.label("nan, infinity or negative zero"); return; }
    }
    Results want = all(wgt, t.tensor, t.fn, (int)t.ft);
    if (gen) require_same(ALL_NAME(generated)(wgt, t.tensor, t.fn, (int)t.ft), want, "the freshly generated single header");
    else require_same(ALL_NAME(released)(wgt, t.tensor, t.fn, (int)t.ft), want, "the released single header");
    c.label(gen ? "generated header" : "released header"); c.nontrivial = t.m >= 2;
}
CPROP("C33/same", 1, same);
#endif
