// C21: results do not depend on the number of threads.
#include "pipeline.hpp"

template <bool wgt>
static void threads(Src& s, Ctx& c) {
    rt_set(RtSched());
    u64 lim = std::min<u64>(C::max_label() - 1, s.upto(3) ? 300 : 3000);
    TextCase t = gen_text(s, c, lim, std::min<u64>(C::max_m() / 2, 600), wgt ? wspec<C::W>() : WSpec(), wgt, true, C::max_bulk() / 8);
    RtSched one; one.threads = 1;
    gen_sched(s, c); RtSched a = rt_get();
    gen_sched(s, c); RtSched b = rt_get();
    if (a.threads == 1) a.threads = 2;
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; one thread against " << show(a) << " and " << show(b) << (wgt ? "; weighted" : "") << "\nfile " << t.fn.substr(t.fn.rfind('/') + 1) << " " << quote(t.text); });
    auto all = [&](const RtSched& x) { rt_set(x); return t.tensor ? run_tensor<C, wgt, C::W>(t.fn, true) : run_all<C, wgt, C::W>(t.fn, t.ft, DO_BYTES | DO_GRAPHS | DO_OPTIONS | DO_TEXT); };
    Results want = all(one);
    require_same(all(a), want, std::to_string(a.threads) + " threads");
    if (b.threads != a.threads && b.threads > 1) require_same(all(b), want, std::to_string(b.threads) + " threads");
    c.nontrivial = t.m >= 2;
}
CPROP("C21/threads", 20, threads<false>);
CPROP("C21/threads weighted", 20, threads<true>);
