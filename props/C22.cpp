// C22: results do not depend on how the threads of a team are interleaved.
#include "pipeline.hpp"

template <bool wgt>
static void schedules(Src& s, Ctx& c) {
    rt_set(RtSched());
    u64 lim = std::min<u64>(C::max_label() - 1, s.upto(3) ? 100 : 1000);
    TextCase t = gen_text(s, c, lim, std::min<u64>(C::max_m() / 2, 200), wgt ? wspec<C::W>() : WSpec(), wgt);
    gen_sched(s, c, 24); RtSched a = rt_get();
    if (a.threads < 2) a.threads = 2 + (unsigned)s.upto(4);
    RtSched plain; plain.threads = a.threads;       // every thread runs until it has to wait
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(plain) << " against " << show(a) << (wgt ? "; weighted" : "") << "\nfile " << t.fn.substr(t.fn.rfind('/') + 1) << " " << quote(t.text); });
    auto all = [&](const RtSched& x) { rt_set(x); return t.tensor ? run_tensor<C, wgt, C::W>(t.fn, true) : run_all<C, wgt, C::W>(t.fn, t.ft, DO_BYTES | DO_GRAPHS | DO_OPTIONS | DO_TEXT); };
    Results want = all(plain);
    require_same(all(a), want, "another interleaving");
    RtSched b = a; b.seed = a.seed + 1 + s.upto(1000); b.preempt = 1 + (unsigned)s.upto(3);
    require_same(all(b), want, "a third interleaving (" + show(b) + ")");
    c.nontrivial = t.m >= 2;
}
CPROP("C22/schedules", 20, schedules<false>);
CPROP("C22/schedules weighted", 20, schedules<true>);
