// C35: uses of the library in several threads of a program, each with objects
// and files of its own, do not disturb each other; several threads may use the
// same object as a source.
#include "pipeline.hpp"
#include <thread>
#include <atomic>
#include <functional>
#ifdef _OPENMP
#include <omp.h>
#endif

typedef typename C::L L; typedef typename C::O O; typedef typename C::W W;
struct Job { TextCase t; bool wgt; unsigned team; };
static Results do_job(const Job& j) {
    if (j.t.tensor) return j.wgt ? run_tensor<C, true, W>(j.t.fn, true) : run_tensor<C, false, W>(j.t.fn, true);
    unsigned what = DO_BYTES | DO_GRAPHS | DO_OPTIONS | DO_TEXT;
    return j.wgt ? run_all<C, true, W>(j.t.fn, j.t.ft, what) : run_all<C, false, W>(j.t.fn, j.t.ft, what);
}
static Job gen_job(Src& s, Ctx& c, unsigned i) {
    Job j; j.wgt = s.upto(1); j.team = 1 + (unsigned)s.upto(3);
    j.t = gen_text(s, c, std::min<u64>(C::max_label() - 1, s.upto(2) ? 60 : 1500), std::min<u64>(C::max_m() / 2, 150), wspec<W>(), j.wgt);
    std::string base = j.t.fn.substr(j.t.fn.rfind('/') + 1); j.t.fn = put_file("job" + std::to_string(i) + "." + base.substr(base.rfind('.') + 1), j.t.text);
    return j;
}
static void teams(unsigned n) {
#ifdef _OPENMP
    omp_set_num_threads((int)n);
#else
    (void)n;
#endif
}
// Runs the functions at the same time, each several times, and reports the first failure
static void together(const std::vector<std::function<void()>>& fs) {
    std::atomic<unsigned> ready(0); std::vector<std::string> bad(fs.size()); std::vector<std::thread> ts;
    for (size_t i = 0; i < fs.size(); ++i) ts.emplace_back([&, i] {
        ++ready; while (ready < fs.size()) std::this_thread::yield();
        try { for (int k = 0; k < 3; ++k) fs[i](); } catch (pbt::Fail& f) { bad[i] = f.msg; } catch (std::exception& e) { bad[i] = std::string("exception ") + e.what(); }
    });
    for (auto& t : ts) t.join();
    for (auto& b : bad) REQUIRE(b.empty(), b);
}
static void own_objects(Src& s, Ctx& c) {
    unsigned n = 2 + (unsigned)s.upto(3); std::vector<Job> jobs; u64 m = 0;
    for (unsigned i = 0; i < n; ++i) { jobs.push_back(gen_job(s, c, i)); m += jobs[i].t.m; }
    bool nested = s.chance(1, 3);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << n << (nested ? " threads of one team" : " threads") << " read and convert:"; for (auto& j : jobs) o << "\n" << j.t.fn.substr(j.t.fn.rfind('/') + 1) << (j.wgt ? " weighted" : "") << " by " << j.team << ": " << quote(j.t.text, 300); });
    RtSched one; one.threads = 1; rt_set(one);
    std::vector<Results> want; for (auto& j : jobs) want.push_back(do_job(j));
    if (nested) {
#ifdef _OPENMP
        std::vector<std::string> bad(n); int deep = (int)s.upto(1) + 1, old = omp_get_max_active_levels(); omp_set_max_active_levels(deep);
        #pragma omp parallel for num_threads(n) schedule(static, 1)
        for (unsigned i = 0; i < n; ++i) {
            teams(jobs[i].team);
            try { for (int k = 0; k < 3; ++k) require_same(do_job(jobs[i]), want[i], "in a parallel region"); } catch (pbt::Fail& f) { bad[i] = f.msg; } catch (std::exception& e) { bad[i] = std::string("exception ") + e.what(); }
        }
        omp_set_max_active_levels(old);
        for (auto& b : bad) REQUIRE(b.empty(), b);
        c.label("inside a parallel region");
#endif
    } else {
        std::vector<std::function<void()>> fs;
        for (unsigned i = 0; i < n; ++i) fs.push_back([&, i] { teams(jobs[i].team); require_same(do_job(jobs[i]), want[i], "beside other threads"); });
        together(fs); c.label("threads");
    }
    c.nontrivial = m >= 2;
}
CPROP("C35/own objects", 2, own_objects);

template <bool wgt> static void shared_source(Src& s, Ctx& c) {
    typedef CooT<C, false, false, false, wgt> X; typedef CsrT<C, wgt> Y;
    EntSpec sp; sp.max_x = sp.max_y = std::min<u64>(C::max_label() - 1, 300); sp.max_m = std::min<u64>(C::max_m(), 250); auto es = mem_entries<W>(s, c, sp, wgt); if (es.empty()) es.push_back(Ent());
    Dims d = dims_of(es); unsigned n = 2 + (unsigned)s.upto(2); std::vector<unsigned> what(n), team(n);
    for (unsigned i = 0; i < n; ++i) { what[i] = (unsigned)s.upto(6); team[i] = 1 + (unsigned)s.upto(3); }
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << (wgt ? ", weighted" : "") << "; " << show(es, false) << "; at the same time"; for (unsigned i = 0; i < n; ++i) o << " " << what[i] << " by " << team[i]; });
    Own<X> x((L)d.n, (L)d.nr, (L)d.nc, (O)es.size()); fill_coo<X, wgt>(*x, es); RtSched one; one.threads = 1; rt_set(one); Own<Y> y(*x); y->sort();
    std::vector<std::function<std::string()>> f; auto dims = [](auto& q) { return show_dims(q); }; (void)dims;
    for (unsigned i = 0; i < n; ++i) { std::string out = pbt::path("shared" + std::to_string(i) + ".out");
        switch (what[i]) {
            case 0: f.push_back([&] { Own<Y> q(*x); Rows r = csr_rows<wgt>(*q, (size_t)q->n()); sort_rows(r); return canon(r, wgt) + show_dims(*q); }); break;
            case 1: f.push_back([&] { Own<X> q(*x); q->transpose(); return canon(entries<wgt>(*q), wgt) + show_dims(*q); }); break;
            case 2: f.push_back([&, out] { x->write(out); return get_file(out); }); break;
            case 3: f.push_back([&, out] { y->save(out); return get_file(out); }); break;
            case 4: f.push_back([&] { auto q = y->new_csr_without_dups(); struct G { decltype(q)& x; ~G() { x.free(); } } g{q}; return canon(csr_rows<wgt>(q, (size_t)q.n()), wgt) + show_dims(q); }); break;
            case 5: f.push_back([&] { Own<X> q(*y); return canon(entries<wgt>(*q), wgt) + show_dims(*q); }); break;
            default: f.push_back([&] { Own<DiT<C, wgt>> q(*x); q->in().sort(); q->out().sort(); return canon(csr_rows<wgt>(q->in(), (size_t)q->in().n()), wgt) + canon(csr_rows<wgt>(q->out(), (size_t)q->out().n()), wgt); }); break;
        }
    }
    std::vector<std::string> want; for (auto& g : f) want.push_back(g());
    std::vector<std::function<void()>> fs;
    for (unsigned i = 0; i < n; ++i) fs.push_back([&, i] { teams(team[i]); std::string got = f[i](); REQUIRE(got == want[i], "operation " << what[i] << " beside others gave " << quote(got, 300) << " instead of " << quote(want[i], 300)); });
    together(fs); c.nontrivial = es.size() >= 2;
}
CPROP("C35/shared source", 1, shared_source<false>);
CPROP("C35/shared source weighted", 1, shared_source<true>);
