// C19: tensor objects are values, their largest labels are right, and what
// they write is what is read back.
#include "lib.hpp"

struct TModel { u64 order = 0; std::vector<std::vector<u64>> c; std::vector<ld> w; };
template <class X, bool wgt> static void compare(X& x, const TModel& m, size_t slot, const std::string& after) {
    REQUIRE((u64)x.m() == m.c.size(), "after " << after << ", object " << slot << " has m " << +x.m() << ", expected " << m.c.size());
    if (m.c.empty()) return;
    REQUIRE((u64)x.order() == m.order, "after " << after << ", object " << slot << " has order " << +x.order() << ", expected " << m.order);
    auto c = vals(x.c(), m.order * m.c.size(), "c");
    for (size_t i = 0; i < m.c.size(); ++i) for (size_t k = 0; k < m.order; ++k)
        REQUIRE((u64)c[i * m.order + k] == m.c[i][k], "after " << after << ", object " << slot << ": coordinate " << k << " of entry " << i << " is " << +c[i * m.order + k] << ", expected " << m.c[i][k]);
    if constexpr (wgt) { auto w = vals(x.w(), m.c.size(), "w"); for (size_t i = 0; i < m.c.size(); ++i) REQUIRE((ld)w[i] == m.w[i], "after " << after << ", object " << slot << ": weight of entry " << i << " is " << (ld)w[i] << ", expected " << m.w[i]); }
}
template <class X, bool wgt> static void fill(X& x, const TModel& m) {
    auto c = raw(x.c()); size_t p = 0;
    for (auto& e : m.c) for (auto v : e) c[p++] = (typename C::L)v;
    if constexpr (wgt) { auto w = raw(x.w()); typedef typename std::remove_reference<decltype(*w)>::type W; for (size_t i = 0; i < m.w.size(); ++i) w[i] = (W)m.w[i]; }
}
template <class W> static TModel gen_model(Src& s, Ctx& c, bool wgt, u64 max_m, u64 bulk = 0) {
    TensorCase t = gen_tensor(s, c, C::max_sparse_label(), std::min<u64>(max_m, (u64)std::numeric_limits<C::O>::max()), WSpec(), bulk);
    TModel m; m.order = t.order; m.c = t.c;
    pbt::Bulk b(s, t.m() > pbt::BULK_FROM);
    if (wgt) for (size_t i = 0; i < t.m(); ++i) m.w.push_back(gen_wval(s, wspec<W>()));
    return m;
}

template <class X, bool wgt, class W>
static void history(Src& s, Ctx& c) {
    typedef typename C::O O; typedef typename C::L L;
    const size_t SLOTS = 3;
    std::unique_ptr<Own<X>> o[SLOTS]; TModel m[SLOTS];
    for (auto& p : o) p.reset(new Own<X>());
    unsigned steps = 1 + (unsigned)s.upto(9), useful = 0;
    for (unsigned k = 0; k < steps; ++k) {
        gen_sched(s, c, 16);
        size_t a = s.upto(SLOTS - 1), b = s.upto(SLOTS - 1); std::string what;
        auto say = [&](const std::string& t) { what = t; c.note([&](std::ostream& q) { q << t << "; "; }); };
        switch (k == 0 ? 0 : s.upto(7)) {
            case 0: case 1: {
                TModel nm = gen_model<W>(s, c, wgt, 200, C::max_bulk() / 8);
                say("making " + std::to_string(a) + " of order " + std::to_string(nm.order) + " with " + std::to_string(nm.c.size()) + " entries");
                o[a].reset(); o[a].reset(new Own<X>((O)nm.order, (O)nm.c.size())); m[a] = nm; fill<X, wgt>(**o[a], m[a]); break;
            }
            case 2: say("copying " + std::to_string(b) + " to a new " + std::to_string(a)); if (a != b) { std::unique_ptr<Own<X>> t(new Own<X>(**o[b])); o[a] = std::move(t); m[a] = m[b]; useful += !m[b].c.empty(); } break;
            case 3: case 4: { say("assigning " + std::to_string(b) + " to " + std::to_string(a)); X& r = (**o[a] = **o[b]); REQUIRE(&r == &**o[a], "assignment returned another object"); m[a] = m[b]; useful += !m[b].c.empty(); break; }
            case 5: {
                say("the largest labels of " + std::to_string(a));
                if (m[a].c.empty()) break;
                auto got = ((const X&)**o[a]).max_labels(); std::vector<u64> want(m[a].order);
                for (auto& e : m[a].c) for (size_t i = 0; i < e.size(); ++i) want[i] = std::max(want[i], e[i]);
                REQUIRE(got.size() == want.size(), "max_labels() has " << got.size() << " elements, expected " << want.size());
                for (size_t i = 0; i < want.size(); ++i) REQUIRE((u64)got[i] == want[i], "the largest label of dimension " << i << " is " << +got[i] << ", expected " << want[i]);
                ++useful; break;
            }
            case 6: {
                say("changing an entry of " + std::to_string(a));
                if (m[a].c.empty()) break;
                size_t i = s.upto(m[a].c.size() - 1), j = s.upto(m[a].order - 1); u64 v = s.biased(C::max_sparse_label());
                raw((**o[a]).c())[i * m[a].order + j] = (L)v; m[a].c[i][j] = v;
                if constexpr (wgt) { ld w = gen_wval(s, wspec<W>()); raw((**o[a]).w())[i] = (W)w; m[a].w[i] = w; }
                break;
            }
            default: say("freeing " + std::to_string(a)); (**o[a]).free(); m[a] = TModel();
        }
        for (size_t i = 0; i < SLOTS; ++i) compare<X, wgt>(**o[i], m[i], i, what);
    }
    c.label("history"); c.nontrivial = useful >= 1;
}
CPROP("C19/history", 3, (history<TenT<C, true>, true, C::W>));
CPROP("C19/history unweighted", 2, (history<TenT<C, false>, false, C::W>));

// Written as text and read back
template <bool wgt, class W>
static void text(Src& s, Ctx& c) {
    gen_sched(s, c);
    TModel m = gen_model<W>(s, c, wgt, std::min<u64>(C::max_m(), 700), C::max_bulk() / 2);
    if (m.c.empty()) { m.c.push_back(std::vector<u64>(m.order, 0)); m.w.push_back(0); }
    if (wgt && std::is_floating_point<W>::value) for (auto& w : m.w) if (fabsl(w) > 1e15L) w = 1;
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; order " << m.order << ", " << m.c.size() << " entries written and read back"; });
    Own<TenT<C, wgt, W>> a((C::O)m.order, (C::O)m.c.size());
    fill<TenT<C, wgt, W>, wgt>(*a, m);
    std::string fn = pbt::path("out.tns");
    { InLocale lc(s, c); a->write(fn); }
    compare<TenT<C, wgt, W>, wgt>(*a, m, 0, "writing");
    gen_sched(s, c);
    Own<TenT<C, wgt, W>> b(fn);
    compare<TenT<C, wgt, W>, wgt>(*b, m, 1, "reading back");
    c.label("text"); c.nontrivial = m.c.size() >= 2;
}
CPROP("C19/text integer", 2, (text<true, int32_t>));
CPROP("C19/text unsigned", 1, (text<true, uint64_t>));
CPROP("C19/text double", 2, (text<true, double>));
CPROP("C19/text unweighted", 2, (text<false, C::W>));
