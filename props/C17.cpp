// C17: COO objects are values: copies are deep and independent, transposing
// swaps rows and columns, over any sequence of operations on several objects.
#include "lib.hpp"

struct Model { u64 n = 0, nr = 0, nc = 0; std::vector<Got> es; bool freed = false; };

template <class X, bool wgt>
static void compare(X& x, const Model& m, size_t slot, const char* after) {
    auto name = [&] { std::ostringstream o; o << "after " << after << ", object " << slot; return o.str(); };
    REQUIRE((u64)x.m() == m.es.size(), name() << " has m " << +x.m() << ", expected " << m.es.size());
    if (!m.freed) REQUIRE((u64)x.n() == m.n && (u64)x.nrows() == m.nr && (u64)x.ncols() == m.nc, name() << " has sizes " << show_dims(x) << ", expected n=" << m.n << " nrows=" << m.nr << " ncols=" << m.nc);
    if (m.es.empty()) return;
    auto got = entries<wgt>(x);
    for (size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == m.es[i], name() << ": entry " << i << " is (" << got[i].x << "," << got[i].y << "," << got[i].w << "), expected (" << m.es[i].x << "," << m.es[i].y << "," << m.es[i].w << ")");
}

template <class X, bool wgt, class W>
static void history(Src& s, Ctx& c) {
    typedef typename C::L L; typedef typename C::O O;
    const size_t SLOTS = 4;
    std::unique_ptr<Own<X>> o[SLOTS]; Model m[SLOTS];
    for (auto& p : o) p.reset(new Own<X>());
    unsigned steps = 1 + (unsigned)s.upto(14), useful = 0;
    std::ostringstream hist;
    u64 lim = C::max_sparse_label();
    for (unsigned k = 0; k < steps; ++k) {
        gen_sched(s, c, 16);
        size_t a = s.upto(SLOTS - 1), b = s.upto(SLOTS - 1);
        char what[80]; unsigned op = k == 0 ? 0 : (unsigned)s.upto(9);
        if (op <= 1) {
            EntSpec sp; sp.max_x = sp.max_y = lim; sp.max_m = std::min<u64>(C::max_m(), 300); sp.max_bulk = C::max_bulk() / 4;
            auto es = mem_entries<W>(s, c, sp, wgt); Dims d = dims_of(es);
            snprintf(what, sizeof what, "making %zu with %zu entries", a, es.size());
            hist << what << "; "; c.note([&](std::ostream& q) { q << what << "; "; });
            o[a].reset(); o[a].reset(new Own<X>((L)d.n, (L)d.nr, (L)d.nc, (O)es.size()));
            fill_coo<X, wgt>(**o[a], es);
            m[a] = Model{d.n, d.nr, d.nc, {}, false};
            for (auto& e : es) m[a].es.push_back({e.x, e.y, wgt ? e.w.v : 0});
        } else if (op == 2) {
            snprintf(what, sizeof what, "copying %zu to a new %zu", b, a); hist << what << "; "; c.note([&](std::ostream& q) { q << what << "; "; });
            if (a != b) { std::unique_ptr<Own<X>> t(new Own<X>(**o[b])); o[a] = std::move(t); m[a] = m[b]; useful += !m[b].es.empty(); }
        } else if (op == 3 || op == 4) {
            snprintf(what, sizeof what, "assigning %zu to %zu", b, a); hist << what << "; "; c.note([&](std::ostream& q) { q << what << "; "; });
            X& r = (**o[a] = **o[b]);
            REQUIRE(&r == &**o[a], "assignment returned another object");
            m[a] = m[b]; useful += !m[b].es.empty();
        } else if (op == 5 || op == 6) {
            snprintf(what, sizeof what, "transposing %zu", a); hist << what << "; "; c.note([&](std::ostream& q) { q << what << "; "; });
            X& r = (**o[a]).transpose();
            REQUIRE(&r == &**o[a], "transpose returned another object");
            std::swap(m[a].nr, m[a].nc); for (auto& e : m[a].es) std::swap(e.x, e.y);
            useful += !m[a].es.empty();
        } else if (op == 7) {
            u64 v = s.biased(lim); unsigned f = (unsigned)s.upto(2);
            snprintf(what, sizeof what, "setting %s of %zu", f == 0 ? "n" : f == 1 ? "nrows" : "ncols", a); hist << what << "; "; c.note([&](std::ostream& q) { q << what << "; "; });
            if (f == 0) { (**o[a]).set_n((L)v); m[a].n = v; } else if (f == 1) { (**o[a]).set_nrows((L)v); m[a].nr = v; } else { (**o[a]).set_ncols((L)v); m[a].nc = v; }
        } else if (op == 8) {
            snprintf(what, sizeof what, "changing an entry of %zu", a); hist << what << "; "; c.note([&](std::ostream& q) { q << what << "; "; });
            if (!m[a].es.empty()) {
                size_t i = s.upto(m[a].es.size() - 1); u64 x = s.biased(lim), y = s.biased(lim); ld w = wgt ? gen_wval(s, wspec<W>()) : 0;
                raw((**o[a]).x())[i] = (L)x; raw((**o[a]).y())[i] = (L)y; if constexpr (wgt) raw((**o[a]).w())[i] = (W)w;
                m[a].es[i] = {x, y, w}; ++useful;
            }
        } else {
            snprintf(what, sizeof what, "freeing %zu", a); hist << what << "; "; c.note([&](std::ostream& q) { q << what << "; "; });
            (**o[a]).free(); bool had = !m[a].es.empty(); m[a].es.clear(); m[a].freed |= had;
        }
        for (size_t i = 0; i < SLOTS; ++i) compare<X, wgt>(**o[i], m[i], i, what);
    }
    c.nontrivial = useful >= 1;
}
CPROP("C17/history", 2, (history<CooT<C>, false, C::W>));
CPROP("C17/history weighted", 3, (history<CooT<C, false, false, false, true>, true, C::W>));
CPROP("C17/history symmetric", 1, (history<CooV<C, true>, true, C::W>));
