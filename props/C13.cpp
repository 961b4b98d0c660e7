// C13: COO and Tensor text output is one line per entry, in order, and reads
// back as the same entries.
#include "lib.hpp"
#include <cerrno>
#include <cmath>
#include <unistd.h>

// A token of a line as a weight of type W
template <class W> static void check_weight(const std::string& t, W want, size_t line) {
    if (std::is_floating_point<W>::value) {
        char* e; double v = strtod(t.c_str(), &e);
        REQUIRE(!t.empty() && !*e, "weight on line " << line << " is " << quote(t));
        REQUIRE(std::fabs(v - (double)want) <= 5.1e-7 + std::fabs((double)want) * (std::fabs((double)want) < 1e15 ? 1e-15 : 1e-12), "weight on line " << line << " is " << t << ", expected " << +want);
    } else {
        REQUIRE(t == std::to_string(want), "weight on line " << line << " is " << quote(t) << ", expected " << +want);
    }
}
static std::vector<std::vector<std::string>> lines_of(const std::string& s) {
    std::vector<std::vector<std::string>> r; size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find('\n', i); REQUIRE(e != std::string::npos, "the file does not end with a newline: " << quote(s.substr(i), 100));
        std::vector<std::string> t; std::string cur; bool any = false;
        for (; i < e; ++i) { any = true; if (s[i] == ' ') { t.push_back(cur); cur.clear(); } else cur += s[i]; }
        if (any) t.push_back(cur);
        r.push_back(t); i = e + 1;
    }
    return r;
}
// In memory weights, exact in six decimals
template <class W> static W gen_w(Src& s, bool huge) {
    if (huge && std::is_floating_point<W>::value && s.upto(3)) { double v = (double)(1 + s.upto(99999)) / 16 * std::pow(10., (double)s.upto(sizeof(W) == 4 ? 33 : 300)); return (W)(s.upto(3) == 3 ? -v : v); }
    if (std::is_floating_point<W>::value) { double v = (double)s.biased(sizeof(W) == 4 ? 1000000 : 1000000000); if (s.upto(1)) v /= 64; if (s.upto(3) == 3) v += s.upto(999999) / 1e6; W r = (W)v; return s.upto(3) == 3 ? -r : r; }
    WSpec ws = wspec<W>(); return (W)gen_wval(s, ws);
}

template <bool wgt, class W>
static void coo(Src& s, Ctx& c) {
    typedef typename C::L L; typedef typename C::O O;
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = C::max_sparse_label(); sp.max_m = C::max_m(); sp.max_bulk = C::max_bulk();
    auto es = gen_entries(s, c, sp);
    if (es.empty()) es.push_back(Ent());
    std::vector<W> ws; bool huge = wgt && s.chance(1, 8); if (huge && std::is_floating_point<W>::value) c.label("weights of many digits"); if (wgt) for (size_t i = 0; i < es.size(); ++i) ws.push_back(gen_w<W>(s, huge));
    Dims d = dims_of(es);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << show(es, false); if (wgt) { o << "; weights"; for (size_t i = 0; i < ws.size() && i < 40; ++i) o << " " << +ws[i]; } });
    Own<CooV<C, wgt, W>> a((L)d.n, (L)d.nr, (L)d.nc, (O)es.size());
    fill_coo<CooV<C, wgt, W>, false>(*a, es);
    if constexpr (wgt) for (size_t i = 0; i < ws.size(); ++i) raw(a->w())[i] = ws[i];
    std::string fn = pbt::path("out.el");
    if (s.upto(2) == 2) put_file("out.el", std::string(s.upto(5000), 'x'));
    { InLocale lc(s, c); a->write(fn); }
    std::string text = get_file(fn); auto ls = lines_of(text);
    REQUIRE(ls.size() == es.size(), ls.size() << " lines for " << es.size() << " entries; file " << quote(text, 300));
    for (size_t i = 0; i < es.size(); ++i) {
        REQUIRE(ls[i].size() == (wgt ? 3u : 2u) && ls[i][0] == std::to_string(es[i].x) && ls[i][1] == std::to_string(es[i].y), "line " << i << " has " << ls[i].size() << " columns: " << (ls[i].size() > 0 ? ls[i][0] : "") << " " << (ls[i].size() > 1 ? ls[i][1] : "") << ", expected " << es[i].x << " " << es[i].y << "; file " << quote(text, 300));
        if (wgt) check_weight<W>(ls[i][2], ws[i], i);
    }
    auto after = entries<wgt>(*a);
    for (size_t i = 0; i < es.size(); ++i) REQUIRE(after[i].x == es[i].x && after[i].y == es[i].y, "writing changed entry " << i);
    gen_sched(s, c);
    Own<CooT<C, false, false, false, wgt, W>> b(fn);
    auto got = entries<wgt>(*b);
    REQUIRE(got.size() == es.size(), "read back " << got.size() << " entries of " << es.size());
    for (size_t i = 0; i < es.size(); ++i) {
        REQUIRE(got[i].x == es[i].x && got[i].y == es[i].y, "entry " << i << " read back is (" << got[i].x << "," << got[i].y << ")");
        if constexpr (wgt) {
            if (std::is_floating_point<W>::value) REQUIRE(std::fabs((double)got[i].w - (double)ws[i]) <= 1e-6 + std::fabs((double)ws[i]) * (huge ? sizeof(W) == 4 ? 1e-5 : 1e-12 : sizeof(W) == 4 ? 2e-6 : 1e-13), "weight " << i << " read back is " << got[i].w << ", expected " << +ws[i]);
            else if (!(std::is_signed<W>::value && ws[i] == std::numeric_limits<W>::min())) REQUIRE(got[i].w == (ld)ws[i], "weight " << i << " read back is " << got[i].w << ", expected " << +ws[i]);
        }
    }
    REQUIRE((u64)b->n() == d.n && (u64)b->nrows() == d.nr && (u64)b->ncols() == d.nc, "sizes read back are " << show_dims(*b));
    c.label("COO"); c.nontrivial = es.size() >= 2 && rt_multi();
}
CPROP("C13/coo", 3, (coo<false, C::W>));
CPROP("C13/coo weighted", 3, (coo<true, C::W>));
CPROP("C13/coo double", 2, (coo<true, double>));
CPROP("C13/coo i8", 1, (coo<true, int8_t>));
CPROP("C13/coo i64", 1, (coo<true, int64_t>));

template <bool wgt, class W>
static void tensor(Src& s, Ctx& c) {
    typedef typename C::L L; typedef typename C::O O;
    gen_sched(s, c);
    u64 m = 1 + s.size(std::min<u64>(C::max_m(), 500) - 1), order = 1 + s.upto(5), lim = s.upto(1) ? std::min<u64>(30, C::max_sparse_label()) : C::max_sparse_label();
    std::vector<L> cs(m * order); for (auto& v : cs) v = (L)s.biased(lim);
    std::vector<W> ws; bool huge = wgt && s.chance(1, 8); if (huge && std::is_floating_point<W>::value) c.label("weights of many digits"); if (wgt) for (size_t i = 0; i < m; ++i) ws.push_back(gen_w<W>(s, huge));
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; tensor of order " << order << ", " << m << " entries:"; for (size_t i = 0; i < cs.size() && i < 60; ++i) o << " " << +cs[i]; });
    Own<TenT<C, wgt, W>> a((O)order, (O)m);
    for (size_t i = 0; i < cs.size(); ++i) raw(a->c())[i] = cs[i];
    if constexpr (wgt) for (size_t i = 0; i < m; ++i) raw(a->w())[i] = ws[i];
    std::string fn = pbt::path("out.tns");
    if (s.upto(2) == 2) put_file("out.tns", std::string(s.upto(5000), 'x'));
    { InLocale lc(s, c); a->write(fn); }
    std::string text = get_file(fn);
    // no padding
    size_t end = text.size(); REQUIRE(text.find('\0') == std::string::npos, "the file has a NUL at " << text.find('\0') << " of " << text.size());
    auto ls = lines_of(text.substr(0, end));
    REQUIRE(ls.size() == m, ls.size() << " lines for " << m << " entries; file " << quote(text, 300));
    for (size_t i = 0; i < m; ++i) {
        REQUIRE(ls[i].size() == order + wgt, "line " << i << " has " << ls[i].size() << " columns; file " << quote(text, 300));
        for (size_t k = 0; k < order; ++k) REQUIRE(ls[i][k] == std::to_string(cs[i * order + k]), "line " << i << ", column " << k << " is " << quote(ls[i][k]) << ", expected " << +cs[i * order + k]);
        if (wgt) check_weight<W>(ls[i][order], ws[i], i);
    }
    gen_sched(s, c);
    Own<TenT<C, wgt, W>> b(fn);
    REQUIRE((u64)b->order() == order && (u64)b->m() == m, "read back order " << +b->order() << ", m " << +b->m());
    REQUIRE(vals(b->c(), m * order, "c") == cs, "coordinates read back differ");
    if constexpr (wgt) {
        auto w = vals(b->w(), m, "w");
        for (size_t i = 0; i < m; ++i) {
            if (std::is_floating_point<W>::value) REQUIRE(std::fabs((double)w[i] - (double)ws[i]) <= 1e-6 + std::fabs((double)ws[i]) * (huge ? sizeof(W) == 4 ? 1e-5 : 1e-12 : sizeof(W) == 4 ? 2e-6 : 1e-13), "weight " << i << " read back is " << +w[i] << ", expected " << +ws[i]);
            else if (!(std::is_signed<W>::value && ws[i] == std::numeric_limits<W>::min())) REQUIRE(w[i] == ws[i], "weight " << i << " read back is " << +w[i] << ", expected " << +ws[i]);
        }
    }
    c.label("Tensor"); c.nontrivial = m >= 2 && rt_multi();
}
CPROP("C13/tensor", 2, (tensor<true, C::W>));
CPROP("C13/tensor unweighted", 2, (tensor<false, C::W>));

// Nothing to write
static void empty(Src& s, Ctx& c) {
    gen_sched(s, c, 8);
    Own<CooT<C>> a((C::L)s.upto(5), (C::L)s.upto(5), (C::L)s.upto(5), (C::O)0);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; a COO without entries"; });
    std::string fn = pbt::path("empty.el"); unlink(fn.c_str());
    try { a->write(fn); REQUIRE(!file_exists(fn) || get_file(fn).empty(), "wrote " << quote(get_file(fn))); c.label("empty: written"); }
    catch (pigo::Error&) { c.label("empty: refused"); }
    unlink(fn.c_str());
    c.nontrivial = true;
}
CPROP("C13/empty", 1, empty);
