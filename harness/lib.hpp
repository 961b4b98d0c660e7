// The library under test, in the type configurations the checks use, and
// conversions between its objects and plain vectors.
#pragma once
#include "gen.hpp"
#include "pigo.hpp"
#include <cstring>
#include <locale>
#include <memory>
#include <algorithm>
#include <type_traits>

#ifndef VP_PART
#define VP_PART 0
#endif

enum St { RAW, VEC, SPTR };
template <class T, St s> struct StT;
template <class T> struct StT<T, RAW> { typedef T* type; };
template <class T> struct StT<T, VEC> { typedef std::vector<T> type; };
template <class T> struct StT<T, SPTR> { typedef std::shared_ptr<T> type; };

// Types of labels, ordinals and weights, and how arrays of each are stored
template <class L_, class O_, St st_, class W_, St so_ = st_, St sw_ = st_> struct Cfg {
    typedef L_ L; typedef O_ O; typedef W_ W; static const St st = st_;
    template <class T> using S = typename StT<T, st_>::type;        // labels
    template <class T> using SO = typename StT<T, so_>::type;       // offsets
    template <class T> using SW = typename StT<T, sw_>::type;       // weights
    // Largest label: largest + 1 must fit, and dense arrays must stay small
    static u64 max_label() { return std::min<u64>((u64)std::numeric_limits<L>::max() - 1, 70000); }
    // Largest label where nothing is allocated per label
    static u64 max_sparse_label() { return (u64)std::numeric_limits<L>::max() - 1; }
    // Largest count of the rare large cases
    static u64 max_bulk() { return std::min<u64>((u64)std::numeric_limits<O>::max() / 4, !strcmp(pbt::flavour(), "race") ? 0 : pbt::thorough() ? 800000 : 200000); }
    static u64 max_m() { return std::min<u64>((u64)std::numeric_limits<O>::max(), pbt::thorough() ? 6000 : 2500); }
};
template <int K> struct Conf;
template <> struct Conf<0> { typedef Cfg<uint32_t, uint32_t, RAW, float> T; };
template <> struct Conf<1> { typedef Cfg<uint8_t, uint32_t, VEC, int32_t> T; };
template <> struct Conf<2> { typedef Cfg<uint16_t, uint64_t, SPTR, double> T; };
template <> struct Conf<3> { typedef Cfg<uint64_t, uint64_t, VEC, uint64_t> T; };
template <> struct Conf<4> { typedef Cfg<int32_t, int32_t, RAW, int8_t> T; };
template <> struct Conf<5> { typedef Cfg<int64_t, uint64_t, SPTR, int64_t> T; };
template <> struct Conf<6> { typedef Cfg<uint32_t, uint64_t, RAW, uint16_t> T; };
template <> struct Conf<7> { typedef Cfg<uint8_t, uint8_t, RAW, double> T; };
#ifdef VP_L             // a generated configuration
template <> struct Conf<VP_PART> { typedef Cfg<VP_L, VP_O, VP_SL, VP_W, VP_SO, VP_SW> T; };
static const char* const GEN_NAME = PBT_STR(VP_L) "," PBT_STR(VP_O) "," PBT_STR(VP_SL) "/" PBT_STR(VP_SO) "/" PBT_STR(VP_SW) "," PBT_STR(VP_W);
#else
static const char* const GEN_NAME = nullptr;
#endif
typedef Conf<VP_PART>::T C;
struct ConfName { const char* operator[](int k) const {
    static const char* const N[] = {"u32,u32,raw,float", "u8,u32,vector,i32", "u16,u64,shared,double", "u64,u64,vector,u64",
    "i32,i32,raw,i8", "i64,u64,shared,i64", "u32,u64,raw,u16", "u8,u8,raw,double"};
    return k < 8 ? N[k] : GEN_NAME; } };
static const ConfName CONF_NAME;
#define CONF_STR "/" PBT_STR(VP_PART)
#define CPROP(name, weight, fn) PROP(name CONF_STR, weight, fn)

template <class C, bool sym = false, bool ut = false, bool sl = false, bool wgt = false, class W = typename C::W>
using CooT = pigo::COO<typename C::L, typename C::O, typename C::template S<typename C::L>, sym, ut, sl, wgt, W, typename C::template SW<W>>;
// A COO whose options (which concern reading of text only) change with the part
template <class C, bool wgt = false, class W = typename C::W>
using CooV = CooT<C, (0xb2 >> (VP_PART % 8)) & 1, (0x68 >> (VP_PART % 8)) & 1, (0xd0 >> (VP_PART % 8)) & 1, wgt, W>;
template <class C, bool wgt = false, class W = typename C::W>
using CsrT = pigo::CSR<typename C::L, typename C::O, typename C::template S<typename C::L>, typename C::template SO<typename C::O>, wgt, W, typename C::template SW<W>>;
template <class C, bool wgt = false, class W = typename C::W>
using GraphT = pigo::BaseGraph<typename C::L, typename C::O, typename C::template S<typename C::L>, typename C::template SO<typename C::O>, wgt, W, typename C::template SW<W>>;
template <class C, bool wgt = false, class W = typename C::W>
using DiT = pigo::DiGraph<typename C::L, typename C::O, typename C::template S<typename C::L>, typename C::template SO<typename C::O>, wgt, W, typename C::template SW<W>>;
template <class C, bool wgt = false, class W = typename C::W>
using MatT = pigo::Matrix<typename C::L, typename C::O, typename C::template S<typename C::L>, typename C::template SO<typename C::O>, wgt, W, typename C::template SW<W>>;
template <class C, bool wgt = true, class W = typename C::W>
using TenT = pigo::Tensor<typename C::L, typename C::O, typename C::template S<typename C::L>, W, typename C::template SW<W>, wgt>;

// ---- storage access, independent of the library's own accessors
template <class T> T* raw(T*& p) { return p; }
template <class T> T* raw(std::vector<T>& v) { return v.data(); }
template <class T> T* raw(std::shared_ptr<T>& p) { return p.get(); }
template <class T> void check_size(T*&, size_t, const char*) {}
template <class T> void check_size(std::shared_ptr<T>&, size_t, const char*) {}
template <class T> void check_size(std::vector<T>& v, size_t m, const char* what) { REQUIRE(v.size() >= m, what << " holds " << v.size() << " elements, expected " << m); }
template <class S> auto vals(S& s, size_t m, const char* what) {
    check_size(s, m, what);
    auto p = raw(s);
    typedef typename std::remove_reference<decltype(*p)>::type T;
    return std::vector<T>(p, p + m);
}

// The program may have selected a locale, here one with a decimal comma (if
// there is one). Only around calls of the library: the oracles use the C locale.
struct InLocale {
    bool on = false;
    InLocale(Src& s, Ctx& c) {
        if (!s.chance(1, 6)) return;
        static const std::locale* comma = [] { try { return new std::locale("de_DE.UTF-8"); } catch (std::runtime_error&) { return (std::locale*)nullptr; } }();
        if (!comma) { c.label("no locale"); return; }
        c.note([&](std::ostream& o) { o << "; in a locale with a decimal comma"; }); c.label("decimal comma");
        std::locale::global(*comma); on = true;
    }
    void end() { if (on) std::locale::global(std::locale::classic()); on = false; }
    ~InLocale() { end(); }
};

// Frees a library object at the end of the scope
template <class X> struct Own {
    X x;
    template <class... A> explicit Own(A&&... a) : x(std::forward<A>(a)...) {}
    ~Own() { x.free(); }
    X* operator->() { return &x; }
    X& operator*() { return x; }
    Own(const Own&) = delete;
};

// ---- COO as entries
struct Got { u64 x, y; ld w; };
inline bool operator<(const Got& a, const Got& b) { return a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.w < b.w; }
inline bool operator==(const Got& a, const Got& b) { return a.x == b.x && a.y == b.y && a.w == b.w; }
template <bool wgt, class X> std::vector<Got> entries(X& coo) {
    size_t m = (size_t)coo.m();
    auto x = vals(coo.x(), m, "x"), y = vals(coo.y(), m, "y");
    std::vector<Got> r(m);
    for (size_t i = 0; i < m; ++i) r[i] = {(u64)x[i], (u64)y[i], 0};
    if constexpr (wgt) { auto w = vals(coo.w(), m, "w"); for (size_t i = 0; i < m; ++i) r[i].w = (ld)w[i]; }
    return r;
}
inline std::string show(const std::vector<Got>& es, bool weighted, size_t max = 40) {
    std::ostringstream o; o << es.size() << " entries:";
    for (size_t i = 0; i < es.size() && i < max; ++i) { o << " (" << es[i].x << "," << es[i].y; if (weighted) o << "," << es[i].w; o << ")"; }
    if (es.size() > max) o << " ...";
    return o.str();
}
// A COO holding the given entries, built in memory
template <class X, bool wgt> void fill_coo(X& coo, const std::vector<Ent>& es) {
    auto x = raw(coo.x()); auto y = raw(coo.y());
    typedef typename std::remove_reference<decltype(*x)>::type L;
    for (size_t i = 0; i < es.size(); ++i) { x[i] = (L)es[i].x; y[i] = (L)es[i].y; }
    if constexpr (wgt) { auto w = raw(coo.w()); typedef typename std::remove_reference<decltype(*w)>::type W; for (size_t i = 0; i < es.size(); ++i) w[i] = (W)es[i].w.v; }
}
// Entries for objects built in memory: weights of W's exact values
template <class W> std::vector<Ent> mem_entries(Src& s, Ctx& c, EntSpec sp, bool weighted) {
    sp.w = WSpec();
    std::vector<Ent> es = gen_entries(s, c, sp);
    if (weighted) { WSpec ws = wspec<W>(); bool few = s.upto(2) == 0; pbt::Bulk bulk(s, es.size() > pbt::BULK_FROM); for (auto& e : es) { e.w.v = few ? (ld)s.upto(3) : gen_wval(s, ws); } }
    return es;
}
// Rarely, endpoints beyond the rows, up to the largest label (only the rows of
// a CSR take memory), many of which equal others in their low bits
inline bool widen(Src& s, Ctx& c, std::vector<Ent>& es, u64 max) {
    if (es.empty() || es.size() > pbt::BULK_FROM || !s.chance(1, 6)) return false;
    u64 last = 0;
    for (auto& e : es) {
        u64 add = s.pick<u64>({1ull << 32, 1u << 16, 1u << 8, 1ull << 31}), from = 0;
        switch (s.upto(4)) {
            case 0: add = 0; from = e.y; break;
            case 1: from = e.x; break;
            case 2: from = last; break;
            case 3: from = e.y; break;
            default: add = 0; from = s.biased(max); break;
        }
        if (from <= max && add <= max - from) e.y = from + add;
        last = e.y;
    }
    c.label("endpoints beyond the rows"); return true;
}
struct Dims { u64 n = 0, nr = 0, nc = 0; };
inline Dims dims_of(const std::vector<Ent>& es) {
    Dims d; for (auto& e : es) { d.nr = std::max(d.nr, e.x + 1); d.nc = std::max(d.nc, e.y + 1); }
    d.n = std::max(d.nr, d.nc); return d;
}

// ---- CSR as rows
struct Nb { u64 y; ld w; };
inline bool operator<(const Nb& a, const Nb& b) { return a.y != b.y ? a.y < b.y : a.w < b.w; }
inline bool operator==(const Nb& a, const Nb& b) { return a.y == b.y && a.w == b.w; }
typedef std::vector<std::vector<Nb>> Rows;
// Rows first .. last-1 of a CSR, after checking that its offsets are sound
template <bool wgt, class X> Rows csr_rows(X& csr, size_t nrows, size_t first = 0) {
    size_t m = (size_t)csr.m();
    auto off = vals(csr.offsets(), nrows + 1, "offsets"); auto ep = vals(csr.endpoints(), m, "endpoints");
    Rows r(nrows);
    REQUIRE((u64)off[first] == 0, "offset of row " << first << " is " << (u64)off[first] << ", expected 0");
    REQUIRE((u64)off[nrows] == m, "last offset is " << (u64)off[nrows] << ", expected m = " << m);
    for (size_t v = first; v < nrows; ++v) {
        u64 a = (u64)off[v], b = (u64)off[v + 1];
        REQUIRE(a <= b && b <= m, "offsets of row " << v << " are " << a << " and " << b << " with m = " << m);
        for (u64 i = a; i < b; ++i) r[v].push_back({(u64)ep[i], 0});
    }
    if constexpr (wgt) { auto w = vals(csr.weights(), m, "weights"); size_t i = 0; for (auto& row : r) for (auto& e : row) e.w = (ld)w[i++]; }
    return r;
}
inline Rows rows_of(const std::vector<Ent>& es, size_t n, bool weighted, bool transpose = false) {
    Rows r(n);
    for (auto& e : es) { u64 x = transpose ? e.y : e.x, y = transpose ? e.x : e.y; r.at(x).push_back({y, weighted ? e.w.v : 0}); }
    return r;
}
inline void sort_rows(Rows& r) { for (auto& x : r) std::sort(x.begin(), x.end()); }
inline std::string show_row(const std::vector<Nb>& r, bool w) { std::ostringstream o; o << "["; for (auto& e : r) { o << " " << e.y; if (w) o << ":" << e.w; } o << " ]"; return o.str(); }
// Rows equal as multisets (or in order)
inline void require_rows(Rows got, Rows want, bool weighted, bool ordered, const char* what) {
    REQUIRE(got.size() == want.size(), what << ": " << got.size() << " rows, expected " << want.size());
    if (!ordered) { sort_rows(got); sort_rows(want); }
    for (size_t v = 0; v < got.size(); ++v)
        REQUIRE(got[v] == want[v], what << ": row " << v << " is " << show_row(got[v], weighted) << ", expected " << show_row(want[v], weighted));
}
// A CSR built in memory from rows
template <class X, bool wgt> void fill_csr(X& csr, const Rows& rows) {
    auto off = raw(csr.offsets()); auto ep = raw(csr.endpoints());
    typedef typename std::remove_reference<decltype(*off)>::type O; typedef typename std::remove_reference<decltype(*ep)>::type L;
    size_t k = 0;
    for (size_t v = 0; v < rows.size(); ++v) { off[v] = (O)k; for (auto& e : rows[v]) ep[k++] = (L)e.y; }
    off[rows.size()] = (O)k;
    if constexpr (wgt) { auto w = raw(csr.weights()); typedef typename std::remove_reference<decltype(*w)>::type W; k = 0; for (auto& r : rows) for (auto& e : r) w[k++] = (W)e.w; }
}
template <class X> std::string show_dims(X& x) { std::ostringstream o; o << "n=" << +x.n() << " nrows=" << +x.nrows() << " ncols=" << +x.ncols() << " m=" << +x.m(); return o.str(); }

// Expect pigo::Error (and nothing else) from f
template <class F> bool throws_error(F f, std::string* what = nullptr) {
    try { f(); } catch (pigo::Error& e) { if (what) *what = e.what(); return true; }
    return false;
}
