// C12: a damaged, cut off or mismatched binary file is refused with an Error.
#include "lib.hpp"

typedef typename C::L L; typedef typename C::O O; typedef typename C::W W;
// Types of other sizes
typedef std::conditional<sizeof(L) == 4, uint64_t, uint32_t>::type L2;
typedef std::conditional<sizeof(O) == 4, uint64_t, uint32_t>::type O2;
typedef Cfg<L2, O, C::st, W> CL2; typedef Cfg<L, O2, C::st, W> CO2; typedef Cfg<L2, O2, RAW, W> CLO2;

enum Kind { COO, CSR, DI, TEN };
struct Bin {
    Kind k; bool wgt; std::string s;
    std::vector<std::pair<size_t, size_t>> counts;  // fields that give sizes of what follows
    size_t sizes = 0, nsizes = 0;                   // where the type sizes are
};
static void put_csr(Src& s, Bytes& b, bool wgt, u64 m, u64 n, std::vector<std::pair<size_t, size_t>>& counts) {
    b.str("PIGO-CSR-v2").val<uint8_t>(sizeof(L)).val<uint8_t>(sizeof(O));
    counts.push_back({b.s.size(), sizeof(L)}); b.val<L>((L)n);
    counts.push_back({b.s.size(), sizeof(O)}); b.val<O>((O)m);
    b.val<L>((L)n).val<L>((L)n);
    for (u64 i = 0; i <= n; ++i) b.val<O>((O)(n ? i * m / n : m));
    for (u64 i = 0; i < m; ++i) b.val<L>((L)(n ? s.upto(n - 1) : 0));
    if (wgt) for (u64 i = 0; i < m; ++i) b.val<W>((W)i);
}
static Bin gen_bin(Src& s, Ctx& c) {
    Bin r; r.k = (Kind)s.upto(3); r.wgt = s.upto(1);
    u64 m = s.size(std::min<u64>(C::max_m(), 200)), n = 1 + s.upto(39);
    Bytes b;
    if (r.k == COO) {
        b.str("PIGO-COO-v1"); r.sizes = b.s.size(); r.nsizes = 2;
        b.val<uint8_t>(sizeof(L)).val<uint8_t>(sizeof(O)).val<L>((L)n).val<L>((L)n).val<L>((L)n);
        r.counts.push_back({b.s.size(), sizeof(O)}); b.val<O>((O)m);
        for (u64 i = 0; i < 2 * m; ++i) b.val<L>((L)s.upto(n - 1));
        if (r.wgt) for (u64 i = 0; i < m; ++i) b.val<W>((W)i);
    } else if (r.k == CSR) { r.sizes = 11; r.nsizes = 2; put_csr(s, b, r.wgt, m, n, r.counts); }
    else if (r.k == DI) { b.str("PIGO-DiGraph-v1"); r.sizes = b.s.size() + 11; r.nsizes = 2; put_csr(s, b, r.wgt, m, n, r.counts); put_csr(s, b, r.wgt, m, n, r.counts); }
    else {
        b.str("PIGO-Tensor-2"); r.sizes = b.s.size(); r.nsizes = r.wgt ? 3 : 2;
        b.val<uint8_t>(sizeof(L)).val<uint8_t>(sizeof(O)); if (r.wgt) b.val<uint8_t>(sizeof(W));
        u64 order = 1 + s.upto(4);
        r.counts.push_back({b.s.size(), sizeof(O)}); b.val<O>((O)order);
        r.counts.push_back({b.s.size(), sizeof(O)}); b.val<O>((O)m);
        for (u64 i = 0; i < order * m; ++i) b.val<L>((L)s.upto(n - 1));
        if (r.wgt) for (u64 i = 0; i < m; ++i) b.val<W>((W)i);
    }
    r.s = b.s;
    static const char* K[] = {"COO", "CSR", "DiGraph", "Tensor"};
    c.label(std::string(K[r.k]) + (r.wgt ? " weighted" : ""));
    return r;
}
static const pigo::FileType FT[] = {pigo::PIGO_COO_BIN, pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN};
// Touch everything a loaded object says it holds
template <class T> static void touch(const std::vector<T>& v) { volatile T x = 0; for (auto e : v) x = e; (void)x; }
template <class CX, bool wgt> static void load_(Kind k, const std::string& fn, pigo::FileType ft) {
    if (k == COO) { Own<CooV<CX, wgt>> a(fn, ft); u64 m = (u64)a->m(); touch(vals(a->x(), m, "x")); touch(vals(a->y(), m, "y")); if constexpr (wgt) touch(vals(a->w(), m, "w")); }
    else if (k == CSR) { Own<CsrT<CX, wgt>> a(fn, ft); u64 m = (u64)a->m(); touch(vals(a->offsets(), (u64)a->n() + 1, "offsets")); touch(vals(a->endpoints(), m, "endpoints")); if constexpr (wgt) touch(vals(a->weights(), m, "w")); }
    else if (k == DI) { Own<DiT<CX, wgt>> a(fn, ft); for (int i = 0; i < 2; ++i) { auto& g = i ? a->out() : a->in(); u64 m = (u64)g.m(); touch(vals(g.offsets(), (u64)g.n() + 1, "offsets")); touch(vals(g.endpoints(), m, "endpoints")); if constexpr (wgt) touch(vals(g.weights(), m, "w")); } }
    else { Own<TenT<CX, wgt>> a(fn, ft); u64 m = (u64)a->m(); touch(vals(a->c(), m * (u64)a->order(), "c")); if constexpr (wgt) touch(vals(a->w(), m, "w")); }
}
template <class CX> static void load(Kind k, bool wgt, const std::string& fn, pigo::FileType ft) { if (wgt) load_<CX, true>(k, fn, ft); else load_<CX, false>(k, fn, ft); }
template <class CX> static void must_fail(const Bin& b, const std::string& data, pigo::FileType ft, const std::string& what) {
    std::string fn = put_file("i.bin", data);
    REQUIRE(throws_error([&] { load<CX>(b.k, b.wgt, fn, ft); }), what << " was loaded without an error");
}
static void describe(Ctx& c, const Bin& b, const std::string& what) { c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; kind " << (int)b.k << (b.wgt ? " weighted" : "") << ", " << b.s.size() << " bytes; " << what << "; file " << quote(b.s, 300); }); }

static void cut(Src& s, Ctx& c) {
    gen_sched(s, c, 8); Bin b = gen_bin(s, c);
    size_t keep = s.upto(1) ? s.upto(b.s.size() - 1) : b.s.size() - 1 - s.upto(std::min<size_t>(b.s.size() - 1, 12));
    bool at = keep >= 16 && s.upto(1);
    describe(c, b, "cut to " + std::to_string(keep));
    must_fail<C>(b, b.s.substr(0, keep), at ? pigo::AUTO : FT[b.k], "a file of " + std::to_string(b.s.size()) + " bytes cut to " + std::to_string(keep));
    c.label("cut"); c.nontrivial = keep >= b.sizes;
}
CPROP("C12/cut", 4, cut);

static void count(Src& s, Ctx& c) {
    gen_sched(s, c, 8); Bin b = gen_bin(s, c);
    auto f = b.counts[s.upto(b.counts.size() - 1)];
    std::string d = b.s; u64 v = 0; memcpy(&v, &d[f.first], f.second);
    u64 max = f.second == 8 ? UINT64_MAX : (1ull << (8 * f.second)) - 1;
    bool is_order = b.k == TEN && f.first == b.counts[0].first;
    u64 m = 0; memcpy(&m, &d[b.counts.back().first], b.counts.back().second);
    if (is_order && m == 0) { f = b.counts[1]; v = 0; is_order = false; }      // an order alone needs no bytes
    u64 nv = s.chance(1, 3) ? max - s.upto(std::min<u64>(3, max - v - 1)) : s.chance(1, 2) ? v + 1 + s.upto(std::min<u64>(20, max - v - 1)) : v + 1 + s.biased(max - v - 1);
    memcpy(&d[f.first], &nv, f.second);
    describe(c, b, "count at byte " + std::to_string(f.first) + " from " + std::to_string(v) + " to " + std::to_string(nv));
    if (std::is_signed<L>::value || std::is_signed<O>::value) {
        // a negative count is also too large
        std::string fn = put_file("i.bin", d);
        REQUIRE(throws_error([&] { load<C>(b.k, b.wgt, fn, FT[b.k]); }), "a count of " << nv << " instead of " << v << " was loaded without an error");
    } else must_fail<C>(b, d, FT[b.k], "a count of " + std::to_string(nv) + " instead of " + std::to_string(v));
    c.label("count"); c.nontrivial = true;
}
CPROP("C12/count", 3, count);

static void types(Src& s, Ctx& c) {
    gen_sched(s, c, 8); Bin b = gen_bin(s, c);
    unsigned k = (unsigned)s.upto(3);
    describe(c, b, "type sizes, way " + std::to_string(k));
    if (k == 0) {       // other sizes in the file
        std::string d = b.s; size_t p = b.sizes + s.upto(b.nsizes - 1); uint8_t old = (uint8_t)d[p], nv;
        nv = s.upto(1) ? s.pick<uint8_t>({1, 2, 4, 8}) : (uint8_t)s.upto(255); if (nv == old) nv = old == 8 ? 4 : old * 2;
        d[p] = (char)nv;
        must_fail<C>(b, d, s.upto(1) ? FT[b.k] : pigo::AUTO, "a file for types of another size");
    } else if (k == 1) must_fail<CL2>(b, b.s, s.upto(1) ? FT[b.k] : pigo::AUTO, "a file for another label size");
    else if (k == 2) must_fail<CO2>(b, b.s, s.upto(1) ? FT[b.k] : pigo::AUTO, "a file for another ordinal size");
    else must_fail<CLO2>(b, b.s, s.upto(1) ? FT[b.k] : pigo::AUTO, "a file for other label and ordinal sizes");
    c.label("type sizes"); c.nontrivial = true;
}
CPROP("C12/types", 2, types);

static void magic(Src& s, Ctx& c) {
    gen_sched(s, c, 8); Bin b = gen_bin(s, c);
    std::string d = b.s; static const size_t LEN[] = {11, 11, 15, 13};
    unsigned k = (unsigned)s.upto(2);
    pigo::FileType ft = FT[b.k];
    if (k == 0) { size_t p = s.upto(LEN[b.k] - 1); d[p] = (char)(d[p] ^ (1u << s.upto(6))); if (p >= 4 && s.upto(1)) ft = pigo::AUTO; }       // another version
    else if (k == 1) { unsigned o = (unsigned)s.upto(2); if (o >= b.k) ++o; static const char* M[] = {"PIGO-COO-v1", "PIGO-CSR-v2", "PIGO-DiGraph-v1", "PIGO-Tensor-2"}; d = M[o] + d.substr(LEN[b.k]); }
    else { d = s.pick<const char*>({"1 2 3\n", "%%MatrixMarket matrix coordinate real general\n2 2 1\n1 1 1\n", "P", "PIGO-", "\n"}) ; }
    describe(c, b, "header " + quote(d.substr(0, 20)));
    must_fail<C>(b, d, ft, "a file with header " + quote(d.substr(0, 20)));
    c.label("header"); c.nontrivial = true;
}
CPROP("C12/header", 2, magic);

// Any bytes of the file changed: an error, or an object that holds what it says
static void flips(Src& s, Ctx& c) {
    gen_sched(s, c, 8); Bin b = gen_bin(s, c);
    std::string d = b.s; u64 k = 1 + s.upto(5); std::string what;
    for (u64 i = 0; i < k; ++i) { size_t p = s.upto(1) ? s.upto(std::min<size_t>(d.size() - 1, 50)) : s.upto(d.size() - 1); d[p] = (char)s.upto(255); what += std::to_string(p) + " "; }
    if (s.upto(2) == 0) d.resize(s.upto(d.size()));
    describe(c, b, "bytes changed: " + what + "file of " + std::to_string(d.size()));
    if (d.empty()) return;
    std::string fn = put_file("i.bin", d);
    bool t = throws_error([&] { load<C>(b.k, b.wgt, fn, FT[b.k]); });
    c.label(t ? "changed bytes: refused" : "changed bytes: loaded"); c.nontrivial = true;
}
CPROP("C12/flips", 3, flips);
