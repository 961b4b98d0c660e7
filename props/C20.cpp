// C20: find_offsets gives the offsets of every occurrence of a character, in
// order.
#include "lib.hpp"

template <class L, class O, class W> static std::vector<u64> offsets_raw(pigo::FileReader& r, char ch) {
    typedef pigo::Tensor<L, O, L*, W, W*, false> T;
    T t = r.find_offsets<T>(ch);
    REQUIRE((u64)t.order() == 1, "the order is " << +t.order());
    std::vector<u64> v(raw(t.c()), raw(t.c()) + (size_t)t.m()); t.free(); return v;
}
template <class L, class O, class W> static std::vector<u64> offsets_vec(pigo::FileReader& r, char ch) {
    typedef pigo::Tensor<L, O, std::vector<L>, W, std::vector<W>, false> T;
    T t = r.find_offsets<T>(ch); REQUIRE((u64)t.order() == 1, "the order is " << +t.order());
    auto c = vals(t.c(), (size_t)t.m(), "c"); return std::vector<u64>(c.begin(), c.end());
}
template <class L, class O, class W> static std::vector<u64> offsets_sp(pigo::FileReader& r, char ch) {
    typedef pigo::Tensor<L, O, std::shared_ptr<L>, W, std::shared_ptr<W>, false> T;
    T t = r.find_offsets<T>(ch); REQUIRE((u64)t.order() == 1, "the order is " << +t.order());
    auto c = vals(t.c(), (size_t)t.m(), "c"); return std::vector<u64>(c.begin(), c.end());
}
template <std::vector<u64> (*F)(pigo::FileReader&, char), u64 most = 1u << 31>
static void find(Src& s, Ctx& c) {
    gen_sched(s, c);
    u64 n = s.size(pbt::thorough() ? 20000 : 3000, std::min<u64>(most, C::max_bulk() * 8));
    unsigned alpha = (unsigned)s.upto(3);
    std::string t;
    pbt::Bulk bulk(s, n > 20000); if (bulk.on) c.label("bytes:>20000");
    for (u64 i = 0; i < n; ++i) t += alpha == 0 ? (s.upto(1) ? 'b' : 'a') : alpha == 1 ? "a\nb "[s.upto(3)] : alpha == 2 ? (char)s.upto(255) : 'a';
    if (t.empty()) t = "x";
    char ch = alpha == 2 ? (char)s.upto(255) : "ab\n z"[s.upto(4)];
    bool file = s.upto(1);
    size_t skip = s.chance(1, 3) ? s.upto(t.size() - (file ? 1 : 0)) : 0;      // the reader need not start at the file's start
    c.note([&](std::ostream& o) { o << show(rt_get()) << "; character " << (int)(unsigned char)ch << " in " << (file ? "a file" : "memory") << " from " << skip << ": " << quote(t); });
    std::vector<u64> want; for (size_t i = skip; i < t.size(); ++i) if (t[i] == ch) want.push_back(i - skip);
    std::vector<u64> got; std::vector<char> exact(t.begin(), t.end());
    if (file) {
        pigo::ROFile f(put_file("in.txt", t)); if (skip) f.seek(skip);
        pigo::FileReader r = f.reader(); got = F(r, ch);
        REQUIRE(r.size() == t.size() - skip, "the reader moved");
    } else { pigo::FileReader r(exact.data() + skip, exact.data() + exact.size()); got = F(r, ch); REQUIRE(r.d == exact.data() + skip, "the reader moved"); }
    REQUIRE(got.size() == want.size(), "found " << got.size() << " occurrences, expected " << want.size());
    for (size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == want[i], "occurrence " << i << " is at " << got[i] << ", expected " << want[i]);
    c.label(want.empty() ? "none found" : want.size() == t.size() - skip ? "every byte" : "some found");
    c.nontrivial = want.size() >= 2 && rt_multi();
}
#if VP_PART == 0
PROP("C20/raw", 2, (find<offsets_raw<uint32_t, uint32_t, float>>));
PROP("C20/vector", 2, (find<offsets_vec<uint64_t, uint64_t, double>>));
PROP("C20/shared", 1, (find<offsets_sp<int32_t, uint64_t, float>>));
PROP("C20/u16", 1, (find<offsets_vec<uint16_t, uint32_t, float>, 60000>));
#endif
