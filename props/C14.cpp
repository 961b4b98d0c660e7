// C14: a value written as text is its decimal form, takes exactly the bytes
// write_size() announces, and reads back.
#include "lib.hpp"
#include <cmath>
#include <cstring>

template <class T> static void check_int(T v) {
    std::string want = std::to_string(v);
    std::vector<char> buf(want.size());     // exact: a byte beyond is an error of the address sanitizer
    size_t sz = pigo::write_size(v);
    REQUIRE(sz == want.size(), "write_size(" << want << ") is " << sz << ", expected " << want.size());
    pigo::FilePos fp = buf.data();
    pigo::write_ascii(fp, v);
    REQUIRE(fp == buf.data() + want.size(), want << " moved the position by " << (fp - buf.data()) << ", expected " << want.size());
    REQUIRE(std::string(buf.data(), buf.size()) == want, "wrote " << quote(std::string(buf.data(), buf.size())) << ", expected " << want);
    pigo::FileReader r(buf.data(), buf.data() + buf.size());
    typedef typename std::make_unsigned<T>::type U;
    U mag = v < 0 ? (U)(0 - (U)v) : (U)v;
    U got = r.read_int<U>();
    REQUIRE(got == mag && !r.good(), "read back " << +got << " from " << want);
}
template <class T> static void ints(Src& s, Ctx& c) {
    typedef typename std::make_unsigned<T>::type U;
    u64 max = (U)-1; u64 v;
    unsigned k = (unsigned)s.upto(4);
    if (k == 0) v = s.biased(max);
    else if (k == 1) { u64 p = 1; for (u64 i = s.upto(19); i && p <= max / 10; --i) p *= 10; v = p + s.upto(2) - 1; }      // around a power of ten
    else if (k == 2) v = max - s.upto(std::min<u64>(max, 1000));
    else if (k == 3) v = max / 2 + 1 + s.upto(10) - std::min<u64>(5, max / 2);
    else v = s.upto(max);
    T t = (T)(U)v;
    c.note([&](std::ostream& o) { o << sizeof(T) << " byte " << (std::is_signed<T>::value ? "signed " : "unsigned ") << std::to_string(t); });
    check_int<T>(t);
    c.label(std::to_string(sizeof(T)) + (std::is_signed<T>::value ? " byte signed" : " byte unsigned"));
    c.nontrivial = v > 9;
}
// The small types completely
template <class T> static void all(Src& s, Ctx& c) {
    int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    if (sizeof(T) == 2) { int a = lo + (int)s.upto(255) * 256; lo = a; hi = a + 255; }
    c.note([&](std::ostream& o) { o << "every value from " << lo << " to " << hi; });
    for (int v = lo; v <= hi; ++v) check_int<T>((T)v);
    c.nontrivial = true; c.label("a range completely");
}
template <class T> static void fp(Src& s, Ctx& c) {
    T v; unsigned k = (unsigned)s.upto(5);
    if (k == 0) v = (T)(i64)s.biased(1u << 24);
    else if (k == 1) v = (T)((double)s.biased(1u << 30) / (1u << s.upto(30)));
    else if (k == 2) v = (T)((double)s.biased(1000000000) / 1e6);
    else if (k == 3) { u64 p = 1; for (u64 i = s.upto(14); i; --i) p *= 10; v = (T)((double)p - (double)s.upto(3) / (1 << s.upto(12))); }       // around a power of ten
    else if (k == 4) { u64 b = s.upto(UINT64_MAX); if (sizeof(T) == 4) { uint32_t u = (uint32_t)b; memcpy(&v, &u, 4); } else memcpy(&v, &b, sizeof v); }
    else v = (T)(0.5 + s.upto(20)) / (T)1000000;      // at a rounding boundary
    if (s.upto(2) == 2) v = -v;
    c.note([&](std::ostream& o) { o.precision(20); o << sizeof(T) << " byte floating point " << v; });
    char* b = (char*)malloc(2048); struct Fr { char* p; ~Fr() { free(p); } } fr{b};
    memset(b, 'Z', 2048);
    InLocale lc(s, c);
    pigo::FilePos fp = b; pigo::write_ascii(fp, v);
    size_t len = fp - b, sz = pigo::write_size(v);
    lc.end();
    REQUIRE(sz == len, "write_size is " << sz << ", the position moved by " << len);
    REQUIRE(len > 0 && len < 2048 && b[len] == 'Z', "a byte after the value was written");
    std::string t(b, len);
    REQUIRE(t.find('Z') == std::string::npos && t.find('\0') == std::string::npos && t.find(' ') == std::string::npos && t.find('\n') == std::string::npos, "wrote " << quote(t));
    // exactly the announced bytes are touched
    std::vector<char> ex(len); fp = ex.data(); pigo::write_ascii(fp, v);
    if (std::isfinite(v)) {
        bool huge = std::fabs((double)v) >= 1e15;
        char* e; double g = strtod(t.c_str(), &e);
        REQUIRE(!*e && std::fabs(g - (double)v) <= 5.1e-7 + std::fabs((double)v) * (huge ? 1e-12 : 4e-16), "wrote " << quote(t));
        pigo::FileReader r(ex.data(), ex.data() + len); T back = r.read_fp<T>();
        if (std::fabs(v) < std::numeric_limits<T>::max() / 2) REQUIRE(std::fabs((double)back - (double)v) <= 1e-6 + std::fabs((double)v) * (huge ? sizeof(T) == 4 ? 1e-5 : 1e-12 : sizeof(T) == 4 ? 2e-6 : 1e-13), "read back " << (double)back << " from " << t);
    }
    c.label(std::string("floating point") + (std::isfinite(v) ? "" : ", not finite")); c.nontrivial = true;
}
// Several values one after another
static void seq(Src& s, Ctx& c) {
    u64 k = 1 + s.upto(10); std::string want; size_t size = 0;
    std::vector<std::pair<unsigned, u64>> vs;
    for (u64 i = 0; i < k; ++i) { unsigned t = (unsigned)s.upto(3); u64 v = s.biased(UINT64_MAX); vs.push_back({t, v}); }
    auto each = [&](auto f) { for (auto& p : vs) { if (p.first == 0) f((uint64_t)p.second); else if (p.first == 1) f((int32_t)p.second); else if (p.first == 2) f((int64_t)p.second); else f((uint8_t)p.second); } };
    each([&](auto v) { want += std::to_string(v) + " "; size += pigo::write_size(v) + 1; });
    c.note([&](std::ostream& o) { o << quote(want); });
    REQUIRE(size == want.size(), "sizes add up to " << size << ", expected " << want.size());
    std::vector<char> b(size); pigo::FilePos fp = b.data();
    each([&](auto v) { pigo::write_ascii(fp, v); pigo::write(fp, ' '); });
    REQUIRE(fp == b.data() + size && std::string(b.data(), size) == want, "wrote " << quote(std::string(b.data(), size)) << ", expected " << quote(want));
    c.nontrivial = k >= 2; c.label("sequence");
}
#if VP_PART == 0
PROP("C14/u8", 1, all<uint8_t>);
PROP("C14/i8", 1, all<int8_t>);
PROP("C14/u16", 2, all<uint16_t>);
PROP("C14/i16", 2, all<int16_t>);
PROP("C14/u32", 8, ints<uint32_t>);
PROP("C14/i32", 8, ints<int32_t>);
PROP("C14/u64", 8, ints<uint64_t>);
PROP("C14/i64", 8, ints<int64_t>);
PROP("C14/long long", 4, ints<long long>);
PROP("C14/float", 10, fp<float>);
PROP("C14/double", 10, fp<double>);
PROP("C14/sequence", 6, seq);
#endif
