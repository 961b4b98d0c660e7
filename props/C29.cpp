// C29: the text scanner: every movement and every read stops exactly where
// its documentation says and never passes the end.
#include "lib.hpp"
#include <cmath>
#include <cstdlib>

#if VP_PART == 0
// The scanner over a string, written from the documentation
struct Model {
    const std::string& t; size_t p, e;
    Model(const std::string& t_, size_t p_, size_t e_) : t(t_), p(p_), e(e_) {}
    static bool digit(char c) { return std::string("0123456789").find(c) != std::string::npos; }
    static bool fp(char c) { return std::string("0123456789eE+-.").find(c) != std::string::npos; }
    static bool comment(char c) { return c == '%' || c == '#'; }
    bool is(bool (*f)(char)) const { return p < e && f(t[p]); }
    size_t line_end(size_t q) const { size_t n = t.find('\n', q); return n == std::string::npos || n > e ? e : n; }
    void skip_comments() { while (is(comment)) { p = line_end(p); if (p < e) ++p; } }
    void non_int() { while (is(digit)) ++p; }
    void non_fp() { while (is(fp)) ++p; }
    void to_fp() { while (p < e && !fp(t[p])) ++p; }
    // the next of a set of characters outside of comments
    void first_int() { seek("0123456789"); }
    void next_int() { non_int(); first_int(); }
    void next_signed() { if (p < e && (t[p] == '+' || t[p] == '-')) ++p; non_int(); seek("0123456789+-"); }
    void seek(const char* set) { std::string st(set); for (;;) { if (is(comment)) { skip_comments(); continue; } if (p >= e || st.find(t[p]) != std::string::npos) return; ++p; } }
    void int_or_nl() {
        if (p < e && t[p] == '\n') { ++p; skip_comments(); } else non_int();
        while (p < e && !digit(t[p]) && t[p] != '\n') { if (comment(t[p])) p = line_end(p); else ++p; }
    }
    size_t gaps() {
        size_t stop = line_end(p), n = 0, c = t.find_first_of("%#", p); if (c == std::string::npos || c > stop) c = stop;
        for (size_t i = p; i < c;) { if (digit(t[i])) { ++n; while (i < c && fp(t[i])) ++i; } else ++i; }
        p = stop; return n ? n - 1 : 0;
    }
};
static std::string gen_bytes(Src& s) {
    static const char* P[] = {"0", "1", "42", "007", " ", "  ", "\n", "\n\n", "\r\n", "\t", "%", "#", "% c 12\n", "# 5", "-", "+", "-3", "+4", "1.5", "2e3", "-1.25E-2", ".", "e", "E", "x", "1 2 3", "1\t2\n", "0 0\n", "\n%a\n#b\n7", "9"};
    std::string t; u64 n = s.size(60); bool any = s.chance(1, 5);
    for (u64 i = 0; i < n; ++i) { if (any && s.upto(1)) t += (char)s.upto(255); else t += P[s.upto(sizeof P / sizeof *P - 1)]; }
    if (t.empty()) t = "1";
    return t;
}
static const char* const OP[] = {"skip_comments", "move_to_non_int", "move_to_non_fp", "move_to_fp", "move_to_first_int", "move_to_next_int", "move_to_next_signed_int", "count_spaces_to_eol", "move_to_next_int_or_nl", "move_to_eol", "move_to", "+=", "+", "smaller_end", "read_int", "at_str", "queries", "at_end_of_line", "read_fp"};
static void scan(Src& s, Ctx& c) {
    std::string t = gen_bytes(s); std::vector<char> mem(t.begin(), t.end());      // the sanitizer guards both ends
    size_t p = s.chance(1, 2) ? 0 : s.upto(t.size());
    c.note([&](std::ostream& o) { o << "text " << quote(t) << " from " << p << ":"; });
    pigo::FileReader r(mem.data() + p, mem.data() + t.size()); Model m(t, p, t.size());
    u64 n = 1 + s.size(20), moved = 0; std::string hist;
    for (u64 i = 0; i < n; ++i) {
        unsigned op = (unsigned)s.upto(18); size_t at = m.p;
        hist += std::string(hist.empty() ? "" : ", ") + OP[op]; c.note([&](std::ostream& o) { o << " " << OP[op] << "@" << at; });
        switch (op) {
            case 0: r.skip_comments(); m.skip_comments(); break;
            case 1: r.move_to_non_int(); m.non_int(); break;
            case 2: r.move_to_non_fp(); m.non_fp(); break;
            case 3: r.move_to_fp(); m.to_fp(); break;
            case 4: r.move_to_first_int(); m.first_int(); break;
            case 5: r.move_to_next_int(); m.next_int(); break;
            case 6: r.move_to_next_signed_int(); m.next_signed(); break;
            case 7: { size_t g = r.count_spaces_to_eol(), w = m.gaps(); REQUIRE(g == w, "counted " << g << " gaps from " << at << ", expected " << w); break; }
            case 8: r.move_to_next_int_or_nl(); m.int_or_nl(); break;
            case 9: r.move_to_eol(); m.p = m.line_end(m.p); break;
            case 10: { char ch = s.pick<char>({'\n', ' ', '1', '%', 'q'}); if (m.p < m.e && t[m.p] == ch) ++m.p; size_t q = t.find(ch, m.p); m.p = q == std::string::npos || q > m.e ? m.e : q; r.move_to(ch); break; }
            case 11: { size_t k = s.upto(1) ? s.upto(5) : s.upto(t.size() + 5); r += k; m.p = std::min(m.e, m.p + k); break; }
            case 12: { size_t k = s.upto(1) ? s.upto(5) : s.upto(t.size() + 5); pigo::FileReader q = r + k; REQUIRE(q.size() == m.e - std::min(m.e, m.p + k), "a reader " << k << " on has " << q.size() << " bytes left"); if (s.upto(1)) { r = q; m.p = std::min(m.e, m.p + k); } break; }
            case 13: { size_t k = s.upto(t.size()); if (k < m.p) break; pigo::FileReader lim(mem.data() + k, mem.data() + t.size()); r.smaller_end(lim); m.e = std::min(m.e, k); break; }
            case 14: {
                while (m.p < m.e && !Model::digit(t[m.p])) ++m.p;
                size_t b = m.p; m.non_int(); std::string d = t.substr(b, m.p - b); size_t z = d.find_first_not_of('0'); std::string sig = z == std::string::npos ? "" : d.substr(z);
                u64 v = 0; bool fits = sig.size() <= 19; if (fits) for (char x : sig) v = v * 10 + (x - '0');
                unsigned ty = (unsigned)s.upto(4); 
                if (ty == 0) { auto g = r.read_int<uint64_t>(); if (fits) REQUIRE(g == v, "read " << g << " from " << quote(d)); }
                else if (ty == 1) { auto g = r.read_int<int64_t>(); if (fits && v <= (u64)INT64_MAX) REQUIRE((u64)g == v, "read " << g << " from " << quote(d)); }
                else if (ty == 2) { auto g = r.read_int<uint8_t>(); if (fits && v <= 255) REQUIRE(g == v, "read " << +g << " from " << quote(d)); }
                else if (ty == 3) { auto g = r.read_int<int32_t>(); if (fits && v <= INT32_MAX) REQUIRE((u64)g == v, "read " << g << " from " << quote(d)); }
                else { auto g = r.read_int<uint16_t>(); if (fits && v <= 65535) REQUIRE(g == v, "read " << g << " from " << quote(d)); }
                break;
            }
            case 15: {
                size_t left = m.e - m.p, k = s.upto(std::min<size_t>(left, 6)); std::string w = t.substr(m.p, k); bool same = true;
                if (s.upto(1)) { if (k && s.upto(1)) { w[s.upto(k - 1)] ^= 1 << s.upto(6); same = false; } else { w = t.substr(m.p, left) + "z"; same = false; } } else if (s.chance(1, 3)) w = t.substr(m.p, left);
                REQUIRE(r.at_str(w) == same, "at_str(" << quote(w) << ") at " << m.p << " is " << !same); break;
            }
            case 16: {
                bool end = m.p >= m.e; char ch = end ? 0 : t[m.p];
                REQUIRE(r.good() == !end, "good() is " << r.good() << " at " << m.p);
                REQUIRE(r.peek() == ch, "peek() is " << (int)r.peek() << " at " << m.p);
                bool nl = end || ch == '\n' || ch == '%' || ch == '#'; REQUIRE(r.at_nl_or_eol() == nl, "at_nl_or_eol() is " << !nl << " at " << m.p);
                bool zero = !end && ch == '0' && !(m.p + 1 < m.e && Model::digit(t[m.p + 1])); REQUIRE(r.at_zero() == zero, "at_zero() is " << !zero << " at " << m.p);
                REQUIRE(r.read_sign<int>() == (ch == '-' ? -1 : 1), "the sign at " << m.p << " is " << r.read_sign<int>());
                break;
            }
            case 17: { bool w = true; for (size_t q = m.p; q < m.e && t[q] != '\n'; ++q) w &= t[q] == ' ' || t[q] == '\r'; REQUIRE(r.at_end_of_line() == w, "at_end_of_line() is " << !w << " at " << m.p); break; }
            default: {
                // a well-formed number: its value; anything else only stays in bounds
                size_t q = m.p; while (q < m.e && !Model::fp(t[q])) ++q;
                size_t b = q; auto dig = [&] { size_t k = q; while (q < m.e && Model::digit(t[q])) ++q; return q - k; };
                if (q < m.e && (t[q] == '-' || t[q] == '+')) ++q;
                size_t a = dig(), f = 0, x = 0; bool ok = a > 0 && a < 15, dot = q < m.e && t[q] == '.'; if (dot) { ++q; f = dig(); ok &= f < 300; }
                bool ex = ok && q < m.e && (t[q] == 'e' || t[q] == 'E');
                if (ex) { ++q; if (q < m.e && (t[q] == '-' || t[q] == '+')) ++q; x = dig(); ok &= x > 0 && x < 2 && !(q < m.e && (t[q] == '.' || t[q] == 'e' || t[q] == 'E')); }
                unsigned es = 0; for (size_t k = m.p; k < m.e; ++k) es += t[k] == 'e' || t[k] == 'E';
                if (es > 100) break;
                double g; if (s.upto(1)) g = r.read_fp<double>(); else g = r.read_fp<float>();
                if (ok) {
                    double w = strtod(t.substr(b, q - b).c_str(), nullptr);
                    REQUIRE(std::fabs(g - w) <= std::fabs(w) * 1e-5, "read " << g << " from " << quote(t.substr(b, q - b)));
                    m.p = q;
                } else { size_t now = r.d - mem.data(); REQUIRE(now >= m.p && now <= m.e, "reading a number moved from " << m.p << " to " << now << " of " << m.e); m.p = now; }
            }
        }
        size_t now = (size_t)(r.d - mem.data());
        REQUIRE(now == m.p, OP[op] << " from " << at << " stopped at " << now << ", expected " << m.p << " (after " << hist << ")");
        REQUIRE(r.size() == m.e - m.p, OP[op] << " left " << r.size() << " bytes, expected " << m.e - m.p);
        if (m.p != at) ++moved;
        c.label(OP[op]);
    }
    REQUIRE(std::equal(t.begin(), t.end(), mem.begin()), "the text was changed");
    c.nontrivial = moved >= 2;
}
PROP("C29/scan", 5, scan);

// All numbers of a text, as the readers use the scanner
static void numbers(Src& s, Ctx& c) {
    std::string t = gen_bytes(s); std::vector<char> mem(t.begin(), t.end());
    c.note([&](std::ostream& o) { o << "numbers of " << quote(t); });
    // remove comments: from % or # (seen while between numbers) to the newline
    std::vector<u64> want, got; std::vector<bool> exact;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == '%' || t[i] == '#') { while (i < t.size() && t[i] != '\n') ++i; if (i < t.size()) ++i; }
        else if (Model::digit(t[i])) { u64 v = 0; size_t b = i; for (; i < t.size() && Model::digit(t[i]); ++i) v = v * 10 + (t[i] - '0'); want.push_back(v); exact.push_back(i - b < 19); }
        else ++i;
    }
    pigo::FileReader r(mem.data(), mem.data() + mem.size()); r.move_to_first_int();
    while (r.good()) { pigo::FileReader q = r; got.push_back(q.read_int<uint64_t>()); if (s.upto(1)) r = q; r.move_to_next_int(); REQUIRE(got.size() <= want.size(), "more numbers than the text has"); }
    REQUIRE(got.size() == want.size(), "found " << got.size() << " numbers, expected " << want.size());
    for (size_t i = 0; i < got.size(); ++i) if (exact[i]) REQUIRE(got[i] == want[i], "number " << i << " is " << got[i] << ", expected " << want[i]);
    c.label("all numbers"); c.nontrivial = want.size() >= 2;
}
PROP("C29/numbers", 2, numbers);
#endif
