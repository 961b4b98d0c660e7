// The library's operations applied to one text file, with every result in a
// form that depends only on the file: used to compare configurations.
#pragma once
#include "lib.hpp"

struct Results {
    std::vector<std::pair<std::string, std::string>> r;
    void add(const char* what, const std::string& v) { r.push_back({what, v}); }
};
inline void require_same(const Results& got, const Results& want, const std::string& how) {
    REQUIRE(got.r.size() == want.r.size(), "harness: different results");
    for (size_t i = 0; i < got.r.size(); ++i) {
        if (got.r[i].second == want.r[i].second) continue;
        const std::string &a = got.r[i].second, &b = want.r[i].second; size_t p = 0;
        while (p < a.size() && p < b.size() && a[p] == b[p]) ++p;
        size_t f = p > 40 ? p - 40 : 0;
        REQUIRE(false, how << ": " << got.r[i].first << " differs at byte " << p << ": ..." << quote(a.substr(f, 120)) << " instead of ..." << quote(b.substr(f, 120)));
    }
}
inline std::string canon(const std::vector<Got>& es, bool w) {
    std::string o; char b[80];
    for (auto& e : es) { if (w) snprintf(b, sizeof b, "%llu %llu %.9Lg\n", (unsigned long long)e.x, (unsigned long long)e.y, e.w); else snprintf(b, sizeof b, "%llu %llu\n", (unsigned long long)e.x, (unsigned long long)e.y); o += b; }
    return o;
}
inline std::string canon(const Rows& rows, bool w) {
    std::string o; char b[60];
    for (auto& r : rows) { for (auto& e : r) { if (w) snprintf(b, sizeof b, "%llu:%.9Lg ", (unsigned long long)e.y, e.w); else snprintf(b, sizeof b, "%llu ", (unsigned long long)e.y); o += b; } o += '\n'; }
    return o;
}
// What a call gives, or the kind of error it ends with
template <class F> void attempt(Results& r, const char* what, F f) {
    std::string v;
    try { v = f(); }
    catch (pigo::NotYetImplemented&) { v = "not yet implemented"; }
    catch (pigo::Error&) { v = "error"; }
    r.add(what, v);
}
struct FreeIt { template <class X> struct T { X& x; ~T() { x.free(); } }; };

enum { DO_BYTES = 1, DO_GRAPHS = 2, DO_OPTIONS = 4, DO_TEXT = 8 };
template <class CX, bool wgt, class W> Results run_all(const std::string& fn, pigo::FileType ft, unsigned what) {
    Results r;
    std::string out = fn + ".out";
    attempt(r, "COO", [&] {
        Own<CooT<CX, false, false, false, wgt, W>> coo(fn, ft);
        std::string v = canon(entries<wgt>(*coo), wgt) + show_dims(*coo);
        if ((what & DO_TEXT) && coo->m() > 0) { coo->write(out); v += "\ntext " + get_file(out); }
        if (what & DO_BYTES) { coo->save(out); v += "\nbytes " + get_file(out); Own<CooT<CX, false, false, false, wgt, W>> back(out); v += canon(entries<wgt>(*back), wgt) + show_dims(*back); }
        return v;
    });
    if (what & DO_OPTIONS) {
        attempt(r, "symmetric COO", [&] { Own<CooT<CX, true, false, false, wgt, W>> coo(fn, ft); return canon(entries<wgt>(*coo), wgt) + show_dims(*coo); });
        attempt(r, "upper triangle", [&] { Own<CooT<CX, false, true, true, wgt, W>> coo(fn, ft); return canon(entries<wgt>(*coo), wgt) + show_dims(*coo); });
        attempt(r, "symmetric upper triangle", [&] { Own<CooT<CX, true, true, false, wgt, W>> coo(fn, ft); return canon(entries<wgt>(*coo), wgt) + show_dims(*coo); });
    }
    if (what & DO_GRAPHS) {
        attempt(r, "CSR", [&] {
            Own<CsrT<CX, wgt, W>> csr(fn, ft); size_t n = (size_t)csr->n();
            Rows rows = csr_rows<wgt>(*csr, n); sort_rows(rows);
            std::string v = canon(rows, wgt) + show_dims(*csr);
            csr->sort(); v += "\nsorted " + canon(csr_rows<wgt>(*csr, n), wgt);
            if (what & DO_BYTES) { csr->save(out); v += "\nbytes " + get_file(out); }
            auto d = csr->new_csr_without_dups(); struct G { decltype(d)& x; ~G() { x.free(); } } g{d};
            v += "\nno duplicates " + canon(csr_rows<wgt>(d, n), wgt) + show_dims(d);
            Own<CooT<CX, false, false, false, wgt, W>> coo(*csr);
            v += "\nback " + canon(entries<wgt>(*coo), wgt) + show_dims(*coo);
            return v;
        });
        attempt(r, "DiGraph", [&] {
            Own<DiT<CX, wgt, W>> g(fn); g->in().sort(); g->out().sort();
            std::string v = canon(csr_rows<wgt>(g->in(), (size_t)g->in().n()), wgt) + show_dims(g->in()) + "\nout " + canon(csr_rows<wgt>(g->out(), (size_t)g->out().n()), wgt) + show_dims(g->out());
            if (what & DO_BYTES) { g->save(out); v += "\nbytes " + get_file(out); }
            return v;
        });
        attempt(r, "Matrix", [&] {
            Own<MatT<CX, wgt, W>> g(fn); g->csr().sort(); g->csc().sort();
            return canon(csr_rows<wgt>(g->csr(), (size_t)g->csr().n()), wgt) + show_dims(g->csr()) + "\ncsc " + canon(csr_rows<wgt>(g->csc(), (size_t)g->csc().n()), wgt) + show_dims(g->csc());
        });
    }
    return r;
}
template <class CX, bool wgt, class W> Results run_tensor(const std::string& fn, bool bytes, bool text = true) {
    Results r;
    std::string out = fn + ".out";
    attempt(r, "Tensor", [&] {
        Own<TenT<CX, wgt, W>> t(fn); std::string v; char b[60]; size_t k = (size_t)t->order(), m = (size_t)t->m();
        auto c = vals(t->c(), k * m, "c"); decltype(vals(t->w(), m, "w")) wv; if constexpr (wgt) wv = vals(t->w(), m, "w");
        for (size_t i = 0; i < m; ++i) { for (size_t j = 0; j < k; ++j) v += std::to_string((u64)c[i * k + j]) + " "; if constexpr (wgt) { snprintf(b, sizeof b, "%.9Lg", (ld)wv[i]); v += b; } v += '\n'; }
        v += "order " + std::to_string(k) + " largest";
        for (auto l : t->max_labels()) v += " " + std::to_string((u64)l);
        if (bytes) { t->save(out); v += "\nbytes " + get_file(out); }
        if (m && text) { t->write(out); std::string x = get_file(out); while (!x.empty() && !x.back()) x.pop_back(); v += "\ntext " + x; }
        return v;
    });
    return r;
}
// 0 and -0 are equal but not the same text
inline void no_neg_zero(std::vector<Ent>& es) { for (auto& e : es) if (e.w.v == 0 && !e.w.t.empty()) e.w.t = "0"; }
// A text file of any kind, with the name that tells its type
struct TextCase { std::string fn, text; pigo::FileType ft = pigo::AUTO; bool tensor = false; u64 m = 0; };
inline TextCase gen_text(Src& s, Ctx& c, u64 max_label, u64 max_m, const WSpec& w, bool wgt, bool tensors = true, u64 bulk = 0) {
    TextCase t; unsigned k = (unsigned)s.upto(tensors ? 9 : 8);
    if (k <= 3 || (wgt && k >= 7 && k <= 8)) {
        EntSpec sp; sp.max_x = sp.max_y = max_label; sp.max_m = max_m; sp.max_bulk = bulk; sp.w = w; auto es = gen_entries(s, c, sp); t.m = es.size(); no_neg_zero(es);
        t.text = el_text(s, c, es, wgt, Dress()); t.fn = put_file("in.el", t.text); c.label("file:edge list");
    } else if (k <= 6) {
        EntSpec sp; sp.max_x = sp.max_y = max_label - 2; sp.max_m = max_m; sp.max_bulk = bulk; sp.w = w; auto es = gen_entries(s, c, sp); t.m = es.size(); no_neg_zero(es);
        Dims d = dims_of(es); u64 nnz = es.size(); if (s.chance(1, 10)) nnz += s.upto(3);
        t.text = mm_text(s, c, es, std::max<u64>(1, d.nr) + s.upto(2), std::max<u64>(1, d.nc) + s.upto(2), nnz, wgt, Dress()); t.fn = put_file("in.mtx", t.text); c.label("file:matrix market");
    } else if (k <= 8) {
        GraphCase g = gen_graph(s, c, std::min<u64>(max_label - 1, 300), max_m / 2, max_label, true, bulk ? std::min<u64>(max_label - 1, bulk) : 0, bulk / 2);
        t.m = g.total(); t.text = g.text; t.fn = put_file("in.graph", t.text); c.label("file:graph");
    } else {
        TensorCase x = gen_tensor(s, c, max_label, max_m, w, bulk); t.m = x.m(); t.tensor = true;
        t.text = tensor_text(s, c, x, wgt); t.fn = put_file("in.tns", t.text); c.label("file:tensor");
    }
    return t;
}
// Text made from pieces of every format, then damaged
inline std::string damaged(Src& s, Ctx& c, unsigned digits) {
    std::string t;
    unsigned k = (unsigned)s.upto(7);
    u64 lim = digits >= 4 ? 2000 : 90; WSpec w = wspec<C::W>();
    if (k <= 1) { EntSpec sp; sp.max_x = sp.max_y = lim; sp.max_m = 60; sp.w = w; auto es = gen_entries(s, c, sp); t = el_text(s, c, es, s.upto(1), Dress()); }
    else if (k <= 3) { EntSpec sp; sp.max_x = sp.max_y = lim; sp.max_m = 60; sp.w = w; auto es = gen_entries(s, c, sp); Dims d = dims_of(es); t = mm_text(s, c, es, std::max<u64>(1, d.nr), std::max<u64>(1, d.nc), es.size(), s.upto(1), Dress()); }
    else if (k <= 5) t = gen_graph(s, c, std::min<u64>(lim, 200), 60, lim, false).text;
    else if (k == 6) { TensorCase x = gen_tensor(s, c, lim, 40, w); t = tensor_text(s, c, x, true); }
    static const char* P[] = {"%", "#", "\n", "\r\n", " ", "\t", "-", "+", ".", "e", "E", "0", "1", "9", "10", "-1", "1e", "e-", "%%MatrixMarket matrix coordinate real general\n", "PIGO", "PIGO-COO-v1", "3 3 1\n", "\n\n", "\0", "x", "\xff", "% 1 2\n", "#", "1 2", "\n1 2 3\n"};
    auto piece = [&]() { unsigned i = (unsigned)s.upto(sizeof P / sizeof *P - 1); return i == 23 ? std::string(1, '\0') : std::string(P[i]); };
    if (k == 7) { u64 n = s.size(200); for (u64 i = 0; i < n; ++i) t += piece(); }
    u64 edits = s.upto(5);
    for (u64 i = 0; i < edits; ++i) {
        size_t at = s.upto(t.size());
        switch (s.upto(6)) {
            case 0: case 1: t.insert(at, piece()); break;
            case 2: t.erase(at, 1 + s.upto(5)); break;
            case 3: t.resize(at); break;
            case 4: if (at < t.size()) t[at] = (char)s.upto(255); break;
            case 5: if (at < t.size()) { size_t n = std::min<size_t>(t.size() - at, 1 + s.upto(30)), to = s.upto(t.size()); std::string x = t.substr(at, n); t.insert(to, x); } break;
            default: t = t.substr(at); break;
        }
    }
    if (t.empty()) t = "\n";
    // labels stay small (what is allocated depends on the largest), counts
    // fit their type, and exponents are few (they are read recursively)
    std::string r; unsigned run = 0, es = 0, numbers = 0, lines = 0, most = digits < 4 ? 100 : 100000;
    for (char ch : t) {
        if (ch >= '0' && ch <= '9') { if (++run > digits) continue; if (run == 1 && ++numbers > most) break; } else run = 0;
        if (ch == '\n' && ++lines > most) break;
        if ((ch == 'e' || ch == 'E') && ++es > 150) ch = 'x';
        r += ch;
    }
    if (s.chance(1, 20)) { size_t pad = s.pick<size_t>({4096, 8192}); if (r.size() < pad) r.insert(0, std::string(pad - r.size() - 1, ' ') + "\n"); r.resize(pad, '7'); for (size_t i = pad; i-- > 0 && r[i] == '7';) if (pad - i > digits) r[i] = ' '; c.label("text:ends at a page"); }
    return r;
}
