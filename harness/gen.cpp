#include "gen.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <sstream>
#include <sys/stat.h>

RtSched gen_sched(Src& s, Ctx& c, unsigned max_threads) {
    RtSched r;
    static const unsigned T[] = {1, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 11, 12, 16, 17, 33, 64};
    r.threads = T[s.upto(sizeof T / sizeof *T - 1)];
    if (r.threads > max_threads) r.threads = max_threads;
    r.policy = (unsigned)s.upto(4);
    r.seed = s.upto(0xffff);
    std::string fl = pbt::flavour();
    if (fl == "omp" && r.threads > 12) r.threads = 12;
    if (fl == "asan" && max_threads >= 64 && s.chance(1, 300)) r.threads = 65 + (unsigned)s.upto(255);
    if (fl == "race") r.preempt = s.pick<unsigned>({0, 3, 8, 25, 100, 400});
    rt_set(r);
    c.label(r.threads == 1 ? "threads:1" : r.threads <= 4 ? "threads:2-4" : r.threads <= 8 ? "threads:5-8" : r.threads <= 64 ? "threads:9-64" : "threads:65-320");
    return r;
}
std::string show(const RtSched& s) {
    std::ostringstream o; o << s.threads << " threads, policy " << s.policy << ", schedule seed " << s.seed;
    if (s.preempt) o << ", preempted 1/" << s.preempt;
    return o.str();
}
std::string put_file(const std::string& name, const std::string& data) {
    std::string p = pbt::path(name);
    std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(data.data(), data.size()); f.close();
    return p;
}
std::string get_file(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
bool file_exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
std::string quote(const std::string& s, size_t max) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char ch = s[i];
        if (ch == '\n') o += "\\n"; else if (ch == '\r') o += "\\r"; else if (ch == '\t') o += "\\t";
        else if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
        else o += ch;
    }
    o += "\""; if (s.size() > max) o += "... (" + std::to_string(s.size()) + " bytes)";
    return o;
}

static std::string digits(Src& s, unsigned n) { std::string r; for (unsigned i = 0; i < n; ++i) r += (char)('0' + s.upto(9)); return r; }

Wgt gen_wgt(Src& s, const WSpec& w) {
    Wgt r;
    switch (w.kind) {
        case WNONE: break;
        case WUNSIGNED: {
            u64 v = s.biased((u64)w.hi);
            if (s.chance(1, 12)) r.t = "0";
            r.t += std::to_string(v); r.v = (ld)v; break;
        }
        case WSIGNED: {
            unsigned k = (unsigned)s.upto(7);
            if (k >= 5) {   // negative; the smallest value has no positive
                u64 mag = s.biased((u64)w.hi); r.t = "-" + std::to_string(mag); r.v = -(ld)mag;
            } else {
                u64 v = s.biased((u64)w.hi);
                if (k == 4) r.t = "+";
                r.t += std::to_string(v); r.v = (ld)v;
            }
            break;
        }
        case WFLOAT: case WDOUBLE: {
            unsigned k = (unsigned)s.upto(9);
            std::string sg;
            unsigned sgn = (unsigned)s.upto(5);
            if (sgn >= 4) sg = "-"; else if (sgn == 3) sg = "+";
            std::string t;
            if (k <= 2) t = std::to_string(s.biased(999999));                                   // an integer
            else if (k <= 5 && s.chance(1, 40)) t = std::to_string(s.biased(99999)) + "." + std::string(s.upto(12), '0') + digits(s, 17 + (unsigned)s.upto(s.chance(1, 8) ? 380 : 60));    // every digit of a binary fraction
            else if (k == 6 && s.chance(1, 20)) t = std::to_string(1 + s.upto(8)) + digits(s, 20 + (unsigned)s.upto(40)) + "e-" + std::to_string(25 + s.upto(12));
            else if (k <= 5) t = std::to_string(s.biased(99999)) + "." + digits(s, 1 + (unsigned)s.upto(s.chance(1, 4) ? 16 : 5));
            else if (k == 6 && s.chance(1, 4)) t = std::to_string(1 + s.upto(8)) + digits(s, 6 + (unsigned)s.upto(10)) + (s.upto(1) ? "." + digits(s, (unsigned)s.upto(3)) : "");
            else if (k == 6) t = "." + digits(s, 1 + (unsigned)s.upto(s.chance(1, 4) ? 16 : 7));
            else if (k == 7) t = std::to_string(s.biased(999)) + ".";
            else {
                t = std::to_string(s.upto(999));
                if (s.upto(1)) t += "." + digits(s, 1 + (unsigned)s.upto(8));
                t += s.pick<const char*>({"e", "E"});
                unsigned es = (unsigned)s.upto(2);
                if (es == 1) t += "+"; else if (es == 2) t += "-";
                t += std::to_string(s.upto(w.kind == WFLOAT ? 22 : 80));
            }
            r.exact = k <= 2;
            r.t = sg + t; r.v = strtold(r.t.c_str(), nullptr);
            if (r.v == 0) { r.t = t; r.v = 0; }     // the order of -0 and 0 is nobody's promise
            break;
        }
    }
    return r;
}
ld gen_wval(Src& s, const WSpec& w) {
    switch (w.kind) {
        case WNONE: return 0;
        case WUNSIGNED: return (ld)s.biased((u64)w.hi);
        case WSIGNED: { u64 m = s.biased((u64)w.hi); unsigned k = (unsigned)s.upto(3); if (k == 3) return -(ld)m - (s.chance(1, 4) && m == (u64)w.hi ? 1 : 0); return (ld)m; }
        default: { ld v = (ld)s.biased(1u << 20) / 64; return s.upto(2) == 2 && v != 0 ? -v : v; }
    }
}

std::vector<Ent> gen_entries(Src& s, Ctx& c, const EntSpec& sp) {
    std::vector<Ent> r;
    u64 m = s.size(sp.max_m, sp.max_bulk);
    // label ranges: often far below the largest so that repeats happen
    auto lim = [&](u64 max) -> u64 {
        switch (s.upto(6)) {
            case 0: return std::min<u64>(max, 3);
            case 1: case 2: return std::min<u64>(max, 12);
            case 3: return std::min<u64>(max, 120);
            case 4: case 5: return max > 1000000 ? max : std::min<u64>(max, 1500);
            default: return max;
        }
    };
    u64 mx = lim(sp.max_x), my = s.upto(3) ? std::min(mx, sp.max_y) : lim(sp.max_y);
    unsigned style = (unsigned)s.upto(5);    // 4: hub rows; 5: sorted

    // rare: one row (or column) with every label, so that one row alone is long
    bool line = m > pbt::BULK_FROM && s.chance(1, 3), col = line && s.upto(1), down = line && s.upto(1);
    if (line && s.upto(2)) m = std::max(m, std::min(sp.max_bulk, std::min<u64>(col ? sp.max_x : sp.max_y, 199990) + 1 + s.upto(9)));      // all of them
    u64 fixed = line ? s.upto(std::min<u64>(col ? sp.max_y : sp.max_x, 5)) : 0;
    pbt::Bulk bulk(s, m > pbt::BULK_FROM);
    for (u64 i = 0; i < m; ++i) {
        Ent e;
        if (line) {
            u64 max = col ? sp.max_x : sp.max_y, v = max == UINT64_MAX ? i : i % (max + 1); if (down) v = std::min<u64>(max, m - 1) - std::min(v, std::min<u64>(max, m - 1));
            e.x = col ? v : fixed; e.y = col ? fixed : v; if (sp.w.kind != WNONE) e.w = gen_wgt(s, sp.w);
            r.push_back(e); continue;
        }
        unsigned k = (unsigned)s.upto(9);
        if (k == 9 && !r.empty()) { const Ent& o = r[s.upto(r.size() - 1)]; e.x = o.x; e.y = o.y; }         // duplicate
        else if (k == 8 && !r.empty()) { const Ent& o = r[s.upto(r.size() - 1)]; e.x = std::min(o.y, mx); e.y = std::min(o.x, my); }   // reversed
        else {
            e.x = mx > 100000 ? s.biased(mx) : (style == 4 && s.upto(1) ? std::min<u64>(1, mx) : s.upto(mx));
            e.y = my > 100000 ? s.biased(my) : s.upto(my);
            if (k == 7 && sp.self_loops) e.y = std::min(e.x, my);
        }
        if (sp.w.kind != WNONE) e.w = gen_wgt(s, sp.w);
        r.push_back(e);
    }
    if (style == 5) std::stable_sort(r.begin(), r.end(), [](const Ent& a, const Ent& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    c.label(m == 0 ? "entries:0" : m <= 6 ? "entries:1-6" : m <= 100 ? "entries:7-100" : m <= pbt::BULK_FROM ? "entries:>100" : "entries:>3000");
    return r;
}

std::string gen_comment(Src& s) {
    static const char* C[] = {"", " comment", " 12 34", "12 34 5.5", " a 7 b 8", "% nested # 3 4", " 1", "\t99 98 97", " -5 +6 1e5", "# Nodes: 4847571 Edges: 68993773"};
    std::string r = s.upto(1) ? "%" : "#";
    r += C[s.upto(sizeof C / sizeof *C - 1)];
    if (s.chance(1, 2000)) r += std::string(s.upto(150000), s.upto(1) ? ' ' : 'y') + "7 8";
    if (s.chance(1, 20)) r += std::string(s.upto(300), 'x') + " 5 6";
    return r;
}

std::string el_text(Src& s, Ctx& c, const std::vector<Ent>& es, bool weighted, const Dress& d, u64 base, bool leading) {
    // file-wide knobs first, so that shrinking makes the file plain
    TextInfo ti;
    ti.comments = d.comments && s.chance(2, 5);
    ti.blank = d.blank && s.chance(1, 4);
    ti.crlf = d.crlf && s.chance(1, 6);
    ti.extra = (d.extra_cols || d.words) && s.chance(1, 4);
    ti.no_final_nl = d.no_final_nl && s.chance(1, 3);
    ti.lead = d.lead_ws && s.chance(1, 5);
    bool zeros = d.zeros && s.chance(1, 12);
    unsigned sepk = (unsigned)s.upto(3);
    std::string nl = ti.crlf ? "\r\n" : "\n";
    std::string o;
    auto sep = [&]() { if (sepk == 0 || sepk == 1) o += ' '; else if (sepk == 2) o += '\t'; else { u64 k = 1 + s.upto(3); for (u64 i = 0; i < k; ++i) o += s.upto(1) ? '\t' : ' '; if (s.chance(1, 4000)) o += std::string(s.upto(20000), ' '); } };
    auto junk = [&]() {
        while (true) {
            unsigned k = (unsigned)s.upto(9);
            if (ti.comments && k >= 8) { if (ti.lead && s.chance(1, 3)) o += "  "; o += gen_comment(s) + nl; }
            else if (ti.blank && k >= 6 && k < 8) { if (ti.lead) o += ' '; o += nl; }
            else break;
        }
    };
    if (leading && ti.comments && s.upto(1)) { u64 k = 1 + s.upto(3); for (u64 i = 0; i < k; ++i) o += gen_comment(s) + nl; }
    pbt::Bulk bulk(s, es.size() > pbt::BULK_FROM);
    for (size_t i = 0; i < es.size(); ++i) {
        if (ti.comments || ti.blank) { if (i > 0 || leading) junk(); }
        if (ti.lead && s.upto(1)) o += s.upto(1) ? "\t" : "  ";
        if (zeros && s.upto(2) == 0) o += "0";
        o += std::to_string(es[i].x + base); sep();
        if (zeros && s.upto(2) == 0) o += s.chance(1, 300) ? std::string(s.upto(9000), '0') : "00";
        o += std::to_string(es[i].y + base);
        if (weighted) { sep(); o += es[i].w.t; }
        if (ti.extra) {
            unsigned k = (unsigned)s.upto(5);
            if (k == 1 && d.extra_cols) o += " " + std::to_string(s.biased(1000000));
            else if (k == 2 && d.extra_cols) o += "\t-" + std::to_string(s.upto(99)) + ".5 77";
            else if (k == 3 && d.words) o += " word";
            else if (k == 4) o += "  ";
            else if (k == 5 && d.comments) o += " " + gen_comment(s);
        }
        if (i + 1 < es.size() || !ti.no_final_nl) o += nl;
    }
    bool tail = false;
    if ((ti.comments || ti.blank) && !(ti.no_final_nl && !es.empty())) {
        size_t before = o.size(); junk(); tail = o.size() != before;
        if (ti.no_final_nl && !o.empty() && o.back() == '\n') { o.pop_back(); }
    }
    (void)tail;
    if (o.empty()) o = nl;      // an empty file cannot be opened
    if (ti.comments) c.label("text:comments");
    if (ti.blank) c.label("text:blank lines");
    if (ti.crlf) c.label("text:crlf");
    if (ti.extra) c.label("text:extra columns");
    if (o.back() != '\n') c.label("text:no final newline");
    if (o.size() > 4096) c.label("text:>4096 bytes");
    if (o.size() > 1000000) c.label("text:>1000000 bytes");
    return o;
}

std::string mm_text(Src& s, Ctx& c, const std::vector<Ent>& es, u64 rows, u64 cols, u64 nnz, bool weighted, const Dress& d) {
    std::string o = "%%MatrixMarket matrix coordinate ";
    o += weighted ? s.pick<const char*>({"real", "integer"}) : s.pick<const char*>({"pattern", "real"});
    o += s.pick<const char*>({" general", " symmetric"});
    std::string nl = d.crlf && s.chance(1, 8) ? "\r\n" : "\n";
    o += nl;
    if (d.comments) { u64 k = s.upto(3); for (u64 i = 0; i < k; ++i) { o += "%" + gen_comment(s).substr(1) + nl; } }
    std::string sp = s.chance(1, 4) ? "\t" : " ";
    if (d.lead_ws && s.chance(1, 8)) o += " ";
    o += std::to_string(rows) + sp + std::to_string(cols) + sp + std::to_string(nnz);
    if (d.lead_ws && s.chance(1, 8)) o += " ";
    if (es.empty() && s.chance(1, 2)) return o;
    o += nl;
    Dress d2 = d;
    std::string body = el_text(s, c, es, weighted, d2, 1, true);
    return o + body;
}

GraphCase gen_graph(Src& s, Ctx& c, u64 max_n, u64 max_m, u64 max_label, bool isolate_last, u64 bulk_n, u64 bulk_m) {
    GraphCase g;
    g.one_based = s.upto(1);
    u64 n = 1 + s.size(max_n - 1, bulk_n);
    u64 lim = std::min<u64>(n, max_label);
    u64 m = s.size(max_m, bulk_m);
    // directed endpoints, or an undirected graph whose header counts pairs
    bool halve = s.upto(1);
    std::vector<std::vector<u64>> adj(n);
    u64 first = 0, last = lim - 1;           // 0-based ids
    bool iso = isolate_last && g.one_based && n > 1;
    if (iso && last + 1 == n) { --last; }
    bool can = last + 1 > 0 && !(isolate_last && g.one_based && n == 1);
    unsigned rows_used = (unsigned)s.upto(3);      // 0: few rows have edges
    u64 rl = rows_used == 0 ? std::min<u64>(last, 2) : last;
    if (can) { pbt::Bulk bulk(s, m > pbt::BULK_FROM); for (u64 i = 0; i < m; ++i) {
        u64 x = first + s.upto(rl), y = first + s.upto(last);
        if (halve) { adj[x].push_back(y); adj[y].push_back(x); }
        else adj[x].push_back(y);
    } }
    u64 total = 0; for (auto& a : adj) total += a.size();
    if (!g.one_based) {
        // a 0-based file is only known as such by a 0 in it
        if (total && can) {
            bool z = false; for (auto& a : adj) for (auto v : a) z |= v == 0;
            if (!z) { for (auto& a : adj) if (!a.empty()) { a[0] = 0; break; } halve = false; }
        } else g.one_based = true;
    }
    g.n = n;
    g.m = halve ? total / 2 : total;
    if (halve && total % 2) { g.m = total; }
    u64 b = g.one_based ? 1 : 0;
    g.rows.resize(n + b);
    for (u64 v = 0; v < n; ++v) { for (auto y : adj[v]) g.rows[v + b].push_back(y + b); }
    // text
    bool comments = s.chance(2, 5), crlf = s.chance(1, 8), trail = s.chance(1, 4), no_nl = s.chance(1, 4), lead = s.chance(1, 6);
    std::string nl = crlf ? "\r\n" : "\n";
    unsigned sepk = (unsigned)s.upto(2);
    auto cm = [&]() { if (comments) while (s.upto(4) == 4) g.text += gen_comment(s) + nl; };
    cm();
    g.text += std::to_string(g.n) + " " + std::to_string(g.m);
    if (s.chance(1, 6)) g.text += " 0";
    if (comments && s.chance(1, 6)) g.text += " " + gen_comment(s);
    pbt::Bulk bulk(s, n + m > pbt::BULK_FROM);
    for (u64 v = 0; v < n; ++v) {
        g.text += nl;
        cm();
        auto& row = g.rows[v + b];
        if (lead && s.upto(1)) g.text += s.upto(1) ? " " : "\t";
        for (size_t i = 0; i < row.size(); ++i) {
            if (i) { if (sepk == 0) g.text += ' '; else if (sepk == 1) g.text += '\t'; else g.text += std::string(1 + s.upto(2), ' '); }
            g.text += std::to_string(row[i]);
        }
        if (trail && s.upto(2) == 2) g.text += " ";
        if (comments && !row.empty() && s.chance(1, 8)) g.text += " % " + std::to_string(s.upto(50)) + " x";
    }
    bool end_nl = !(no_nl && !g.rows.back().empty());
    if (end_nl) { g.text += nl; if (comments && s.chance(1, 4)) g.text += gen_comment(s) + nl; if (s.chance(1, 8)) g.text += nl; }
    else c.label("graph:no final newline");
    if (n > pbt::BULK_FROM) c.label("graph:>3000 vertices");
    if (m > pbt::BULK_FROM) c.label("entries:>3000");
    c.label(g.one_based ? "graph:1-based" : "graph:0-based");
    if (comments) c.label("graph:comments");
    bool empty_rows = false; for (u64 v = 0; v < n; ++v) empty_rows |= g.rows[v + b].empty();
    if (empty_rows) c.label("graph:empty rows");
    if (halve && total) c.label("graph:header counts pairs");
    return g;
}

std::string show(const std::vector<Ent>& es, bool weighted, size_t max) {
    std::ostringstream o; o << es.size() << " entries:";
    for (size_t i = 0; i < es.size() && i < max; ++i) { o << " (" << es[i].x << "," << es[i].y; if (weighted) o << "," << (es[i].w.t.empty() ? std::to_string((double)es[i].w.v) : es[i].w.t); o << ")"; }
    if (es.size() > max) o << " ...";
    return o.str();
}

TensorCase gen_tensor(Src& s, Ctx& c, u64 max_label, u64 max_m, const WSpec& w, u64 max_bulk) {
    TensorCase t; t.order = 1 + s.upto(7);
    u64 m = s.size(max_m, max_bulk);
    if (max_bulk > max_m && m <= max_m / 16 && s.chance(1, 60)) t.order += s.upto(3) ? 8 + s.upto(60) : std::min<u64>(s.upto(600), std::max<u64>(max_m, 68) - 8);
    u64 lim[80];
    pbt::Bulk bulk(s, m * t.order > pbt::BULK_FROM);
    // (the largest labels repeat from coordinate 80 on)
    for (auto& l : lim) switch (s.upto(3)) { case 0: l = std::min<u64>(max_label, 9); break; case 1: l = std::min<u64>(max_label, 150); break; case 2: l = std::min<u64>(max_label, 70000); break; default: l = max_label; }
    for (u64 i = 0; i < m; ++i) {
        std::vector<u64> e;
        for (u64 k = 0; k < t.order; ++k) e.push_back(lim[k % 80] > 100000 ? s.biased(lim[k % 80]) : s.upto(lim[k % 80]));
        t.c.push_back(e);
        if (w.kind != WNONE) t.w.push_back(gen_wgt(s, w));
    }
    c.label(t.order <= 8 ? "order:" + std::to_string(t.order) : std::string(t.order > 255 ? "order:>255" : "order:>8"));
    if (m > pbt::BULK_FROM) c.label("entries:>3000");
    c.label(m == 0 ? "entries:0" : m <= 6 ? "entries:1-6" : m <= 100 ? "entries:7-100" : "entries:>100");
    return t;
}
std::string tensor_text(Src& s, Ctx& c, const TensorCase& t, bool weighted) {
    bool comments = s.chance(2, 5), blank = s.chance(1, 4), crlf = s.chance(1, 6), no_nl = s.chance(1, 3), lead = s.chance(1, 5), trail = s.chance(1, 6), zeros = s.chance(1, 12);
    unsigned sepk = (unsigned)s.upto(2);
    std::string nl = crlf ? "\r\n" : "\n", o;
    auto junk = [&]() { while (comments || blank) { unsigned k = (unsigned)s.upto(9); if (comments && k >= 8) o += gen_comment(s) + nl; else if (blank && k >= 6 && k < 8) o += (lead ? " " : "") + nl; else break; } };
    auto sep = [&]() { if (sepk == 0) o += ' '; else if (sepk == 1) o += '\t'; else { u64 k = 1 + s.upto(2); while (k--) o += s.upto(1) ? '\t' : ' '; } };
    pbt::Bulk bulk(s, t.m() * t.order > pbt::BULK_FROM);
    for (size_t i = 0; i < t.m(); ++i) {
        junk();
        if (lead && s.upto(1)) o += s.upto(1) ? "\t" : "  ";
        for (u64 k = 0; k < t.order; ++k) { if (k) sep(); if (zeros && s.upto(2) == 0) o += "0"; o += std::to_string(t.c[i][k]); }
        if (weighted) { sep(); o += t.w[i].t; }
        if (trail) { unsigned k = (unsigned)s.upto(3); if (k == 1) o += "  "; else if (k == 2) o += "\t"; else if (k == 3 && comments) o += " " + gen_comment(s); }
        if (i + 1 < t.m() || !no_nl) o += nl;
    }
    if (!(no_nl && t.m())) { junk(); if (no_nl && !o.empty() && o.back() == '\n') o.pop_back(); }
    if (o.empty()) o = nl;
    if (comments) c.label("text:comments");
    if (blank) c.label("text:blank lines");
    if (crlf) c.label("text:crlf");
    if (o.back() != '\n') c.label("text:no final newline");
    return o;
}
std::string show(const TensorCase& t, bool weighted, size_t max) {
    std::ostringstream o; o << "order " << t.order << ", " << t.m() << " entries:";
    for (size_t i = 0; i < t.m() && i < max; ++i) { o << " ("; for (size_t k = 0; k < t.order; ++k) o << (k ? "," : "") << t.c[i][k]; if (weighted) o << ": " << (t.w[i].t.empty() ? std::to_string((double)t.w[i].v) : t.w[i].t); o << ")"; }
    if (t.m() > max) o << " ...";
    return o.str();
}
