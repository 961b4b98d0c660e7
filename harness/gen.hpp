// Generators of cases and independent models of what PIGO must do with them.
#pragma once
#include "pbt.hpp"
#include "rt.hpp"
#include <string>
#include <vector>
#include <cstdint>
#include <limits>
#include <type_traits>

using pbt::Src; using pbt::Ctx;
typedef uint64_t u64; typedef int64_t i64; typedef unsigned uint;
typedef long double ld;

// ---- schedules --------------------------------------------------------
// Draws and installs a team size and schedule
RtSched gen_sched(Src& s, Ctx& c, unsigned max_threads = 64);
std::string show(const RtSched& s);

// ---- files ------------------------------------------------------------
std::string put_file(const std::string& name, const std::string& data);  // returns the path
std::string get_file(const std::string& path);
bool file_exists(const std::string& path);
std::string quote(const std::string& s, size_t max = 1200);

// ---- weights ----------------------------------------------------------
enum WKind { WNONE, WFLOAT, WDOUBLE, WSIGNED, WUNSIGNED };
struct WSpec { WKind kind = WNONE; ld lo = 0, hi = 0; };
template <class W> WSpec wspec() {
    WSpec r;
    if (std::is_floating_point<W>::value) r.kind = sizeof(W) == 4 ? WFLOAT : WDOUBLE;
    else { r.kind = std::is_signed<W>::value ? WSIGNED : WUNSIGNED; r.lo = (ld)std::numeric_limits<W>::min(); r.hi = (ld)std::numeric_limits<W>::max(); }
    return r;
}
struct Wgt { ld v = 0; std::string t; bool exact = true; };   // value, text, whether the value must be met exactly
Wgt gen_wgt(Src& s, const WSpec& w);
// A weight for objects built in memory; floating values are multiples of 1/64
ld gen_wval(Src& s, const WSpec& w);
template <class W> bool weq(W got, const Wgt& want) {
    if (!std::is_floating_point<W>::value || want.exact) return (ld)got == want.v;
    ld d = (ld)got - want.v; if (d < 0) d = -d;
    ld a = want.v < 0 ? -want.v : want.v;
    ld tol = (sizeof(W) == 4 ? 2e-5L : 1e-11L);
    return d <= a * tol + 1e-36L;
}

// ---- entries and edge lists -------------------------------------------
struct Ent { u64 x = 0, y = 0; Wgt w; };
inline bool operator<(const Ent& a, const Ent& b) { return a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.w.v < b.w.v; }

struct EntSpec {
    u64 max_x = 100, max_y = 100;   // largest labels
    u64 max_m = 400;                // largest count
    u64 max_bulk = 0;               // largest count of rare large cases
    WSpec w;
    bool self_loops = true;         // make them likely
};
std::vector<Ent> gen_entries(Src& s, Ctx& c, const EntSpec& sp);

// How lines of a text file are dressed.  Everything is drawn from Src.
struct Dress {
    bool comments = true, blank = true, crlf = true, extra_cols = true, words = true, no_final_nl = true, lead_ws = true, zeros = true;
};
struct TextInfo { bool comments = false, blank = false, crlf = false, extra = false, no_final_nl = false, lead = false; };
// One line per entry.  base is added to both labels.
std::string el_text(Src& s, Ctx& c, const std::vector<Ent>& es, bool weighted, const Dress& d, u64 base = 0, bool leading_comments = true);
std::string gen_comment(Src& s);
std::string mm_text(Src& s, Ctx& c, const std::vector<Ent>& es, u64 rows, u64 cols, u64 nnz, bool weighted, const Dress& d);

// ---- graph files ------------------------------------------------------
struct GraphCase {
    bool one_based = false;
    u64 n = 0;                              // header vertex count
    u64 m = 0;                              // header edge count
    std::vector<std::vector<u64>> rows;     // rows[v], v in 0..n-1 (or 1..n with rows[0] empty)
    std::string text;
    u64 total() const { u64 t = 0; for (auto& r : rows) t += r.size(); return t; }
};
// isolate_last: in a 1-based graph, the last vertex has no edges
GraphCase gen_graph(Src& s, Ctx& c, u64 max_n, u64 max_m, u64 max_label, bool isolate_last, u64 bulk_n = 0, u64 bulk_m = 0);

// ---- tensors ----------------------------------------------------------
struct TensorCase { u64 order = 1; std::vector<std::vector<u64>> c; std::vector<Wgt> w; size_t m() const { return c.size(); } };
TensorCase gen_tensor(Src& s, Ctx& c, u64 max_label, u64 max_m, const WSpec& w, u64 max_bulk = 0);
std::string tensor_text(Src& s, Ctx& c, const TensorCase& t, bool weighted);
std::string show(const TensorCase& t, bool weighted, size_t max = 30);

std::string show(const std::vector<Ent>& es, bool weighted, size_t max = 40);

// ---- binary layouts, as bytes -----------------------------------------
struct Bytes {
    std::string s;
    Bytes& str(const std::string& t) { s += t; return *this; }
    template <class T> Bytes& val(T v) { s.append((const char*)&v, sizeof(T)); return *this; }
};
