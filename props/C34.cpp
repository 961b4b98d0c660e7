// C34: nothing changes beyond 4 GiB of file or 2^32 entries.  Files are sparse
// where they can be; objects have labels of one byte.  Contents are functions
// of the position, so that results are checked without a second copy.
#include "lib.hpp"
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <fcntl.h>
#include <unistd.h>
#include <omp.h>

#if VP_PART == 0
typedef uint8_t u8;
static const u64 G4 = 1ull << 32;
typedef pigo::COO<u8, u64, u8*> BCoo;
typedef pigo::COO<u8, uint32_t, u8*> LineCoo;
typedef pigo::COO<u8, uint32_t, u8*, false, false, false, true, u8, u8*> LineWCoo;
typedef pigo::CSR<u8, u64, u8*, u64*> BCsr;
typedef pigo::BaseGraph<u8, u64, u8*, u64*> BGraph;
typedef pigo::Tensor<u8, u64, u8*, u8, u8*, false> BTen;
typedef pigo::Tensor<u8, u64, u8*, u8, u8*, true> BWTen;
typedef Cfg<uint32_t, uint32_t, RAW, int32_t> C0;       // ordinary objects from large files

static u64 mix(u64 a) { a ^= a >> 31; a *= 0x9e3779b97f4a7c15ull; a ^= a >> 29; a *= 0xbf58476d1ce4e5b9ull; return a ^ (a >> 32); }
// The value at a position, different 2^31 and 2^32 further on
struct Pat { u64 k; u8 operator()(u64 i) const { return (u8)((i * 7 + (i >> 13) * 5 + (i >> 31) * 37 + k) % 251); } };
template <class F> void par(u64 n, F f) {               // f(begin, end)
    #pragma omp parallel num_threads(8)
    { u64 t = (u64)omp_get_thread_num(), k = (u64)omp_get_num_threads(); f((u64)((unsigned __int128)n * t / k), (u64)((unsigned __int128)n * (t + 1) / k)); }
}
static void fill(u8* d, u64 n, Pat p) { par(n, [&](u64 a, u64 b) { for (u64 i = a; i < b; ++i) d[i] = p(i); }); }
// First position where d differs from the pattern, or n
template <class F> u64 first_bad(u64 n, F ok) {
    u64 bad = n;
    par(n, [&](u64 a, u64 b) { for (u64 i = a; i < b; ++i) if (!ok(i)) {
        #pragma omp critical
        bad = std::min(bad, i);
        break; } });
    return bad;
}
static void require_pat(const u8* d, u64 n, Pat p, const char* what) {
    u64 i = first_bad(n, [&](u64 k) { return d[k] == p(k); });
    REQUIRE(i == n, what << " " << i << " of " << n << " is " << (int)d[i] << ", expected " << (int)p(i));
}
static void need(Ctx& c, u64 disk, u64 mem = 0) {
    FILE* mi = fopen("/proc/meminfo", "r"); char ln[256]; unsigned long long kb = ~0ull;
    if (mi) { while (fgets(ln, sizeof ln, mi)) if (sscanf(ln, "MemAvailable: %llu", &kb) == 1) break; fclose(mi); }
    if (mem && kb != ~0ull && kb * 1024 < mem + (3ull << 30)) { c.label("skipped: no memory"); throw pbt::Skip(); }
    struct statvfs v;
    if (statvfs(pbt::scratch().c_str(), &v) == 0 && (u64)v.f_bavail * v.f_frsize < disk + (2ull << 30)) { c.label("skipped: no room"); throw pbt::Skip(); }
}
// A file of the given size, holes except for some pieces
static std::string sparse(const char* name, u64 size, const std::map<u64, std::string>& pieces) {
    std::string fn = pbt::path(name);
    int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    REQUIRE(fd >= 0 && ftruncate(fd, (off_t)size) == 0, "harness: no large file");
    for (auto& p : pieces) REQUIRE(pwrite(fd, p.second.data(), p.second.size(), (off_t)p.first) == (ssize_t)p.second.size(), "harness: piece");
    close(fd);
    return fn;
}
struct Map {                                            // a file seen without the library
    u8* d = nullptr; u64 n = 0; int fd;
    explicit Map(const std::string& fn, bool write = false) {
        fd = open(fn.c_str(), write ? O_RDWR : O_RDONLY); struct stat st;
        REQUIRE(fd >= 0 && fstat(fd, &st) == 0, "harness: cannot look at " << fn);
        n = (u64)st.st_size; d = (u8*)mmap(nullptr, n, PROT_READ | (write ? PROT_WRITE : 0), MAP_SHARED, fd, 0);
        REQUIRE(d != MAP_FAILED, "harness: map");
    }
    ~Map() { munmap(d, n); close(fd); }
};
static u64 file_size(const std::string& fn) { struct stat st; return stat(fn.c_str(), &st) ? 0 : (u64)st.st_size; }
static unsigned team(Src& s) { unsigned t = s.pick<unsigned>({8, 7, 12, 16, 20}); RtSched r; r.threads = t; rt_set(r); return t; }
// More than 2^32 before the part of the last thread
static u64 big(Src& s, unsigned t) { return G4 + G4 / (t - 1) + s.biased(1u << 20); }

// ---- files as bytes
static void bytes(Src& s, Ctx& c) {
    unsigned t = team(s); u64 size = G4 + 4096 + s.upto(1ull << 31); bool wr = s.upto(1); need(c, wr ? 1u << 30 : 0);
    std::map<u64, std::string> pc; Pat p{s.upto(250)};
    auto piece = [&](u64 at, u64 n) { std::string b; for (u64 i = 0; i < n && at + i < size; ++i) b += (char)p(at + i); pc[at] = b; };
    std::vector<u64> ats = {0, (1ull << 31) - 20, G4 - 20, size - 40}; u64 k = 1 + s.upto(5);
    for (u64 i = 0; i < k; ++i) ats.push_back(s.upto(size - 100));
    c.note([&](std::ostream& o) { o << t << " threads; " << (wr ? "writing" : "reading") << " a file of " << size << " bytes at"; for (u64 a : ats) o << " " << a; });
    if (!wr) for (u64 a : ats) piece(a, 64);
    std::string fn = wr ? pbt::path("big.bin") : sparse("big.bin", size, pc);
    {
        pigo::File f(fn, wr ? pigo::WRITE : pigo::READ, wr ? size : 0);
        REQUIRE(f.size() == size, "size() of a file of " << size << " bytes is " << f.size());
        for (u64 a : ats) {
            f.seek(a);
            REQUIRE(f.reader().size() == size - a, size - a << " bytes are left, the reader has " << f.reader().size());
            if (wr) { u64 v = 0; u64 n = std::min<u64>(8, size - a); for (u64 i = 0; i < n; ++i) v |= (u64)p(a + i) << (8 * i); if (n == 8) { f.write(v); std::string b; for (u64 i = 8; i < 30; ++i) b += (char)p(a + i); f.write(b); } }
            else {
                u64 v = f.read<u64>(), want = 0; for (u64 i = 0; i < 8; ++i) want |= (u64)p(a + i) << (8 * i);
                REQUIRE(v == want, "the value read at " << a << " is " << v << ", expected " << want);
                std::string b; for (u64 i = 8; i < 30; ++i) b += (char)p(a + i);
                f.read(b);
            }
            REQUIRE(f.reader().size() == size - a - 30, "30 bytes from " << a << " on the position is " << size - f.reader().size());
            u64 left = size - a - 30;
            REQUIRE(!throws_error([&] { f.check_remaining(left, 1); }) && throws_error([&] { f.check_remaining(left + 1, 1); }), "room for the " << left << " bytes left is wrongly told");
            REQUIRE(!throws_error([&] { f.check_remaining(left / 8, 8); }) && throws_error([&] { f.check_remaining(left / 8 + 1, 8); }), "room for values in the " << left << " bytes left is wrongly told");
        }
        REQUIRE(throws_error([&] { f.seek(size + 1); }), "a position beyond the end was accepted");
        // far, forward and back
        f.seek(0); const char* base = f.fp(); u64 last = 0; std::vector<u64> far = {size - 40, 0, (1ull << 31) + 5, 3, G4 + 1, 1, G4 - 1, 0, size - 1, (1ull << 31) - 1};
        for (u64 i = 0; i < 6; ++i) far.push_back(s.upto(size - 1));
        for (u64 a : far) { f.seek(a); REQUIRE((u64)(f.fp() - base) == a && f.reader().size() == size - a, "seeking from " << last << " to " << a << " leads to " << (i64)(f.fp() - base)); last = a; }
        // a region across the 4 GiB
        u64 a = s.upto(1) ? (1ull << 31) - 20 : G4 - 20; f.seek(a); std::vector<char> buf(64, 0);
        if (wr) { for (u64 i = 0; i < 64; ++i) buf[i] = (char)p(a + i); f.parallel_write(buf.data(), 64); }
        else { f.parallel_read(buf.data(), 64); for (u64 i = 0; i < 64 && a + i < size; ++i) REQUIRE((u8)buf[i] == p(a + i), "byte " << a + i << " of a parallel read is wrong"); }
        REQUIRE(f.reader().size() == size - a - 64, "the position after a region is wrong");
    }
    if (wr) {
        Map m(fn); REQUIRE(m.n == size, "the file has " << m.n << " bytes");
        for (u64 a : ats) for (u64 i = 0; i < 30; ++i) REQUIRE(m.d[a + i] == p(a + i), "byte " << a + i << " was not written");
    }
    unlink(fn.c_str());
    c.nontrivial = true;
}
PROP("C34/bytes", 1, bytes);

// ---- all of a region, and occurrences
static void region(Src& s, Ctx& c) {
    unsigned t = team(s); u64 n = big(s, t); Pat p{s.upto(250)}; u64 before = s.upto(100); bool wr = s.upto(1); need(c, n, 2 * n);
    c.note([&](std::ostream& o) { o << t << " threads; a region of " << n << " bytes after " << before << (wr ? " written" : " read"); });
    std::vector<u8> b; std::unique_ptr<u8[]> d(new u8[n]);
    std::string fn = pbt::path("region.bin");
    if (!wr) { sparse("region.bin", before + n, {}); Map m(fn, true); fill(m.d + before, n, p); memset(d.get(), 0xff, 1); }
    else fill(d.get(), n, p);
    {
        pigo::File f(fn, wr ? pigo::WRITE : pigo::READ, wr ? before + n : 0);
        f.seek(before);
        if (wr) f.parallel_write((char*)d.get(), n); else f.parallel_read((char*)d.get(), n);
        REQUIRE(f.reader().size() == 0, "the position is not at the end");
    }
    if (wr) { Map m(fn); REQUIRE(m.n == before + n, "the file has " << m.n << " bytes"); require_pat(m.d + before, n, p, "written byte"); }
    else require_pat(d.get(), n, p, "read byte");
    unlink(fn.c_str());
    c.nontrivial = true;
}
PROP("C34/region", 1, region);

static void find(Src& s, Ctx& c) {
    unsigned t = team(s); u64 size = big(s, t) + s.upto(1u << 28); need(c, 0);
    std::map<u64, std::string> pc; std::vector<u64> ats = {0, G4 - 1, G4, size - 1}; u64 k = s.upto(20);
    for (u64 i = 0; i < k; ++i) ats.push_back(s.upto(3) ? s.upto(size - 1) : size / t * s.upto(t - 1) + s.upto(2));
    std::sort(ats.begin(), ats.end()); ats.erase(std::unique(ats.begin(), ats.end()), ats.end());
    for (u64 a : ats) pc[a] = "x";
    c.note([&](std::ostream& o) { o << t << " threads; " << ats.size() << " occurrences in " << size << " bytes:"; for (u64 a : ats) o << " " << a; });
    std::string fn = sparse("find.bin", size, pc);
    {
        pigo::File f(fn, pigo::READ); pigo::FileReader r = f.reader();
        auto o = r.template find_offsets<pigo::Tensor<u64, u64, u64*, float, float*, false>>('x');
        std::vector<u64> got(o.c(), o.c() + o.m()); o.free();
        REQUIRE(got == ats, "found " << got.size() << " occurrences instead of " << ats.size() << " or other places");
    }
    unlink(fn.c_str());
    c.nontrivial = true;
}
PROP("C34/find", 1, find);

// ---- small objects in large text files: a comment of 4 GiB stands between
static std::string with_gap(Src& s, const std::string& text, const char* name, unsigned t, bool first = false) {
    std::vector<size_t> nl; if (first) nl.push_back(0); for (size_t i = 0; i < text.size(); ++i) if (text[i] == '\n') nl.push_back(i + 1);
    if (nl.empty()) return put_file(name, text);
    size_t cut = nl[s.upto(nl.size() - 1)];
    u64 gap = G4 + G4 / (t - 1) + s.upto(1u << 28);
    std::string a = text.substr(0, cut) + (s.upto(1) ? "# 9 9 " : "%"), b = "\n" + text.substr(cut);
    std::map<u64, std::string> pc; pc[0] = a; pc[a.size() + gap] = b;
    return sparse(name, a.size() + gap + b.size(), pc);
}
static void text(Src& s, Ctx& c, unsigned kind) {
    need(c, 0);
    unsigned t = team(s);
    static const char* K[] = {"edge list", "weighted edge list", "Matrix Market", "graph", "tensor"};
    c.note([&](std::ostream& o) { o << t << " threads; " << K[kind] << " with a comment of 4 GiB\n"; });
    EntSpec sp; sp.max_x = sp.max_y = 5000; sp.max_m = 400; Dress d;
    if (kind < 2) {
        if (kind == 1) sp.w = wspec<int32_t>();
        std::vector<Ent> es = gen_entries(s, c, sp); while (es.size() < 2) { Ent e; if (sp.w.kind != WNONE) { e.w.t = "7"; e.w.v = 7; } es.push_back(e); }
        std::string tx = el_text(s, c, es, kind == 1, d), fn = with_gap(s, tx, "t.el", t, true);
        c.note([&](std::ostream& o) { o << quote(tx, 600); });
        auto same = [&](auto& coo, bool w) {
            REQUIRE((u64)coo.m() == es.size(), coo.m() << " entries, expected " << es.size());
            for (size_t i = 0; i < es.size(); ++i) REQUIRE(coo.x()[i] == es[i].x && coo.y()[i] == es[i].y, "entry " << i << " is wrong");
            (void)w;
        };
        if (kind == 1) { Own<CooT<C0, false, false, false, true>> coo(fn, pigo::EDGE_LIST); same(*coo, true); for (size_t i = 0; i < es.size(); ++i) REQUIRE((ld)coo->w()[i] == es[i].w.v, "weight " << i << " is wrong"); }
        else { Own<CooT<C0>> coo(fn, pigo::EDGE_LIST); same(*coo, false); }
        c.nontrivial = es.size() > 1;
    } else if (kind == 2) {
        std::vector<Ent> es = gen_entries(s, c, sp); while (es.size() < 2) { Ent e; if (sp.w.kind != WNONE) { e.w.t = "7"; e.w.v = 7; } es.push_back(e); }
        Dims dm = dims_of(es);
        std::string tx = mm_text(s, c, es, dm.nr, dm.nc, es.size(), false, d), fn = with_gap(s, tx, "t.mtx", t);
        c.note([&](std::ostream& o) { o << quote(tx, 600); });
        Own<CooT<C0>> coo(fn, pigo::MATRIX_MARKET);
        REQUIRE((u64)coo->m() == es.size(), coo->m() << " entries, expected " << es.size());
        for (size_t i = 0; i < es.size(); ++i) REQUIRE(coo->x()[i] == es[i].x + 1 && coo->y()[i] == es[i].y + 1, "entry " << i << " is wrong");
        c.nontrivial = es.size() > 1;
    } else if (kind == 3) {
        std::vector<std::vector<u64>> rows(2 + s.upto(60)); std::string tx; u64 m = 0; rows[0].push_back(0); ++m;
        for (auto& r : rows) { u64 k = s.upto(6); for (u64 i = 0; i < k; ++i) { r.push_back(s.upto(rows.size() - 1)); ++m; } }
        std::string body; for (auto& r : rows) { for (size_t i = 0; i < r.size(); ++i) body += (i ? " " : "") + std::to_string(r[i]); body += "\n"; }
        tx = std::to_string(rows.size()) + " " + std::to_string(m) + "\n" + body;
        std::string fn = with_gap(s, tx, "t.graph", t);
        c.note([&](std::ostream& o) { o << quote(tx, 600); });
        Own<CsrT<C0>> csr(fn, pigo::GRAPH);
        REQUIRE(csr->n() == rows.size() && csr->m() == m, "a graph of " << csr->n() << " vertices and " << csr->m() << " endpoints");
        u64 at = 0; for (size_t v = 0; v < rows.size(); ++v) { REQUIRE(csr->offsets()[v] == at, "offset of row " << v); for (u64 y : rows[v]) REQUIRE(csr->endpoints()[at++] == y, "endpoint " << at - 1); }
        c.nontrivial = m > 1;
    } else {
        u64 order = 1 + s.upto(4), m = 2 + s.upto(100); std::vector<u64> co(order * m); for (auto& x : co) x = s.upto(3) ? s.upto(300) : s.biased(1000000);
        std::string tx; for (u64 i = 0; i < m; ++i) { for (u64 j = 0; j < order; ++j) tx += std::to_string(co[i * order + j]) + " "; tx += std::to_string(i % 50) + "\n"; }
        std::string fn = with_gap(s, tx, "t.tns", t);
        c.note([&](std::ostream& o) { o << quote(tx, 600); });
        Own<TenT<C0>> ten(fn);
        REQUIRE(ten->m() == m && ten->order() == order, "a tensor of order " << ten->order() << " with " << ten->m() << " entries");
        for (size_t i = 0; i < co.size(); ++i) REQUIRE(ten->c()[i] == co[i], "coordinate " << i << " is wrong");
        for (size_t i = 0; i < m; ++i) REQUIRE(ten->w()[i] == (int)(i % 50), "weight " << i << " is wrong");
        c.nontrivial = true;
    }
    for (const char* n : {"t.el", "t.mtx", "t.graph", "t.tns"}) unlink(pbt::path(n).c_str());
}
static void text0(Src& s, Ctx& c) { text(s, c, 0); }
static void text1(Src& s, Ctx& c) { text(s, c, 1); }
static void text2(Src& s, Ctx& c) { text(s, c, 2); }
static void text3(Src& s, Ctx& c) { text(s, c, 3); }
static void text4(Src& s, Ctx& c) { text(s, c, 4); }
PROP("C34/edge list", 1, text0);
PROP("C34/weighted edge list", 1, text1);
PROP("C34/Matrix Market", 1, text2);
PROP("C34/graph", 1, text3);
PROP("C34/tensor text", 1, text4);

// ---- text of more than 4 GiB, written and read back
static void lines(Src& s, Ctx& c) {
    unsigned t = team(s); bool wgt = s.upto(1); u64 per = wgt ? 12 : 8, m = big(s, t) / per + 1; need(c, m * per, 2 * m * per); Pat p{s.upto(250)}, q{s.upto(250)}, r{s.upto(250)};
    // three digits almost everywhere
    auto v = [](u8 x) { return (u8)(x < 100 ? x + 130 : x); };
    c.note([&](std::ostream& o) { o << t << " threads; " << m << " entries" << (wgt ? " with weights" : "") << " as text"; });
    std::string fn = pbt::path("lines.el"); u64 size = 0;
    auto body = [&](auto* none, auto W) {
        typedef typename std::remove_pointer<decltype(none)>::type X;
        {
            Own<X> coo((u8)255, (u8)255, (u8)255, (uint32_t)m);
            par(m, [&](u64 a, u64 b) { for (u64 i = a; i < b; ++i) { coo->x()[i] = v(p(i)); coo->y()[i] = v(q(i)); if constexpr (W.value) coo->w()[i] = v(r(i)); } });
            coo->write(fn);
            Map f(fn); size = f.n;
            REQUIRE(f.n == m * per, "the text has " << f.n << " bytes, expected " << m * per);
            u64 i = first_bad(m, [&](u64 k) {
                char l[40]; u8* e = f.d + k * per; auto put = [](char* z, u8 x) { z[0] = (char)('0' + x / 100); z[1] = (char)('0' + x / 10 % 10); z[2] = (char)('0' + x % 10); z[3] = ' '; };
                put(l, v(p(k))); put(l + 4, v(q(k))); if (W.value) put(l + 8, v(r(k)));
                l[per - 1] = '\n'; return memcmp(l, e, per) == 0; });
            REQUIRE(i == m, "line " << i << " of " << m << " is " << quote(std::string((char*)f.d + i * per, per)));
        }
        Own<X> back(fn, pigo::EDGE_LIST);
        REQUIRE(back->m() == m, back->m() << " entries read back, expected " << m);
        u64 i = first_bad(m, [&](u64 k) { bool ok = back->x()[k] == v(p(k)) && back->y()[k] == v(q(k)); if constexpr (W.value) ok = ok && back->w()[k] == v(r(k)); return ok; });
        REQUIRE(i == m, "entry " << i << " of " << m << " read back is (" << (int)back->x()[i] << "," << (int)back->y()[i] << ")");
    };
    if (wgt) body((LineWCoo*)nullptr, std::true_type()); else body((LineCoo*)nullptr, std::false_type());
    unlink(fn.c_str());
    c.nontrivial = size > G4;
}
PROP("C34/lines", 1, lines);

// ---- binary CSR
static std::string csr_file(const char* name, u64 n, u64 m, const std::vector<u64>& off, Pat p) {
    std::string h = Bytes().str("PIGO-CSR-v2").val((u8)1).val((u8)8).val((u8)n).val(m).val((u8)n).val((u8)n).s;
    h.append((const char*)off.data(), off.size() * 8);
    std::string fn = sparse(name, h.size() + m, {{0, h}});
    Map f(fn, true); fill(f.d + h.size(), m, p);
    return fn;
}
static void csr(Src& s, Ctx& c) {
    unsigned t = team(s); u64 m = big(s, t), n = 2 + s.upto(250); need(c, 2 * m, 4 * m); Pat p{s.upto(250)};
    std::vector<u64> off(n + 1, 0); off[n] = m; for (u64 i = 1; i < n; ++i) off[i] = s.upto(4) ? s.upto(m) : s.pick<u64>({0, m, G4, G4 - 1, G4 / 2});
    std::sort(off.begin(), off.end());
    c.note([&](std::ostream& o) { o << t << " threads; a CSR of " << n << " vertices and " << m << " endpoints, offsets"; for (u64 x : off) o << " " << x; });
    std::string fn = pbt::path("a.csr");
    Own<BGraph> g((u8)n, m, (u8)n, (u8)n);
    for (u64 i = 0; i <= n; ++i) g->offsets()[i] = off[i];
    fill(g->endpoints(), m, p);
    for (u64 v = 0; v < n; ++v) {
        REQUIRE(g->degree((u8)v) == off[v + 1] - off[v], "degree of " << v << " is " << g->degree((u8)v) << ", expected " << off[v + 1] - off[v]);
        REQUIRE(g->neighbor_start((u8)v) == off[v] && g->neighbor_end((u8)v) == off[v + 1], "neighbors of " << v << " are elsewhere");
        u64 k = 0; for (auto y : g->neighbors((u8)v)) { if (k >= 3) break; REQUIRE(y == p(off[v] + k), "neighbor " << k << " of " << v << " is wrong"); ++k; }
    }
    g->save(fn);
    REQUIRE(g->save_size() == file_size(fn), "save_size() is " << g->save_size() << " and the file has " << file_size(fn) << " bytes");
    g->free();
    Own<BCsr> b(fn);
    REQUIRE(b->n() == n && b->m() == m && b->nrows() == n && b->ncols() == n, "loaded sizes " << (int)b->n() << " " << b->m());
    for (u64 i = 0; i <= n; ++i) REQUIRE(b->offsets()[i] == off[i], "loaded offset " << i << " is " << b->offsets()[i]);
    require_pat(b->endpoints(), m, p, "loaded endpoint");
    {   // as other programs write it
        b->free(); unlink(fn.c_str());
        std::string f2 = csr_file("b.csr", n, m, off, p); Own<BCsr> d(f2, pigo::PIGO_CSR_BIN);
        REQUIRE(d->m() == m, "m is " << d->m()); require_pat(d->endpoints(), m, p, "loaded endpoint"); unlink(f2.c_str());
        // one byte too short
        std::string f3 = sparse("c.csr", 1, {{0, Bytes().str("PIGO-CSR-v2").val((u8)1).val((u8)8).val((u8)n).val(m).val((u8)n).val((u8)n).s}});
        REQUIRE(truncate(f3.c_str(), (off_t)(11 + 2 + 3 + 8 + 8 * (n + 1) + m - 1)) == 0, "harness"); bool err = throws_error([&] { BCsr x(f3); x.free(); });
        REQUIRE(err, "a file a byte too short was loaded"); unlink(f3.c_str());
    }
    c.nontrivial = true;
}
PROP("C34/csr", 1, csr);

// ---- binary COO
static void coo(Src& s, Ctx& c) {
    unsigned t = team(s); u64 m = big(s, t); need(c, 2 * m, 4 * m); Pat p{s.upto(250)}, q{s.upto(250)};
    c.note([&](std::ostream& o) { o << t << " threads; a COO of " << m << " entries"; });
    std::string fn = pbt::path("a.coo");
    {
        Own<BCoo> a((u8)255, (u8)254, (u8)253, m);
        fill(a->x(), m, p); fill(a->y(), m, q);
        if (s.upto(1)) { a->transpose(); std::swap(p, q); REQUIRE(a->nrows() == 253 && a->ncols() == 254, "transposed sizes"); a->set_nrows(254); a->set_ncols(253); }
        require_pat(a->x(), m, p, "row label"); require_pat(a->y(), m, q, "column label");
        a->save(fn);
    }
    Own<BCoo> b(fn);
    REQUIRE(b->m() == m && b->n() == 255 && b->nrows() == 254 && b->ncols() == 253, "loaded sizes " << b->m() << " " << (int)b->n() << " " << (int)b->nrows() << " " << (int)b->ncols());
    require_pat(b->x(), m, p, "loaded row label"); require_pat(b->y(), m, q, "loaded column label");
    unlink(fn.c_str());
    c.nontrivial = true;
}
PROP("C34/coo", 1, coo);

// ---- COO to CSR to COO
static void convert(Src& s, Ctx& c) {
    unsigned t = team(s); u64 m = big(s, t), n = 100 + s.upto(150), step = m / n + 1; Pat p{s.upto(250)}; double inv = 1 / (double)step; need(c, 0, 5 * m);
    c.note([&](std::ostream& o) { o << t << " threads; " << m << " entries in " << n << " rows as COO, CSR and COO"; });
    u64 mask = (1u << (10 + s.upto(7))) - 1;
    auto row = [&](u64 i) { return (i & mask) == 7 ? (u8)(mix(i) % n) : (u8)((double)i * inv); };
    typedef std::vector<std::pair<u64, u64>> Sum;       // count and content of every row
    std::vector<u64> h(65536); for (u64 i = 0; i < 65536; ++i) h[i] = mix(i);
    auto add = [&](Sum& a, u64 x, u64 y) { auto& r = a[x]; ++r.first; r.second += h[y * 256 + x]; };
    auto col = [&](u64 i) { return (u8)((uint32_t)p(i) % (uint32_t)n); };
    auto sums = [&](auto each) { Sum all(n); par(m, [&](u64 a, u64 b) { Sum my(n); for (u64 i = a; i < b; ++i) each(my, i);
        #pragma omp critical
        for (u64 v = 0; v < n; ++v) { all[v].first += my[v].first; all[v].second += my[v].second; } }); return all; };
    Sum want = sums([&](Sum& a, u64 i) { add(a, row(i), col(i)); });
    Own<BCsr> g;
    {
        Own<BCoo> a((u8)n, (u8)n, (u8)n, m);
        par(m, [&](u64 l, u64 h) { for (u64 i = l; i < h; ++i) { a->x()[i] = row(i); a->y()[i] = col(i); } });
        BCsr b(*a); g.x = b;
    }
    REQUIRE(g->m() == m && g->n() == n, "the CSR has " << (int)g->n() << " vertices and " << g->m() << " endpoints");
    u64 at = 0;
    for (u64 v = 0; v < n; ++v) { REQUIRE(g->offsets()[v] == at, "offset of row " << v << " is " << g->offsets()[v] << ", expected " << at); at += want[v].first; }
    REQUIRE(g->offsets()[n] == m, "the last offset is " << g->offsets()[n]);
    std::vector<u64> off(g->offsets(), g->offsets() + n + 1);
    auto row_at = [&](u64 i) { return (u64)(std::upper_bound(off.begin(), off.end(), i) - off.begin()) - 1; };
    Sum got(n);
    par(m, [&](u64 l, u64 h) { Sum my(n); u64 v = row_at(l); for (u64 i = l; i < h; ++i) { while (i >= off[v + 1]) ++v; add(my, v, g->endpoints()[i]); }
        #pragma omp critical
        for (u64 v = 0; v < n; ++v) { got[v].first += my[v].first; got[v].second += my[v].second; } });
    for (u64 v = 0; v < n; ++v) REQUIRE(got[v] == want[v], "the contents of row " << v << " differ");
    Own<BCoo> b(*g);
    REQUIRE(b->m() == m, "the COO has " << b->m() << " entries");
    u64 i = m;
    for (u64 v = 0; v < n && i == m; ++v) { u64 o = off[v], e = off[v + 1]; u64 k = first_bad(e - o, [&](u64 q) { return b->x()[o + q] == v && b->y()[o + q] == g->endpoints()[o + q]; }); if (k < e - o) i = o + k; }
    REQUIRE(i == m, "entry " << i << " is (" << (int)b->x()[i] << "," << (int)b->y()[i] << "), expected (" << row_at(i) << "," << (int)g->endpoints()[i] << ")");
    c.nontrivial = true;
}
PROP("C34/convert", 1, convert);

// ---- tensors
static void tensor(Src& s, Ctx& c) {
    unsigned t = team(s); u64 order = 2 + s.upto(5), m = big(s, t) / order + 1; need(c, m * order, 2 * m * order); Pat p{s.upto(250)};
    u64 at = s.upto(m - 1), j = s.upto(order - 1);
    c.note([&](std::ostream& o) { o << t << " threads; a tensor of order " << order << " with " << m << " entries, label 255 in coordinate " << j << " of entry " << at; });
    std::string fn = pbt::path("a.ten");
    {
        Own<BTen> a(order, m); fill(a->c(), m * order, p); a->c()[at * order + j] = 255;
        auto mx = a->max_labels();
        for (u64 k = 0; k < order; ++k) REQUIRE(mx[k] == (k == j ? 255 : 250), "the largest label in coordinate " << k << " is " << (int)mx[k]);
        a->save(fn);
    }
    Own<BTen> b(fn);
    REQUIRE(b->m() == m && b->order() == order, "loaded " << b->m() << " entries of order " << b->order());
    REQUIRE(b->c()[at * order + j] == 255, "the marked label is lost"); b->c()[at * order + j] = p(at * order + j);
    require_pat(b->c(), m * order, p, "loaded coordinate");
    unlink(fn.c_str());
    c.nontrivial = true;
}
PROP("C34/tensor", 1, tensor);
// ---- labels up to the largest of 32 bits
typedef pigo::COO<uint32_t, u8, uint32_t*> LCoo;
typedef pigo::CSR<uint32_t, u8, uint32_t*, u8*> LCsr;
typedef pigo::BaseGraph<uint32_t, u8, uint32_t*, u8*> LGraph;
static void labels(Src& s, Ctx& c) {
    unsigned t = team(s); u64 n = s.upto(2) ? G4 - 1 - (s.upto(1) ? 0 : s.biased(100000)) : (1ull << 31) + s.biased(1ull << 31) % (1ull << 31); if (n >= G4) n = G4 - 1;
    u64 m = 1 + s.upto(254); need(c, n, 3 * n + (1u << 28)); unsigned how = (unsigned)s.upto(2);
    std::vector<std::pair<u64, u64>> es(m); for (auto& e : es) { e.first = s.upto(3) ? s.upto(n - 1) : n - 1 - s.biased(1000); e.second = s.upto(2) ? s.upto(n - 1) : n - 1 - s.upto(3); }
    for (u64 i = 1; i < m; ++i) if (!s.upto(3)) es[i].first = es[s.upto(i - 1)].first;
    if (s.upto(1)) es[s.upto(m - 1)].first = n - 1; else es[s.upto(m - 1)].second = n - 1;
    u64 nr = 0, nc = 0; for (auto& e : es) { nr = std::max(nr, e.first + 1); nc = std::max(nc, e.second + 1); }
    c.note([&](std::ostream& o) { o << t << " threads; " << m << " entries with labels up to " << n - 1 << (how == 0 ? ", in memory:" : how == 1 ? ", read as a COO:" : ", read as a graph:"); for (auto& e : es) o << " " << e.first << "," << e.second; });
    std::string tx, fn = pbt::path("l.el"); for (auto& e : es) tx += std::to_string(e.first) + " " + std::to_string(e.second) + "\n";
    Own<LGraph> g;
    if (how == 2) { put_file("l.el", tx); LGraph b(fn, pigo::EDGE_LIST); g.x = b; }
    else {
        Own<LCoo> a;
        if (how == 1) { put_file("l.el", tx); LCoo b(fn, pigo::EDGE_LIST); a.x = b; }
        else { LCoo b((uint32_t)n, (uint32_t)nr, (uint32_t)nc, (u8)m); for (u64 i = 0; i < m; ++i) { b.x()[i] = (uint32_t)es[i].first; b.y()[i] = (uint32_t)es[i].second; } a.x = b; }
        REQUIRE(a->n() == n && a->nrows() == nr && a->ncols() == nc, "the COO has sizes " << a->n() << " " << a->nrows() << " " << a->ncols() << ", expected " << n << " " << nr << " " << nc);
        LGraph b(*a); g.x = b;
    }
    std::sort(es.begin(), es.end());
    auto before = [&](u64 v) { return (u64)(std::lower_bound(es.begin(), es.end(), std::make_pair(v, (u64)0)) - es.begin()); };
    auto check = [&](auto& x, const char* what) {
        REQUIRE(x.n() == n && x.m() == m && x.nrows() == nr && x.ncols() == nc, what << " has sizes " << x.n() << " " << (u64)x.m() << " " << x.nrows() << " " << x.ncols());
        std::vector<u64> bad(64, G4);
        par(64, [&](u64 l, u64 h) { for (u64 k = l; k < h; ++k) { u64 a = (n + 1) * k / 64, b = (n + 1) * (k + 1) / 64, at = before(a); u8* o = x.offsets();
            for (u64 v = a; v < b; ++v) { while (at < m && es[at].first < v) ++at; if (o[v] != at) { bad[k] = v; break; } } } });
        u64 v = *std::min_element(bad.begin(), bad.end());
        REQUIRE(v == G4, what << ": offset of row " << v << " is " << (int)x.offsets()[v] << ", expected " << before(v));
        for (u64 i = 0; i < m;) {
            u64 r = es[i].first, e = before(r + 1); std::vector<u64> got, want;
            for (u64 k = i; k < e; ++k) { got.push_back(x.endpoints()[k]); want.push_back(es[k].second); }
            std::sort(got.begin(), got.end());
            REQUIRE(got == want, what << ": the contents of row " << r << " are wrong");
            i = e;
        }
    };
    check(*g, "the graph");
    for (auto& e : es) {
        u64 r = e.first; REQUIRE(g->neighbor_start((uint32_t)r) == before(r) && g->neighbor_end((uint32_t)r) == before(r + 1) && g->degree((uint32_t)r) == before(r + 1) - before(r), "neighbors of " << r << " are elsewhere");
        u64 k = before(r); for (auto y : g->neighbors((uint32_t)r)) REQUIRE(y == g->endpoints()[k++], "a neighbor of " << r << " is wrong");
        REQUIRE(k == before(r + 1), "neighbors of " << r << " end elsewhere");
    }
    if (s.upto(1)) {
        std::string f2 = pbt::path("l.csr"); g->save(f2);
        u64 want = 13 + 3 * 4 + 1 + n + 1 + 4 * m;
        REQUIRE(g->save_size() == want && file_size(f2) == want, "save_size() is " << g->save_size() << ", the file has " << file_size(f2) << " bytes, expected " << want);
        g->free();
        Own<LCsr> b(f2, pigo::PIGO_CSR_BIN); check(*b, "the loaded CSR"); unlink(f2.c_str());
    } else {
        Own<LCoo> b(*g);
        REQUIRE(b->m() == m && b->n() == n && b->nrows() == nr && b->ncols() == nc, "the COO has sizes " << b->n() << " " << (u64)b->m() << " " << b->nrows() << " " << b->ncols());
        std::vector<std::pair<u64, u64>> got; for (u64 i = 0; i < m; ++i) { REQUIRE(b->x()[i] == es[i].first, "the entries are not in the order of the rows"); got.push_back({b->x()[i], b->y()[i]}); }
        std::sort(got.begin(), got.end()); REQUIRE(got == es, "the COO has other entries");
    }
    unlink(fn.c_str());
    c.nontrivial = true;
}
PROP("C34/labels", 1, labels);
// ---- ordinals of 32 bits: fewer than 2^32 entries, more than 2^32 bytes or labels
static uint32_t val32(u64 i, u64 k) { return (uint32_t)((i + k) * 2654435761u) ^ (uint32_t)((i + k) >> 27); }
static double wgt32(u64 i, u64 k) { return (double)(i * 3 + k) - 1e9; }
static void coo32(Src& s, Ctx& c) {
    typedef pigo::COO<uint32_t, uint32_t, uint32_t*> Coo;
    unsigned t = team(s); u64 m = (1ull << 30) + s.biased(1u << 24); need(c, 8 * m, 16 * m); u64 p = s.upto(1000), q = 1000 + s.upto(1000); bool tr = s.upto(1);
    c.note([&](std::ostream& o) { o << t << " threads; a COO of " << m << " entries with 32-bit labels and ordinals" << (tr ? ", transposed" : ""); });
    std::string fn = pbt::path("a.coo");
    auto same = [&](Coo& a, const char* what) {
        u64 i = first_bad(m, [&](u64 k) { return a.x()[k] == val32(k, p) && a.y()[k] == val32(k, q); });
        REQUIRE(i == m, what << " entry " << i << " of " << m << " is (" << a.x()[i] << "," << a.y()[i] << "), expected (" << val32(i, p) << "," << val32(i, q) << ")");
    };
    {
        Own<Coo> a((uint32_t)4000000000u, (uint32_t)3999999999u, (uint32_t)17, (uint32_t)m);
        par(m, [&](u64 l, u64 h) { for (u64 i = l; i < h; ++i) { a->x()[i] = val32(i, p); a->y()[i] = val32(i, q); } });
        if (tr) { a->transpose(); std::swap(p, q); REQUIRE(a->nrows() == 17 && a->ncols() == 3999999999u, "transposed sizes"); same(*a, "transposed"); }
        a->save(fn);
    }
    REQUIRE(file_size(fn) == 11 + 2 + 12 + 4 + 8 * m, "the file has " << file_size(fn) << " bytes");
    {
        Own<Coo> b(fn, pigo::PIGO_COO_BIN);
        REQUIRE(b->m() == m && b->n() == 4000000000u && b->nrows() == (tr ? 17 : 3999999999u), "loaded sizes " << b->m() << " " << b->n() << " " << b->nrows());
        same(*b, "loaded");
    }
    unlink(fn.c_str()); c.nontrivial = true;
}
PROP("C34/coo32", 1, coo32);
static void csr32(Src& s, Ctx& c) {
    typedef pigo::CSR<u8, uint32_t, u8*, uint32_t*, true, double, double*> Csr;
    unsigned t = team(s); u64 m = (1ull << 29) + s.biased(1u << 24), n = 2 + s.upto(250); need(c, 9 * m, 18 * m); Pat p{s.upto(250)}; u64 k = s.upto(1000);
    std::vector<u64> off(n + 1, 0); off[n] = m; for (u64 i = 1; i < n; ++i) off[i] = s.upto(m);
    std::sort(off.begin(), off.end());
    c.note([&](std::ostream& o) { o << t << " threads; a weighted CSR of " << n << " vertices and " << m << " endpoints with 32-bit ordinals"; });
    std::string fn = pbt::path("a.csr"); u64 want = 11 + 2 + 3 + 4 + 4 * (n + 1) + 9 * m;
    {
        Own<Csr> a((u8)n, (uint32_t)m, (u8)n, (u8)n);
        for (u64 i = 0; i <= n; ++i) a->offsets()[i] = (uint32_t)off[i];
        fill(a->endpoints(), m, p);
        par(m, [&](u64 l, u64 h) { for (u64 i = l; i < h; ++i) a->weights()[i] = wgt32(i, k); });
        REQUIRE(a->save_size() == want, "save_size() is " << a->save_size() << ", expected " << want);
        a->save(fn);
    }
    REQUIRE(file_size(fn) == want, "the file has " << file_size(fn) << " bytes, expected " << want);
    {
        Own<Csr> b(fn, pigo::PIGO_CSR_BIN);
        REQUIRE(b->m() == m && b->n() == n, "loaded sizes " << b->m() << " " << (int)b->n());
        for (u64 i = 0; i <= n; ++i) REQUIRE(b->offsets()[i] == off[i], "loaded offset " << i << " is " << b->offsets()[i]);
        require_pat(b->endpoints(), m, p, "loaded endpoint");
        u64 i = first_bad(m, [&](u64 j) { return b->weights()[j] == wgt32(j, k); });
        REQUIRE(i == m, "loaded weight " << i << " is " << b->weights()[i] << ", expected " << wgt32(i, k));
    }
    unlink(fn.c_str()); c.nontrivial = true;
}
PROP("C34/csr32", 1, csr32);
static void tensor32(Src& s, Ctx& c) {
    typedef pigo::Tensor<u8, uint32_t, u8*, u8, u8*, false> Ten;
    unsigned t = team(s); u64 order = 3 + s.upto(6), m = G4 / order + 1 + s.biased(1u << 24); need(c, 2 * m * order, 3 * m * order); Pat p{s.upto(250)};
    u64 at = s.upto(m - 1), j = s.upto(order - 1); bool text = s.upto(1);
    auto v = [&](u64 i) { return (u8)(p(i) % 9); };
    c.note([&](std::ostream& o) { o << t << " threads; a tensor of order " << order << " with " << m << " entries and 32-bit ordinals, label 9 in coordinate " << j << " of entry " << at << (text ? ", as text" : ""); });
    std::string fn = pbt::path(text ? "b.tns" : "b.ten");
    auto same = [&](Ten& a, const char* what) {
        REQUIRE(a.m() == m && a.order() == order, what << " has " << a.m() << " entries of order " << a.order());
        u64 mark = at * order + j; u64 i = first_bad(m * order, [&](u64 k) { return a.c()[k] == (k == mark ? 9 : v(k)); });
        REQUIRE(i == m * order, what << ": coordinate " << i << " is " << (int)a.c()[i] << ", expected " << (int)(i == mark ? 9 : v(i)));
    };
    {
        Own<Ten> a((uint32_t)order, (uint32_t)m); par(m * order, [&](u64 l, u64 h) { for (u64 i = l; i < h; ++i) a->c()[i] = v(i); }); a->c()[at * order + j] = 9;
        auto mx = a->max_labels();
        for (u64 k = 0; k < order; ++k) REQUIRE(mx[k] == (k == j ? 9 : 8), "the largest label in coordinate " << k << " is " << (int)mx[k]);
        if (text) {
            a->write(fn); Map f(fn);
            REQUIRE(f.n == 2 * m * order, "the text has " << f.n << " bytes, expected " << 2 * m * order);
            u64 i = first_bad(m, [&](u64 e) { for (u64 k = 0; k < order; ++k) if (f.d[2 * (e * order + k)] != '0' + a->c()[e * order + k] || f.d[2 * (e * order + k) + 1] != (k + 1 == order ? '\n' : ' ')) return false; return true; });
            REQUIRE(i == m, "line " << i << " is " << quote(std::string((char*)f.d + i * 2 * order, 2 * order)));
        } else a->save(fn);
    }
    if (text) { Own<Ten> b(fn); same(*b, "the tensor read"); }
    else { Own<Ten> b(fn, pigo::PIGO_TENSOR_BIN); same(*b, "the tensor loaded"); }
    unlink(fn.c_str()); c.nontrivial = true;
}
PROP("C34/tensor32", 1, tensor32);
#endif
