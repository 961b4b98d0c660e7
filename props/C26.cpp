// C26: an open file is an array of bytes with a position: every read and
// write acts on the bytes at the position and moves it by exactly their
// number; what does not fit is an Error and changes nothing.
#include "lib.hpp"
#include <map>

#if VP_PART == 0
struct Three { char a, b, c; bool operator==(const Three& o) const { return a == o.a && b == o.b && c == o.c; } };
struct Big { uint64_t v[5]; };

struct Model { std::vector<int> b; size_t pos = 0; bool writable = false; };      // -1: never written

struct Run {
    Src& s; Ctx& c; Model m; std::unique_ptr<pigo::File> f; std::string fn; bool over = false; size_t done = 0, refused = 0;
    Run(Src& s_, Ctx& c_) : s(s_), c(c_) {}
    size_t left() { return m.b.size() - m.pos; }
    void check_pos() {
        REQUIRE(f->size() == m.b.size(), "size() is " << f->size() << ", expected " << m.b.size());
        pigo::FileReader r = f->reader();
        REQUIRE(r.size() == left(), left() << " bytes are left, the reader has " << r.size());
        REQUIRE(r.d == f->fp(), "fp() and reader() differ");
        REQUIRE((r.size() == 0) == !r.good(), "good() is wrong");
        for (size_t i = 0, n = std::min<size_t>(3, left()); i < n; ++i) REQUIRE(m.b[m.pos + i] < 0 || (unsigned char)r.d[i] == m.b[m.pos + i], "byte " << m.pos + i << " is " << (int)(unsigned char)r.d[i] << ", expected " << m.b[m.pos + i]);
    }
    template <class T> void rd() {
        T v; memset(&v, 0, sizeof v);
        bool err = throws_error([&] { v = f->template read<T>(); });
        REQUIRE(err == (sizeof(T) > left()), "reading " << sizeof(T) << " of " << left() << " bytes " << (err ? "was refused" : "was not refused"));
        if (err) { ++refused; return; }
        unsigned char p[sizeof(T)]; memcpy(p, &v, sizeof(T));
        for (size_t i = 0; i < sizeof(T); ++i) REQUIRE(m.b[m.pos + i] < 0 || p[i] == m.b[m.pos + i], "byte " << i << " of the value read at " << m.pos << " is " << (int)p[i] << ", expected " << m.b[m.pos + i]);
        m.pos += sizeof(T); ++done;
    }
    template <class T> void wr() {
        unsigned char p[sizeof(T)]; bool small = s.upto(1); for (auto& x : p) x = (unsigned char)(small ? 0 : s.upto(255)); p[0] = (unsigned char)s.upto(255);
        T v; memcpy(&v, p, sizeof(T));
        bool err = throws_error([&] { f->template write<T>(v); });
        REQUIRE(err == (sizeof(T) > left()), "writing " << sizeof(T) << " bytes with " << left() << " left " << (err ? "was refused" : "was not refused"));
        if (err) { ++refused; return; }
        for (size_t i = 0; i < sizeof(T); ++i) m.b[m.pos + i] = p[i];
        m.pos += sizeof(T); ++done;
    }
    size_t amount() {
        switch (s.upto(5)) { case 0: return left(); case 1: return left() + 1; case 2: return left() + s.biased(1000000); case 3: return 0; default: return s.upto(left()); }
    }
    void step() {
        unsigned op = (unsigned)s.upto(m.writable ? 15 : 9);
        if (op == 0) {
            size_t p = s.chance(1, 6) ? m.b.size() + 1 + s.biased(1u << 30) : s.upto(m.b.size() - 1);
            bool err = throws_error([&] { f->seek(p); });
            REQUIRE(err == (p > m.b.size()), "seeking to " << p << " of " << m.b.size() << (err ? " was refused" : " was not refused"));
            if (!err) { m.pos = p; ++done; } else ++refused;
        } else if (op == 1) rd<uint8_t>(); else if (op == 2) rd<uint32_t>(); else if (op == 3) rd<int64_t>(); else if (op == 4) rd<uint16_t>();
        else if (op == 5) { if (s.upto(1)) rd<Three>(); else rd<Big>(); }
        else if (op == 6) {                             // a region read in parallel
            size_t n = amount(); std::vector<char> buf(std::min(n, left()) + 1, 'q');
            bool err = throws_error([&] { f->parallel_read(buf.data(), n); });
            REQUIRE(err == (n > left()), "a parallel read of " << n << " with " << left() << " left " << (err ? "was refused" : "was not refused"));
            if (err) { ++refused; return; }
            for (size_t i = 0; i < n; ++i) REQUIRE(m.b[m.pos + i] < 0 || (unsigned char)buf[i] == m.b[m.pos + i], "byte " << i << " of a parallel read of " << n << " at " << m.pos << " is " << (int)(unsigned char)buf[i] << ", expected " << m.b[m.pos + i]);
            REQUIRE(buf[n] == 'q', "a parallel read of " << n << " wrote more");
            m.pos += n; ++done;
        } else if (op == 7) {                           // an expected string
            size_t n = s.upto(std::min<size_t>(left(), 12)); std::string t; bool known = true;
            for (size_t i = 0; i < n; ++i) { known &= m.b[m.pos + i] >= 0; t += (char)m.b[m.pos + i]; }
            if (!known) return;
            bool same = true;
            if (s.upto(1)) { if (n && s.upto(1)) { t[s.upto(n - 1)] ^= (char)(1u << s.upto(7)); same = false; } else if (n == left()) { t += 'x'; same = false; } }
            bool err = throws_error([&] { f->read(t); });
            REQUIRE(err == !same, "reading the string " << quote(t) << " was " << (err ? "refused" : "accepted"));
            if (!err) { m.pos += n; ++done; } else ++refused;
        } else if (op == 8) {                           // moved
            if (s.upto(1)) { std::unique_ptr<pigo::File> g(new pigo::File(std::move(*f))); f = std::move(g); }
            else {
                std::unique_ptr<pigo::File> g(new pigo::File(put_file("other.bin", std::string(1 + s.upto(20), 'o')), pigo::READ));
                *g = std::move(*f); f = std::move(g);
            }
            ++done;
        } else if (op == 9) {                           // room for elements
            size_t el = s.pick<size_t>({1, 2, 4, 8, 3, 0}), n = s.chance(1, 4) ? (size_t)-1 - s.biased(100) : s.upto(left() + 2);
            bool err = throws_error([&] { f->check_remaining(n, el); });
            bool fits = el == 0 || n <= left() / el;
            REQUIRE(err == !fits, n << " elements of " << el << " bytes with " << left() << " left: " << (err ? "refused" : "accepted"));
            ++done;
        } else if (op == 10) wr<uint8_t>(); else if (op == 11) wr<uint32_t>(); else if (op == 12) { if (s.upto(1)) wr<uint64_t>(); else wr<Big>(); } else if (op == 13) { if (s.upto(1)) wr<Three>(); else wr<uint16_t>(); }
        else if (op == 14) {
            size_t n = amount(), real = std::min(n, left() + 1); std::vector<char> buf(real); char k = (char)s.upto(255); bool flat = s.upto(1);
            for (size_t i = 0; i < real; ++i) buf[i] = flat ? k : (char)(k + i * 7);
            std::vector<char> copy = buf;
            bool err = throws_error([&] { f->parallel_write(buf.data(), n); });
            REQUIRE(err == (n > left()), "a parallel write of " << n << " with " << left() << " left " << (err ? "was refused" : "was not refused"));
            REQUIRE(buf == copy, "a parallel write changed what it wrote from");
            if (err) { ++refused; return; }
            for (size_t i = 0; i < n; ++i) m.b[m.pos + i] = (unsigned char)buf[i];
            m.pos += n; ++done;
        } else {
            std::string t; size_t n = s.upto(1) ? s.upto(20) : left() + s.upto(1); if (n > 4000) n = 4000;
            for (size_t i = 0; i < n; ++i) t += (char)s.upto(255);
            bool err = throws_error([&] { f->write(t); });
            REQUIRE(err == (n > left()), "writing a string of " << n << " with " << left() << " left " << (err ? "was refused" : "was not refused"));
            if (err) { ++refused; return; }
            for (char ch : t) m.b[m.pos++] = (unsigned char)ch;
            ++done;
        }
    }
    void run() {
        gen_sched(s, c, 16);
        size_t size = s.chance(1, 8) ? 1 + s.upto(70000) : 1 + s.size(400); fn = "f.bin";
        bool w = s.upto(2) > 0;
        c.note([&](std::ostream& o) { o << show(rt_get()) << "; " << (w ? "a file being written" : "a file being read") << ", " << size << " bytes"; });
        m.b.assign(size, -1);
        if (w) { if (s.upto(1)) { put_file(fn, std::string(s.upto(2 * size), (char)0xab)); over = true; } f.reset(new pigo::WFile(pbt::path(fn), size)); m.writable = true; }
        else { std::string t; for (size_t i = 0; i < size; ++i) { char ch = (char)(size > 2000 ? i * 31 >> 3 : s.upto(255)); t += ch; m.b[i] = (unsigned char)ch; } put_file(fn, t); f.reset(new pigo::ROFile(pbt::path(fn))); }
        check_pos();
        u64 n = s.size(25);
        for (u64 i = 0; i < n; ++i) { step(); check_pos(); }
        if (s.upto(1) && w) {                           // another reader sees what was written
            pigo::ROFile r(pbt::path(fn)); REQUIRE(r.size() == size, "a second reader sees " << r.size() << " bytes");
            for (size_t i = 0; i < size; ++i) REQUIRE(m.b[i] < 0 || (unsigned char)r.fp()[i] == m.b[i], "a second reader sees another byte at " << i);
        }
        f.reset();
        std::string d = get_file(pbt::path(fn));
        REQUIRE(d.size() == size, "the file has " << d.size() << " bytes, expected " << size);
        for (size_t i = 0; i < size; ++i) REQUIRE(m.b[i] < 0 || (unsigned char)d[i] == m.b[i], "byte " << i << " of the file is " << (int)(unsigned char)d[i] << ", expected " << m.b[i]);
        // a file opened for writing replaces the old one
        if (over) for (size_t i = 0; i < size; ++i) REQUIRE(m.b[i] >= 0 || (unsigned char)d[i] != 0xab, "byte " << i << ", never written, is that of the file before");
        c.label(w ? "written" : "read"); if (refused) c.label("something refused"); c.nontrivial = done >= 2;
    }
};
static void history(Src& s, Ctx& c) { Run r(s, c); r.run(); }
PROP("C26/history", 10, history);

// The free functions on positions in memory
template <class T> static T value(Src& s) { unsigned char p[sizeof(T)]; for (auto& x : p) x = (unsigned char)s.upto(255); T v; memcpy(&v, p, sizeof(T)); return v; }
static void memory(Src& s, Ctx& c) {
    gen_sched(s, c, 16);
    size_t n = s.chance(1, 10) ? s.upto(s.chance(1, 50) ? 3000000 : 30000) : s.size(300), head = s.upto(9);
    c.note([&](std::ostream& o) { o << show(rt_get()) << "; region of " << n << " bytes at " << head; });
    std::vector<char> src(n), buf(head + n + 8 + 4 + 5, '.'), back(n + 1, '.');
    for (size_t i = 0; i < n; ++i) src[i] = (char)(n > 500 ? i * 13 >> 2 : s.upto(255));
    uint64_t a = value<uint64_t>(s); uint32_t b = value<uint32_t>(s); std::string t; for (u64 i = 0; i < head; ++i) t += (char)s.upto(255);
    pigo::FilePos fp = buf.data();
    pigo::write(fp, t); REQUIRE(fp == buf.data() + head, "writing a string of " << head << " moved by " << fp - buf.data());
    pigo::parallel_write(fp, src.data(), n); REQUIRE(fp == buf.data() + head + n, "a parallel write of " << n << " moved by " << fp - buf.data() - (long)head);
    pigo::write(fp, a); pigo::write(fp, b); REQUIRE(fp == buf.data() + head + n + 12, "writing 8 and 4 bytes moved by something else");
    std::string want = t + std::string(src.begin(), src.end()) + std::string((char*)&a, 8) + std::string((char*)&b, 4) + ".....";
    REQUIRE(std::string(buf.begin(), buf.end()) == want, "wrote " << quote(std::string(buf.begin(), buf.end())) << ", expected " << quote(want));
    fp = buf.data() + head;
    pigo::parallel_read(fp, back.data(), n); REQUIRE(fp == buf.data() + head + n, "a parallel read of " << n << " moved by something else");
    REQUIRE(std::equal(src.begin(), src.end(), back.begin()) && back[n] == '.', "a parallel read gave other bytes");
    REQUIRE(pigo::read<uint64_t>(fp) == a && pigo::read<uint32_t>(fp) == b && fp == buf.data() + head + n + 12, "values read back differ");
    c.label("memory"); c.nontrivial = n >= 2 && rt_multi();
}
PROP("C26/memory", 3, memory);

// Files that cannot be opened so
static void refused(Src& s, Ctx& c) {
    gen_sched(s, c, 4); unsigned k = (unsigned)s.upto(5); std::string fn = pbt::path("x.bin");
    c.note([&](std::ostream& o) { o << "way " << k; });
    if (k == 0) REQUIRE(throws_error([&] { pigo::ROFile f(pbt::path("none.bin")); }), "a missing file was opened");
    else if (k == 1) { put_file("x.bin", "old"); REQUIRE(throws_error([&] { pigo::WFile f(fn, 0); }), "a file of no bytes was opened for writing"); REQUIRE(get_file(fn) == "old", "the file was changed all the same"); }
    else if (k == 2) { put_file("x.bin", "old"); REQUIRE(throws_error([&] { pigo::File f(fn, pigo::READ, 1 + s.biased(1000)); }), "a size was accepted for reading"); REQUIRE(get_file(fn) == "old", "the file was changed all the same"); }
    else if (k == 3) { put_file("x.bin", ""); REQUIRE(throws_error([&] { pigo::ROFile f(fn); f.read<uint8_t>(); }), "an empty file was read"); }
    else if (k == 4) REQUIRE(throws_error([&] { pigo::WFile f(pbt::path("no/such/dir"), 1 + s.upto(9)); }), "a file in a missing directory was opened for writing");
    else REQUIRE(throws_error([&] { pigo::ROFile f(pbt::scratch()); f.read<uint8_t>(); }), "a directory was opened");
    c.nontrivial = true; c.label("refused");
}
PROP("C26/refused", 1, refused);
#endif
