// C28: saving and writing leave exactly the object's bytes in the named file,
// whatever was there before, and change nothing else: no other file, not the
// object, not what it was read from.
#include "pipeline.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <map>

static std::map<std::string, std::string> tree() {
    std::map<std::string, std::string> r; DIR* d = opendir(pbt::scratch().c_str());
    while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; if (!stat(pbt::path(n).c_str(), &st) && S_ISREG(st.st_mode)) r[n] = get_file(pbt::path(n)); else r[n] = "(no file)"; }
    closedir(d); return r;
}
static void wipe() { for (auto& f : tree()) unlink(pbt::path(f.first).c_str()); }
static void require_tree(const std::map<std::string, std::string>& got, const std::map<std::string, std::string>& want, const char* when) {
    for (auto& f : got) { auto i = want.find(f.first); REQUIRE(i != want.end(), "the file " << f.first << " appeared " << when); REQUIRE(i->second == f.second, "the file " << f.first << " changed " << when << ": " << f.second.size() << " bytes " << quote(f.second, 200) << ", expected " << i->second.size() << " bytes " << quote(i->second, 200)); }
    REQUIRE(got.size() == want.size(), "a file disappeared " << when);
}
// Nor are other files replaced, or written with the bytes they have
struct Untouched {
    std::map<std::string, std::string> was; std::string except;
    explicit Untouched(const std::string& but = "") : except(but) { was = look(); }
    static std::map<std::string, std::string> look() {
        std::map<std::string, std::string> r; DIR* d = opendir(pbt::scratch().c_str());
        while (dirent* e = readdir(d)) { std::string n = e->d_name; struct stat st; if (n == "." || n == ".." || stat(pbt::path(n).c_str(), &st)) continue;
            r[n] = "mode " + std::to_string(st.st_mode) + " number " + std::to_string(st.st_ino) + " changed at " + std::to_string(st.st_mtim.tv_sec) + "." + std::to_string(st.st_mtim.tv_nsec); }
        closedir(d); return r;
    }
    void check(const char* when) const { auto now = look(); for (auto& f : was) if (f.first != except) { auto i = now.find(f.first); REQUIRE(i != now.end() && i->second == f.second, "the file " << f.first << " was replaced or written " << when << ": " << f.second << ", now " << (i == now.end() ? "none" : i->second)); } }
};
// Files whose names look like the one about to be written
static void neighbours(Src& s, Ctx& c, const std::string& name, std::map<std::string, std::string>& want) {
    u64 n = s.upto(2);
    for (u64 i = 0; i < n; ++i) {
        static const char* const END[] = {".tmp", "~", ".bak", ".part", ".new", ".old", ".swp", ".lock", ".0", ".1", "2", "_", ".temp", ".partial", "-tmp", "_tmp", ".pigo", ".out", ".bin", ""};
        static const char* const START[] = {"", ".", "#", "tmp", "tmp.", "_", ".#"};
        std::string stem = s.upto(3) ? name : name.substr(0, name.find('.')), o = START[s.upto(3) ? 0 : s.upto(6)] + stem + END[s.upto(19)];
        if (o == name || want.count(o)) continue;
        put_file(o, "neighbour " + o); want[o] = "neighbour " + o; c.label("with a file of a similar name");
    }
}
// What is in memory, byte for byte
template <class V> static std::string raw_bytes(const V& v) { return std::string((const char*)v.data(), v.size() * sizeof(v[0])); }
template <bool wgt, class X> static std::string image_coo(X& x) { size_t m = (size_t)x.m(); std::string r = raw_bytes(vals(x.x(), m, "x")) + raw_bytes(vals(x.y(), m, "y")) + show_dims(x); if constexpr (wgt) r += raw_bytes(vals(x.w(), m, "w")); return r; }
template <bool wgt, class X> static std::string image_csr(X& x) { size_t m = (size_t)x.m(); std::string r = raw_bytes(vals(x.offsets(), (size_t)x.n() + 1, "offsets")) + raw_bytes(vals(x.endpoints(), m, "endpoints")) + show_dims(x); if constexpr (wgt) r += raw_bytes(vals(x.weights(), m, "w")); return r; }
template <bool wgt, class X> static std::string image_ten(X& x) { size_t m = (size_t)x.m(); std::string r = raw_bytes(vals(x.c(), m * (size_t)x.order(), "c")) + std::to_string((u64)x.order()) + " " + std::to_string((u64)m); if constexpr (wgt) r += raw_bytes(vals(x.w(), m, "w")); return r; }

// The documented bytes of the saved object
template <bool wgt, class X> static std::string file_coo(X& x) { size_t m = (size_t)x.m(); Bytes b; b.str("PIGO-COO-v1").template val<uint8_t>(sizeof(C::L)).template val<uint8_t>(sizeof(C::O)).template val<C::L>(x.nrows()).template val<C::L>(x.ncols()).template val<C::L>(x.n()).template val<C::O>(x.m()); std::string r = b.s + raw_bytes(vals(x.x(), m, "x")) + raw_bytes(vals(x.y(), m, "y")); if constexpr (wgt) r += raw_bytes(vals(x.w(), m, "w")); return r; }
template <bool wgt, class X> static std::string file_csr(X& x) { size_t m = (size_t)x.m(); Bytes b; b.str("PIGO-CSR-v2").template val<uint8_t>(sizeof(C::L)).template val<uint8_t>(sizeof(C::O)).template val<C::L>(x.n()).template val<C::O>(x.m()).template val<C::L>(x.nrows()).template val<C::L>(x.ncols()); std::string r = b.s + raw_bytes(vals(x.offsets(), (size_t)x.n() + 1, "offsets")) + raw_bytes(vals(x.endpoints(), m, "endpoints")); if constexpr (wgt) r += raw_bytes(vals(x.weights(), m, "w")); return r; }
template <bool wgt, class X> static std::string file_ten(X& x) { size_t m = (size_t)x.m(); Bytes b; b.str("PIGO-Tensor-2").template val<uint8_t>(sizeof(C::L)).template val<uint8_t>(sizeof(C::O)); if (wgt) b.template val<uint8_t>(sizeof(C::W)); b.template val<C::O>(x.order()).template val<C::O>(x.m()); std::string r = b.s + raw_bytes(vals(x.c(), m * (size_t)x.order(), "c")); if constexpr (wgt) r += raw_bytes(vals(x.w(), m, "w")); return r; }

// text output, of objects that have it
template <class X> static auto write_text_(X& x, const std::string& fn, int) -> decltype(x.write(fn), void()) { x.write(fn); }
template <class X> static void write_text_(X&, const std::string&, long) { pbt::fail("harness: no text"); }
template <class X> static void write_text(X& x, const std::string& fn) { write_text_(x, fn, 0); }

// Save or write one object several times over different files
template <class X, class Img, class File> static void out(Src& s, Ctx& c, X& x, Img image, File file, bool can_write, const std::string& source, std::map<std::string, std::string> want) {
    std::string before = image(x), reference[2];
    u64 n = 1 + s.upto(3);
    for (u64 i = 0; i < n; ++i) {
        bool text = can_write && s.upto(1); unsigned over = (unsigned)s.upto(5);
        std::string name = s.pick<const char*>({"out", "out.mtx", "o.graph", "other.bin"}), old;
        bool exists = false;
        if (over == 0) { unlink(pbt::path(name).c_str()); want.erase(name); }
        else if (over == 1) { old = std::string(1 + s.upto(20), 'o'); exists = true; }
        else if (over == 2) { old = std::string(3000 + s.upto(9000), 'o'); exists = true; }
        else if (over == 3 && !source.empty()) { name = source; c.label("onto its own source"); }
        else if (over == 4) { old = ""; exists = true; }
        // else whatever was there
        if (exists) { put_file(name, old); want[name] = old; }
        neighbours(s, c, name, want);
        RtSched rs = rt_get(); rs.threads = (unsigned)(1 + s.upto(7)); rt_set(rs);
        Untouched others(name);
        if (text) write_text(x, pbt::path(name)); else x.save(pbt::path(name));
        std::string got = get_file(pbt::path(name));
        if (reference[text].empty()) {
            if (text) REQUIRE(got.find('\0') == std::string::npos && (u64)std::count(got.begin(), got.end(), '\n') == (u64)x.m() && got.back() == '\n', "the written text is not one line per entry: " << quote(got, 200));
            else { std::string f = file(x); REQUIRE(got == f, "the saved file has " << got.size() << " bytes, the object " << f.size() << ": " << quote(got, 300) << ", expected " << quote(f, 300)); }
            reference[text] = got;
        }
        REQUIRE(got == reference[text], (text ? "writing" : "saving") << " over " << (exists ? "another file" : "nothing or an earlier file") << " gave " << got.size() << " bytes, before " << reference[text].size());
        if (!text) REQUIRE(got.find("oooooooo") == std::string::npos, "old bytes are left in the saved file");
        want[name] = got;
        require_tree(tree(), want, text ? "while writing" : "while saving"); others.check(text ? "while another was written" : "while another was saved");
        REQUIRE(image(x) == before, "the object changed while it was " << (text ? "written" : "saved"));
        c.label(text ? "written" : "saved"); c.label(over == 0 ? "new file" : over == 1 ? "over a shorter file" : over == 2 ? "over a longer file" : over == 4 ? "over an empty file" : "over an earlier file");
    }
}
template <bool wgt> static void files(Src& s, Ctx& c) {
    wipe();
    gen_sched(s, c, 12);
    unsigned k = (unsigned)s.upto(4);
    TextCase t;
    if (k < 4) t = gen_text(s, c, std::min<u64>(C::max_label(), 70), 60, wspec<C::W>(), wgt, false, C::max_bulk() / 2);
    else { TensorCase x = gen_tensor(s, c, std::min<u64>(C::max_label(), 70), 40, wspec<C::W>(), C::max_bulk() / 2); t.text = tensor_text(s, c, x, wgt); t.fn = put_file("in.tns", t.text); t.m = x.m(); }
    std::string source = t.fn.substr(t.fn.rfind('/') + 1);
    put_file("sentinel", "do not touch"); put_file("out2", "nor this");
    std::map<std::string, std::string> want = tree();
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << (k == 0 ? "COO" : k == 1 ? "CSR" : k == 2 ? "Graph" : k == 3 ? "DiGraph" : "Tensor") << (wgt ? ", weighted" : "") << " from " << source << "\n" << quote(t.text); });
    std::string from = s.upto(1) ? source : ""; Untouched others;
    if (k < 4 && throws_error([&] { Own<CooT<C, false, false, false, wgt>> x(t.fn); })) { require_tree(tree(), want, "while reading was refused"); others.check("while reading was refused"); c.label("refused"); return; }
    if (k == 0) { Own<CooT<C, false, false, false, wgt>> x(t.fn); require_tree(tree(), want, "while reading"); others.check("while reading"); out(s, c, *x, [](auto& y) { return image_coo<wgt>(y); }, [](auto& y) { return file_coo<wgt>(y); }, x->m() > 0, from, want); }
    else if (k == 1) { Own<CsrT<C, wgt>> x(t.fn); require_tree(tree(), want, "while reading"); others.check("while reading"); out(s, c, *x, [](auto& y) { return image_csr<wgt>(y); }, [](auto& y) { return file_csr<wgt>(y); }, false, from, want); }
    else if (k == 2) { Own<GraphT<C, wgt>> x(t.fn); require_tree(tree(), want, "while reading"); others.check("while reading"); out(s, c, *x, [](auto& y) { return image_csr<wgt>(y); }, [](auto& y) { return file_csr<wgt>(y); }, false, from, want); }
    else if (k == 3) { Own<DiT<C, wgt>> x(t.fn); require_tree(tree(), want, "while reading"); others.check("while reading"); out(s, c, *x, [](auto& y) { return image_csr<wgt>(y.in()) + image_csr<wgt>(y.out()); }, [](auto& y) { return "PIGO-DiGraph-v1" + file_csr<wgt>(y.in()) + file_csr<wgt>(y.out()); }, false, from, want); }
    else { Own<TenT<C, wgt>> x(t.fn); require_tree(tree(), want, "while reading"); others.check("while reading"); out(s, c, *x, [](auto& y) { return image_ten<wgt>(y); }, [](auto& y) { return file_ten<wgt>(y); }, x->m() > 0, from, want); }
    c.nontrivial = t.m >= 2;
}
CPROP("C28/files", 2, files<false>);
CPROP("C28/files weighted", 2, files<true>);

// Reading and converting a binary file, and using what was read, leaves it
template <bool wgt> static void binary(Src& s, Ctx& c) {
    wipe();
    gen_sched(s, c, 12);
    EntSpec sp; sp.max_x = sp.max_y = std::min<u64>(C::max_label(), 70); sp.max_m = 60; sp.max_bulk = C::max_bulk() / 2; auto es = mem_entries<C::W>(s, c, sp, wgt); Dims d = dims_of(es);
    unsigned k = (unsigned)s.upto(2);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << (k == 0 ? "COO" : k == 1 ? "CSR" : "DiGraph") << (wgt ? ", weighted" : "") << " binary, " << show(es, wgt); });
    typedef CooT<C, false, false, false, wgt> X; std::string fn = pbt::path("in.bin");
    Own<X> coo((C::L)d.n, (C::L)d.nr, (C::L)d.nc, (C::O)es.size()); fill_coo<X, wgt>(*coo, es);
    if (k == 0) coo->save(fn); else if (k == 1) { Own<CsrT<C, wgt>> g(*coo); g->save(fn); } else { Own<DiT<C, wgt>> g(*coo); g->save(fn); }
    put_file("sentinel", "do not touch"); auto want = tree(); Untouched others;
    auto change = [&](auto& csr) { csr.sort(); auto e = csr.new_csr_without_dups(); e.free(); auto p = raw(csr.endpoints()); for (size_t i = 0; i < es.size(); ++i) p[i] = 0; if constexpr (wgt) { auto w = raw(csr.weights()); for (size_t i = 0; i < es.size(); ++i) w[i] = 0; } };
    if (k == 2) { Own<DiT<C, wgt>> g(fn); require_tree(tree(), want, "while reading"); change(g->in()); change(g->out()); }
    else if (s.upto(1)) { Own<CsrT<C, wgt>> g(fn); require_tree(tree(), want, "while reading"); Own<X> back(*g); change(*g); back->transpose(); }
    else { Own<X> x(fn); require_tree(tree(), want, "while reading"); x->transpose(); auto p = raw(x->x()); for (size_t i = 0; i < es.size(); ++i) p[i] = 0; }
    require_tree(tree(), want, "while what was read from it changed"); others.check("while what was read from it changed");
    c.label("read and changed"); c.nontrivial = es.size() >= 2;
}
CPROP("C28/binary", 1, binary<false>);
CPROP("C28/binary weighted", 1, binary<true>);

// A CSR saved into part of an open file
template <bool wgt> static void part(Src& s, Ctx& c) {
    wipe();
    gen_sched(s, c, 12);
    EntSpec sp; sp.max_x = sp.max_y = std::min<u64>(C::max_label(), 70); sp.max_m = 60; sp.max_bulk = C::max_bulk() / 2; auto es = mem_entries<C::W>(s, c, sp, wgt); Dims d = dims_of(es);
    size_t head = s.upto(40), tail = s.upto(40);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; CSR" << (wgt ? ", weighted" : "") << " between " << head << " and " << tail << " other bytes, " << show(es, wgt); });
    typedef CooT<C, false, false, false, wgt> X;
    Own<X> coo((C::L)d.n, (C::L)d.nr, (C::L)d.nc, (C::O)es.size()); fill_coo<X, wgt>(*coo, es); Own<CsrT<C, wgt>> g(*coo);
    std::string before = image_csr<wgt>(*g); g->save(pbt::path("alone")); std::string alone = get_file(pbt::path("alone"));
    REQUIRE(alone.size() == g->save_size(), "save_size() is " << g->save_size() << ", the file has " << alone.size() << " bytes");
    std::string h(head, 'h'), e(tail, 't');
    {
        pigo::WFile w(pbt::path("part"), head + alone.size() + tail); w.write(h);
        g->save(w);
        REQUIRE(w.reader().size() == tail, "saving moved the position to " << w.reader().size() << " bytes before the end, expected " << tail);
        w.write(e);
        // and over it once more
        if (s.upto(1)) { w.seek(head); g->save(w); }
    }
    std::string got = get_file(pbt::path("part"));
    REQUIRE(got == h + alone + e, "the file holds " << quote(got, 300) << ", expected " << quote(h + alone + e, 300));
    { pigo::ROFile r(pbt::path("part")); if (head) r.seek(head); Own<CsrT<C, wgt>> back(static_cast<pigo::File&>(r), pigo::PIGO_CSR_BIN); REQUIRE(image_csr<wgt>(*back) == before, "the CSR loaded from part of a file differs"); REQUIRE(r.reader().size() == tail, "loading left the position elsewhere"); }
    REQUIRE(image_csr<wgt>(*g) == before, "the CSR changed while it was saved");
    if (tail == 0) c.label("up to the end"); c.label("part of a file"); c.nontrivial = es.size() >= 2;
}
CPROP("C28/part", 1, part<false>);
CPROP("C28/part weighted", 1, part<true>);
