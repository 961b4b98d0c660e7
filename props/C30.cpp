// C30: when the system refuses something, the caller gets an Error it can
// catch (or the right result), nothing stays open, and trying again works.
#include "pipeline.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <functional>
#include <fstream>
#include <map>

// Descriptors and mappings of files in the scratch directory this process has
struct Held { size_t fds = 0, maps = 0; bool operator==(const Held& o) const { return fds == o.fds && maps == o.maps; } };
static Held held() {
    Held h; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++h.fds; closedir(d);
    FILE* f = fopen("/proc/self/maps", "r"); char line[2000]; size_t n = 0; std::string key = pbt::scratch() + "/";
    while (fgets(line, sizeof line, f)) if (strstr(line, key.c_str())) ++h.maps;
    (void)n; fclose(f); return h;
}
static void require_held(const Held& got, const Held& want, const std::string& when) {
    REQUIRE(got.fds == want.fds, (i64)(got.fds - want.fds) << " descriptors are left open " << when);
    REQUIRE(got.maps == want.maps, (i64)(got.maps - want.maps) << " mappings of files are left " << when);
    REQUIRE(rt_io().bad == 0, rt_io().bad_what << " " << when);
}
typedef std::function<std::string()> Op;
// Meanwhile the user is one that can read the scratch directory and its files, and change nothing
struct Nobody {
    bool on = false;
    bool become() {
        std::string d = pbt::scratch(), up = d.substr(0, d.rfind('/'));
        chmod(up.c_str(), 0711); chmod(d.c_str(), 0555);
        DIR* l = opendir(d.c_str()); while (dirent* e = readdir(l)) if (e->d_type == DT_REG) chmod(pbt::path(e->d_name).c_str(), 0444);
        closedir(l);
        on = seteuid(65534) == 0; if (on && faccessat(AT_FDCWD, pbt::path("in.el").c_str(), R_OK, AT_EACCESS) != 0 && errno != ENOENT) { back(); return false; }
        return on;
    }
    void back() {
        if (on) { if (seteuid(0)) abort(); prctl(PR_SET_DUMPABLE, 1); } on = false;
        std::string d = pbt::scratch(); chmod(d.c_str(), 0700);
    }
    ~Nobody() { if (on) back(); }
};
// The standard input is closed meanwhile, so that 0 is the next descriptor
struct NoStdin {
    int kept = -1;
    void close_it() { kept = fcntl(0, F_DUPFD_CLOEXEC, 100); if (kept >= 0) ::close(0); }
    ~NoStdin() { if (kept >= 0) { dup2(kept, 0); ::close(kept); } }
};
template <bool wgt, class X> static std::string csr_text(X& g) { size_t n = (size_t)g.n(); Rows r = csr_rows<wgt>(g, n); sort_rows(r); return canon(r, wgt) + show_dims(g); }
template <class X> static std::string ten_text(X& t) { std::string v = std::to_string((u64)t.order()) + " " + std::to_string((u64)t.m()); for (auto l : vals(t.c(), (size_t)t.m() * (size_t)t.order(), "c")) v += " " + std::to_string((u64)l); return v; }
static std::string slurp(const std::string& fn) { std::ifstream f(fn, std::ios::binary); if (!f) return "(none)"; std::ostringstream o; o << f.rdbuf(); return o.str(); }

template <bool wgt> struct World {
    std::vector<std::unique_ptr<Own<CooT<C, false, false, false, wgt>>>> coo; std::vector<std::unique_ptr<Own<CsrT<C, wgt>>>> csr; std::vector<std::unique_ptr<Own<DiT<C, wgt>>>> di; std::vector<std::unique_ptr<Own<TenT<C, wgt>>>> ten;
    std::string what; bool writes = false; std::string target = "out.bin"; u64 m = 0;
    Op make(Src& s, Ctx& c) {
        u64 lim = std::min<u64>(C::max_label(), 60) - 3; WSpec w = wspec<C::W>();
        EntSpec sp; sp.max_x = sp.max_y = lim; sp.max_m = 30; sp.w = w; auto es = gen_entries(s, c, sp); no_neg_zero(es); if (es.empty()) { es.resize(1); es[0].w.t = "1"; es[0].w.v = 1; } m = es.size();
        Dims d = dims_of(es); std::string el = put_file("in.el", el_text(s, c, es, wgt, Dress()));
        unsigned k = (unsigned)s.upto(16); std::string out = pbt::path(target);
        typedef CooT<C, false, false, false, wgt> X; typedef CsrT<C, wgt> Y; typedef DiT<C, wgt> Z; typedef TenT<C, wgt> T;
        switch (k) {
            case 0: what = "COO from an edge list"; return [=] { Own<X> x(el); return canon(entries<wgt>(*x), wgt); };
            case 1: { what = "COO from Matrix Market"; std::string fn = put_file("in.mtx", mm_text(s, c, es, std::max<u64>(1, d.nr), std::max<u64>(1, d.nc), es.size(), wgt, Dress())); return [=] { Own<X> x(fn); return canon(entries<wgt>(*x), wgt); }; }
            case 2: what = "CSR from an edge list"; return [=] { Own<Y> x(el); return csr_text<wgt>(*x); };
            case 3: what = "DiGraph from an edge list"; return [=] { Own<Z> x(el); return csr_text<wgt>(x->in()) + csr_text<wgt>(x->out()); };
            case 4: what = "Matrix from an edge list"; return [=] { Own<MatT<C, wgt>> x(el); return csr_text<wgt>(x->csr()) + csr_text<wgt>(x->csc()); };
            case 5: what = "Graph from a .graph file"; { GraphCase g = gen_graph(s, c, lim, 30, lim, true); std::string fn = put_file("in.graph", g.text); return [=] { Own<GraphT<C, false>> x(fn); return csr_text<false>(*x); }; }
            case 6: case 7: { TensorCase t = gen_tensor(s, c, lim, 30, w); std::string fn = put_file("in.tns", tensor_text(s, c, t, wgt));
                if (k == 6) { what = "Tensor from text"; return [=] { Own<T> x(fn); return ten_text(*x); }; }
                ten.emplace_back(new Own<T>(fn)); T& x = **ten[0]; if (x.m() > 0 && s.upto(1)) { what = "Tensor::write"; writes = true; return [=, &x] { x.write(out); return slurp(out); }; }
                what = "Tensor::save"; writes = true; return [=, &x] { x.save(out); return slurp(out); }; }
            case 8: { what = "COO::save"; writes = true; coo.emplace_back(new Own<X>(el)); X& x = **coo[0]; return [=, &x] { x.save(out); return slurp(out); }; }
            case 9: { what = "COO::write"; writes = true; coo.emplace_back(new Own<X>(el)); X& x = **coo[0]; return [=, &x] { x.write(out); return slurp(out); }; }
            case 10: { what = "CSR::save"; writes = true; csr.emplace_back(new Own<Y>(el)); Y& x = **csr[0]; return [=, &x] { x.save(out); return slurp(out); }; }
            case 11: { what = "DiGraph::save"; writes = true; di.emplace_back(new Own<Z>(el)); Z& x = **di[0]; return [=, &x] { x.save(out); return slurp(out); }; }
            case 12: { what = "COO from a binary file"; std::string fn = pbt::path("in.bin"); { Own<X> x(el); x->save(fn); } return [=] { Own<X> x(fn); return canon(entries<wgt>(*x), wgt); }; }
            case 13: { what = "CSR from a binary file"; std::string fn = pbt::path("in.bin"); { Own<Y> x(el); x->save(fn); } return [=] { Own<Y> x(fn); return csr_text<wgt>(*x); }; }
            case 14: { what = "DiGraph from a binary file"; std::string fn = pbt::path("in.bin"); { Own<Z> x(el); x->save(fn); } return [=] { Own<Z> x(fn); return csr_text<wgt>(x->in()) + csr_text<wgt>(x->out()); }; }
            case 15: what = "ROFile"; return [=] { pigo::ROFile f(el); pigo::FileReader r = f.reader(); return std::string(r.d, r.d + r.size()); };
            default: what = "WFile"; writes = true; { size_t n = 1 + s.upto(9000); return [=] { { pigo::WFile f(out, n); std::vector<char> v(n); for (size_t i = 0; i < n; ++i) v[i] = (char)(i * 7); f.parallel_write(v.data(), n); } return slurp(out); }; }
        }
    }
};
template <bool wgt> static void inject(Src& s, Ctx& c) {
    gen_sched(s, c, 12);
    unlink(pbt::path("out.bin").c_str());
    World<wgt> w; Op op = w.make(s, c);
    put_file("sentinel", "do not touch");
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << w.what << (wgt ? ", weighted" : ""); });
    RtIo& io = rt_io(); NoStdin none; bool closed = s.chance(1, 8);
    std::string before; if (closed) { c.note([&](std::ostream& o) { o << ", standard input closed"; }); before = op(); none.close_it(); }
    Held h0 = held();
    io = RtIo(); io.on = true; std::string want = op(); io.on = false;
    if (closed) { REQUIRE(want == before, w.what << " gives something else without a standard input"); c.label("standard input closed"); }
    i64 n = io.calls; std::vector<std::string> names = io.names;
    require_held(held(), h0, "after " + w.what);
    if (n == 0) { c.label("no calls"); return; }
    i64 k = (i64)s.upto(n - 1), k2 = s.chance(1, 3) ? k + 1 + (i64)s.upto(2) : -1;
    bool old = w.writes && s.upto(1); if (old) put_file(w.target, std::string(s.upto(20000), 'o'));
    c.note([&](std::ostream& o) { o << "; call " << k << " of " << n << " (" << names[k] << ") fails" << (k2 >= 0 ? ", and one more" : "") << (old ? ", over an existing file" : ""); });
    io = RtIo(); io.on = true; io.fail_at = k; io.fail_at2 = k2;
    std::string got; bool err = throws_error([&] { got = op(); });
    io.on = false;
    if (!err) REQUIRE(got == want, w.what << " gave something else without an error when " << io.failed << " failed");
    require_held(held(), h0, "after " + w.what + " with a failing " + io.failed);
    REQUIRE(get_file(pbt::path("sentinel")) == "do not touch", "another file was changed");
    io = RtIo(); got = op();
    REQUIRE(got == want, w.what << " gives something else after a failing " << names[k]);
    require_held(held(), h0, "after " + w.what + " once more");
    c.label(std::string("fails: ") + names[k]); c.label(err ? "Error" : "right all the same"); c.label(w.what); c.nontrivial = true;
}
CPROP("C30/inject", 3, inject<false>);
CPROP("C30/inject weighted", 2, inject<true>);

// Refusals by the real system
template <bool wgt> static void real(Src& s, Ctx& c) {
    gen_sched(s, c, 12);
    unlink(pbt::path("out.bin").c_str());
    World<wgt> w; unsigned k = (unsigned)s.upto(6);
    static const char* const WAY[] = {"a missing directory", "a directory", "a full device", "a file size limit", "no descriptors left", "an endless name", "no permission to write"};
    if (k == 0) w.target = "none/out.bin"; else if (k == 1) { w.target = "dir"; mkdir(pbt::path("dir").c_str(), 0700); } else if (k == 2) w.target = "full"; else if (k == 5) w.target = std::string(300, 'n');
    if (k == 2 && symlink("/dev/full", pbt::path("full").c_str()) && errno != EEXIST) pbt::fail("harness: no link");
    Op op = w.make(s, c);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << show(rt_get()) << "; " << w.what << (wgt ? ", weighted" : "") << ": " << WAY[k]; });
    Held h0 = held();
    if (k == 6) {
        std::string want = op(), there = s.upto(1) ? "(none)" : std::string(1 + s.upto(6000), 'o'), got; bool err;
        unlink(pbt::path("out.bin").c_str()); if (w.writes && there != "(none)") put_file("out.bin", there); else there = "(none)";
        Nobody u; if (!u.become()) { u.back(); c.label("no other user"); return; }
        err = throws_error([&] { got = op(); });
        u.back();
        if (w.writes) { REQUIRE(err, w.what << " did not notice " << WAY[k]); REQUIRE(slurp(pbt::path("out.bin")) == there, "the file changed"); }
        else REQUIRE(!err && got == want, w.what << " needs more than the permission to read");
        require_held(held(), h0, "after " + w.what + " and " + WAY[k]);
        unlink(pbt::path("out.bin").c_str()); REQUIRE(op() == want, w.what << " gives something else after " << WAY[k]);
        c.label(WAY[k]); c.label(err ? "Error" : "not affected"); c.nontrivial = true;
        return;
    }
    bool limited = k == 3 || k == 4;
    std::string want, got; if (limited) want = op();
    size_t size = w.writes && limited ? want.size() : 0;
    rlimit old; int what = k == 3 ? RLIMIT_FSIZE : RLIMIT_NOFILE; bool can_fail = w.writes || k == 4;
    if (limited) {
        signal(SIGXFSZ, SIG_IGN); getrlimit(what, &old); rlimit r = old;
        r.rlim_cur = k == 3 ? s.upto(size ? size - 1 : 0) : 0;
        setrlimit(what, &r);
    }
    bool err; try { err = throws_error([&] { got = op(); }); } catch (...) { if (limited) setrlimit(what, &old); throw; }
    if (limited) { setrlimit(what, &old); if (!err && w.writes) got = slurp(pbt::path(w.target)); }
    if (can_fail) REQUIRE(err, w.what << " did not notice " << WAY[k]);
    else if (limited) REQUIRE(!err && got == want, w.what << " failed for a file size limit");
    require_held(held(), h0, "after " + w.what + " and " + WAY[k]);
    if (limited) { REQUIRE(op() == want, w.what << " gives something else after " << WAY[k]); require_held(held(), h0, "after " + w.what + " once more"); }
    c.label(WAY[k]); c.label(err ? "Error" : "not affected"); c.nontrivial = can_fail;
}
CPROP("C30/real", 2, real<false>);
CPROP("C30/real weighted", 1, real<true>);

#if VP_PART == 0
// What is open is exactly what File objects hold, wherever they move
static void files(Src& s, Ctx& c) {
    gen_sched(s, c, 4);
    u64 n = 1 + s.size(20); const size_t K = 4; std::unique_ptr<pigo::File> f[K]; std::string content[K]; bool live[K] = {};
    c.note([&](std::ostream& o) { o << "files:"; });
    RtIo& io = rt_io(); io = RtIo(); Held h0 = held(); u64 moves = 0;
    for (u64 i = 0; i < n; ++i) {
        unsigned op = (unsigned)s.upto(4); size_t a = s.upto(K - 1), b = s.upto(K - 1);
        c.note([&](std::ostream& o) { o << " " << op << ":" << a << "," << b; });
        if (op == 0) { content[a] = std::string(1 + s.upto(9000), (char)('a' + i)); std::string fn = put_file("f" + std::to_string(i), content[a]); f[a].reset(new pigo::ROFile(fn)); live[a] = true; }
        else if (op == 1) { f[a].reset(); live[a] = false; }
        else if (op == 2 && live[a] && a != b) { f[b].reset(new pigo::File(std::move(*f[a]))); content[b] = content[a]; live[b] = true; live[a] = false; if (s.upto(1)) f[a].reset(); ++moves; }
        else if (op == 3 && live[a] && f[b]) { *f[b] = std::move(*f[a]); if (a != b) { content[b] = content[a]; live[b] = true; live[a] = false; } ++moves; }
        else if (op == 4 && live[a]) { size_t p = s.upto(content[a].size() - 1); f[a]->seek(p); REQUIRE(*f[a]->fp() == content[a][p], "another byte at " << p); }
        size_t nl = 0; for (size_t k = 0; k < K; ++k) if (live[k]) { ++nl; REQUIRE(f[k]->size() == content[k].size(), "a file has another size"); f[k]->seek(content[k].size() - 1); REQUIRE(f[k]->read<char>() == content[k][0], "a file has another content"); f[k]->seek(0); REQUIRE(f[k]->read<char>() == content[k][0], "a file has another content"); }
        Held h = held(); REQUIRE(h.maps == h0.maps + nl, nl << " files are open, but " << h.maps - h0.maps << " are mapped"); REQUIRE(h.fds == h0.fds, "descriptors are left open");
        REQUIRE(io.bad == 0, io.bad_what);
    }
    for (auto& x : f) x.reset();
    require_held(held(), h0, "after all files were closed");
    c.label("File objects moved"); c.nontrivial = moves > 0;
}
PROP("C30/files", 2, files);
#endif
