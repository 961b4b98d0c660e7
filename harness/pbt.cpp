#include "pbt.hpp"
#include "rt.hpp"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>

namespace pbt {

// Choices and description of a forked case, which outlive its crash
struct Trace { static const size_t MAX = 1u << 20; size_t n; char text[65536]; uint64_t v[MAX]; };
static Trace* g_trace = nullptr;

// ---------------------------------------------------------------- choices
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void Src::seed(uint64_t a) { s[0] = splitmix(a); s[1] = splitmix(a); if (!s[0] && !s[1]) s[0] = 1; }
static uint64_t step(uint64_t* s) {
    uint64_t a = s[0], b = s[1];
    s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
}
uint64_t Src::next() { return step(s); }
Bulk::Bulk(Src& s_, bool on_) : s(s_), on(on_ && !s_.quiet) {
    if (!on) return;
    uint64_t a = s.upto(0xffffff);
    s.q[0] = splitmix(a); s.q[1] = splitmix(a) | 1;
    ++s.quiet;
}
uint64_t Src::upto(uint64_t max) {
    uint64_t v;
    if (quiet) {
        uint64_t x = step(q);
        return max == UINT64_MAX ? x : (uint64_t)(((unsigned __int128)x * ((unsigned __int128)max + 1)) >> 64);
    }
    if (replay) {
        v = pos < replay->size() ? (*replay)[pos] : 0;
        if (v > max) v = max;
    } else if (max == UINT64_MAX) v = next();
    else v = (uint64_t)(((unsigned __int128)next() * ((unsigned __int128)max + 1)) >> 64);
    ++pos;
    rec.push_back(v);
    if (g_trace && g_trace->n < Trace::MAX) g_trace->v[g_trace->n++] = v;
    return v;
}
void Ctx::publish() {
    if (!g_trace) return;
    std::string s = log.str();
    size_t n = s.size() < sizeof g_trace->text - 1 ? s.size() : sizeof g_trace->text - 1;
    memcpy(g_trace->text, s.data(), n); g_trace->text[n] = 0;
}
uint64_t Src::biased(uint64_t max) {
    if (max == 0) return 0;
    switch (upto(7)) {
        case 0: case 1: case 2: return upto(max < 12 ? max : 12);
        case 3: {   // power of two +-1
            unsigned bits = 0; while (bits < 63 && (1ull << (bits + 1)) <= max) ++bits;
            uint64_t v = (1ull << upto(bits)); uint64_t d = upto(2);
            if (d == 1) v -= 1; else if (d == 2 && v < max) v += 1;
            return v > max ? max : v;
        }
        case 4: {   // power of ten +-1
            unsigned digs = 0; uint64_t p = 1; while (p <= max / 10) { p *= 10; ++digs; }
            uint64_t k = upto(digs), v = 1; for (uint64_t i = 0; i < k; ++i) v *= 10;
            uint64_t d = upto(2);
            if (d == 1) v -= 1; else if (d == 2 && v < max) v += 1;
            return v > max ? max : v;
        }
        case 5: return max - upto(max < 3 ? max : 3);
        default: return upto(max);
    }
}
uint64_t Src::size(uint64_t max) {
    uint64_t k = upto(15);
    uint64_t cap = k < 6 ? 6 : k < 11 ? 24 : k < 14 ? 100 : k < 15 ? 400 : max;
    if (cap > max) cap = max;
    return upto(cap);
}
uint64_t Src::size(uint64_t max, uint64_t bulk) {
    uint64_t k = upto(15);
    uint64_t cap = k < 6 ? 6 : k < 11 ? 24 : k < 14 ? 100 : k < 15 ? 400 : max;
    if (k == 15 && bulk > max && upto(59) == 59) {
        uint64_t v = max + upto((bulk - max) >> upto(5));
        // sometimes at a multiple of a power of two
        if (upto(3) == 3) { unsigned b = 10 + (unsigned)upto(6); uint64_t r = ((v >> b) << b) + upto(2) - 1; if (r > max && r <= bulk) v = r; }
        return v;
    }
    if (cap > max) cap = max;
    return upto(cap);
}
void fail(const std::string& msg) { throw Fail{msg}; }
uint64_t hash_str(const std::string& s, uint64_t h) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// ---------------------------------------------------------------- registry
struct Prop { std::string name; unsigned weight; PropFn fn; };
static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
Reg::Reg(const char* name, unsigned weight, PropFn fn) { props().push_back({name, weight, fn}); }

static std::string g_scratch_root, g_scratch;
static bool g_thorough = false, g_each = false;
static int g_cpu = 20;          // seconds of CPU a case may use
const std::string& scratch() { return g_scratch; }
std::string path(const std::string& n) { return g_scratch + "/" + n; }
bool thorough() { return g_thorough; }
#ifndef VP_FLAVOUR
#define VP_FLAVOUR "?"
#endif
const char* flavour() { return VP_FLAVOUR; }

static void clear_dir(const std::string& d) {
    // Only ever called on directories this process made below g_scratch_root
    if (g_scratch_root.empty() || d.compare(0, g_scratch_root.size(), g_scratch_root) != 0) return;
    DIR* dir = opendir(d.c_str());
    if (!dir) return;
    while (dirent* e = readdir(dir)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); clear_dir(p); rmdir(p.c_str()); }
        else unlink(p.c_str());
    }
    closedir(dir);
}

// ---------------------------------------------------------------- one case
enum Outcome { PASS = 0, FAIL = 1 };
static Outcome run_case(const Prop& p, Src& src, Ctx& ctx, std::string& msg) {
    rt_reset();
    Outcome o = PASS;
    try { p.fn(src, ctx); }
    catch (Skip&) {}
    catch (std::bad_alloc&) { if (!g_each) { o = FAIL; msg = "unexpected exception: out of memory"; } }
    catch (Fail& f) { o = FAIL; msg = f.msg; }
    catch (std::exception& e) { o = FAIL; msg = std::string("unexpected exception: ") + e.what(); }
    rt_reset();
    return o;
}

struct Shared {
    std::atomic<uint64_t> cur;      // current case index + 1
    std::atomic<uint64_t> done;
    std::atomic<uint64_t> stop;
};

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const Prop& prop_of_case(uint64_t seed, uint64_t idx, uint64_t& case_seed) {
    uint64_t total = 0;
    for (auto& p : props()) total += p.weight;
    if (g_each) {                   // few and large cases: every property in turn
        Src e; e.seed(seed * 1000003 + idx * 2 + 1); case_seed = e.next();
        return props()[idx % props().size()];
    }
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    splitmix(x);
    // A deterministic weighted round robin over the properties
    uint64_t slot = idx % total;
    const Prop* res = nullptr;
    // interleave: walk in a fixed stride so that early cases touch all props
    uint64_t k = (slot * 7919) % total;
    if (total % 7919 == 0) k = slot;
    for (auto& p : props()) { if (k < p.weight) { res = &p; break; } k -= p.weight; }
    uint64_t y = x ^ (idx * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull);
    case_seed = splitmix(y) ^ hash_str(res->name);
    return *res;
}

struct Result { int kind; std::string msg; std::string pretty; std::vector<uint64_t> rec; };
// kind: 0 pass, 1 fail, 2 crash (signal/exit), 3 cpu limit

// Run one case in a forked child. cpu: CPU seconds allowed.
static Result run_forked(const Prop& p, const std::vector<uint64_t>* choices, uint64_t case_seed, unsigned cpu, bool log) {
    int fds[2];
    if (pipe(fds) != 0) _exit(2);
    static Trace* shared = (Trace*)mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shared->n = 0; shared->text[0] = 0;
    int errfd = -1;
    std::string errname = g_scratch_root + "/stderr." + std::to_string(getpid());
    pid_t pid = fork();
    if (pid == 0) {
        close(fds[0]);
        errfd = open(errname.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (errfd >= 0) { dup2(errfd, 2); }
        g_scratch = g_scratch_root + "/r";
        mkdir(g_scratch.c_str(), 0700);
        clear_dir(g_scratch);
        struct rlimit rl; rl.rlim_cur = cpu; rl.rlim_max = cpu + 1;
        setrlimit(RLIMIT_CPU, &rl);
        signal(SIGXCPU, SIG_DFL);
        struct rlimit rc; rc.rlim_cur = rc.rlim_max = 0; setrlimit(RLIMIT_CORE, &rc);
        alarm(std::min(cpu * 10 + 30, 400u));
        Src src; src.seed(case_seed); src.replay = choices;
        Ctx ctx; ctx.want_log = log;
        std::string msg;
        g_trace = shared;
        Outcome o = run_case(p, src, ctx, msg);
        std::string out;
        auto put = [&](const std::string& s) { uint64_t n = s.size(); out.append((char*)&n, 8); out += s; };
        out.push_back((char)o);
        put(msg); put(ctx.log.str());
        size_t off = 0;
        while (off < out.size()) { ssize_t w = write(fds[1], out.data() + off, out.size() - off); if (w <= 0) break; off += w; }
        clear_dir(g_scratch);
        _exit(0);
    }
    close(fds[1]);
    std::string in; char buf[65536]; ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) in.append(buf, n);
    close(fds[0]);
    int st = 0; waitpid(pid, &st, 0);
    Result r; r.kind = 2;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && in.size() >= 17) {
        size_t o = 0;
        r.kind = in[o++];
        auto get = [&]() { uint64_t k; memcpy(&k, &in[o], 8); o += 8; std::string s = in.substr(o, k); o += k; return s; };
        r.msg = get(); r.pretty = get();
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && g_cpu > 20) {
        r.kind = 4; r.msg = "killed, for want of memory";
    } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
        r.kind = 3; r.msg = "used more than " + std::to_string(cpu) + " s of CPU without finishing";
        if (WTERMSIG(st) == SIGKILL) r.msg = "killed while using all of its CPU limit or memory";
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        r.kind = 4; r.msg = "blocked: no progress and no CPU use";
    } else {
        std::ostringstream o;
        if (WIFSIGNALED(st)) o << "crashed with signal " << WTERMSIG(st);
        else o << "process ended with status " << WEXITSTATUS(st);
        std::ifstream e(errname); std::string line; int k = 0;
        while (std::getline(e, line)) {
            if (line.find("ERROR:") != std::string::npos || line.find("terminate called") != std::string::npos ||
                line.find("what()") != std::string::npos || line.find("    #") == 0 || line.find("of size") != std::string::npos
                || line.find("rt:") == 0) {
                if (line.size() > 220) line.resize(220);
                o << "\n    " << line; if (++k > 8) break;
            }
        }
        r.msg = o.str();
    }
    unlink(errname.c_str());
    r.rec.assign(shared->v, shared->v + shared->n);
    if (r.pretty.empty()) r.pretty = shared->text;
    return r;
}

static bool same_failure(const Result& a) { return a.kind != 0 && a.kind != 4; }

// ---------------------------------------------------------------- shrinking
static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, Result& best_r, double budget, int max_tries) {
    double t0 = now(); int tries = 0;
    bool hang = best_r.kind == 3;
    if (hang) { budget = std::min(budget, 60.0); max_tries = 20; }
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (++tries > max_tries || now() - t0 > budget) return false;
        Result r = run_forked(p, &c, 0, hang ? 5 : 20, false);
        if (!same_failure(r) || r.kind != best_r.kind) return false;
        std::vector<uint64_t> nc = c;
        if (!r.rec.empty() && r.rec.size() < nc.size()) nc.resize(r.rec.size());
        best = nc; best_r = r; return true;
    };
    bool progress = true;
    while (progress && tries < max_tries && now() - t0 < budget) {
        progress = false;
        // drop the tail
        for (size_t keep = best.size() / 2; keep < best.size(); ) {
            std::vector<uint64_t> c(best.begin(), best.begin() + keep);
            if (attempt(c)) { progress = true; keep = best.size() / 2; if (best.empty()) break; }
            else { size_t d = (best.size() - keep) / 2; if (d == 0) break; keep += d; }
            if (tries > max_tries) break;
        }
        // delete blocks
        for (size_t k : {1024, 512, 256, 64, 16, 8, 4, 2, 1}) {
            for (size_t i = best.size(); i >= k && i > 0;) {
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + (i - k), c.begin() + i);
                if (attempt(c)) { progress = true; i = std::min(i, best.size()); }
                else { size_t st = std::max<size_t>(1, k / 2); if (i <= st) break; i -= st; }
                if (tries > max_tries) break;
            }
        }
        // zero, then lower values
        for (size_t i = 0; i < best.size() && tries <= max_tries; ++i) {
            if (best[i] == 0) continue;
            std::vector<uint64_t> c = best; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            while (hi - lo > 1 && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best; c[i] = mid;
                if (attempt(c)) { progress = true; hi = i < best.size() ? best[i] : 0; } else lo = mid;
                if (tries > max_tries) break;
            }
        }
    }
    return best;
}

static std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static const Prop* find_prop(const std::string& n) {
    for (auto& p : props()) if (p.name == n) return &p;
    return nullptr;
}

static bool parse_replay(const std::string& fn, std::string& prop, std::vector<uint64_t>& ch) {
    // "prop: NAME" and "choices: a b c" lines
    std::ifstream f(fn); std::string line; bool ok = false;
    while (std::getline(f, line)) {
        if (line.compare(0, 6, "prop: ") == 0) prop = line.substr(6);
        else if (line.compare(0, 8, "choices:") == 0) {
            std::istringstream is(line.substr(8)); uint64_t v; while (is >> v) ch.push_back(v); ok = true;
        }
    }
    return ok;
}

}

using namespace pbt;

// Usage: bin run --seed S --cases N --workers W --out DIR --wall SEC [--thorough]
//        bin replay FILE
//        bin known NAME
//        bin list
int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string mode = argc > 1 ? argv[1] : "list";
    uint64_t seed = 1, cases = 1000; unsigned workers = 8; std::string out = "."; double wall = 120; std::string only;
    std::string arg;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10);
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--wall") wall = atof(val().c_str());
        else if (a == "--only") only = val();
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--cpu") g_cpu = atoi(val().c_str());
        else if (a == "--each") g_each = true;
        else arg = a;
    }
    std::sort(props().begin(), props().end(), [](const Prop& a, const Prop& b) { return a.name < b.name; });
    if (!only.empty()) {
        std::vector<Prop> keep;
        for (auto& p : props()) if (p.name.find(only) != std::string::npos) keep.push_back(p);
        props() = keep;
    }
    if (mode == "list") { for (auto& p : props()) std::cout << p.name << " " << p.weight << "\n"; return 0; }

    // Scratch: a fresh directory, in memory when O_DIRECT opens work there
    {
        std::vector<std::string> roots = {"/dev/shm", "/tmp"};
        if (const char* t = getenv("VP_SCRATCH")) roots.insert(roots.begin(), t);
        for (auto& r : roots) {
            std::string tmpl = r + "/pigo-vp-XXXXXX";
            std::vector<char> b(tmpl.begin(), tmpl.end()); b.push_back(0);
            if (!mkdtemp(b.data())) continue;
            std::string d = b.data(), probe = d + "/probe";
            int fd = open(probe.c_str(), O_CREAT | O_RDWR | O_DIRECT, 0600);
            if (fd >= 0) { close(fd); unlink(probe.c_str()); g_scratch_root = d; break; }
            rmdir(d.c_str());
        }
        if (g_scratch_root.empty()) { fprintf(stderr, "no scratch directory\n"); return 2; }
    }
    auto finish = [&](int rc) {
        clear_dir(g_scratch_root); rmdir(g_scratch_root.c_str());
        return rc;
    };
    umask(022);
    rt_init();

    if (mode == "replay" || mode == "known") {
        std::string name; std::vector<uint64_t> ch;
        if (mode == "known") name = arg;
        else if (!parse_replay(arg, name, ch)) { fprintf(stderr, "bad replay file\n"); return finish(2); }
        const Prop* p = find_prop(name);
        if (!p) { fprintf(stderr, "no such property %s in this binary\n", name.c_str()); return finish(3); }
        Result r = run_forked(*p, &ch, 0, g_cpu, true);
        std::cout << (r.kind == 0 ? "PASS" : r.kind == 1 ? "FAIL" : r.kind == 2 ? "CRASH" : r.kind == 3 ? "HANG" : "BLOCKED") << "\n" << r.msg << "\n" << r.pretty << "\n";
        return finish(r.kind == 0 ? 0 : r.kind == 4 ? 4 : 1);
    }

    std::vector<Prop> active;
    for (auto& p : props()) if (p.weight) active.push_back(p);
    props() = active;
    if (props().empty()) { fprintf(stderr, "no properties\n"); return finish(2); }

    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // distinct non-trivial cases: a shared set of hashes
    const size_t HN = 1u << 21;
    auto* hset = (std::atomic<uint64_t>*)mmap(nullptr, HN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double t0 = now();
    std::vector<pid_t> pids(workers);
    for (unsigned w = 0; w < workers; ++w) {
        new (&sh[w]) Shared();
        pids[w] = fork();
        if (pids[w] == 0) {
            g_scratch = g_scratch_root + "/w" + std::to_string(w);
            mkdir(g_scratch.c_str(), 0700);
            std::string sn = g_scratch_root + "/stats." + std::to_string(w);
            int efd = open((g_scratch_root + "/err." + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (efd >= 0) dup2(efd, 2);
            struct rlimit rc; rc.rlim_cur = rc.rlim_max = 0; setrlimit(RLIMIT_CORE, &rc);
            uint64_t evals = 0, distinct = 0, nontriv = 0; int rcx = 0;
            std::map<std::string, uint64_t> labels; std::map<std::string, uint64_t> per;
            std::vector<std::pair<std::string, std::string>> samples; std::set<std::string> sampled;
            for (uint64_t i = w; i < cases; i += workers) {
                if (sh[w].stop || now() - t0 > wall) break;
                sh[w].cur = i + 1;
                uint64_t cs; const Prop& p = prop_of_case(seed, i, cs);
                Src src; src.seed(cs); Ctx ctx; std::string msg;
                bool sample = w == 0 && sampled.size() < 8 && !sampled.count(p.name) && (evals > 40 || evals * 4 * workers >= cases || g_each);
                ctx.want_log = sample;
                Outcome o = run_case(p, src, ctx, msg);
                ++evals; ++per[p.name];
                if (o == FAIL) {
                    std::ofstream f(g_scratch_root + "/fail." + std::to_string(w));
                    f << i << "\n" << msg << "\n";
                    rcx = 1; break;
                }
                for (auto& l : ctx.labels) ++labels[l];
                if (ctx.nontrivial) {
                    ++nontriv;
                    uint64_t h = hash_str(p.name);
                    for (auto v : src.rec) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
                    if (!h) h = 1;
                    for (size_t k = h % HN, n = 0; n < HN; ++n, k = (k + 1) % HN) {
                        uint64_t e = 0;
                        if (hset[k].load() == h) break;
                        if (hset[k].compare_exchange_strong(e, h)) { ++distinct; break; }
                        if (e == h) break;
                    }
                    if (sample) { std::string s = ctx.log.str(); if (s.size() > 1500) s = s.substr(0, 1500) + "..."; samples.push_back({p.name, s}); sampled.insert(p.name); }
                }
                sh[w].done = evals;
            }
            sh[w].cur = 0;
            std::ofstream f(sn);
            f << "evals " << evals << "\nnontriv " << nontriv << "\ndistinct " << distinct << "\n";
            for (auto& l : labels) f << "label " << l.second << " " << l.first << "\n";
            for (auto& l : per) f << "per " << l.second << " " << l.first << "\n";
            for (auto& s : samples) f << "sample " << json_str(s.first + ": " + s.second) << "\n";
            f.close();
            clear_dir(g_scratch);
            _exit(rcx);
        }
    }
    // Watch the workers: a case that uses > 20 s of CPU is a suspected hang
    struct Suspect { uint64_t idx; std::string why; };
    std::vector<Suspect> suspects;
    std::vector<uint64_t> last(workers, 0); std::vector<double> last_cpu(workers, 0), last_t(workers, t0);
    std::vector<bool> alive(workers, true);
    auto cpu_of = [&](pid_t pid) {
        clockid_t c; if (clock_getcpuclockid(pid, &c)) return 0.0;
        timespec t; if (clock_gettime(c, &t)) return 0.0;
        return t.tv_sec + t.tv_nsec * 1e-9;
    };
    size_t n_alive = workers; uint64_t inconclusive = 0;
    while (n_alive) {
        bool any = false;
        for (unsigned w = 0; w < workers; ++w) {
            if (!alive[w]) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                alive[w] = false; --n_alive; any = true;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].cur == 0) continue;
                uint64_t idx = sh[w].cur;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
                    std::ifstream f(g_scratch_root + "/fail." + std::to_string(w)); uint64_t i = 0; f >> i; idx = i + 1;
                }
                if (idx) suspects.push_back({idx - 1, "failed"});
                for (unsigned k = 0; k < workers; ++k) sh[k].stop = 1;
                continue;
            }
            uint64_t cur = sh[w].cur; double cpu = cpu_of(pids[w]);
            if (cur != last[w]) { last[w] = cur; last_cpu[w] = cpu; last_t[w] = now(); }
            else if (cur && (cpu - last_cpu[w] > g_cpu || now() - last_t[w] > 240)) {
                kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); alive[w] = false; --n_alive; any = true;
                suspects.push_back({cur - 1, "no end"});
                for (unsigned k = 0; k < workers; ++k) sh[k].stop = 1;
            }
        }
        if (!any) usleep(20000);
    }
    // Merge statistics
    uint64_t evals = 0, nontriv = 0, distinct = 0; std::map<std::string, uint64_t> labels, per; std::vector<std::string> samples;
    for (unsigned w = 0; w < workers; ++w) {
        std::ifstream f(g_scratch_root + "/stats." + std::to_string(w)); std::string line;
        if (!f) evals += sh[w].done;
        while (std::getline(f, line)) {
            std::istringstream is(line); std::string k; is >> k; uint64_t n;
            if (k == "evals") { is >> n; evals += n; }
            else if (k == "nontriv") { is >> n; nontriv += n; }
            else if (k == "distinct") { is >> n; distinct += n; }
            else if (k == "label" || k == "per") { is >> n; std::string l; std::getline(is, l); if (!l.empty()) l = l.substr(1); (k == "label" ? labels : per)[l] += n; }
            else if (k == "sample") { samples.push_back(line.substr(7)); }
        }
    }
    int rc = 0; std::string vio_json = "[]";
    std::sort(suspects.begin(), suspects.end(), [](const Suspect& a, const Suspect& b) { return a.idx < b.idx; });
    std::vector<std::string> vios; std::string incmsg;
    for (auto& s : suspects) {
        uint64_t cs; const Prop& p = prop_of_case(seed, s.idx, cs);
        Result r0 = run_forked(p, nullptr, cs, g_cpu, false);
        std::vector<uint64_t> ch = r0.rec;
        int fails = 0, need = 3, max_rep = 3;
        std::string fl = flavour();
        if (fl == "omp") max_rep = 60;
        if (r0.kind == 0 || r0.kind == 4) { // not reproduced at once: only real threads may be flaky
            if (fl != "omp") { ++inconclusive; incmsg += p.name + " case " + std::to_string(s.idx) + " did not reproduce; "; continue; }
        }
        Result br; bool set = false; double tr = now();
        for (int k = 0; k < max_rep && fails < need && (k < 3 || now() - tr < 200); ++k) {
            Result r = run_forked(p, &ch, 0, g_cpu, false);
            if (same_failure(r)) { ++fails; br = r; set = true; }
            else if (fl != "omp") break;
        }
        if (!set || fails < need) { ++inconclusive; incmsg += p.name + " case " + std::to_string(s.idx) + " did not replay (" + r0.msg + "); "; continue; }
        std::vector<uint64_t> small = fl == "omp" ? ch : shrink(p, ch, br, 20, 4000);
        Result fin; int ok = 0;
        for (int k = 0; k < (fl == "omp" ? 60 : 3) && ok < 3 && (k < 3 || now() - tr < 300); ++k) { Result r = run_forked(p, &small, 0, g_cpu, true); if (same_failure(r)) { ++ok; fin = r; } }
        if (ok < 3) { small = ch; ok = 0; for (int k = 0; k < (fl == "omp" ? 60 : 3) && ok < 3 && (k < 3 || now() - tr < 300); ++k) { Result r = run_forked(p, &small, 0, g_cpu, true); if (same_failure(r)) { ++ok; fin = r; } } }
        if (ok < 3) { ++inconclusive; continue; }
        std::string rf = out + "/replay-" + fl + "-" + std::to_string(s.idx) + ".txt";
        std::ofstream f(rf);
        f << "prop: " << p.name << "\nflavour: " << fl << "\nseed: " << seed << "\ncase: " << s.idx << "\nchoices:";
        for (auto v : small) f << " " << v;
        f << "\nmessage: " << fin.msg << "\n\ncase:\n" << fin.pretty << "\n";
        f.close();
        vios.push_back("{\"replay\":" + json_str(rf) + ",\"prop\":" + json_str(p.name) + ",\"msg\":" + json_str(fin.msg) + "}");
        rc = 1;
        if (vios.size() >= 1) break;
    }
    std::ofstream j(out + "/result-" + flavour() + ".json");
    j << "{\"flavour\":" << json_str(flavour()) << ",\"evals\":" << evals << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << distinct
      << ",\"inconclusive\":" << inconclusive << ",\"inconclusive_msg\":" << json_str(incmsg) << ",\"wall\":" << now() - t0 << ",\"labels\":{";
    bool first = true; for (auto& l : labels) { j << (first ? "" : ",") << json_str(l.first) << ":" << l.second; first = false; }
    j << "},\"per\":{"; first = true; for (auto& l : per) { j << (first ? "" : ",") << json_str(l.first) << ":" << l.second; first = false; }
    j << "},\"samples\":["; first = true; for (auto& s : samples) { j << (first ? "" : ",") << s; first = false; }
    j << "],\"violations\":["; first = true; for (auto& s : vios) { j << (first ? "" : ",") << s; first = false; }
    j << "]}\n"; j.close();
    return finish(rc);
}
