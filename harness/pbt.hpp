// Choice-sequence property-based testing engine.
//
// A property is a function of a Src (the only source of choices) and a Ctx.
// Every choice is recorded; a failing case is the sequence of its choices,
// which is shrunk generically (delete, zero, lower) and is the replay file.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <initializer_list>

namespace pbt {

struct Fail { std::string msg; };
struct Skip {};         // the sandbox lacks the room for this case: it decides nothing

struct Src {
    std::vector<uint64_t> rec;
    const std::vector<uint64_t>* replay = nullptr;
    size_t pos = 0;
    uint64_t s[2] = {1, 2};
    unsigned quiet = 0; uint64_t q[2] = {1, 2};     // see Bulk
    void seed(uint64_t a);
    uint64_t next();
    // Uniform in [0, max], both included.  0 is the simplest value.
    uint64_t upto(uint64_t max);
    // Uniform in [lo, hi]
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + upto(hi - lo); }
    // True with probability num/den; the simplest choice is false
    bool chance(unsigned num, unsigned den) { return upto(den - 1) >= den - num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[upto(v.size() - 1)]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + upto(v.size() - 1)); }
    // A value in [0, max] biased to small values, powers of two and ten, and
    // values close to max
    uint64_t biased(uint64_t max);
    // A size in [0, max]: mostly small, sometimes up to max
    uint64_t size(uint64_t max);
    // The same, and rarely between max and bulk
    uint64_t size(uint64_t max, uint64_t bulk);
};

// While one is alive (and on), choices follow from a single recorded choice, so
// that a case of hundreds of thousands of entries is still a short sequence
struct Bulk {
    Src& s; bool on;
    Bulk(Src& s_, bool on_);
    ~Bulk() { if (on) --s.quiet; }
    Bulk(const Bulk&) = delete;
};
const uint64_t BULK_FROM = 3000;

struct Ctx {
    bool want_log = false;          // samples and replays print the case
    std::ostringstream log;
    bool nontrivial = false;
    std::vector<std::string> labels;
    void label(const std::string& l) { labels.push_back(l); }
    // Describe the case; do so before the library is called, so that a crash
    // can still be described
    template <class F> void note(F f) { if (want_log) { f(log); publish(); } }
    void publish();
};

[[noreturn]] void fail(const std::string& msg);
#define PBT_STR_(x) #x
#define PBT_STR(x) PBT_STR_(x)
#define REQUIRE(cond, text) do { if (!(cond)) { std::ostringstream o_; o_ << text; ::pbt::fail(o_.str()); } } while (0)
template <class A, class B>
void require_eq(const A& a, const B& b, const char* what) {
    if (!(a == b)) { std::ostringstream o; o << what << ": got " << +a << ", expected " << +b; fail(o.str()); }
}
template <class A, class B, class F>
void require_eq(const A& a, const B& b, F what) {
    if (!(a == b)) { std::ostringstream o; what(o); o << ": got " << +a << ", expected " << +b; fail(o.str()); }
}

typedef void (*PropFn)(Src&, Ctx&);
struct Reg { Reg(const char* name, unsigned weight, PropFn fn); };
#define PBT_CAT_(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT_(a, b)
// Register a property; its share of the cases is weight / sum of weights.
#define PROP(name, weight, fn) static ::pbt::Reg PBT_CAT(reg_, __COUNTER__){name, weight, fn}
// A recorded (known) finding: not searched, only replayed with --known.
#define KNOWN(name, fn) static ::pbt::Reg PBT_CAT(reg_, __COUNTER__){name, 0, fn}

// Scratch directory private to this worker process
const std::string& scratch();
std::string path(const std::string& name);
bool thorough();
const char* flavour();

uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull);

}
