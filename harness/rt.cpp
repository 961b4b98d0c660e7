#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <time.h>
#include <sys/single_threaded.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define VP_ASAN 1
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:exitcode=99:"
        "detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=4:"
        "thread_local_quarantine_size_kb=64:symbolize=0:handle_abort=0:alloc_dealloc_mismatch=0:"
        "strict_memcmp=0:detect_odr_violation=0";
}
uint64_t rt_heap() { return __sanitizer_get_current_allocated_bytes(); }
bool rt_has_heap() { return true; }
#else
#define VP_ASAN 0
uint64_t rt_heap() { return 0; }
bool rt_has_heap() { return false; }
#endif

static RtSched g_s;
static uint64_t g_switches, g_regions;
const RtSched& rt_get() { return g_s; }
uint64_t rt_switches() { return g_switches; }
uint64_t rt_regions() { return g_regions; }

#if defined(VP_SHIM)
// ======================================================================
// OpenMP on fibers
// ======================================================================
namespace {
const size_t STACK = 512 * 1024;
const unsigned MAXT = 320;

struct Loop {                   // a dynamic / guided loop or sections
    bool init = false;
    long long next = 0, end = 0, incr = 1, chunk = 1;
    bool up = true; bool ull = false;
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
    unsigned done = 0;
};
struct Team {
    unsigned n = 1;
    unsigned arrived = 0; uint64_t gen = 0;
    std::map<uint64_t, bool> singles;
    std::map<uint64_t, Loop> loops;
    void* copyprivate = nullptr;
    std::map<void*, bool> locks;
    bool critical = false, atomic = false;
    uint64_t ordered_next = 0;
};
struct Fiber {
    void* sp = nullptr; char* stack = nullptr;
    unsigned tid = 0; bool done = false, blocked = false;
    uint64_t ws = 0, single_ws = 0;         // work-sharing constructs met so far
    Loop* loop = nullptr; uint64_t prio = 0;
    unsigned starts = 0;
    void* fake = nullptr;
    uint64_t work = 0;                      // since the last barrier
};
uint64_t g_w, g_mark, g_span, g_by_team, g_locked, g_lock_mark, g_tasks;   // see rt_work_start
Team* team = nullptr;               // the active team (n > 1), if any
std::vector<Fiber> fib;
Fiber* cur = nullptr;
unsigned nested = 0;                // depth of nested (serial) regions in cur
std::vector<char*> stacks;
void* main_sp = nullptr;
void* main_fake = nullptr;
const void* main_bottom = nullptr; size_t main_size = 0;
void (*body)(void*); void* body_data;
uint64_t rs[2] = {1, 2};
unsigned victim;

// work-sharing state of serial regions
Team serial_team; Fiber serial_fiber;

uint64_t rnd() {
    uint64_t a = rs[0], b = rs[1];
    rs[0] = b; a ^= a << 23; rs[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return rs[1] + b;
}
void rseed(uint64_t x) {
    auto mix = [&x]() { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); };
    rs[0] = mix(); rs[1] = mix() | 1;
}
[[noreturn]] void die(const char* what) {
    fprintf(stderr, "rt: %s\n", what); fflush(stderr); abort();
}
}

extern "C" void vp_switch(void** save_sp, void* to_sp);
asm(R"(
.text
.globl vp_switch
.type vp_switch,@function
vp_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vp_switch,.-vp_switch
)");

namespace {
// Fibers always switch to and from the main stack, where the choice of the
// next one is made
void settle() { cur->work += g_w - g_mark; g_mark = g_w; }
// A phase of the team's work ends: its threads took as long as the longest
void phase_end() {
    uint64_t longest = g_locked;
    for (unsigned i = 0; i < team->n; ++i) { if (fib[i].work > longest) longest = fib[i].work; g_by_team += fib[i].work; fib[i].work = 0; }
    g_span += longest; g_locked = 0;
}
void to_main() {
    Fiber* me = cur;
    settle();
#if VP_ASAN
    __sanitizer_start_switch_fiber(me->done ? nullptr : &me->fake, main_bottom, main_size);
#endif
    vp_switch(&me->sp, main_sp);
#if VP_ASAN
    __sanitizer_finish_switch_fiber(me->fake, &main_bottom, &main_size);
#endif
}
void to_fiber(Fiber* f) {
    cur = f; ++g_switches; g_mark = g_w;
#if VP_ASAN
    __sanitizer_start_switch_fiber(&main_fake, f->stack, STACK);
#endif
    vp_switch(&main_sp, f->sp);
#if VP_ASAN
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
    cur = nullptr;
}
void fiber_entry() noexcept {
#if VP_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
    body(body_data);
    cur->done = true;
    to_main();
    die("a finished thread was resumed");
}

unsigned pick() {
    unsigned n = team->n;
    static unsigned run[MAXT]; unsigned k = 0;
    for (unsigned i = 0; i < n; ++i) if (!fib[i].done && !fib[i].blocked) run[k++] = i;
    if (!k) die("deadlock: every thread of the team waits");
    switch (g_s.policy) {
        default:
        case 0: {   // next in order after the last one
            for (unsigned i = 0; i < k; ++i) if (run[i] > victim) return victim = run[i];
            return victim = run[0];
        }
        case 1: return run[rnd() % k];
        case 2: return run[k - 1];
        case 3: {
            if (k == 1) return run[0];
            unsigned r; do r = run[rnd() % k]; while (r == victim);
            return r;
        }
        case 4: {
            if (rnd() % 16 == 0) fib[run[rnd() % k]].prio = rnd();
            unsigned b = run[0];
            for (unsigned i = 1; i < k; ++i) if (fib[run[i]].prio > fib[b].prio) b = run[i];
            return b;
        }
        case 5: {
            unsigned b = run[0];
            for (unsigned i = 1; i < k; ++i) if (fib[run[i]].work < fib[b].work) b = run[i];
            return b;
        }
    }
}

Fiber& me() { return cur && !nested ? *cur : serial_fiber; }
Team& my_team() { return cur && !nested ? *team : serial_team; }

void run_team(void (*fn)(void*), void* data, unsigned n, Loop* init) {
    if (n == 0) n = g_s.threads;
    if (n > MAXT) n = MAXT;
    if (n <= 1 || team) {
        // a team of one
        Team st; Fiber sf;
        std::swap(st, serial_team); std::swap(sf, serial_fiber);
        if (cur) ++nested;
        if (init) serial_team.loops[1] = *init;
        if (init) { serial_fiber.ws = 1; serial_fiber.loop = &serial_team.loops[1]; }
        fn(data);
        if (cur) --nested;
        std::swap(st, serial_team); std::swap(sf, serial_fiber);
        return;
    }
    ++g_regions;
    Team t; t.n = n; team = &t;
    body = fn; body_data = data;
    while (stacks.size() < n) {
        char* p = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) die("no memory for a stack");
        mprotect(p, 4096, PROT_NONE);
        stacks.push_back(p + 4096);
    }
    fib.assign(n, Fiber());
    if (init) t.loops[1] = *init;
    for (unsigned i = 0; i < n; ++i) {
        Fiber& f = fib[i]; f.tid = i; f.stack = stacks[i]; f.prio = rnd();
        if (init) { f.ws = 1; f.loop = &t.loops[1]; }
#if VP_ASAN
        __asan_unpoison_memory_region(f.stack + STACK - 4096, 4096);
#endif
        // a frame that vp_switch can return into
        uint64_t* top = (uint64_t*)(f.stack + STACK - 64);
        top = (uint64_t*)((uintptr_t)top & ~(uintptr_t)15);
        *--top = 0;
        *--top = (uint64_t)(void*)&fiber_entry;
        for (int k = 0; k < 6; ++k) *--top = 0;
        --top;
        uint32_t mx; uint16_t cw;
        asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
        ((uint32_t*)top)[0] = mx; ((uint16_t*)top)[2] = cw;
        f.sp = top;
    }
    if (g_s.policy == 3) victim = g_s.seed % n; else victim = n;
    unsigned live = n;
    while (live) {
        unsigned i = pick();
        to_fiber(&fib[i]);
        if (fib[i].done) --live;
    }
    phase_end();
    team = nullptr;
}

void barrier() {
    if (!cur || nested) return;
    Team& t = *team;
    if (++t.arrived == t.n) {
        t.arrived = 0; ++t.gen;
        settle(); phase_end();
        for (unsigned i = 0; i < t.n; ++i) fib[i].blocked = false;
        to_main();
        return;
    }
    // A thread that ended can never arrive
    cur->blocked = true;
    to_main();
}
}

#if defined(VP_TSAN)
static inline void preempt_point() {
    ++g_w;
    if (__builtin_expect(g_s.preempt && cur && !nested, 0)) {
        if (rnd() % g_s.preempt == 0) to_main();
    }
}
#endif
static void call_point() {
    if (g_s.policy && g_s.policy != 5 && cur && !nested && rnd() % 4 == 0) to_main();
}
// Where work is handed out: under policy 5 the thread that has done least gets it
static void hand_out() {
    if (g_s.policy == 5 && cur && !nested) to_main(); else call_point();
}

extern "C" {
typedef void (*fn_t)(void*);
void GOMP_parallel(fn_t fn, void* data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(fn_t fn, void* data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); return n ? n : g_s.threads; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

bool GOMP_single_start() {
    call_point();
    Fiber& f = me(); Team& t = my_team();
    bool& taken = t.singles[++f.single_ws];
    if (taken) return false;
    taken = true; return true;
}
void* GOMP_single_copy_start() {
    Fiber& f = me(); Team& t = my_team();
    bool& taken = t.singles[++f.single_ws];
    if (!taken) { taken = true; return nullptr; }
    barrier();
    void* r = my_team().copyprivate;
    barrier();
    return r;
}
void GOMP_single_copy_end(void* data) { my_team().copyprivate = data; barrier(); barrier(); }

// ---- critical sections, atomics, locks
static void lock(bool* l) {
    call_point();
    while (*l) {
        if (!cur || nested) die("deadlock on a lock");
        // wait: others must run
        unsigned spins = 0; (void)spins;
        unsigned runnable = 0;
        for (auto& f : fib) if (!f.done && !f.blocked && &f != cur) ++runnable;
        if (!runnable) die("deadlock on a lock");
        unsigned pol = g_s.policy;
        if (pol != 1) { g_s.policy = 1; to_main(); g_s.policy = pol; } else to_main();
    }
    *l = true; g_lock_mark = g_w;
}
static void locked_work() { g_locked += g_w - g_lock_mark; g_lock_mark = g_w; }
static bool g_crit, g_atomic; static std::map<void*, bool>* g_named;
void GOMP_critical_start() { lock(&g_crit); }
void GOMP_critical_end() { locked_work(); g_crit = false; call_point(); }
void GOMP_critical_name_start(void** p) { if (!g_named) g_named = new std::map<void*, bool>; lock(&(*g_named)[p]); }
void GOMP_critical_name_end(void** p) { locked_work(); (*g_named)[p] = false; call_point(); }
void GOMP_atomic_start() { lock(&g_atomic); }
void GOMP_atomic_end() { locked_work(); g_atomic = false; }
void omp_init_lock(void* l) { if (!g_named) g_named = new std::map<void*, bool>; (*g_named)[l] = false; }
void omp_destroy_lock(void* l) { if (g_named) g_named->erase(l); }
void omp_set_lock(void* l) { lock(&(*g_named)[l]); }
void omp_unset_lock(void* l) { locked_work(); (*g_named)[l] = false; call_point(); }
int omp_test_lock(void* l) { bool& b = (*g_named)[l]; if (b) return 0; b = true; g_lock_mark = g_w; return 1; }

// ---- loops
static bool next_chunk(Fiber& f, long* s, long* e) {
    Loop& l = *f.loop;
    hand_out();
    if (l.up ? l.next >= l.end : l.next <= l.end) return false;
    long long step = l.incr * l.chunk;
    long long b = l.next, x = b + step;
    if (l.up ? (x > l.end || x < b) : (x < l.end || x > b)) x = l.end;
    l.next = x; *s = b; *e = x;
    return true;
}
static Loop& enter(Fiber& f, Team& t) { Loop& l = t.loops[++f.ws]; f.loop = &l; return l; }
static void set_loop(Loop& l, long s, long e, long incr, long chunk) {
    if (l.init) return;
    l.init = true; l.next = s; l.end = e; l.incr = incr; l.up = incr > 0; l.chunk = chunk > 0 ? chunk : 1; l.ull = false;
}
static long static_chunk(long s, long e, long incr, long chunk, unsigned n) {
    if (chunk > 0) return chunk;
    long it = incr > 0 ? (e - s + incr - 1) / incr : (s - e - incr - 1) / -incr;
    if (it < 1) return 1;
    return (it + n - 1) / n;
}
#define LOOP_START(name) \
bool GOMP_loop_##name##_start(long s, long e, long incr, long chunk, long* is, long* ie) { \
    Fiber& f = me(); Loop& l = enter(f, my_team()); set_loop(l, s, e, incr, chunk); return next_chunk(f, is, ie); } \
bool GOMP_loop_##name##_next(long* is, long* ie) { return next_chunk(me(), is, ie); } \
void GOMP_parallel_loop_##name(fn_t fn, void* data, unsigned n, long s, long e, long incr, long chunk, unsigned) { \
    Loop l; set_loop(l, s, e, incr, chunk); run_team(fn, data, n, &l); }
LOOP_START(dynamic)
LOOP_START(guided)
LOOP_START(nonmonotonic_dynamic)
LOOP_START(nonmonotonic_guided)
#define LOOP_RT(name) \
bool GOMP_loop_##name##_start(long s, long e, long incr, long* is, long* ie) { \
    Fiber& f = me(); Loop& l = enter(f, my_team()); set_loop(l, s, e, incr, static_chunk(s, e, incr, 0, my_team().n)); return next_chunk(f, is, ie); } \
bool GOMP_loop_##name##_next(long* is, long* ie) { return next_chunk(me(), is, ie); } \
void GOMP_parallel_loop_##name(fn_t fn, void* data, unsigned n, long s, long e, long incr, unsigned) { \
    Loop l; set_loop(l, s, e, incr, static_chunk(s, e, incr, 0, n ? n : g_s.threads)); run_team(fn, data, n, &l); }
LOOP_RT(runtime)
LOOP_RT(nonmonotonic_runtime)
LOOP_RT(maybe_nonmonotonic_runtime)
bool GOMP_loop_static_start(long s, long e, long incr, long chunk, long* is, long* ie) {
    Fiber& f = me(); Team& t = my_team(); Loop& l = enter(f, t); set_loop(l, s, e, incr, static_chunk(s, e, incr, chunk, t.n)); return next_chunk(f, is, ie); }
bool GOMP_loop_static_next(long* is, long* ie) { return next_chunk(me(), is, ie); }
void GOMP_parallel_loop_static(fn_t fn, void* data, unsigned n, long s, long e, long incr, long chunk, unsigned) {
    Loop l; set_loop(l, s, e, incr, static_chunk(s, e, incr, chunk, n ? n : g_s.threads)); run_team(fn, data, n, &l); }
void GOMP_loop_end() { barrier(); }
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_loop_end_nowait() {}

typedef unsigned long long ull;
static bool next_uchunk(Fiber& f, ull* s, ull* e) {
    Loop& l = *f.loop;
    hand_out();
    if (l.up) {
        if (l.unext >= l.uend) return false;
        ull left = l.uend - l.unext, step = l.uincr * l.uchunk;
        if (step > left || l.uchunk > left) step = left;
        *s = l.unext; l.unext += step; *e = l.unext;
    } else {
        if (l.unext <= l.uend) return false;
        ull left = l.unext - l.uend, step = (0 - l.uincr) * l.uchunk;
        if (step > left || l.uchunk > left) step = left;
        *s = l.unext; l.unext -= step; *e = l.unext;
    }
    return true;
}
static void set_uloop(Loop& l, bool up, ull s, ull e, ull incr, ull chunk) {
    if (l.init) return;
    l.init = true; l.ull = true; l.up = up; l.unext = s; l.uend = e; l.uincr = incr; l.uchunk = chunk ? chunk : 1;
}
static ull static_uchunk(bool up, ull s, ull e, ull incr, ull chunk, unsigned n) {
    if (chunk) return chunk;
    ull it = up ? (e > s ? (e - s + incr - 1) / incr : 0) : (s > e ? (s - e + (0 - incr) - 1) / (0 - incr) : 0);
    return it ? (it + n - 1) / n : 1;
}
#define ULOOP(name) \
bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull incr, ull chunk, ull* is, ull* ie) { \
    Fiber& f = me(); Loop& l = enter(f, my_team()); set_uloop(l, up, s, e, incr, chunk); return next_uchunk(f, is, ie); } \
bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return next_uchunk(me(), is, ie); }
ULOOP(dynamic)
ULOOP(guided)
ULOOP(nonmonotonic_dynamic)
ULOOP(nonmonotonic_guided)
#define ULOOP_RT(name) \
bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull incr, ull* is, ull* ie) { \
    Fiber& f = me(); Loop& l = enter(f, my_team()); set_uloop(l, up, s, e, incr, static_uchunk(up, s, e, incr, 0, my_team().n)); return next_uchunk(f, is, ie); } \
bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return next_uchunk(me(), is, ie); }
ULOOP_RT(runtime)
ULOOP_RT(nonmonotonic_runtime)
ULOOP_RT(maybe_nonmonotonic_runtime)
bool GOMP_loop_ull_static_start(bool up, ull s, ull e, ull incr, ull chunk, ull* is, ull* ie) {
    Fiber& f = me(); Team& t = my_team(); Loop& l = enter(f, t); set_uloop(l, up, s, e, incr, static_uchunk(up, s, e, incr, chunk, t.n)); return next_uchunk(f, is, ie); }
bool GOMP_loop_ull_static_next(ull* is, ull* ie) { return next_uchunk(me(), is, ie); }

// ---- sections: a loop over 1..count
unsigned GOMP_sections_next() { long s, e; if (!next_chunk(me(), &s, &e)) return 0; return (unsigned)s; }
unsigned GOMP_sections_start(unsigned count) { Fiber& f = me(); Loop& l = enter(f, my_team()); set_loop(l, 1, (long)count + 1, 1, 1); return GOMP_sections_next(); }
void GOMP_parallel_sections(fn_t fn, void* data, unsigned n, unsigned count, unsigned) { Loop l; set_loop(l, 1, (long)count + 1, 1, 1); run_team(fn, data, n, &l); }
void GOMP_sections_end() { barrier(); }
bool GOMP_sections_end_cancel() { barrier(); return false; }
void GOMP_sections_end_nowait() {}

// ---- tasks run at once
void GOMP_task(fn_t fn, void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    ++g_tasks;
    if (cpy) {
        std::vector<char> b(size + align);
        char* a = (char*)(((uintptr_t)b.data() + align - 1) & ~(uintptr_t)(align - 1));
        cpy(a, data); fn(a);
    } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { call_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

// ---- query and control
int omp_get_thread_num() { call_point(); return cur && !nested ? (int)cur->tid : 0; }
int omp_get_num_threads() { call_point(); return cur && !nested ? (int)team->n : 1; }
int omp_get_max_threads() { return (int)g_s.threads; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return (int)MAXT; }
int omp_in_parallel() { return cur ? 1 : 0; }
int omp_get_level() { return cur ? 1 + (int)nested : 0; }
int omp_get_active_level() { return cur ? 1 : 0; }
void omp_set_num_threads(int n) { if (n > 0) g_s.threads = n; }
static int g_dyn;
void omp_set_dynamic(int d) { g_dyn = d; }
int omp_get_dynamic() { return g_dyn; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
}

void rt_init() {}
void rt_reset() {
    g_s = RtSched(); g_switches = g_regions = 0; team = nullptr; cur = nullptr; nested = 0;
    serial_team = Team(); serial_fiber = Fiber(); g_crit = g_atomic = false; if (g_named) g_named->clear();
    rseed(0); rt_io() = RtIo();
}
// The process has one OS thread, but what it runs are threads: libstdc++ must
// count references atomically
void rt_set(const RtSched& s) { g_s = s; if (!g_s.threads) g_s.threads = 1; rseed(s.seed); __libc_single_threaded = 0; }

void rt_work_start() { g_w = g_mark = g_span = g_by_team = g_locked = g_tasks = 0; }
RtWork rt_work() {
    RtWork r; r.total = g_w; r.span = g_w - g_by_team + g_span; r.tasks = g_tasks != 0;
    return r;
}
void rt_work_add(uint64_t n) { g_w += n; }

#if defined(VP_TSAN)
// ---- memory accesses of the instrumented code are preemption points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) { preempt_point(); } void __tsan_write##n(void*) { preempt_point(); } \
    void __tsan_unaligned_read##n(void*) { preempt_point(); } void __tsan_unaligned_write##n(void*) { preempt_point(); } \
    void __tsan_volatile_read##n(void*) { preempt_point(); } void __tsan_volatile_write##n(void*) { preempt_point(); } \
    void __tsan_read_write##n(void*) { preempt_point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { preempt_point(); }
void __tsan_write_range(void*, unsigned long) { preempt_point(); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ATOMIC(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { preempt_point(); return *a; } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { preempt_point(); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { preempt_point(); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { preempt_point(); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { preempt_point(); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { preempt_point(); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { preempt_point(); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { preempt_point(); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { preempt_point(); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { preempt_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { preempt_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { preempt_point(); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif

#else
// ======================================================================
// Real OpenMP, or none
// ======================================================================
#ifdef _OPENMP
#include <omp.h>
void rt_init() { omp_set_dynamic(0); }
void rt_set(const RtSched& s) { g_s = s; omp_set_num_threads(s.threads ? s.threads : 1); }
#else
void rt_init() {}
#define VP_SEQ 1
void rt_set(const RtSched& s) { g_s = s; g_s.threads = 1; }
#endif
void rt_reset() { g_s = RtSched(); g_switches = g_regions = 0; rt_io() = RtIo(); }
#endif

// ======================================================================
// System calls of the code under test (linked with --wrap)
// ======================================================================
static RtIo g_io;
RtIo& rt_io() { return g_io; }

namespace {
struct Mapping { void* base; size_t total; size_t len; };
std::map<void*, Mapping>& mappings() { static std::map<void*, Mapping> m; return m; }
std::mutex g_map_mutex;     // C35 runs the library in several threads
bool inject(const char* name) {
    if (!g_io.on) return false;
    int64_t k = g_io.calls++;
    g_io.names.push_back(name);
    if (k == g_io.fail_at || k == g_io.fail_at2) { g_io.failed += std::string(g_io.failed.empty() ? "" : ",") + name; return true; }
    return false;
}
}

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_madvise(void*, size_t, int);
int __real_open(const char*, int, ...);
int __real_close(int);
FILE* __real_fopen(const char*, const char*);
FILE* __real_fdopen(int, const char*);
int __real_fclose(FILE*);
int __real_fseeko(FILE*, off_t, int);
off_t __real_ftello(FILE*);
int __real_fputc(int, FILE*);

// The bytes after the end of a mapped file must never be touched: what is
// left of the last page is poisoned (asan) and the next page is unmapped
static void* map_impl(void* a, size_t len, int prot, int flags, int fd, off_t off) {
    if (fd < 0 || len == 0 || a) return __real_mmap(a, len, prot, flags, fd, off);
    size_t pg = 4096, body_len = (len + pg - 1) / pg * pg, total = body_len + pg;
    char* base = (char*)__real_mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) return base;
    void* r = __real_mmap(base, len, prot, flags | MAP_FIXED, fd, off);
    if (r == MAP_FAILED) { int e = errno; __real_munmap(base, total); errno = e; return r; }
#if VP_ASAN
    if (body_len > len) __asan_poison_memory_region(base + len, body_len - len);
#endif
    std::lock_guard<std::mutex> g(g_map_mutex);
    mappings()[r] = {base, total, len};
    ++g_io.maps;
    return r;
}
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
    if (inject("mmap")) { errno = ENOMEM; return MAP_FAILED; }
    return map_impl(a, len, prot, flags, fd, off);
}
int __wrap_munmap(void* a, size_t len) {
    std::lock_guard<std::mutex> g(g_map_mutex);
    auto it = mappings().find(a);
    if (it == mappings().end()) {
        ++g_io.bad; g_io.bad_what = "munmap of an address that is not mapped";
        return __real_munmap(a, len);
    }
    if ((len + 4095) / 4096 != (it->second.len + 4095) / 4096) { ++g_io.bad; g_io.bad_what = "munmap with the wrong length"; }
    Mapping m = it->second; mappings().erase(it);
#if VP_ASAN
    __asan_unpoison_memory_region(m.base, m.total);
#endif
    --g_io.maps;
    return __real_munmap(m.base, m.total);
}
int __wrap_madvise(void* a, size_t l, int adv) { if (inject("madvise")) { errno = EIO; return -1; } return __real_madvise(a, l, adv); }
int __wrap_open(const char* fn, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (inject("open")) { errno = EMFILE; return -1; }
    int fd = __real_open(fn, flags, mode);
    if (fd >= 0) ++g_io.open_fds;
    return fd;
}
int __wrap___open_2(const char* fn, int flags) { return __wrap_open(fn, flags); }
int __wrap_open64(const char* fn, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    return __wrap_open(fn, flags, mode);
}
int __wrap___open64_2(const char* fn, int flags) { return __wrap_open(fn, flags); }
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, len, prot, flags, fd, off); }
int __wrap_close(int fd) {
    int r = __real_close(fd);
    if (r == 0) --g_io.open_fds; else { ++g_io.bad; g_io.bad_what = "close of a bad descriptor"; }
    return r;
}
FILE* __wrap_fopen(const char* fn, const char* mode) {
    if (inject("fopen")) { errno = EACCES; return nullptr; }
    FILE* f = __real_fopen(fn, mode);
    if (f) ++g_io.open_fds;
    return f;
}
FILE* __wrap_fopen64(const char* fn, const char* mode) { return __wrap_fopen(fn, mode); }
FILE* __wrap_fdopen(int fd, const char* mode) { if (inject("fdopen")) { errno = ENOMEM; return nullptr; } return __real_fdopen(fd, mode); }
// A failing fclose still closes the descriptor
int __wrap_fclose(FILE* f) {
    bool fail = inject("fclose");
    int r = __real_fclose(f); --g_io.open_fds;
    if (fail) { errno = EIO; return EOF; }
    return r;
}
int __wrap_fseeko(FILE* f, off_t o, int w) { if (inject("fseeko")) { errno = EIO; return -1; } return __real_fseeko(f, o, w); }
off_t __wrap_ftello(FILE* f) { if (inject("ftello")) { errno = EIO; return -1; } return __real_ftello(f); }
int __wrap_fseeko64(FILE* f, off_t o, int w) { return __wrap_fseeko(f, o, w); }
off_t __wrap_ftello64(FILE* f) { return __wrap_ftello(f); }
int __wrap_fputc(int c, FILE* f) { if (inject("fputc")) { errno = ENOSPC; return EOF; } return __real_fputc(c, f); }
}

#if defined(VP_SEQ)
bool rt_multi() { return true; }
#else
bool rt_multi() { return g_s.threads >= 2; }
#endif
