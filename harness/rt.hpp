// Runtime the library under test runs on: thread count, schedule, file
// mappings and injected faults are all owned (and so reproduced) by the case.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

// ---- threads ----------------------------------------------------------
// Flavours `asan` and `race` run OpenMP teams as fibers on one OS thread; the
// order in which they run is a function of this structure alone.
struct RtSched {
    unsigned threads = 4;
    // 0 each runs until it blocks, in order; 1 random choice at every
    // scheduling point; 2 in reverse order; 3 one starved thread;
    // 4 random priorities that change now and then; 5 each runs until it
    // blocks or asks for more work, and the one that has done least goes on
    unsigned policy = 0;
    uint64_t seed = 0;
    // > 0: a running thread is preempted with probability 1/preempt at an
    // instrumented memory access (flavour `race`) or runtime call
    unsigned preempt = 0;
};
void rt_init();
void rt_reset();
void rt_set(const RtSched& s);
const RtSched& rt_get();
bool rt_multi();                // two or more threads (always, in a build without threads)
uint64_t rt_switches();         // context switches since rt_reset
uint64_t rt_regions();          // parallel regions with > 1 thread since rt_reset

// ---- work (flavour `race`): memory accesses of the instrumented code
struct RtWork {
    uint64_t total = 0;         // all
    uint64_t span = 0;          // along the longest path: outside teams, plus the longest thread's of every phase between barriers
    bool tasks = false;         // the code made tasks, which are not spread here: span says nothing
};
void rt_work_start();
RtWork rt_work();
void rt_work_add(uint64_t n);

// ---- system calls -----------------------------------------------------
// Calls the library makes are counted while `on`; call number `fail_at`
// (0-based, over all calls of the kinds below) fails.
struct RtIo {
    bool on = false;
    int64_t fail_at = -1;       // -1: none
    int64_t fail_at2 = -1;      // a second failure
    int64_t calls = 0;
    std::string failed;         // names of the calls that were failed
    std::vector<std::string> names;
    int64_t open_fds = 0;       // opened minus closed by the library
    int64_t maps = 0;           // mapped minus unmapped by the library
    int64_t bad = 0;            // bad closes and unmaps
    std::string bad_what;
};
RtIo& rt_io();
uint64_t rt_heap();             // bytes the heap holds (asan flavours; else 0)
bool rt_has_heap();
