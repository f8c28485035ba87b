// A cooperative scheduler for real threads: exactly one runs at a time, every synchronisation operation is a scheduling
// point, and all schedules up to a preemption bound are enumerated by depth-first re-execution. A vector-clock detector
// reports every pair of conflicting accesses that nothing orders, so that plain accesses need no scheduling points.
#pragma once
#include "mc.hpp"
namespace sched {
struct Options {
    int preemptions = 2;
    uint64_t maxRuns = 400000;       // beyond it the exploration is reported as capped
    uint64_t maxPolling = 300;       // the same for code that polls, whose schedules cannot be reduced
    bool ownStackSkip = false;       // leave out accesses of a thread to its own stack
    bool por = true;                 // every schedule up to the order of independent operations; falls back to the bound on preemptions when threads poll
    bool points = true;              // false: no preemptions at all, one schedule (used to look for races only)
};
struct Stats { uint64_t runs = 0, transitions = 0, points = 0, accesses = 0, maxDepth = 0, diverged = 0, redundant = 0, traces = 0, faultsHit = 0; bool capped = false, bounded = false; };
// Runs body as thread 0 under every schedule.
Stats explore(mc::Ctx &c, const Options &o, const std::function<void()> &body);
[[noreturn]] void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool active();
int self();
uint64_t tick();                     // logical time: increases with every call
void point();                        // explicit scheduling point
void drain();                        // runs on only when every other thread has ended or is blocked
void noWait(bool on, const char *what); // the calling thread is in an operation that may not wait for a tree
void building(bool on);              // the calling thread is generating a tree
int threadsCreated();
struct Moment { int th = 0; uint32_t vc[28] = {}; };
void clockOf(Moment &m);             // causal time of the calling thread
bool mayPrecede(const Moment &a, const Moment &b); // a can come before b in a schedule equivalent to this one
// Faults, by position within one execution (1-based); cleared at the start of every execution.
void failCreate(int nth);            // may be called several times
void failNew(long nth);              // the nth operator new of the calling thread from now on throws
void failNewIn(int thread, long nth); // the same for a thread that does not exist yet
long newCount();
void quiet(bool on);                 // harness code: no shadow, no faults
void clearFaults();
}
