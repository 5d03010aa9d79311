// mcsched: exhaustive controlled-scheduler exploration of real C++ code.
// Harness-side interface.  See DESIGN.md, "Schedule explorer".
#pragma once
#include <cstddef>
#include <cstdint>

namespace mc {
constexpr int MAXV = 6;

struct Op {              // one completed call in a history
    int tid;
    int code;
    int na, nr;
    int a[MAXV];         // arguments
    int r[MAXV];         // results
    int inv, res;        // stamps
};

// sequential specification: state is a small int vector
struct St {
    int n;
    int v[24];
};
using SpecFn = bool (*)(St& st, const Op& op);   // false: the result is impossible in this state
using OpName = const char* (*)(int code);

struct Scenario {
    const char* name;
    void (*body)();
    SpecFn spec = nullptr;        // linearizability specification, if any
    OpName opname = nullptr;
    int timeouts = 0;             // how many timed waits may expire per execution
    int spurious = 0;             // how many spurious wake-ups per execution
    bool free_timeouts = false;   // a timeout may fire for free when nothing else can run
    bool quick = true;            // part of the quick tier
    int pb = -1;                  // -1: unbounded with sleep sets; k>=0: preemption bound (quick)
    int pb_thorough = -2;         // thorough override (-2: same as pb)
    unsigned tags = 0;            // harness-defined
    bool races = true;            // report data races
    long (*nprog)() = nullptr;    // a scenario may stand for a family of client programs
    void (*setprog)(long) = nullptr;
};

// history recording -------------------------------------------------------
int inv(int code, int a0 = 0, int a1 = 0, int a2 = 0, int a3 = 0);
void reinv(int h);        // the call takes effect from here on (it had only waited until now)
void reinv_wake(int h);   // the call takes effect after the calling thread last woke up, if it slept at all
void drop(int h);   // forget an operation that was only announced
void res(int h, int nr = 0, int r0 = 0, int r1 = 0, int r2 = 0, int r3 = 0);

// failing ----------------------------------------------------------------
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail_memory(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // not silenced by --races-only
#define MC_CHECK(c, ...)              \
    do {                              \
        if (!(c)) ::mc::fail(__VA_ARGS__); \
    } while (0)

// only atomics inside [p, p+n) are scheduling points (others still order memory)
void atomic_region(const void* p, size_t n);
// number of live heap blocks allocated by the execution
int live_allocs();
// the n-th allocation from now on by the calling thread fails (0: none); returns whether an armed failure has happened
bool fail_alloc(int n);
// the n-th thread creation from now on fails (0: none); returns whether an armed failure has happened
bool fail_thread(int n);
// plain (uninstrumented, unscheduled) cells for monitors
int& cell(int i);
// a scheduling point on an abstract object (used by callbacks, monitors)
void visible(const void* obj, bool write);
// true while the calling thread is the only one able to run
int self();
// block until cell(i) >= v   (a harness-level wait that is not a container operation)
void await_cell(int i, int v);
void bump_cell(int i);
int timeouts_fired();
bool thorough();
// block until no other thread can make a step by itself; returns how many other threads have not finished
int await_quiet();
int waiting_threads();   // threads currently blocked in a condition wait

int run_main(int argc, char** argv, const Scenario* sc, int n);
}  // namespace mc
