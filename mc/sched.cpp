// mcsched engine.  Compiled WITHOUT -fsanitize=thread; provides the __tsan_* runtime, the pthread
// primitives, the heap and the clock for the instrumented harness, and enumerates schedules.
#include "mc.hpp"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace {

// the engine's own containers never use the (intercepted) global heap
template <class X>
struct EA {
    using value_type = X;
    EA() = default;
    template <class Y>
    EA(const EA<Y>&) {}
    X* allocate(size_t n)
    {
        void* p = malloc(n * sizeof(X) + 1);
        if (!p) abort();
        return (X*)p;
    }
    void deallocate(X* p, size_t) { free(p); }
    bool operator==(const EA&) const { return true; }
    bool operator!=(const EA&) const { return false; }
};
template <class X>
using evec = std::vector<X, EA<X>>;

constexpr int MAXT = 8;
constexpr size_t STACK = 256 * 1024;
constexpr size_t ARENA = 1 << 20;
using u32 = uint32_t;
using u64 = uint64_t;
using u8 = uint8_t;

// ---------------------------------------------------------------- context switch
extern "C" void mc_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

struct EhGlobals {
    void* caught;
    unsigned int uncaught;
};

enum PK : u8 {
    P_RUN, P_LOCK, P_TRYLOCK, P_RDLOCK, P_WRLOCK, P_JOIN, P_CONDWAIT, P_CONDB, P_SIGNAL, P_BCAST,
    P_ATOM_R, P_ATOM_W, P_FUTEX, P_YIELD, P_AWAIT, P_UNLOCK, P_VIS_R, P_VIS_W, P_QUIET
};
const char* pkname[] = {"run", "lock", "trylock", "rdlock", "wrlock", "join", "cond_wait", "cond_blocked",
                        "signal", "broadcast", "atomic_load", "atomic_rmw/store", "futex_wait", "yield",
                        "await", "unlock", "visible_read", "visible_write", "await_quiet"};

struct Pend {
    PK k;
    bool timed;
    uintptr_t obj;
    uintptr_t aux;
    int64_t deadline;
};

struct VC {
    u32 c[MAXT];
};
inline void vcjoin(VC& a, const VC& b)
{
    for (int i = 0; i < MAXT; i++)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

enum AK : u8 { A_RUN, A_TIMEOUT, A_SPUR, A_SIGNAL };
const char* akname[] = {"run", "timeout", "spurious", "wake"};
struct Alt {
    u8 tid, kind, arg;
    bool operator==(const Alt& o) const { return tid == o.tid && kind == o.kind && arg == o.arg; }
};

struct Thread {
    int id;
    void* sp;
    char* stack;
    bool done, started;
    Pend pend;
    Alt chosen;
    bool notified;      // condvar wake-up delivered
    bool timedout;
    VC vc;
    VC acq_fence;       // clocks gathered by relaxed loads
    VC rel_fence;       // clock at the last release fence
    EhGlobals eh;
    void* once_callable;
    void (*once_call)();
    void* (*fn)(void*);
    void* arg;
    void* retval;
    int pendInv[4];
    int npend;
    int lastWake;
    u64 yieldStamp;
    int tryFails;       // failed try-locks in this execution
};

struct Fp {
    uintptr_t obj;
    u8 kind;            // 0 R, 1 W, 2 INV, 3 RES
};
constexpr uintptr_t FP_ANY = 4;   // conflicts with everything
inline bool conflict(const Fp& a, const Fp& b)
{
    if (a.obj != b.obj) return false;
    if (a.kind >= 2 || b.kind >= 2) return a.kind != b.kind;
    return (a.kind | b.kind) & 1;
}
struct SleepEnt {
    Alt alt;
    evec<Fp> fp;
};
struct Node {
    evec<Alt> alts;
    int cur = 0;
    bool curRunnable = false;   // PB bookkeeping
    evec<SleepEnt> sleep, done;
    evec<Fp> fp;
};

enum Res { RS_RESTART, RS_OK, RS_PRUNED, RS_SKIP, RS_TRUNC, RS_VIOL, RS_HORIZON };

// ---------------------------------------------------------------- shared memory between workers
struct Shared {
    std::atomic<int> stop;
    std::atomic<int> violWorker;
    std::atomic<u64> execs, pruned, trans, complete, horizon, nodes;
    std::atomic<u64> hb[64];          // heartbeats
    std::atomic<u64> maxdepth;
    std::atomic<u64> distinct;
    std::atomic<u64> distinctFull;
    std::atomic<u64> lincheck;
    std::atomic<u64> leaves;
    std::atomic<int> timedout;
    std::atomic<int> restart;
    std::atomic<u64> nextProg, progsDone;
    std::atomic<u8> claim[1 << 20];
    std::atomic<u64> hset[1 << 21];
};
Shared* SH;

// ---------------------------------------------------------------- global engine state
const mc::Scenario* SC;
int pbBound;                 // -1 none
bool sleepMode;
int inEngine = 1;
bool inExec = false;
Thread T[MAXT];
int nT;
Thread* cur;
void* engine_sp;
Res result;
char violMsg[4096];
u64 steps, STEP_LIMIT = 4000;
u64 execStamp = 0;
u64 stepNo;
int64_t vclock;
int timeoutsUsed, spurUsed, timeoutsFired;
int pbLeft;
evec<Node> stk;
size_t depth;
long lastNode;
evec<Fp> curFp;
evec<SleepEnt> curSleep;
evec<Alt> trace;        // every decision with more than one alternative
evec<Alt> replaySeq;
bool replayMode = false, verbose = false;
size_t replayPos;
int modeD = -1;                // depth limit for prefix splitting
bool workerMode = false, countMode = false;
bool claimedNow = false;
u64 leafCounter;
int workerId = 0;
bool sawTrylock = false;
long curProg = 0;
bool thoroughTier = false;
std::string replayPath;
int cells[128];
uintptr_t areg_lo[16], areg_hi[16];
int nareg;

struct AltEnt { int waiter; };

// condvars, mutexes, sync objects keyed by address
struct Mtx {
    uintptr_t a;
    int owner;      // -1 free
    int cnt;
    int readers;    // bitmask for rwlocks
    VC vc, rvc;
};
struct Cnd {
    uintptr_t a;
    evec<int> waiters;
};
struct SyncV {
    uintptr_t a;
    VC vc;
    int lastRel;
    bool has;
};
evec<Mtx> mtxs;
evec<Cnd> cnds;
evec<SyncV> syncs;

Mtx& mtx(uintptr_t a)
{
    for (auto& m : mtxs)
        if (m.a == a) return m;
    Mtx m{};
    m.a = a;
    m.owner = -1;
    mtxs.push_back(m);
    return mtxs.back();
}
Cnd& cnd(uintptr_t a)
{
    for (auto& m : cnds)
        if (m.a == a) return m;
    cnds.push_back(Cnd{a, {}});
    return cnds.back();
}
SyncV& syncv(uintptr_t a)
{
    for (auto& m : syncs)
        if (m.a == a) return m;
    SyncV s{};
    s.a = a;
    s.lastRel = -1;
    syncs.push_back(s);
    return syncs.back();
}

// ---------------------------------------------------------------- history
evec<mc::Op> hist;
int hclock;

// ---------------------------------------------------------------- heap arena
char* arena;
size_t arenaUsed;
int liveAllocs;
int failAllocIn, failAllocTid, failThreadIn;   // injected failures
bool failAllocDone, failThreadDone;
struct Sh8 {
    u64 stamp;
    u8 state;       // 1 live 2 freed
    u8 wt;
    u32 wclk;
    u32 r[MAXT], aw[MAXT], ar[MAXT];
};
Sh8* shadow;
struct AllocHdr {
    u64 magic;
    u64 size;
};

[[noreturn]] void abort_exec(Res r);
[[noreturn]] void violation(const char* fmt, ...);

inline bool inArena(const volatile void* p)
{
    return (uintptr_t)p - (uintptr_t)arena < ARENA;
}
Sh8& shAt(uintptr_t off)
{
    Sh8& s = shadow[off];
    if (s.stamp != execStamp) {
        memset(&s, 0, sizeof s);
        s.stamp = execStamp;
    }
    return s;
}
void* arena_alloc(size_t n, size_t align = 16)
{
    if (align < 16) align = 16;
    size_t need = ((n + 15) & ~size_t(15)) + 16;
    size_t base = arenaUsed + sizeof(AllocHdr);
    base = (base + align - 1) & ~(align - 1);
    if (base + need > ARENA) {
        fprintf(stderr, "mcsched: arena exhausted\n");
        _exit(3);
    }
    AllocHdr* h = (AllocHdr*)(arena + base - sizeof(AllocHdr));
    h->magic = 0xA110CA7EDULL;
    h->size = n;
    for (size_t i = 0; i < n; i++) {
        Sh8& s = shadow[base + i];
        memset(&s, 0, sizeof s);
        s.stamp = execStamp;
        s.state = 1;
    }
    memset(arena + base, 0xCD, n);
    arenaUsed = base + need;
    liveAllocs++;
    return arena + base;
}

const char* descAddr(uintptr_t p)
{
    static char buf[2][128];
    static int w;
    w ^= 1;
    if (inArena((void*)p)) {
        // find the allocation
        uintptr_t off = p - (uintptr_t)arena;
        uintptr_t o = off & ~uintptr_t(15);
        for (int i = 0; i < 4096 && o >= 16; i++, o -= 16) {
            AllocHdr* h = (AllocHdr*)(arena + o - sizeof(AllocHdr));
            if (h->magic == 0xA110CA7EDULL && off - o < h->size + 16) {
                snprintf(buf[w], 128, "heap object #%lx (size %lu) offset %lu", (unsigned long)o,
                         (unsigned long)h->size, (unsigned long)(off - o));
                return buf[w];
            }
        }
        snprintf(buf[w], 128, "heap offset %lx", (unsigned long)off);
    } else {
        snprintf(buf[w], 128, "address %p", (void*)p);
    }
    return buf[w];
}

void access(uintptr_t p, size_t n, bool write, bool atomic)
{
    if (p - (uintptr_t)arena >= ARENA || !inExec || inEngine) return;
    uintptr_t off = p - (uintptr_t)arena;
    int me = cur->id;
    for (size_t i = 0; i < n; i++) {
        Sh8& s = shAt(off + i);
        if (s.state != 1) {
            violation("%s of %zu bytes at %s: %s", write ? "write" : "read", n, descAddr(p + i),
                      s.state == 2 ? "memory already released" : "outside any live allocation");
        }
        if (nT == 1) continue;
        if (!SC->races) continue;
        auto hb = [&](int t, u32 c) { return t == me || c <= cur->vc.c[t]; };
        bool bad = false;
        int other = -1;
        const char* ok = "";
        if (s.wclk && !hb(s.wt, s.wclk)) bad = true, other = s.wt, ok = "write";
        if (!bad && write)
            for (int t = 0; t < nT; t++) {
                if (!atomic && s.ar[t] && !hb(t, s.ar[t])) bad = true, other = t, ok = "atomic read";
                if (s.r[t] && !hb(t, s.r[t])) bad = true, other = t, ok = "read";
            }
        if (!bad && !atomic)
            for (int t = 0; t < nT; t++)
                if (s.aw[t] && !hb(t, s.aw[t])) bad = true, other = t, ok = "atomic write";
        if (bad)
            violation("data race: %s%s by thread %d at %s conflicts with earlier unsynchronised %s by thread %d",
                      atomic ? "atomic " : "", write ? "write" : "read", me, descAddr(p + i), ok, other);
        u32 c = cur->vc.c[me];
        if (!atomic) {
            if (write) {
                s.wt = me;
                s.wclk = c;
            } else
                s.r[me] = c;
        } else {
            if (write)
                s.aw[me] = c;
            else
                s.ar[me] = c;
        }
    }
}

// ---------------------------------------------------------------- replay files
void write_replay(const char* msg)
{
    if (replayPath.empty() || replayMode) return;
    FILE* f = fopen(replayPath.c_str(), "w");
    if (!f) return;
    fprintf(f, "scenario %s\nprog %ld\ntry %d %d\nmessage %s\nchoices %zu\n", SC->name, curProg, (int)sawTrylock, (int)thoroughTier, msg, trace.size());
    for (auto& a : trace) fprintf(f, "%d %d %d\n", a.tid, a.kind, a.arg);
    fclose(f);
}

void abort_exec(Res r)
{
    result = r;
    void* dummy;
    mc_switch(&dummy, engine_sp);
    __builtin_unreachable();
}

void vviolation(const char* fmt, va_list ap)
{
    inEngine = 1;
    vsnprintf(violMsg, sizeof violMsg, fmt, ap);
    if (verbose) fprintf(stderr, "** %s\n", violMsg);
    abort_exec(RS_VIOL);
}
// --races-only: anything but a data race, a memory error or a misuse of a primitive just ends the execution
bool racesOnly;
void soft_stop()
{
    if (!racesOnly) return;
    inEngine = 1;
    abort_exec(RS_OK);
}
void violation(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vviolation(fmt, ap);
    va_end(ap);
    __builtin_unreachable();
}

inline void addFp(uintptr_t o, u8 k)
{
    if (!sleepMode) return;
    for (auto& f : curFp)
        if (f.obj == o && f.kind == k) return;
    curFp.push_back(Fp{o, k});
}

void stampInv(Thread& t)
{
    if (t.npend) {
        for (int i = 0; i < t.npend; i++) hist[t.pendInv[i]].inv = hclock++;
        t.npend = 0;
        addFp(1, 2);
    }
}

// ---------------------------------------------------------------- scheduler
void switch_to(Thread* n)
{
    Thread* me = cur;
    if (n == me) return;
    EhGlobals* g = (EhGlobals*)abi::__cxa_get_globals();
    me->eh = *g;
    me->once_callable = std::__once_callable;
    me->once_call = std::__once_call;
    *g = n->eh;
    std::__once_callable = n->once_callable;
    std::__once_call = n->once_call;
    cur = n;
    mc_switch(&me->sp, n->sp);
}

// A thread whose try-lock has failed TRY_FAILS times gets its next failure only when nothing else can run: a
// back-off loop (std::lock, a spin on try_lock) is explored for that many rounds instead of for ever.
constexpr int TRY_FAILS = 2;
bool tryWouldFail(Thread& t)
{
    Mtx& m = mtx(t.pend.obj);
    if (t.pend.aux == 2) return m.owner != -1;
    return (m.owner != -1 || m.readers) && !(t.pend.aux == 1 && m.owner == t.id);
}
bool enabledRun(Thread& t)
{
    Pend& p = t.pend;
    switch (p.k) {
        case P_TRYLOCK: return t.tryFails < TRY_FAILS || !tryWouldFail(t);
        case P_LOCK: {
            Mtx& m = mtx(p.obj);
            return (m.owner == -1 && !m.readers) || (m.owner == t.id && p.aux);
        }
        case P_WRLOCK: {
            Mtx& m = mtx(p.obj);
            return m.owner == -1 && !m.readers;
        }
        case P_RDLOCK: return mtx(p.obj).owner == -1;
        case P_JOIN: return T[p.obj].done;
        case P_CONDB: return false;
        case P_QUIET: return false;
        case P_FUTEX: return *(volatile unsigned*)p.obj != (unsigned)p.aux;
        case P_AWAIT: return cells[p.obj] >= (int)p.aux;
        default: return true;
    }
}

std::string where(Thread& t)
{
    char b[200];
    snprintf(b, sizeof b, "thread %d %s", t.id, pkname[t.pend.k]);
    return b;
}

void add_alts(evec<Alt>& v, Thread& t, bool freeT)
{
    if (t.done || !t.started) return;
    if (enabledRun(t)) {
        if (t.pend.k == P_SIGNAL) {
            Cnd& c = cnd(t.pend.obj);
            if (!c.waiters.empty()) {
                for (int w : c.waiters) v.push_back(Alt{(u8)t.id, A_SIGNAL, (u8)w});
                return;
            }
        }
        v.push_back(Alt{(u8)t.id, A_RUN, 0});
        return;
    }
    if (t.pend.k == P_CONDB || t.pend.k == P_FUTEX) {
        if (t.pend.timed && (freeT || timeoutsUsed < SC->timeouts)) v.push_back(Alt{(u8)t.id, A_TIMEOUT, 0});
        if (t.pend.k == P_CONDB && spurUsed < SC->spurious && !freeT) v.push_back(Alt{(u8)t.id, A_SPUR, 0});
    }
}

void finishTransition(int tid)
{
    if (!sleepMode) return;
    if (lastNode >= 0 && (size_t)lastNode < stk.size()) stk[lastNode].fp = curFp;
    lastNode = -1;
    for (auto& f : curFp)
        if (f.obj == FP_ANY) curSleep.clear();
    size_t o = 0;
    for (size_t i = 0; i < curSleep.size(); i++) {
        bool keep = curSleep[i].alt.tid != tid;
        for (auto& a : curSleep[i].fp)
            if (a.obj == FP_ANY) keep = false;
        if (keep)
            for (auto& a : curSleep[i].fp) {
                for (auto& b : curFp)
                    if (conflict(a, b)) {
                        keep = false;
                        break;
                    }
                if (!keep) break;
            }
        if (keep) {
            if (o != i) curSleep[o] = std::move(curSleep[i]);
            o++;
        }
    }
    curSleep.resize(o);
    curFp.clear();
}

evec<Alt> altbuf;
u64 soloFrom;
int lastRun;    // thread that ran the last transition

// choose the next transition; returns its thread
Thread* pick()
{
    finishTransition(lastRun);
    stepNo++;
    if (++steps > STEP_LIMIT) {
        if (steps - soloFrom > STEP_LIMIT / 2 && !racesOnly) violation("livelock: %s runs forever while nothing else can run", where(*cur).c_str());
        abort_exec(RS_HORIZON);
    }
    altbuf.clear();
    bool freeT = false;
    // yielding threads wait until somebody else has run
    auto yielding = [&](Thread& t) { return t.pend.k == P_YIELD && t.yieldStamp == stepNo - 1; };
    if (!cur->done && !yielding(*cur)) add_alts(altbuf, *cur, false);
    bool curRun = false;
    for (auto& a : altbuf)
        if (a.kind == A_RUN || a.kind == A_SIGNAL) curRun = true;
    for (int i = 0; i < nT; i++)
        if (&T[i] != cur && !yielding(T[i])) add_alts(altbuf, T[i], false);
    if (altbuf.empty())
        for (int i = 0; i < nT; i++) add_alts(altbuf, T[i], false);
    // a thread awaiting quiescence may go on once no thread can run by itself
    bool anyRun = false;
    for (auto& a : altbuf)
        if (a.kind == A_RUN || a.kind == A_SIGNAL) anyRun = true;
    if (!anyRun)
        for (int i = 0; i < nT; i++)
            if (!T[i].done && T[i].started && T[i].pend.k == P_TRYLOCK) {
                altbuf.push_back(Alt{(u8)i, A_RUN, 0});
                anyRun = true;
            }
    if (!anyRun)
        for (int i = 0; i < nT; i++)
            if (!T[i].done && T[i].started && T[i].pend.k == P_QUIET) altbuf.push_back(Alt{(u8)i, A_RUN, 0});
    if (altbuf.empty() && SC->free_timeouts) {
        freeT = true;
        for (int i = 0; i < nT; i++) add_alts(altbuf, T[i], true);
    }
    if (altbuf.empty()) {
        std::string s;
        for (int i = 0; i < nT; i++)
            if (!T[i].done) {
                s += s.empty() ? "" : ", ";
                s += where(T[i]);
                if (T[i].pend.timed) s += " (timed)";
            }
        soft_stop();
        violation("stuck: no thread can make progress (%s)", s.c_str());
    }
    if (!sleepMode && pbBound >= 0 && curRun && pbLeft <= 0) {
        size_t o = 0;
        for (auto& a : altbuf)
            if (a.tid == cur->id) altbuf[o++] = a;
        altbuf.resize(o);
    }
    Alt ch;
    if (replayMode) {
        {
            if (replayPos < replaySeq.size()) {
                ch = replaySeq[replayPos++];
                bool ok = false;
                for (auto& a : altbuf)
                    if (a == ch) ok = true;
                if (!ok) {
                    fprintf(stderr, "mcsched: replay diverged at choice %zu\n", replayPos - 1);
                    _exit(4);
                }
            } else
                ch = altbuf[0];
        }
    } else if (altbuf.size() == 1) {
        ch = altbuf[0];
        if (sleepMode)
            for (auto& s : curSleep)
                if (s.alt == ch) abort_exec(RS_PRUNED);
    } else {
        if (depth < stk.size()) {
            Node& n = stk[depth];
            if (n.alts.size() != altbuf.size()) {
                fprintf(stderr, "mcsched: nondeterministic execution\n");
                _exit(5);
            }
            ch = n.alts[n.cur];
            if (sleepMode) {
                curSleep = n.sleep;
                for (auto& d : n.done) curSleep.push_back(d);
            }
        } else {
            if (countMode && (int)depth == modeD) abort_exec(RS_TRUNC);
            if (workerMode && (int)depth == modeD) {
                u64 id = leafCounter++;
                u8 z = 0;
                if (id >= sizeof(SH->claim) || !SH->claim[id].compare_exchange_strong(z, 1)) abort_exec(RS_SKIP);
                claimedNow = true;
            }
            stk.emplace_back();
            Node& n = stk.back();
            n.alts = altbuf;
            n.curRunnable = curRun;
            n.cur = 0;
            if (sleepMode) {
                n.sleep = curSleep;
                int c = -1;
                for (size_t i = 0; i < n.alts.size() && c < 0; i++) {
                    bool sl = false;
                    for (auto& s : curSleep)
                        if (s.alt == n.alts[i]) sl = true;
                    if (!sl) c = (int)i;
                }
                if (c < 0) {
                    stk.pop_back();
                    abort_exec(RS_PRUNED);
                }
                n.cur = c;
            }
            ch = n.alts[n.cur];
        }
        lastNode = (long)depth;
        depth++;
    }
    trace.push_back(ch);
    // since when has one thread been running with nothing else able to
    if (ch.tid != lastRun) soloFrom = steps;
    else
        for (auto& a : altbuf)
            if (a.tid != ch.tid) soloFrom = steps;
    if (!sleepMode && pbBound >= 0 && curRun && ch.tid != cur->id) pbLeft--;
    Thread& t = T[ch.tid];
    t.chosen = ch;
    lastRun = ch.tid;
    if (ch.kind == A_TIMEOUT) {
        if (!freeT) timeoutsUsed++;
        timeoutsFired++;
        if (t.pend.deadline > vclock) vclock = t.pend.deadline;
        addFp(2, 1);
    }
    if (ch.kind == A_SPUR) {
        spurUsed++;
        addFp(3, 1);
    }
    if (verbose)
        fprintf(stderr, "  [%llu] T%d %s %s%s %s\n", (unsigned long long)stepNo, t.id, akname[ch.kind], pkname[t.pend.k],
                altbuf.size() > 1 ? "" : " (forced)",
                t.pend.k == P_RUN || t.pend.k == P_JOIN || t.pend.k == P_AWAIT ? "" : descAddr(t.pend.obj));
    stampInv(t);
    return &t;
}

void sched_point(PK k, uintptr_t obj, uintptr_t aux = 0, bool timed = false, int64_t deadline = 0)
{
    cur->pend = Pend{k, timed, obj, aux, deadline};
    Thread* me = cur;
    inEngine = 1;
    // a thread reaching its first visible operation hands control back to its creator
    if (!me->started) {
        me->started = true;
        Thread* parent = (Thread*)me->retval;
        me->retval = nullptr;
        switch_to(parent);
        inEngine = 1;
    } else {
        Thread* n = pick();
        switch_to(n);
    }
    inEngine = 0;
    me->vc.c[me->id]++;
}

extern "C" void mc_fiber_main();
void fiber_main_impl()
{
    Thread* me = cur;
    inEngine = 0;
    try {
        me->fn(me->arg);
    }
    catch (const std::exception& e) {
        violation("exception escaped from thread %d: %s", me->id, e.what());
    }
    catch (...) {
        violation("exception escaped from thread %d", me->id);
    }
    inEngine = 1;
    me->done = true;
    stampInv(*me);
    addFp(0x1000 + me->id, 1);
    if (me->id == 0) abort_exec(RS_OK);
    if (!me->started) {
        me->started = true;
        Thread* parent = (Thread*)me->retval;
        me->retval = nullptr;
        switch_to(parent);
    } else {
        Thread* n = pick();
        switch_to(n);
    }
    abort();
}
extern "C" void mc_fiber_main()
{
    fiber_main_impl();
}

void init_fiber(Thread& t)
{
    uintptr_t top = (uintptr_t)(t.stack + STACK);
    top &= ~uintptr_t(15);
    void** sp = (void**)top;
    *--sp = nullptr;                   // fake return address / alignment
    *--sp = (void*)mc_fiber_main;      // ret target
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    t.sp = sp;
    t.done = t.started = false;
    t.notified = t.timedout = false;
    t.eh = EhGlobals{nullptr, 0};
    t.once_callable = nullptr;
    t.once_call = nullptr;
    t.npend = 0;
    t.lastWake = -1;
    t.yieldStamp = 0;
    t.tryFails = 0;
    memset(&t.vc, 0, sizeof t.vc);
    memset(&t.acq_fence, 0, sizeof(VC));
    memset(&t.rel_fence, 0, sizeof(VC));
    t.vc.c[t.id] = 1;
    t.pend = Pend{P_RUN, false, 0, 0, 0};
}

bool active() { return inExec && !inEngine; }

void* body_thunk(void*)
{
    SC->body();
    return nullptr;
}

Res run_once()
{
    execStamp++;
    arenaUsed = 64;
    liveAllocs = 0;
    failAllocIn = failThreadIn = 0;
    failAllocDone = failThreadDone = false;
    mtxs.clear();
    cnds.clear();
    syncs.clear();
    hist.clear();
    hclock = 0;
    steps = 0;
    soloFrom = 0;
    stepNo = 0;
    vclock = 1000000000LL;
    timeoutsUsed = spurUsed = timeoutsFired = 0;
    pbLeft = pbBound;
    depth = 0;
    lastNode = -1;
    curFp.clear();
    curSleep.clear();
    trace.clear();
    replayPos = 0;
    nareg = 0;
    memset(cells, 0, sizeof cells);
    nT = 1;
    T[0].id = 0;
    T[0].fn = body_thunk;
    T[0].arg = nullptr;
    init_fiber(T[0]);
    T[0].started = true;
    lastRun = 0;
    cur = &T[0];
    EhGlobals* g = (EhGlobals*)abi::__cxa_get_globals();
    EhGlobals save = *g;
    *g = EhGlobals{nullptr, 0};
    result = RS_OK;
    inExec = true;
    claimedNow = claimedNow && true;
    mc_switch(&engine_sp, T[0].sp);
    inEngine = 1;
    inExec = false;
    *g = save;
    // the last transition's footprint
    if (lastNode >= 0 && (size_t)lastNode < stk.size()) stk[lastNode].fp = curFp;
    return result;
}

// ---------------------------------------------------------------- linearizability
struct LinKey {
    u64 a, b;
    bool operator==(const LinKey& o) const { return a == o.a && b == o.b; }
};
struct LinHash {
    size_t operator()(const LinKey& k) const { return k.a ^ (k.b * 0x9E3779B97F4A7C15ULL); }
};
std::unordered_map<LinKey, bool, LinHash> linCache;

inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}

LinKey histKey()
{
    // events in stamp order
    evec<std::pair<int, int>> ev;
    for (size_t i = 0; i < hist.size(); i++) {
        ev.push_back({hist[i].inv, (int)i * 2});
        ev.push_back({hist[i].res, (int)i * 2 + 1});
    }
    for (size_t i = 1; i < ev.size(); i++)
        for (size_t j = i; j > 0 && ev[j].first < ev[j - 1].first; j--) std::swap(ev[j], ev[j - 1]);
    LinKey k{1, 2};
    auto put = [&](u64 v) {
        k.a = mix(k.a, v);
        k.b = mix(k.b, v * 31 + 7);
    };
    for (auto& e : ev) {
        mc::Op& o = hist[e.second / 2];
        put(e.second & 1);
        put(o.tid);
        put(o.code);
        if (e.second & 1) {
            put(o.nr);
            for (int i = 0; i < o.nr; i++) put((u32)o.r[i]);
        } else {
            put(o.na);
            for (int i = 0; i < o.na; i++) put((u32)o.a[i]);
        }
    }
    return k;
}

bool wgl(const mc::St& st, u64 done, std::unordered_set<u64>& seen)
{
    int n = (int)hist.size();
    if (done == (n >= 64 ? ~0ull : (1ull << n) - 1)) return true;
    u64 h = mix(done, st.n);
    for (int i = 0; i < st.n; i++) h = mix(h, (u32)st.v[i]);
    if (!seen.insert(h).second) return false;
    int minRes = 1 << 30;
    for (int i = 0; i < n; i++)
        if (!(done >> i & 1) && hist[i].res < minRes) minRes = hist[i].res;
    for (int i = 0; i < n; i++) {
        if (done >> i & 1) continue;
        if (hist[i].inv > minRes) continue;
        mc::St s2 = st;
        if (!SC->spec(s2, hist[i])) continue;
        if (wgl(s2, done | (1ull << i), seen)) return true;
    }
    return false;
}

std::string histStr()
{
    std::string s;
    for (auto& o : hist) {
        char b[400];
        int n = snprintf(b, sizeof b, "%sT%d %s(", s.empty() ? "" : "; ", o.tid, SC->opname ? SC->opname(o.code) : "op");
        for (int i = 0; i < o.na; i++) n += snprintf(b + n, sizeof b - n, "%s%d", i ? "," : "", o.a[i]);
        n += snprintf(b + n, sizeof b - n, ")");
        for (int i = 0; i < o.nr; i++) n += snprintf(b + n, sizeof b - n, "%s%d", i ? "," : "->", o.r[i]);
        snprintf(b + n, sizeof b - n, " [%d,%d]", o.inv, o.res);
        s += b;
    }
    return s;
}

bool hsetInsert(u64 k)
{
    if (!k) k = 1;
    u64 m = sizeof(SH->hset) / sizeof(SH->hset[0]) - 1;
    u64 i = mix(k, 77) & m;
    for (int probe = 0; probe < 4096; probe++, i = (i + 1) & m) {
        u64 v = SH->hset[i].load();
        if (v == k) return false;
        if (v == 0) {
            u64 z = 0;
            if (SH->hset[i].compare_exchange_strong(z, k)) return true;
            if (z == k) return false;
        }
    }
    SH->distinctFull++;
    return false;
}

bool checkHistory()
{
    size_t w = 0;
    for (size_t i = 0; i < hist.size(); i++)
        if (hist[i].code >= 0) {
            if (w != i) hist[w] = hist[i];
            w++;
        }
    hist.resize(w);
    LinKey k = histKey();
    if (!SC->spec || racesOnly) {
        if (hsetInsert(k.a)) SH->distinct++;
        return true;
    }
    auto it = linCache.find(k);
    if (it != linCache.end()) return it->second;
    for (auto& o : hist)
        if (o.inv < 0 || o.res < 0) {
            snprintf(violMsg, sizeof violMsg, "internal: incomplete operation in history");
            return false;
        }
    std::unordered_set<u64> seen;
    mc::St st{};
    bool ok = wgl(st, 0, seen);
    SH->lincheck++;
    if (linCache.size() > 2000000) linCache.clear();
    linCache[k] = ok;
    if (hsetInsert(k.a)) SH->distinct++;
    return ok;
}

// ---------------------------------------------------------------- exploration
double now()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
double tEnd;
volatile sig_atomic_t inHandler;

void crash_handler(int sig, siginfo_t* si, void*)
{
    if (inHandler) _exit(98);
    inHandler = 1;
    inEngine = 1;
    snprintf(violMsg, sizeof violMsg, sig == SIGALRM || sig == SIGUSR1 ? "execution does not terminate (no visible step made)" : "crash: signal %d at address %p",
             sig, si->si_addr);
    if (replayMode) {
        printf("REPLAY-VIOLATION %s\n", violMsg);
        fflush(stdout);
        _exit(1);
    }
    int z = -1;
    if (SH->violWorker.compare_exchange_strong(z, workerId)) write_replay(violMsg);
    SH->stop = 1;
    _exit(97);
}

void on_terminate()
{
    if (!inExec) {
        fprintf(stderr, "mcsched: terminate outside execution\n");
        _exit(3);
    }
    violation("std::terminate called by thread %d", cur->id);
}

// returns true if exploration finished (or stopped)
// explores everything reachable under the current mode
void explore(u64& nexec, bool& truncated, u64& truncCount)
{
    stk.clear();
    leafCounter = 0;
    truncCount = 0;
    truncated = false;
    claimedNow = false;
    u64 lastPub = 0;
    for (;;) {
        violMsg[0] = 0;
        Res r = run_once();
        nexec++;
        SH->hb[workerId]++;
        if (r == RS_RESTART) {
            SH->restart = 1;
            SH->stop = 1;
            return;
        }
        bool counts = true;
        if (workerMode) {
            if (r == RS_SKIP) counts = false;
            else if ((int)stk.size() <= modeD && !(claimedNow)) {
                // finished above the split depth: claim as a leaf of its own
                u64 id = leafCounter++;
                u8 z = 0;
                counts = id < sizeof(SH->claim) && SH->claim[id].compare_exchange_strong(z, 1);
            }
        }
        if (countMode && r == RS_TRUNC) {
            truncCount++;
            counts = false;
        }
        if (counts) {
            if (r == RS_OK) {
                if (!checkHistory()) {
                    if (!violMsg[0] || strncmp(violMsg, "internal", 8))
                        snprintf(violMsg, sizeof violMsg, "history is not linearizable: %s", histStr().c_str());
                    r = RS_VIOL;
                }
            }
            SH->execs++;
            SH->trans += steps;
            if (r == RS_OK) SH->complete++;
            if (r == RS_PRUNED) SH->pruned++;
            if (r == RS_HORIZON) SH->horizon++;
            u64 md = SH->maxdepth;
            while (md < steps && !SH->maxdepth.compare_exchange_weak(md, steps)) {}
        }
        if (r == RS_VIOL) {
            int z = -1;
            if (SH->violWorker.compare_exchange_strong(z, workerId)) write_replay(violMsg);
            SH->stop = 1;
            return;
        }
        if (SH->stop) return;
        if ((++lastPub & 255) == 0 && now() > tEnd) {
            SH->timedout = 1;
            SH->stop = 1;
            return;
        }
        // backtrack
        bool more = false;
        while (!stk.empty()) {
            Node& n = stk.back();
            if (sleepMode) n.done.push_back(SleepEnt{n.alts[n.cur], n.fp});
            int c = n.cur + 1;
            for (; c < (int)n.alts.size(); c++) {
                bool sl = false;
                if (sleepMode) {
                    for (auto& s : n.sleep)
                        if (s.alt == n.alts[c]) sl = true;
                }
                if (!sl) break;
            }
            if (c < (int)n.alts.size()) {
                n.cur = c;
                n.fp.clear();
                more = true;
                break;
            }
            stk.pop_back();
        }
        if ((int)stk.size() <= modeD) claimedNow = false;
        if (!more) return;
    }
}

void setup_memory()
{
    arena = (char*)mmap((void*)0x200000000000ULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (arena == MAP_FAILED) {
        perror("mmap arena");
        exit(3);
    }
    shadow = (Sh8*)mmap(nullptr, ARENA * sizeof(Sh8), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) {
        perror("mmap shadow");
        exit(3);
    }
    for (int i = 0; i < MAXT; i++) {
        T[i].id = i;
        char* p = (char*)mmap((void*)(0x210000000000ULL + i * 0x1000000ULL), STACK + 4096, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap stack");
            exit(3);
        }
        mprotect(p, 4096, PROT_NONE);
        T[i].stack = p + 4096;
    }
}

void install_handlers()
{
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGUSR1, SIGALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
}

std::string jesc(const char* s)
{
    std::string o;
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') o += '\\';
        if ((unsigned char)*s < 32) {
            o += ' ';
            continue;
        }
        o += *s;
    }
    return o;
}
}  // namespace

// ================================================================= public API
namespace mc {
int inv(int code, int a0, int a1, int a2, int a3)
{
    if (!active()) return -1;
    inEngine = 1;
    Op o{};
    o.tid = cur->id;
    o.code = code;
    o.a[0] = a0;
    o.a[1] = a1;
    o.a[2] = a2;
    o.a[3] = a3;
    o.na = 4;
    while (o.na > 1 && o.a[o.na - 1] == 0) o.na--;
    o.inv = o.res = -1;
    hist.push_back(o);
    int h = (int)hist.size() - 1;
    cur->pendInv[cur->npend++] = h;
    inEngine = 0;
    return h;
}
void res(int h, int nr, int r0, int r1, int r2, int r3)
{
    if (!active()) return;
    inEngine = 1;
    stampInv(*cur);
    Op& o = hist[h];
    o.nr = nr;
    o.r[0] = r0;
    o.r[1] = r1;
    o.r[2] = r2;
    o.r[3] = r3;
    o.res = hclock++;
    addFp(1, 3);
    if (verbose) fprintf(stderr, "      T%d %s -> %d %d %d\n", cur->id, SC->opname ? SC->opname(o.code) : "op", r0, nr > 1 ? r1 : 0, nr > 2 ? r2 : 0);
    inEngine = 0;
}
void reinv(int h)
{
    if (!active()) return;
    inEngine = 1;
    stampInv(*cur);
    cur->pendInv[cur->npend++] = h;
    inEngine = 0;
}
void reinv_wake(int h)
{
    if (!active()) return;
    if (cur->lastWake > hist[h].inv) hist[h].inv = cur->lastWake;
}
void drop(int h)
{
    if (!active()) return;
    inEngine = 1;
    int o = 0;
    for (int i = 0; i < cur->npend; i++)
        if (cur->pendInv[i] != h) cur->pendInv[o++] = cur->pendInv[i];
    cur->npend = o;
    hist[h].code = -1;
    inEngine = 0;
}
void fail(const char* fmt, ...)
{
    soft_stop();
    va_list ap;
    va_start(ap, fmt);
    vviolation(fmt, ap);
    va_end(ap);
    __builtin_unreachable();
}
void fail_memory(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vviolation(fmt, ap);
    va_end(ap);
    __builtin_unreachable();
}
void atomic_region(const void* p, size_t n)
{
    areg_lo[nareg] = (uintptr_t)p;
    areg_hi[nareg] = (uintptr_t)p + n;
    nareg++;
}
int live_allocs() { return liveAllocs; }
bool fail_alloc(int n)
{
    bool d = failAllocDone;
    failAllocDone = false;
    failAllocIn = n;
    failAllocTid = cur->id;
    return d;
}
bool fail_thread(int n)
{
    bool d = failThreadDone;
    failThreadDone = false;
    failThreadIn = n;
    return d;
}
int& cell(int i) { return cells[i]; }
void visible(const void* obj, bool write)
{
    if (!active()) return;
    sched_point(write ? P_VIS_W : P_VIS_R, (uintptr_t)obj);
    addFp((uintptr_t)obj, write);
}
int self() { return cur->id; }
void await_cell(int i, int v)
{
    if (!active()) return;
    if (cells[i] >= v) {
        addFp(0x3000 + i, 0);
        return;
    }
    sched_point(P_AWAIT, i, v);
    addFp(0x3000 + i, 0);
}
void bump_cell(int i)
{
    if (!active()) return;
    cells[i]++;
    addFp(0x3000 + i, 1);
}
int await_quiet()
{
    if (!active()) return 0;
    sched_point(P_QUIET, 0);
    addFp(FP_ANY, 1);
    int n = 0;
    for (int i = 0; i < nT; i++)
        if (!T[i].done && &T[i] != cur) n++;
    return n;
}
bool thorough() { return thoroughTier; }
int timeouts_fired() { return timeoutsFired; }
int waiting_threads()
{
    int n = 0;
    for (int i = 0; i < nT; i++)
        if (!T[i].done && T[i].pend.k == P_CONDB) n++;
    return n;
}

static int worker(int w)
{
    workerId = w;
    workerMode = true;
    u64 ne = 0, tc = 0;
    bool tr;
    explore(ne, tr, tc);
    return 0;
}

int run_main(int argc, char** argv, const Scenario* scs, int n)
{
    std::string only, replay, tier = "quick";
    unsigned tags = ~0u;
    int workers = 8;
    double maxsec = 1e9;
    replayPath = "/dev/null";
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--scenario") only = val();
        else if (a == "--tags") tags = (unsigned)strtoul(val().c_str(), nullptr, 0);
        else if (a == "--races-only") racesOnly = true;
        else if (a == "--tier") tier = val();
        else if (a == "--replay") replay = val();
        else if (a == "--replay-out") replayPath = val();
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--max-seconds") maxsec = atof(val().c_str());
        else if (a == "--verbose") verbose = true;
        else if (a == "--list") list = true;
    }
    __libc_single_threaded = 0;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (list) {
        for (int i = 0; i < n; i++) printf("%s %d %u\n", scs[i].name, scs[i].quick, scs[i].tags);
        return 0;
    }
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    setup_memory();
    install_handlers();
    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) {
            fprintf(stderr, "cannot open %s\n", replay.c_str());
            return 3;
        }
        // comment lines first
        for (int ch; (ch = fgetc(f)) == '#' || (ungetc(ch, f), false);)
            while ((ch = fgetc(f)) != '\n' && ch != EOF) {}
        char name[256] = "";
        size_t nc = 0;
        int tr = 0, th = 0;
        if (fscanf(f, "scenario %255s\nprog %ld\ntry %d %d\n", name, &curProg, &tr, &th) != 4) return 3;
        sawTrylock = tr;
        thoroughTier = th;
        static char line[8192];
        if (!fgets(line, sizeof line, f)) return 3;
        if (fscanf(f, "choices %zu\n", &nc) != 1) return 3;
        for (size_t i = 0; i < nc; i++) {
            int a, b, c;
            if (fscanf(f, "%d %d %d", &a, &b, &c) != 3) return 3;
            replaySeq.push_back(Alt{(u8)a, (u8)b, (u8)c});
        }
        fclose(f);
        for (int i = 0; i < n; i++)
            if (!strcmp(scs[i].name, name)) SC = &scs[i];
        if (!SC) {
            fprintf(stderr, "unknown scenario %s\n", name);
            return 3;
        }
        sleepMode = false;
        replayMode = true;
        // the preemption bound is not re-applied when replaying: the choices are explicit
        pbBound = -1;
        if (SC->nprog) SC->nprog();
        if (SC->setprog) SC->setprog(curProg);
        SH->violWorker = -1;
        alarm(60);
        Res r = run_once();
        if (r == RS_OK && !checkHistory()) {
            snprintf(violMsg, sizeof violMsg, "history is not linearizable: %s", histStr().c_str());
            r = RS_VIOL;
        }
        if (r == RS_VIOL) {
            printf("REPLAY-VIOLATION %s\n", violMsg);
            return 1;
        }
        printf("REPLAY-OK\n");
        return 0;
    }
    int rc = 0;
    auto skipped = [&](const Scenario& s) {
        if (!only.empty()) return only != s.name;
        return !(s.tags & tags) || (tier == "quick" && !s.quick);
    };
    // --max-seconds is for the whole run: a scenario may use half of what is left, the last one all of it
    const double runEnd = now() + maxsec;
    int toGo = 0;
    for (int i = 0; i < n; i++) toGo += !skipped(scs[i]);
    for (int i = 0; i < n && !rc; i++) {
        const Scenario& s = scs[i];
        if (skipped(s)) continue;
        toGo--;
        SC = &s;
        thoroughTier = tier == "thorough";
        long nprog = s.nprog ? s.nprog() : 1;
        curProg = 0;
        if (s.setprog) s.setprog(0);
        pbBound = tier == "thorough" && s.pb_thorough != -2 ? s.pb_thorough : s.pb;
        sleepMode = pbBound < 0;
        madvise(SH, sizeof(Shared), MADV_REMOVE);
        memset((void*)SH, 0, offsetof(Shared, claim));
        for (auto& c : SH->claim) if (c.load()) c = 0;
        for (auto& c : SH->hset) if (c.load()) c = 0;
        SH->stop = 0;
        SH->timedout = 0;
        SH->violWorker = -1;
        double t0 = now();
        tEnd = t0 + std::max(1.0, (runEnd - t0) / (toGo ? 2 : 1));
        fflush(stdout);
        // exploration happens in forked processes so that a crash of the code under test is contained
        auto spawnW = [&](int w, bool cnt, int D) {
            pid_t p = fork();
            if (p == 0) {
                modeD = D;
                workerId = w;
                if (cnt) {
                    countMode = true;
                    u64 ne = 0, tc = 0;
                    bool tr;
                    explore(ne, tr, tc);
                    SH->leaves = tc;
                } else
                    worker(w);
                _exit(0);
            }
            return p;
        };
        auto monitor = [&](evec<pid_t> ps) {
            evec<u64> last(ps.size(), 0);
            evec<double> lt(ps.size(), now());
            size_t alive = ps.size();
            while (alive) {
                for (size_t k = 0; k < ps.size(); k++) {
                    if (ps[k] <= 0) continue;
                    int st;
                    pid_t r = waitpid(ps[k], &st, WNOHANG);
                    if (r == ps[k]) {
                        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 97)) {
                            fprintf(stderr, "mcsched: worker died (status %x) in %s\n", st, SC->name);
                            rc = 3;
                            SH->stop = 1;
                        }
                        ps[k] = -1;
                        alive--;
                        continue;
                    }
                    u64 h = SH->hb[k];
                    if (h != last[k]) {
                        last[k] = h;
                        lt[k] = now();
                    } else if (now() - lt[k] > 60) {
                        kill(ps[k], SIGUSR1);
                        lt[k] = now();
                    }
                }
                if (alive) usleep(alive == 1 ? 500 : 2000);
            }
        };
        bool restarted = false;
    again:
        if (nprog > 1) {
            memset((void*)SH, 0, offsetof(Shared, claim));
            SH->violWorker = -1;
            evec<pid_t> ps;
            for (int w = 0; w < workers; w++) {
                pid_t p = fork();
                if (p == 0) {
                    workerId = w;
                    modeD = -1;
                    for (;;) {
                        long ix = (long)SH->nextProg++;
                        if (ix >= nprog || SH->stop) break;
                        curProg = ix;
                        s.setprog(ix);
                        linCache.clear();
                        u64 ne = 0, tc = 0;
                        bool tr;
                        explore(ne, tr, tc);
                        if (!SH->stop) SH->progsDone++;
                    }
                    _exit(0);
                }
                ps.push_back(p);
            }
            monitor(ps);
        } else {
            int D = 1;
            bool complete = false;
            for (;; D++) {
                memset((void*)SH, 0, offsetof(Shared, claim));
                SH->violWorker = -1;
                monitor({spawnW(0, true, D)});
                if (SH->stop || rc) break;
                if (SH->leaves == 0) {
                    complete = true;
                    break;
                }
                if (SH->leaves >= 400 || D >= 30) break;
            }
            if (!complete && !SH->stop && !rc) {
                for (auto& c : SH->hset) if (c.load()) c = 0;
                memset((void*)SH, 0, offsetof(Shared, claim));
                SH->violWorker = -1;
                evec<pid_t> ps;
                for (int w = 0; w < workers; w++) ps.push_back(spawnW(w, false, D));
                monitor(ps);
            }
            if (!SH->stop) SH->progsDone = 1;
        }
        if (SH->restart && !restarted && !rc) {
            restarted = true;
            sawTrylock = true;
            for (auto& c : SH->claim) if (c.load()) c = 0;
            goto again;
        }
        bool viol = SH->violWorker >= 0;
        std::string msg;
        if (viol && replayPath != "/dev/null") {
            FILE* f = fopen(replayPath.c_str(), "r");
            char line[4200];
            if (f) {
                while (fgets(line, sizeof line, f))
                    if (!strncmp(line, "message ", 8)) msg = line + 8;
                fclose(f);
            }
            while (!msg.empty() && msg.back() == '\n') msg.pop_back();
        }
        printf("{\"scenario\":\"%s\",\"mode\":\"%s\",\"pb\":%d,\"programs\":%ld,\"programs_done\":%llu,\"schedules\":%llu,\"complete_runs\":%llu,\"sleep_pruned\":%llu,"
               "\"horizon\":%llu,\"transitions\":%llu,\"max_len\":%llu,\"distinct_histories\":%llu,\"lin_checks\":%llu,"
               "\"exhausted\":%s,\"wall\":%.2f,\"violation\":%s,\"message\":\"%s\"}\n",
               s.name, sleepMode ? "unbounded+sleep-sets" : "preemption-bounded", pbBound, nprog, (unsigned long long)SH->progsDone.load(),
               (unsigned long long)SH->execs.load(), (unsigned long long)SH->complete.load(),
               (unsigned long long)SH->pruned.load(), (unsigned long long)SH->horizon.load(),
               (unsigned long long)SH->trans.load(), (unsigned long long)SH->maxdepth.load(),
               (unsigned long long)SH->distinct.load(), (unsigned long long)SH->lincheck.load(),
               (SH->stop || SH->horizon) ? "false" : "true", now() - t0, viol ? "true" : "false", jesc(msg.c_str()).c_str());
        fflush(stdout);
        if (viol) rc = 1;
    }
    return rc;
}
}  // namespace mc

// ================================================================= heap
static bool injectedFailure()
{
    if (!failAllocIn || cur->id != failAllocTid || --failAllocIn) return false;
    failAllocDone = true;
    return true;
}
void* operator new(size_t n)
{
    if (active()) {
        if (injectedFailure()) throw std::bad_alloc();
        inEngine = 1;
        void* p = arena_alloc(n);
        inEngine = 0;
        return p;
    }
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try {
        return operator new(n);
    }
    catch (const std::bad_alloc&) {
        return nullptr;
    }
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void* operator new(size_t n, std::align_val_t al)
{
    if (active()) {
        if (injectedFailure()) throw std::bad_alloc();
        inEngine = 1;
        void* p = arena_alloc(n, (size_t)al);
        inEngine = 0;
        return p;
    }
    return aligned_alloc((size_t)al, (n + (size_t)al - 1) / (size_t)al * (size_t)al);
}
void* operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
static void mc_delete(void* p)
{
    if (!p) return;
    if (!inArena(p)) {
        free(p);
        return;
    }
    if (!active()) return;
    AllocHdr* h = (AllocHdr*)((char*)p - sizeof(AllocHdr));
    uintptr_t off = (char*)p - arena;
    if (h->magic != 0xA110CA7EDULL) violation("release of a pointer that was never allocated (%s)", descAddr((uintptr_t)p));
    size_t n = h->size;
    if (n && shAt(off).state != 1) violation("double release of %s", descAddr((uintptr_t)p));
    // releasing memory conflicts with unsynchronised accesses to it
    access((uintptr_t)p, n, true, false);
    for (size_t i = 0; i < n; i++) shAt(off + i).state = 2;
    liveAllocs--;
}
void operator delete(void* p) noexcept { mc_delete(p); }
void operator delete[](void* p) noexcept { mc_delete(p); }
void operator delete(void* p, size_t) noexcept { mc_delete(p); }
void operator delete[](void* p, size_t) noexcept { mc_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { mc_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mc_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mc_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { mc_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc_delete(p); }

// ================================================================= pthread
// once a try-lock has been seen, releasing a lock no longer commutes to the left, so releases become
// scheduling points of their own and the exploration starts again
static void noteTrylock()
{
    if (!sawTrylock) {
        sawTrylock = true;
        if (!replayMode) abort_exec(RS_RESTART);
    }
}
static void checkLive(uintptr_t a, const char* what)
{
    if (inArena((void*)a)) {
        Sh8& s = shAt(a - (uintptr_t)arena);
        if (s.state != 1) violation("%s on released memory (%s)", what, descAddr(a));
    }
}
static void do_acquire(Mtx& m, Thread* me)
{
    m.owner = me->id;
    m.cnt = 1;
    vcjoin(me->vc, m.vc);
}
static void do_unlock(uintptr_t a)
{
    Mtx& m = mtx(a);
    if (m.owner != cur->id) violation("unlock of a mutex not owned by the calling thread (%s)", descAddr(a));
    addFp(a, 1);
    if (--m.cnt == 0) {
        m.owner = -1;
        vcjoin(m.vc, cur->vc);
        cur->vc.c[cur->id]++;
    }
}
static int64_t tsns(const struct timespec* ts) { return (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec; }

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)m;
    checkLive(a, "lock");
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    Mtx& x = mtx(a);
    if (x.owner == cur->id && rec) {
        x.cnt++;
        return 0;
    }
    sched_point(P_LOCK, a, rec);
    checkLive(a, "lock");
    do_acquire(mtx(a), cur);
    addFp(a, 1);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)m;
    checkLive(a, "trylock");
    noteTrylock();
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    sched_point(P_TRYLOCK, a, rec);
    addFp(a, 1);
    Mtx& x = mtx(a);
    if (x.owner == cur->id && rec) {
        x.cnt++;
        return 0;
    }
    if (x.owner != -1 || x.readers) {
        cur->tryFails++;
        return EBUSY;
    }
    do_acquire(x, cur);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)m;
    checkLive(a, "unlock");
    if (sawTrylock) sched_point(P_UNLOCK, a);
    do_unlock(a);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at)
{
    memset(m, 0, sizeof *m);
    if (at) {
        int k = 0;
        pthread_mutexattr_gettype(at, &k);
        m->__data.__kind = k;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)m;
    checkLive(a, "rdlock");
    sched_point(P_RDLOCK, a);
    Mtx& x = mtx(a);
    x.readers++;
    vcjoin(cur->vc, x.vc);
    addFp(a, 1);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)m;
    checkLive(a, "wrlock");
    sched_point(P_WRLOCK, a);
    Mtx& x = mtx(a);
    do_acquire(x, cur);
    vcjoin(cur->vc, x.rvc);
    addFp(a, 1);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)m;
    noteTrylock();
    sched_point(P_TRYLOCK, a, 2);
    addFp(a, 1);
    Mtx& x = mtx(a);
    if (x.owner != -1) {
        cur->tryFails++;
        return EBUSY;
    }
    x.readers++;
    vcjoin(cur->vc, x.vc);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)m;
    noteTrylock();
    sched_point(P_TRYLOCK, a);
    addFp(a, 1);
    Mtx& x = mtx(a);
    if (x.owner != -1 || x.readers) {
        cur->tryFails++;
        return EBUSY;
    }
    do_acquire(x, cur);
    vcjoin(cur->vc, x.rvc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)m;
    if (sawTrylock) sched_point(P_UNLOCK, a);
    Mtx& x = mtx(a);
    addFp(a, 1);
    if (x.owner == cur->id) {
        x.owner = -1;
        vcjoin(x.vc, cur->vc);
    } else if (x.readers > 0) {
        x.readers--;
        vcjoin(x.rvc, cur->vc);
    } else
        violation("unlock of an unlocked rwlock");
    cur->vc.c[cur->id]++;
    return 0;
}

static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t dl)
{
    uintptr_t ca = (uintptr_t)c, ma = (uintptr_t)m;
    checkLive(ca, "condition wait");
    sched_point(P_CONDWAIT, ca);
    addFp(ca, 1);
    if (mtx(ma).owner != cur->id) violation("condition wait without owning the mutex");
    int saved = mtx(ma).cnt;
    mtx(ma).cnt = 1;
    do_unlock(ma);
    inEngine = 1;
    cnd(ca).waiters.push_back(cur->id);
    inEngine = 0;
    Thread* me = cur;
    me->notified = me->timedout = false;
    sched_point(P_CONDB, ca, ma, timed, dl);
    // resumed either because notified (pending converted to a lock) or by timeout/spurious choice
    if (!me->notified) {
        if (me->chosen.kind == A_TIMEOUT) me->timedout = true;
        inEngine = 1;
        auto& w = cnd(ca).waiters;
        for (size_t i = 0; i < w.size(); i++)
            if (w[i] == me->id) {
                w.erase(w.begin() + i);
                break;
            }
        inEngine = 0;
        addFp(ca, 1);
        sched_point(P_LOCK, ma, 0);
    }
    checkLive(ma, "lock");
    do_acquire(mtx(ma), me);
    mtx(ma).cnt = saved;
    addFp(ma, 1);
    // a call that slept may be ordered after its wake-up (see reinv_wake): a stamp of its own
    me->lastWake = hclock++;
    addFp(1, 2);
    return me->timedout ? ETIMEDOUT : 0;
}
static void wake(int w)
{
    Thread& t = T[w];
    t.notified = true;
    // its next transition is re-acquiring the mutex
    t.pend = Pend{P_LOCK, false, t.pend.aux, 0, 0};
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!active()) return 0;
    return cond_wait_impl(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!active()) return 0;
    return cond_wait_impl(c, m, true, tsns(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
    if (!active()) return 0;
    return cond_wait_impl(c, m, true, tsns(ts));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)c;
    checkLive(a, "notify");
    sched_point(P_SIGNAL, a);
    checkLive(a, "notify");
    addFp(a, 1);
    auto& w = cnd(a).waiters;
    if (cur->chosen.kind == A_SIGNAL) {
        int t = cur->chosen.arg;
        for (size_t i = 0; i < w.size(); i++)
            if (w[i] == t) {
                w.erase(w.begin() + i);
                break;
            }
        wake(t);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!active()) return 0;
    uintptr_t a = (uintptr_t)c;
    checkLive(a, "notify");
    sched_point(P_BCAST, a);
    checkLive(a, "notify");
    addFp(a, 1);
    auto& w = cnd(a).waiters;
    for (int t : w) wake(t);
    w.clear();
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (!active()) return 0;
    for (auto& x : cnds)
        if (x.a == (uintptr_t)c && !x.waiters.empty()) violation("condition variable destroyed while a thread waits on it");
    return 0;
}

int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!active()) {
        fprintf(stderr, "mcsched: pthread_create outside an execution\n");
        _exit(3);
    }
    if (failThreadIn && --failThreadIn == 0) {
        failThreadDone = true;
        return EAGAIN;
    }
    if (nT >= MAXT) {
        fprintf(stderr, "mcsched: too many threads\n");
        _exit(3);
    }
    inEngine = 1;
    Thread& t = T[nT];
    t.id = nT;
    t.fn = fn;
    t.arg = arg;
    init_fiber(t);
    vcjoin(t.vc, cur->vc);
    cur->vc.c[cur->id]++;
    nT++;
    t.retval = cur;
    Thread* me = cur;
    *th = (pthread_t)(0x7000 + t.id);
    if (verbose) fprintf(stderr, "  T%d creates T%d\n", me->id, t.id);
    // run the child up to its first visible operation
    me->pend = Pend{P_RUN, false, 0, 0, 0};
    switch_to(&t);
    inEngine = 0;
    return 0;
}
int pthread_join(pthread_t th, void** rv)
{
    if (!active()) return 0;
    int id = (int)((uintptr_t)th - 0x7000);
    if (id < 0 || id >= nT) violation("join of an unknown thread");
    if (!T[id].done) sched_point(P_JOIN, id);
    addFp(0x1000 + id, 0);
    vcjoin(cur->vc, T[id].vc);
    if (rv) *rv = nullptr;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void)
{
    if (!inExec) return (pthread_t)0x6fff;
    return (pthread_t)(0x7000 + cur->id);
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!active()) {
        if (*o == 0) {
            *o = 2;
            fn();
        }
        return 0;
    }
    uintptr_t a = (uintptr_t)o;
    if (*o == 0) {
        *o = 1;
        fn();
        *o = 2;
        inEngine = 1;
        SyncV& s = syncv(a ^ 1);
        vcjoin(s.vc, cur->vc);
        inEngine = 0;
        cur->vc.c[cur->id]++;
    } else {
        while (*(volatile pthread_once_t*)o == 1) {
            cur->yieldStamp = stepNo;
            sched_point(P_YIELD, a);
        }
        inEngine = 1;
        vcjoin(cur->vc, syncv(a ^ 1).vc);
        inEngine = 0;
    }
    return 0;
}
int sched_yield(void)
{
    if (!active()) return 0;
    cur->yieldStamp = stepNo;
    sched_point(P_YIELD, 3);
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*)
{
    if (!active()) {
        return (int)syscall(SYS_nanosleep, ts, nullptr);
    }
    vclock += tsns(ts);
    addFp(2, 1);
    cur->yieldStamp = stepNo;
    sched_point(P_YIELD, 3);
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*)
{
    if (!active()) return (int)syscall(SYS_nanosleep, ts, nullptr);
    if (flags) {
        if (tsns(ts) > vclock) vclock = tsns(ts);
    } else
        vclock += tsns(ts);
    addFp(2, 1);
    cur->yieldStamp = stepNo;
    sched_point(P_YIELD, 3);
    return 0;
}
int usleep(useconds_t us)
{
    struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!active()) return (int)syscall(SYS_clock_gettime, id, ts);
    ts->tv_sec = vclock / 1000000000LL;
    ts->tv_nsec = vclock % 1000000000LL;
    addFp(2, 0);
    return 0;
}
}  // extern "C"

// futures wait through libstdc++'s futex helpers
#include <bits/atomic_futex.h>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns)
{
    if (!active()) return true;
    if (*(volatile unsigned*)addr != val) return true;
    sched_point(P_FUTEX, (uintptr_t)addr, val, has_timeout, s.count() * 1000000000LL + ns.count());
    return cur->chosen.kind != A_TIMEOUT;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns)
{
    return _M_futex_wait_until(addr, val, has_timeout, s, ns);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
}  // namespace std

// ================================================================= tsan runtime
static bool schedAtomic(uintptr_t a)
{
    if (!nareg) return true;
    for (int i = 0; i < nareg; i++)
        if (a >= areg_lo[i] && a < areg_hi[i]) return true;
    return false;
}
static void atom_pre(uintptr_t a, size_t n, bool write)
{
    if (!active()) return;
    checkLive(a, "atomic access");
    if (nT > 1 && schedAtomic(a)) {
        sched_point(write ? P_ATOM_W : P_ATOM_R, a);
        checkLive(a, "atomic access");
        addFp(a, write);
    }
    access(a, n, write, true);
}
static bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void hb_load(uintptr_t a, int mo)
{
    if (!active() || nT == 1) return;
    inEngine = 1;
    SyncV& s = syncv(a);
    if (isAcq(mo)) vcjoin(cur->vc, s.vc);
    else vcjoin(cur->acq_fence, s.vc);
    inEngine = 0;
}
static void hb_store(uintptr_t a, int mo, bool rmw)
{
    if (!active() || nT == 1) return;
    inEngine = 1;
    SyncV& s = syncv(a);
    if (!rmw) {
        // a plain store starts a new release sequence unless made by the thread heading the old one
        if (s.lastRel != cur->id) memset(&s.vc, 0, sizeof s.vc);
    }
    if (isRel(mo)) {
        vcjoin(s.vc, cur->vc);
        if (!rmw) s.lastRel = cur->id;
    } else {
        vcjoin(s.vc, cur->rel_fence);
    }
    cur->vc.c[cur->id]++;
    inEngine = 0;
}
#define RANGE(fn, w)                                                                \
    extern "C" void fn(void* p, unsigned long n) { access((uintptr_t)p, n, w, false); }
RANGE(__tsan_read_range, false)
RANGE(__tsan_write_range, true)
#define ACC(N)                                                                                              \
    extern "C" void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, false); }                       \
    extern "C" void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, false); }                       \
    extern "C" void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, false); }             \
    extern "C" void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, false); }             \
    extern "C" void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false, false); }              \
    extern "C" void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true, false); }              \
    extern "C" void __tsan_unaligned_volatile_read##N(void* p) { access((uintptr_t)p, N, false, false); }    \
    extern "C" void __tsan_unaligned_volatile_write##N(void* p) { access((uintptr_t)p, N, true, false); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, false); }
extern "C" void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false); }

#define ATOM(B, TY)                                                                                                              \
    extern "C" TY __tsan_atomic##B##_load(const volatile TY* p, int mo)                                                           \
    {                                                                                                                            \
        atom_pre((uintptr_t)p, sizeof(TY), false);                                                                                \
        hb_load((uintptr_t)p, mo);                                                                                               \
        return *p;                                                                                                               \
    }                                                                                                                            \
    extern "C" void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo)                                                        \
    {                                                                                                                            \
        atom_pre((uintptr_t)p, sizeof(TY), true);                                                                                 \
        hb_store((uintptr_t)p, mo, false);                                                                                       \
        *p = v;                                                                                                                  \
    }                                                                                                                            \
    static TY rmw##B(volatile TY* p, int mo, TY (*f)(TY, TY), TY v)                                                               \
    {                                                                                                                            \
        atom_pre((uintptr_t)p, sizeof(TY), true);                                                                                 \
        hb_load((uintptr_t)p, mo);                                                                                               \
        hb_store((uintptr_t)p, mo, true);                                                                                        \
        TY o = *p;                                                                                                               \
        *p = f(o, v);                                                                                                            \
        return o;                                                                                                                \
    }                                                                                                                            \
    extern "C" TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) { return rmw##B(p, mo, [](TY, TY b) { return b; }, v); } \
    extern "C" TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int mo) { return rmw##B(p, mo, [](TY a, TY b) { return (TY)(a + b); }, v); } \
    extern "C" TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int mo) { return rmw##B(p, mo, [](TY a, TY b) { return (TY)(a - b); }, v); } \
    extern "C" TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int mo) { return rmw##B(p, mo, [](TY a, TY b) { return (TY)(a & b); }, v); } \
    extern "C" TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int mo) { return rmw##B(p, mo, [](TY a, TY b) { return (TY)(a | b); }, v); } \
    extern "C" TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int mo) { return rmw##B(p, mo, [](TY a, TY b) { return (TY)(a ^ b); }, v); } \
    extern "C" TY __tsan_atomic##B##_fetch_nand(volatile TY* p, TY v, int mo) { return rmw##B(p, mo, [](TY a, TY b) { return (TY) ~(a & b); }, v); } \
    extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int fmo)                       \
    {                                                                                                                            \
        atom_pre((uintptr_t)p, sizeof(TY), true);                                                                                 \
        if (*p == *e) {                                                                                                          \
            hb_load((uintptr_t)p, mo);                                                                                           \
            hb_store((uintptr_t)p, mo, true);                                                                                    \
            *p = v;                                                                                                              \
            return 1;                                                                                                            \
        }                                                                                                                        \
        hb_load((uintptr_t)p, fmo);                                                                                              \
        *e = *p;                                                                                                                 \
        return 0;                                                                                                                \
    }                                                                                                                            \
    extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int fmo)                         \
    {                                                                                                                            \
        return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo);                                                      \
    }                                                                                                                            \
    extern "C" TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int fmo)                            \
    {                                                                                                                            \
        __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo);                                                            \
        return e;                                                                                                                \
    }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int mo)
{
    if (!active()) return;
    if (isAcq(mo)) vcjoin(cur->vc, cur->acq_fence);
    if (isRel(mo)) cur->rel_fence = cur->vc;
    cur->vc.c[cur->id]++;
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// bulk memory operations of the instrumented objects arrive here through --wrap
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (active()) {
        access((uintptr_t)s, n, false, false);
        access((uintptr_t)d, n, true, false);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (active()) {
        access((uintptr_t)s, n, false, false);
        access((uintptr_t)d, n, true, false);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (active()) access((uintptr_t)d, n, true, false);
    return __real_memset(d, c, n);
}
}
