// seqmc: exhaustive exploration of operation sequences on the real (single-threaded) code against a reference model.
//
// A System couples the object under test with its reference model.  Two searches are offered:
//  * tree:     every sequence of `nops` operations up to a depth, from every initial layout, by re-execution; after each
//              operation that is new compared with the previous sequence the whole observable state is compared;
//  * fixpoint: breadth-first search over byte-exact snapshots of object + memory + model until no new state appears
//              (or the stated depth is reached), for objects that can be snapshotted.
// Exploration runs in forked workers; the sequence being executed is in shared memory, so a crash, a sanitizer report or
// a hang is attributed to it.  Every report is a replayable file.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "arena.hpp"

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace seq {
constexpr int MAXLEN = 1000;

struct System {
    virtual ~System() {}
    virtual void init(int k) = 0;
    virtual bool step(int op) = 0;   // false: not applicable here (the sequence is pruned)
    virtual void check() = 0;        // compare everything observable with the model
    virtual void finish() {}         // end of a sequence: destroy the object under test
    // fixpoint search only
    virtual void loaded() {}         // a snapshot has been restored
    std::vector<::arena::Root> roots;   // the memory that, with the snapshotable heap, makes up the state
    bool arena = false;              // allocations of init/step/check/finish come from the snapshotable heap
};

struct Scen {
    std::string name;
    std::function<System*()> make;
    int inits = 1;
    std::vector<uint32_t> fills = {0xAAAAAAAAu};   // contents of fresh memory; multiplied with the initial layouts
    std::function<std::string(int)> opname;
    int nops = 0;
    int depth_quick = 4, depth_thorough = 5;
    unsigned tags = 1;
    bool fixpoint = false;
    bool quick = true;
};

// ------------------------------------------------------------------ shared bookkeeping
struct Cur {
    std::atomic<uint64_t> hb;
    std::atomic<int> init, len;
    int ops[MAXLEN];
    std::atomic<uint64_t> sequences, steps, states;
    std::atomic<int> maxdepth;
    char msg[2000];
};
struct Shared {
    std::atomic<uint64_t> next;      // task counter
    std::atomic<int> stop, violWorker, timedout;
    Cur w[64];
};
inline Shared* SH;
inline Cur* ME;
inline bool replaying;
inline bool verbose, stats;
inline bool thorough_tier;
inline const Scen* SC;

inline double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

[[noreturn]] inline void vfail(const char* fmt, va_list ap)
{
    char b[1800];
    vsnprintf(b, sizeof b, fmt, ap);
    for (char* p = b; *p; p++)
        if ((unsigned char)*p < 32) *p = ' ';
    if (replaying) {
        printf("REPLAY-VIOLATION %s\n", b);
        fflush(stdout);
        _exit(1);
    }
    snprintf(ME->msg, sizeof ME->msg, "%s", b);
    int z = -1;
    SH->violWorker.compare_exchange_strong(z, (int)(ME - SH->w));
    SH->stop = 1;
    _exit(66);
}
[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfail(fmt, ap);
}
// which aspects a run judges: 1 = contents and answers, 2 = element lifetimes, addresses and released memory
inline unsigned aspects = 3;
#define SQ_LIFE(c, ...)                                                    \
    do {                                                                   \
        if ((::seq::aspects & 2) && !(c)) ::seq::fail(__VA_ARGS__);        \
    } while (0)
// contents and answers: a run that judges lifetimes only leaves the path at a wrong answer
struct Abandon {};
#define SQ_CONT(c, ...)                                        \
    do {                                                       \
        if (!(c)) {                                            \
            if (::seq::aspects & 1) ::seq::fail(__VA_ARGS__);  \
            throw ::seq::Abandon{};                            \
        }                                                      \
    } while (0)
#define SQ_CHECK(c, ...)                       \
    do {                                       \
        if (!(c)) ::seq::fail(__VA_ARGS__);    \
    } while (0)

// ------------------------------------------------------------------ heap accounting
inline volatile long heapLive;
inline volatile bool heapOn;
inline void hookMalloc(const volatile void*, size_t)
{
    if (heapOn) heapLive = heapLive + 1;
}
inline void hookFree(const volatile void* p)
{
    if (heapOn && p) heapLive = heapLive - 1;
}

// ------------------------------------------------------------------ tracked element
// Every special member is counted; an element knows its own address and carries the number of its construction, so any use
// of storage that holds no living element, of an element relocated by a byte copy or recreated in place, is noticed.
// Dead storage looks like fresh storage (the fill pattern), so that it does not distinguish states.
struct Track {
    long live = 0;          // elements alive
    long constructed = 0;   // constructions so far
    long moves = 0;         // copy/move constructions so far
    long assigns = 0;       // assignments so far
    int throwAt = 0;        // >0: the k-th element construction (or assignment) from now throws
    void arm(int k) { throwAt = k; }
    void disarm() { throwAt = 0; }
};
inline Track T;
struct Boom {};
struct Elem {
    volatile int v;
    volatile int uid;
    const Elem* volatile self;
    volatile uint32_t magic, pad;
    static constexpr uint32_t LIVE = 0x600DE1E1u;
    static constexpr int MOVED = -777, NONE = -555, FRESH = 1000000;
    static void event()
    {
        if (T.throwAt > 0 && --T.throwAt == 0) throw Boom{};
    }
    static void willConstruct()
    {
        event();
        T.constructed++;
    }
    void born()
    {
        pad = 0;
        uid = FRESH;
        magic = LIVE;
        self = this;
        T.live++;
    }
    bool alive() const { return magic == LIVE && self == this; }
    void chk(const char* what) const { SQ_CHECK(alive(), "%s of an element that is not alive", what); }
    Elem()
    {
        willConstruct();
        v = NONE;
        born();
    }
    Elem(int x)
    {
        willConstruct();
        v = x;
        born();
    }
    Elem(int x, int y)
    {
        willConstruct();
        v = x * 1000 + y;
        born();
    }
    Elem(const Elem& o)
    {
        o.chk("copy");
        willConstruct();
        T.moves++;
        v = o.v;
        born();
    }
    Elem(Elem&& o)
    {
        o.chk("move");
        willConstruct();
        T.moves++;
        v = o.v;
        o.v = MOVED;
        born();
    }
    Elem& operator=(const Elem& o)
    {
        chk("assignment");
        o.chk("copy");
        event();
        T.assigns++;
        v = o.v;
        return *this;
    }
    Elem& operator=(Elem&& o)
    {
        chk("assignment");
        o.chk("move");
        event();
        T.assigns++;
        int t = o.v;
        o.v = MOVED;
        v = t;
        return *this;
    }
    ~Elem()
    {
        if (!alive()) {
            SQ_LIFE(false, "destruction of an element that is not alive");
            return;
        }
        const uint32_t f = ::arena::fill;
        magic = f;
        pad = f;
        self = (const Elem*)((uint64_t)f << 32 | f);
        v = (int)f;
        uid = (int)f;
        T.live--;
    }
    int get() const
    {
        chk("use");
        return v;
    }
    bool operator==(const Elem& o) const { return get() == o.get(); }
    bool operator<(const Elem& o) const { return get() < o.get(); }
};

// ------------------------------------------------------------------ one execution
// initial layout k of the scenario; the higher part selects what fresh memory holds
inline int allInits() { return SC->inits * (int)SC->fills.size(); }
inline int layout(int k)
{
    ::arena::fill = SC->fills[(size_t)(k / SC->inits)];
    return k % SC->inits;
}
inline std::string describe(int init, const int* ops, int n)
{
    std::string s = "init " + std::to_string(init % SC->inits);
    if (SC->fills.size() > 1) {
        char b[40];
        snprintf(b, sizeof b, " (fresh memory holds %08x)", SC->fills[(size_t)(init / SC->inits)]);
        s += b;
    }
    s += ":";
    for (int i = 0; i < n; i++) s += (i ? "; " : " ") + SC->opname(ops[i]);
    return s;
}
// runs ops[0..n); checks from position `from` on; returns n or the index of the first inapplicable operation
inline int execute(int init, const int* ops, int n, int from)
{
    ME->init = init;
    ME->hb++;
    int done = n;
    bool left = false;
    T.disarm();
    heapLive = 0;
    heapOn = true;
    bool ar;
    {
        std::unique_ptr<System> s(SC->make());
        ar = s->arena;
        if (ar) {
            arena::reset();
            T.live = 0;
        }
        long live0 = T.live;
        ME->len = 0;
        try {
            {
                arena::On on(ar);
                s->init(layout(init));
                if (from <= 0) s->check();
            }
            for (int i = 0; i < n; i++) {
                ME->ops[i] = ops[i];
                ME->len = i + 1;
                if (verbose) fprintf(stderr, "  %s\n", SC->opname(ops[i]).c_str());
                arena::On on(ar);
                if (!s->step(ops[i])) {
                    done = i;
                    break;
                }
                if (i >= from) {
                    s->check();
                    ME->states++;
                }
                ME->steps++;
            }
        }
        catch (const Abandon&) {
            left = true;
        }
        if (left) {
            heapOn = false;
            return done;
        }
        {
            arena::On on(ar);
            s->finish();
        }
        if (ar) {
            SQ_LIFE(T.live == 0, "after destruction %ld elements are still alive", T.live);
            SQ_LIFE(arena::live() == 0, "after destruction %d memory blocks are still allocated", arena::live());
        }
        s.reset();
        if (!ar) SQ_LIFE(T.live == live0, "after destruction %ld elements are still alive", T.live - live0);
    }
    heapOn = false;
    SQ_LIFE(heapLive == 0, "after destruction %ld heap blocks are still allocated", (long)heapLive);
    ME->sequences++;
    return done;
}

inline double tEnd, tMax;
inline bool outOfTime()
{
    if (SH->stop) return true;
    if (now() > tEnd) {
        SH->timedout = 1;
        SH->stop = 1;
        return true;
    }
    return false;
}
// every sequence of exactly `depth` operations (hence every shorter one as a prefix)
inline void tree(int depth)
{
    int A = SC->nops;
    int p = depth < 2 ? depth : 2;
    uint64_t per = 1;
    for (int i = 0; i < p; i++) per *= A;
    uint64_t total = per * allInits();
    for (;;) {
        uint64_t t = SH->next++;
        if (t >= total) return;
        int init = (int)(t / per);
        uint64_t x = t % per;
        int ops[MAXLEN];
        for (int i = p - 1; i >= 0; i--) {
            ops[i] = (int)(x % A);
            x /= A;
        }
        for (int i = p; i < depth; i++) ops[i] = 0;
        int from = 0;
        // a prefix already found inapplicable is executed once per task: cheap
        for (;;) {
            int r = execute(init, ops, depth, from);
            if ((SH->w[0].hb & 63) == 0 || true)
                if ((ME->hb & 255) == 0 && outOfTime()) return;
            if (SH->stop) return;
            int i = r < depth ? r : depth - 1;
            while (i >= p && ++ops[i] == A) i--;
            if (i < p) break;
            for (int j = i + 1; j < depth; j++) ops[j] = 0;
            from = i;
        }
    }
}
struct H128 {
    uint64_t a, b;
    bool operator==(const H128& o) const { return a == o.a && b == o.b; }
};
inline H128 hash128(const std::string& s)
{
    uint64_t a = 0x9E3779B97F4A7C15ull ^ s.size(), b = 0xC2B2AE3D27D4EB4Full + s.size();
    const char* p = s.data();
    size_t n = s.size();
    auto mix = [&](uint64_t x) {
        a = (a ^ x) * 0x9FB21C651E98DF25ull;
        a ^= a >> 29;
        b = (b + x) * 0xD6E8FEB86659FD93ull;
        b ^= b >> 32;
    };
    for (; n >= 8; p += 8, n -= 8) {
        uint64_t x;
        memcpy(&x, p, 8);
        mix(x);
    }
    uint64_t x = 0;
    memcpy(&x, p, n);
    mix(x ^ (n << 56));
    a ^= a >> 32;
    b ^= b >> 29;
    return {a * 0x9E3779B97F4A7C15ull, b};
}
// Breadth-first search, level by level, by all workers over shared memory.  A state is stored as a byte-exact snapshot until it
// has been expanded and remembered as a 128-bit fingerprint of its canonical form.
struct BNode {
    int parent;
    short op;
    unsigned short init;
    uint64_t off;
    uint32_t len, depth;
};
struct Search {
    static constexpr size_t MAXNODES = 40u << 20, POOL = 14ull << 30;
    static constexpr uint64_t TABLE = 1ull << 26;
    std::atomic<uint64_t> nnodes, pool, taken, arrived, level, lo, hi, full;
    std::atomic<int> maxdepth;
    BNode* nodes;
    char* mem;
    struct Cell {
        std::atomic<uint64_t> a, b;
    }* table;
    std::unique_ptr<System> sys;
};
inline Search* SR;
inline void* shm(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        fprintf(stderr, "internal: no memory\n");
        exit(3);
    }
    return p;
}
inline void searchOpen()
{
    SR = new (shm(sizeof(Search))) Search();
    SR->nodes = (BNode*)shm(Search::MAXNODES * sizeof(BNode));
    SR->mem = (char*)shm(Search::POOL);
    SR->table = (Search::Cell*)shm(Search::TABLE * sizeof(Search::Cell));
    SR->sys.reset(SC->make());
    if (SR->sys->arena) ::arena::setup();
}
inline void searchClose()
{
    SR->sys.reset();
    munmap(SR->nodes, Search::MAXNODES * sizeof(BNode));
    munmap(SR->mem, Search::POOL);
    munmap(SR->table, Search::TABLE * sizeof(Search::Cell));
    munmap(SR, sizeof(Search));
    SR = nullptr;
}
inline bool seenInsert(H128 h)
{
    if (!h.a) h.a = 1;
    if (!h.b) h.b = 1;
    for (uint64_t i = h.b;; i++) {
        auto& c = SR->table[i & (Search::TABLE - 1)];
        uint64_t z = c.a.load(std::memory_order_acquire);
        if (z == 0) {
            if (c.a.compare_exchange_strong(z, h.a)) {
                c.b.store(h.b, std::memory_order_release);
                return true;
            }
        }
        if (z == h.a) {
            uint64_t b;
            while ((b = c.b.load(std::memory_order_acquire)) == 0) {
                if (SH->stop) return false;
            }
            if (b == h.b) return false;
        }
    }
}
inline void snapSave(System& s, std::string& o)
{
    for (auto& r : s.roots) o.append((const char*)r.p, r.n);
    ::arena::save(o);
}
inline void snapLoad(System& s, const char* p)
{
    for (auto& r : s.roots) {
        memcpy(r.p, p, r.n);
        p += r.n;
    }
    ::arena::load(p);
    T.disarm();
    s.loaded();
}
inline void fixpoint(int depth, int me, int workers)
{
    System* s = SR->sys.get();
    const bool ar = s->arena;
    std::string b, key;
    auto ends = [&] {   // destroy the objects under test in the state just reached
        {
            arena::On on(ar);
            s->finish();
        }
        SQ_LIFE(T.live == 0, "after destruction %ld elements are still alive", T.live);
        SQ_LIFE(arena::live() == 0, "after destruction %d memory blocks are still allocated", arena::live());
    };
    auto add = [&](int parent, int op, int init, int d) {
        key.assign((const char*)&arena::fill, 4);
        key.append(4, '\0');
        arena::canon(s->roots.data(), (int)s->roots.size(), key);
        if (!seenInsert(hash128(key))) return;
        b.clear();
        snapSave(*s, b);
        uint64_t n = SR->nnodes++;
        uint64_t off = SR->pool.fetch_add((b.size() + 15) & ~15ull);
        if (n >= Search::MAXNODES || off + b.size() > Search::POOL || n > Search::TABLE / 2) {
            SR->full = 1;
            SH->timedout = 1;
            SH->stop = 1;
            return;
        }
        memcpy(SR->mem + off, b.data(), b.size());
        SR->nodes[n] = {parent, (short)op, (unsigned short)init, off, (uint32_t)b.size(), (uint32_t)d};
        ME->states++;
        try {
            arena::On on(ar);
            s->check();   // whatever can be observed is a function of the state: checked once per state
        }
        catch (const Abandon&) {
        }
        ends();
    };
    auto barrier = [&](uint64_t level) {   // returns false to stop
        if (++SR->arrived == (uint64_t)workers * (level + 1)) {
            uint64_t hi = SR->hi, n = SR->nnodes;
            // snapshots of the level just expanded are no longer needed
            if (level > 0) {
                uint64_t a = SR->nodes[SR->lo].off, e = hi < n ? SR->nodes[hi].off : SR->pool.load();
                for (uint64_t i = SR->lo; i < hi; i++)
                    if (SR->nodes[i].off < a) a = SR->nodes[i].off;
                for (uint64_t i = hi; i < n && i < hi + 64; i++)
                    if (SR->nodes[i].off < e) e = SR->nodes[i].off;
                a = (a + 4095) & ~4095ull;
                e &= ~4095ull;
                if (e > a) madvise(SR->mem + a, e - a, MADV_REMOVE);
            }
            SR->lo = hi;
            SR->hi = n;
            SR->taken = SR->lo.load();
            SR->level = level + 1;
        } else
            while (SR->level != level + 1) {
                if (SH->stop) return false;
                ME->hb++;
                usleep(50);
            }
        return !SH->stop;
    };
    // level 0: the initial states
    for (;;) {
        uint64_t k = SR->taken++;
        if (k >= (uint64_t)allInits()) break;
        if (ar) arena::reset();
        T.live = 0;
        T.disarm();
        ME->init = (int)k;
        ME->len = 0;
        ME->hb++;
        try {
            arena::On on(ar);
            s->init(layout((int)k));
        }
        catch (const Abandon&) {
            continue;
        }
        add(-1, -1, (int)k, 0);
    }
    for (uint64_t level = 0;; level++) {
        if (!barrier(level)) return;
        if (SR->lo == SR->hi) return;
        if (depth > 0 && (int)level >= depth) return;
        SR->maxdepth = (int)level;
        int cnt = 0;
        for (;;) {
            uint64_t i = SR->taken++;
            if (i >= SR->hi) break;
            if ((++cnt & 15) == 0 && outOfTime()) return;
            if (SH->stop) return;
            const BNode nd = SR->nodes[i];
            int n = nd.depth;
            if (n >= MAXLEN - 2) fail("internal: path too long");
            for (int k = (int)i, q = n; q > 0; k = SR->nodes[k].parent) ME->ops[--q] = SR->nodes[k].op;
            ME->init = nd.init;
            const char* cur = SR->mem + nd.off;
            layout(nd.init);
            for (int op = 0; op < SC->nops; op++) {
                ME->ops[n] = op;
                ME->len = n + 1;
                ME->hb++;
                snapLoad(*s, cur);
                try {
                    arena::On on(ar);
                    if (!s->step(op)) continue;
                }
                catch (const Abandon&) {
                    continue;
                }
                ME->steps++;
                add((int)i, op, nd.init, n + 1);
            }
            ME->sequences++;
        }
    }
}

inline void writeReplay(const std::string& path, const std::string& msg, const Cur& c)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    int n = c.len;
    std::vector<int> ops(c.ops, c.ops + n);
    fprintf(f, "scenario %s\naspects %u\ntier %d\nmessage %s\nsequence %s\ninit %d\nops %d", SC->name.c_str(), aspects, (int)thorough_tier, msg.c_str(),
            describe(c.init, ops.data(), n).c_str(), (int)c.init, n);
    for (int o : ops) fprintf(f, " %d", o);
    fprintf(f, "\n");
    fclose(f);
}
inline std::string jesc(const std::string& s)
{
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        o += (unsigned char)c < 32 ? ' ' : c;
    }
    return o;
}

inline int main(int argc, char** argv, std::vector<Scen> scs)
{
    std::string only, replay, out = "/dev/null", tier = "quick";
    unsigned tags = ~0u;
    int workers = 8;
    double maxsec = 1e9;
    int depthOverride = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--scenario") only = val();
        else if (a == "--tags") tags = (unsigned)strtoul(val().c_str(), nullptr, 0);
        else if (a == "--tier") tier = val();
        else if (a == "--replay") replay = val();
        else if (a == "--replay-out") out = val();
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--aspects") aspects = (unsigned)atoi(val().c_str());
        else if (a == "--max-seconds") maxsec = atof(val().c_str());
        else if (a == "--depth") depthOverride = atoi(val().c_str());
        else if (a == "--verbose") verbose = true;
        else if (a == "--stats") stats = true;
        else if (a == "--list") {
            for (auto& s : scs) printf("%s tags=%u ops=%d inits=%d\n", s.name.c_str(), s.tags, s.nops, s.inits);
            return 0;
        } else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    if (workers > 60) workers = 60;
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ME = &SH->w[0];
    __sanitizer_install_malloc_and_free_hooks(hookMalloc, hookFree);
    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) return 3;
        static char line[200000]; char name[256] = "";
        int init = 0, n = 0, th = 0;
        std::vector<int> ops;
        while (fgets(line, sizeof line, f)) {
            if (sscanf(line, "scenario %255s", name) == 1) continue;
            if (sscanf(line, "tier %d", &th) == 1) continue;
            if (sscanf(line, "aspects %u", &aspects) == 1) continue;
            if (sscanf(line, "init %d", &init) == 1) continue;
            int off = 0;
            if (sscanf(line, "ops %d%n", &n, &off) == 1) {
                char* p = line + off;
                for (int i = 0; i < n; i++) ops.push_back((int)strtol(p, &p, 10));
            }
        }
        fclose(f);
        for (auto& s : scs)
            if (s.name == name) SC = &s;
        if (!SC) return 3;
        thorough_tier = th;
        replaying = true;
        fprintf(stderr, "%s\n", describe(init, ops.data(), (int)ops.size()).c_str());
        struct sigaction sa {};
        sa.sa_handler = [](int) {
            const char m[] = "REPLAY-VIOLATION the sequence does not terminate\n";
            (void)!write(1, m, sizeof m - 1);
            _exit(1);
        };
        sigaction(SIGALRM, &sa, nullptr);
        alarm(60);
        fflush(stdout);
        // a crash or sanitizer report is a violation too
        pid_t p = fork();
        if (p == 0) {
            alarm(60);
            execute(init, ops.data(), (int)ops.size(), 0);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            printf("REPLAY-OK\n");
            return 0;
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) printf("REPLAY-VIOLATION memory error or crash (status %x)\n", st);
        return 1;
    }
    int rc = 0;
    thorough_tier = tier == "thorough";
    auto skipped = [&](const Scen& s) { return !only.empty() ? only != s.name : (!(s.tags & tags) || (!thorough_tier && !s.quick)); };
    // --max-seconds is for the whole run: a scenario may use half of what is left, the last one all of it
    const double runEnd = now() + maxsec;
    int toGo = 0;
    for (auto& s : scs) toGo += !skipped(s);
    for (auto& s : scs) {
        if (skipped(s)) continue;
        toGo--;
        SC = &s;
        double t0 = now();
        tMax = std::max(1.0, (runEnd - t0) / (toGo ? 2 : 1));
        tEnd = t0 + tMax;
        int D = depthOverride ? depthOverride : thorough_tier ? s.depth_thorough : s.depth_quick;
        std::vector<int> rounds;
        if (!s.fixpoint) {
            if (D > 2) rounds.push_back(2);
            if (D > 4) rounds.push_back(4);
        }
        rounds.push_back(D);
        memset((void*)SH, 0, sizeof(Shared));
        SH->violWorker = -1;
        std::string msg;
        bool viol = false;
        int bad = 0;
        for (int d : rounds) {
            SH->next = 0;
            if (d == rounds.back())
                for (auto& w : SH->w) w.sequences = w.steps = w.states = 0, w.maxdepth = 0;
            fflush(stdout);
            if (s.fixpoint) searchOpen();
            std::vector<pid_t> ps;
            for (int w = 0; w < workers; w++) {
                pid_t p = fork();
                if (p == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    ME = &SH->w[w];
                    if (s.fixpoint) fixpoint(d, w, workers);
                    else tree(d);
                    _exit(0);
                }
                ps.push_back(p);
            }
            std::vector<uint64_t> last(workers, 0);
            std::vector<double> lt(workers, now());
            int alive = workers;
            while (alive) {
                for (int w = 0; w < workers; w++) {
                    if (ps[w] <= 0) continue;
                    int st;
                    pid_t r = waitpid(ps[w], &st, WNOHANG);
                    if (r == ps[w]) {
                        ps[w] = -1;
                        alive--;
                        if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 66)) continue;
                        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && SH->violWorker >= 0) continue;
                        int z = -1;
                        if (SH->violWorker.compare_exchange_strong(z, w))
                            snprintf(SH->w[w].msg, sizeof SH->w[w].msg, "memory error or crash (worker status %x)", st);
                        SH->stop = 1;
                        continue;
                    }
                    uint64_t h = SH->w[w].hb;
                    if (h != last[w]) {
                        last[w] = h;
                        lt[w] = now();
                    } else if (now() - lt[w] > 40) {
                        int z = -1;
                        if (SH->violWorker.compare_exchange_strong(z, w)) snprintf(SH->w[w].msg, sizeof SH->w[w].msg, "the sequence does not terminate");
                        SH->stop = 1;
                        kill(ps[w], SIGKILL);
                        lt[w] = now();
                    }
                }
                if (alive) usleep(500);
            }
            int smax = 0;
            if (s.fixpoint) {
                smax = SR->maxdepth;
                SH->w[0].maxdepth = smax;
                searchClose();
            }
            if (SH->violWorker >= 0) {
                Cur& c = SH->w[SH->violWorker];
                msg = c.msg;
                std::vector<int> ops(c.ops, c.ops + c.len);
                if (!strncmp(c.msg, "internal", 8)) bad = 1;
                writeReplay(out, msg, c);
                msg += " [" + describe(c.init, ops.data(), (int)ops.size()) + "]";
                viol = true;
                break;
            }
            if (SH->stop) break;
        }
        uint64_t sq = 0, stp = 0, sta = 0;
        int md = 0;
        for (auto& w : SH->w) {
            sq += w.sequences;
            stp += w.steps;
            sta += w.states;
            if (w.maxdepth > md) md = w.maxdepth;
        }
        printf("{\"scenario\":\"%s\",\"search\":\"%s\",\"depth\":%d,\"alphabet\":%d,\"inits\":%d,\"sequences\":%llu,\"steps\":%llu,\"states\":%llu,\"exhausted\":%s,"
               "\"wall\":%.2f,\"violation\":%s,\"message\":\"%s\"}\n",
               s.name.c_str(), s.fixpoint ? (D ? "bfs" : "fixpoint") : "tree", s.fixpoint ? md : D, s.nops, s.inits * (int)s.fills.size(), (unsigned long long)sq, (unsigned long long)stp, (unsigned long long)sta,
               !viol && !SH->timedout ? "true" : "false", now() - t0, viol ? "true" : "false", jesc(msg).c_str());
        fflush(stdout);
        if (bad) return 3;
        if (viol) {
            rc = 1;
            break;
        }
    }
    return rc;
}
}  // namespace seq
