// schedule exploration of BlockingQueue (PRIO=0) and BlockingPriorityQueue (PRIO=1)
#include "families.hpp"
#include <chrono>
#include <set>
#if PRIO
#include <gmlc/containers/BlockingPriorityQueue.hpp>
template<class... T> using QT = gmlc::containers::BlockingPriorityQueue<T...>;
#else
#include <gmlc/containers/BlockingQueue.hpp>
template<class... T> using QT = gmlc::containers::BlockingQueue<T...>;
#endif
// the elements: values that know whether they are alive, or (BOOLS) truth values, which a std::vector packs
#ifdef BOOLS
using E = bool;
static bool mk(int v) { return v & 1; }
static int get(bool b) { return b; }
static int norm(int v) { return v & 1; }
#include "given.hpp"
using Q = QT<E, GivenMutex, GivenCondition>;
#else
using E = Val;
static Val mk(int v) { return Val(v); }
static int get(const Val& v) { return v.get(); }
static int norm(int v) { return v; }
using Q = QT<E>;
#endif

enum { PUSH, EMPLACE, TRYPOP, PEEK, POP, TPOP, POPCALL, POPCALLP, CLEAR, SIZE, EMPTY, RESERVE, OBSEMPTY, PUSHP, EMPLACEP, POPCALLQ,
       PUSHX, EMPLACEX, PUSHPX, EMPLACEPX, POPCALLX };   // ..X: an element construction (or the function given) throws
static const char* opname(int c)
{
    static const char* n[] = {"push", "emplace", "try_pop", "try_peek", "pop", "timed_pop", "popOrCall", "popOrCall(pushing)",
                              "clear", "size", "empty", "reserve", "callback", "pushPriority", "emplacePriority", "popOrCall(pushing both)",
                              "push(throwing)", "emplace(throwing)", "pushPriority(throwing)", "emplacePriority(throwing)", "popOrCall(throwing)"};
    return n[c];
}
// specification state: v[0..23], first np entries priority, then normal; n = total, v[23] = np
static bool spec(mc::St& s, const mc::Op& o)
{
    auto ins = [&](int pos, int x) {
        for (int i = s.n; i > pos; i--) s.v[i] = s.v[i - 1];
        s.v[pos] = x;
        s.n++;
    };
    auto del = [&]() {
        for (int i = 1; i < s.n; i++) s.v[i - 1] = s.v[i];
        s.v[--s.n] = 0;
        if (s.v[23] > 0) s.v[23]--;
    };
    switch (o.code) {
        case PUSH:
        case EMPLACE: ins(s.n, o.a[0]); return true;
        case PUSHP:
        case EMPLACEP:
            ins(s.v[23], o.a[0]);
            s.v[23]++;
            return true;
        case TRYPOP:
        case TPOP:
            if (!s.n) return o.r[0] == 0;
            if (o.r[0] != 1 || o.r[1] != s.v[0]) return false;
            del();
            return true;
        case POP:
        case POPCALL:
        case POPCALLP:
        case POPCALLQ:
            if (!s.n || o.r[1] != s.v[0]) return false;
            del();
            return true;
        case PEEK:
            if (!s.n) return o.r[0] == 0;
            return o.r[0] == 1 && o.r[1] == s.v[0];
        case OBSEMPTY: return s.n == 0;
        case SIZE: return o.r[0] == s.n;
        case EMPTY: return o.r[0] == 0 || s.n == 0;
        case CLEAR:
            for (int i = 0; i < s.n; i++) s.v[i] = 0;
            s.n = 0;
            s.v[23] = 0;
            return true;
        case PUSHX:
        case EMPLACEX:
        case PUSHPX:
        case EMPLACEPX: return o.r[0] == 0;
        case POPCALLX:
            if (o.r[0] == 0) return true;   // the function was called and threw
            if (!s.n || o.r[1] != s.v[0]) return false;
            del();
            return true;
        case RESERVE: return true;
    }
    return false;
}
static Q* q;
static bool noTimeouts;
static void doop(int op, int val)
{
    switch (op) {
        case PUSH: {
            int h = mc::inv(PUSH, norm(val));
            q->push(mk(val));
            mc::res(h);
            break;
        }
        case EMPLACE: {
            int h = mc::inv(EMPLACE, norm(val));
            q->emplace(norm(val));
            mc::res(h);
            break;
        }
#if PRIO
        case PUSHP: {
            int h = mc::inv(PUSHP, norm(val));
            q->pushPriority(mk(val));
            mc::res(h);
            break;
        }
        case EMPLACEP: {
            int h = mc::inv(EMPLACEP, norm(val));
            q->emplacePriority(norm(val));
            mc::res(h);
            break;
        }
#else
        case SIZE: {
            int h = mc::inv(SIZE);
            int r = (int)q->size();
            mc::res(h, 1, r);
            break;
        }
#endif
        case TRYPOP: {
            int h = mc::inv(TRYPOP);
            auto r = q->try_pop();
            mc::res(h, r ? 2 : 1, r ? 1 : 0, r ? get(*r) : 0);
            break;
        }
        case PEEK: {
            int h = mc::inv(PEEK);
            auto r = q->try_peek();
            mc::res(h, r ? 2 : 1, r ? 1 : 0, r ? get(*r) : 0);
            break;
        }
        case POP: {
            int h = mc::inv(POP);
            E r = q->pop();
            mc::res(h, 2, 1, get(r));
            mc::reinv_wake(h);
            break;
        }
        case TPOP: {
            int h = mc::inv(TPOP);
            auto r = q->pop(std::chrono::milliseconds(50));
            mc::res(h, r ? 2 : 1, r ? 1 : 0, r ? get(*r) : 0);
            if (r) mc::reinv_wake(h);
            MC_CHECK(!noTimeouts || r, "timed pop gave up although no time had passed and elements are available to it");
            break;
        }
        case POPCALL:
        case POPCALLP:
        case POPCALLQ: {
            int h = mc::inv(op);
            int ob = mc::inv(OBSEMPTY);
            int calls = 0;
            E r = q->popOrCall([&]() {
                // every call of the functor means the queue was seen empty since the previous one
                mc::res(ob, 0);
                calls++;
                if (op != POPCALL && calls == 1) doop(PUSH, val);
#if PRIO
                if (op == POPCALLQ && calls == 1) doop(PUSHP, val + 100);
#endif
                mc::reinv(h);   // nothing has been taken yet
                ob = mc::inv(OBSEMPTY);
            });
            // the last observation interval has no call: drop it
            mc::drop(ob);
            mc::res(h, 2, 1, get(r));
            mc::reinv_wake(h);
            break;
        }
#ifndef BOOLS
        case PUSHX:
        case EMPLACEX:
        case PUSHPX:
        case EMPLACEPX: {
            Val bad(Val::BOMB);
            int h = mc::inv(op);
            bool ok = true;
            try {
                switch (op) {
                    case PUSHX: q->push((const Val&)bad); break;
                    case EMPLACEX: q->emplace(Bomb{}); break;
#if PRIO
                    case PUSHPX: q->pushPriority((const Val&)bad); break;
                    case EMPLACEPX: q->emplacePriority(Bomb{}); break;
#endif
                }
            }
            catch (const Thrown&) {
                ok = false;
            }
            mc::res(h, 1, ok);
            break;
        }
#endif
        case POPCALLX: {
            int h = mc::inv(op);
            int ob = mc::inv(OBSEMPTY);
            bool threw = false, called = false;
            try {
                E r = q->popOrCall([&]() {
                    mc::res(ob, 0);
                    called = true;
                    throw Thrown{};
                });
                mc::drop(ob);
                mc::res(h, 2, 1, get(r));
                mc::reinv_wake(h);
            }
            catch (const Thrown&) {
                threw = true;
                mc::res(h, 1, 0);
            }
            MC_CHECK(threw == called, "the exception of the function given to popOrCall did not reach the caller");
            break;
        }
        case EMPTY: {
            int h = mc::inv(EMPTY);
            int r = q->empty();
            mc::res(h, 1, r);
            break;
        }
        case CLEAR: {
            int h = mc::inv(CLEAR);
            q->clear();
            mc::res(h);
            break;
        }
        case RESERVE: {
            int h = mc::inv(RESERVE);
            q->reserve(8);
            mc::res(h);
            break;
        }
    }
}
static void final_checks()
{
    for (int i = 0; i < 24; i++) {
        bool e = q->empty();
#if !PRIO
        size_t n = q->size();
        MC_CHECK(e == (n == 0), "quiescent: empty()=%d but size()=%zu", e, n);
#endif
        auto pk = q->try_peek();
        int h = mc::inv(TRYPOP);
        auto r = q->try_pop();
        mc::res(h, r ? 2 : 1, r ? 1 : 0, r ? get(*r) : 0);
        MC_CHECK(e == !r, "quiescent: empty()=%d but try_pop() %s an element", e, r ? "returned" : "did not return");
        MC_CHECK((bool)pk == (bool)r && (!pk || get(*pk) == get(*r)), "quiescent: try_peek() does not show the element try_pop() returns");
        if (!r) break;
    }
    delete q;
    MC_CHECK(mc::live_allocs() == 0, "%d heap blocks leaked", mc::live_allocs());
}
// 0 empty; 1: one; 2: two (pull and push side); 3: three pushed, one popped; 4: pushed then emptied;
// priority queue: 5 one priority; 6 priority + normal; 7 normal pushed, priority pushed and popped
static int initCount(int k)
{
    static const int c[] = {0, 1, 2, 2, 0, 1, 2, 1};
    return c[k];
}
static void init_state(int k)
{
    if (k < 5) {
        int n = k == 1 ? 1 : k == 2 ? 2 : k == 3 ? 3 : k == 4 ? 1 : 0;
        for (int i = 0; i < n; i++) doop(PUSH, 1 + i);
        if (k == 3 || k == 4) doop(TRYPOP, 0);
    } else {
        doop(PUSHP, 5);
        if (k >= 6) doop(PUSH, 6);
        if (k == 7) doop(TRYPOP, 0);
    }
}
static bool isPush(int o) { return o == PUSH || o == EMPLACE || o == PUSHP || o == EMPLACEP; }
static bool isPop(int o) { return o == POPCALLX || o == TRYPOP || o == POP || o == TPOP || o == POPCALL || o == POPCALLP || o == POPCALLQ; }
static bool isBlocking(int o) { return o == POP || o == POPCALL || o == POPCALLP || o == POPCALLQ || (noTimeouts && o == TPOP); }
// A program is admissible if, in the specification, no interleaving of its calls can leave a blocking call
// waiting forever: explored exhaustively on the element count alone.
struct Abs {
    const Family& f;
    const std::vector<int>& c;
    std::set<std::vector<int>> seen;
    bool bad = false;
    // st: per thread 4*pos + stage of the callback (0 not called, 1 seen empty, 2 one pushed, 3 done), then the count
    void go(std::vector<int> st)
    {
        if (bad || !seen.insert(st).second) return;
        bool moved = false, all = true;
        for (int t = 0; t < f.T; t++) {
            int pos = st[t] / 4, cb = st[t] & 3;
            if (pos >= f.K) continue;
            all = false;
            int o = f.op(c, t, pos);
            auto n = st;
            int& cnt = n[f.T];
            n[t] = 4 * (pos + 1);
            if (isPush(o)) cnt++;
            else if (o == POPCALLP || o == POPCALLQ) {
                if (cb == 1 || cb == 2) {
                    cnt++;
                    n[t] = 4 * pos + (o == POPCALLQ && cb == 1 ? 2 : 3);
                } else if (cnt > 0) cnt--;
                else if (cb == 0) n[t] = 4 * pos + 1;
                else continue;
            } else if (isBlocking(o)) {
                if (cnt == 0) continue;
                cnt--;
            } else if (isPop(o)) {
                if (cnt > 0) cnt--;
            } else if (o == CLEAR) cnt = 0;
            moved = true;
            go(n);
        }
        if (!moved && !all) bad = true;
    }
};
static bool hasBlocking(const Family& f, const std::vector<int>& c)
{
    for (int i = 0; i < f.T; i++)
        for (int k = 0; k < f.K; k++)
            if (isBlocking(f.op(c, i, k))) return true;
    return false;
}
static bool neverStuck(const Family& f, const std::vector<int>& c, int init)
{
    if (!hasBlocking(f, c)) return true;
    Abs a{f, c, {}};
    std::vector<int> st(f.T + 1, 0);
    st[f.T] = initCount(init);
    a.go(st);
    return !a.bad;
}
static bool validLin(const Family& f, const std::vector<int>& c, int init)
{
    noTimeouts = false;
    return neverStuck(f, c, init);
}
static bool validWake(const Family& f, const std::vector<int>& c, int init)
{
    noTimeouts = true;
    return hasBlocking(f, c) && neverStuck(f, c, init);
}
// failing calls among others: no time limit expires
static bool validX(const Family& f, const std::vector<int>& c, int init)
{
    noTimeouts = true;
    bool x = false;
    for (int i = 0; i < f.T; i++)
        for (int k = 0; k < f.K; k++) x |= f.op(c, i, k) >= PUSHX;
    return x && neverStuck(f, c, init);
}
static void body()
{
    q = new Q();
    init_state(cinit);
    {
        std::vector<std::thread> th;
        th.reserve(fam->T);
        for (int t = 0; t < fam->T; t++) {
            const std::vector<int>* p = &fam->progs[(*combo)[t]];
            th.emplace_back([p, t] {
                for (size_t i = 0; i < p->size(); i++) doop((*alpha)[(*p)[i]], (t + 1) * 10 + (int)i * 2);
            });
        }
        for (auto& x : th) x.join();
    }
    final_checks();
}
// unrestricted programs: whenever every thread is blocked the queue must be empty, and each single element then
// pushed must complete one blocked call
static void bodyFeed()
{
    noTimeouts = true;
    q = new Q();
    init_state(cinit);
    {
        std::vector<std::thread> th;
        th.reserve(fam->T);
        for (int t = 0; t < fam->T; t++) {
            const std::vector<int>* p = &fam->progs[(*combo)[t]];
            th.emplace_back([p, t] {
                for (size_t i = 0; i < p->size(); i++) {
                    doop((*alpha)[(*p)[i]], (t + 1) * 10 + (int)i * 2);
                    ++*(volatile int*)&mc::cell(60);
                }
            });
        }
        int fed = 0;
        while (mc::await_quiet()) {
            auto pk = q->try_peek();
            MC_CHECK(!pk, "a consumer stays asleep although an element is available");
            MC_CHECK(q->empty(), "all consumers wait on an empty queue but empty() is false");
            int before = mc::cell(60);
#if PRIO
            doop(fed & 1 ? PUSHP : PUSH, 60 + fed);
#else
            doop(PUSH, 60 + fed);
#endif
            fed++;
            int left = mc::await_quiet();
            MC_CHECK(mc::cell(60) > before, "an element was pushed but none of the waiting consumers returned");
            if (!left) break;
        }
        for (auto& x : th) x.join();
    }
    final_checks();
}
static bool validFeed(const Family& f, const std::vector<int>& c, int init)
{
    noTimeouts = true;
    return hasBlocking(f, c) && !neverStuck(f, c, init);
}
static void bodyLin()
{
    noTimeouts = false;
    body();
}
static void bodyWake()
{
    noTimeouts = true;
    body();
}
