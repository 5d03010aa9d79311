// C30: failing operations (tags 2);  C27: the queues and the air lock used from one thread, against their sequential models.  The lock and the condition
// variable are ours: taking a lock twice or waiting for a signal nobody can give is reported instead of hanging.
#include "arena_ops.hpp"
#include "seq.hpp"
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <type_traits>
#include "gmlc/containers/AirLock.hpp"
#include "gmlc/containers/BlockingPriorityQueue.hpp"
#include "gmlc/containers/BlockingQueue.hpp"
#include "gmlc/containers/SimpleQueue.hpp"

using namespace seq;
namespace gc = gmlc::containers;

struct Lock {
    bool held = false;
    void lock()
    {
        SQ_CHECK(!held, "a lock that is already held is taken again by the same thread (deadlock)");
        held = true;
    }
    bool try_lock()
    {
        if (held) return false;
        return held = true;
    }
    void unlock()
    {
        SQ_CHECK(held, "a lock that is not held is released");
        held = false;
    }
    ~Lock() { SQ_CHECK(!held, "a lock is destroyed while it is held"); }
};
struct Cond {
    int spare = 0;
    void notify_all() {}
    void notify_one() {}
    void wait(std::unique_lock<Lock>&) { fail("the only thread waits for a signal for ever"); }
    template<class P> void wait(std::unique_lock<Lock>& l, P p)
    {
        while (!p()) wait(l);
    }
    template<class D> std::cv_status wait_for(std::unique_lock<Lock>&, const D&) { return std::cv_status::timeout; }
    template<class D, class P> bool wait_for(std::unique_lock<Lock>&, const D&, P p) { return p(); }
    template<class D> std::cv_status wait_until(std::unique_lock<Lock>&, const D&) { return std::cv_status::timeout; }
    template<class D, class P> bool wait_until(std::unique_lock<Lock>&, const D&, P p) { return p(); }
};

// a type that can only be moved; an empty one owns nothing
struct Only {
    Elem e;
    Only() : e(0) {}
    Only(int v) : e(v) {}
    Only(int a, int b) : e(a, b) {}
    Only(Only&& o) noexcept : e(std::move(o.e)) {}
    Only& operator=(Only&& o) noexcept
    {
        e = std::move(o.e);
        return *this;
    }
    Only(const Only&) = delete;
    Only& operator=(const Only&) = delete;
    int get() const { return e.get(); }
};

// copies may fail, moves do not and say so: relocated by moves
struct Nom {
    Elem e;
    Nom() : e(0) {}
    Nom(int v) : e(v) {}
    Nom(int a, int b) : e(a, b) {}
    Nom(const Nom& o) : e(o.e) {}
    Nom& operator=(const Nom& o)
    {
        e = o.e;
        return *this;
    }
    static int calm() { int k = T.throwAt; T.throwAt = 0; return k; }
    Nom(Nom&& o) noexcept : Nom(std::move(o), calm()) {}
    Nom(Nom&& o, int k) : e(std::move(o.e)) { T.throwAt = k; }
    Nom& operator=(Nom&& o) noexcept
    {
        int k = calm();
        e = std::move(o.e);
        T.throwAt = k;
        return *this;
    }
    int get() const { return e.get(); }
};

enum K { PUSHC, PUSHM, EMPL, PUSHV, PPUSHC, PPUSHM, PEMPL, POP, POPB, POPT, POPCALL, PEEK, CLEAR, RESERVE, MOVED, D_NEW, D_CAP, D_MOVE, D_MASSIGN, A_MASSIGN, TRY_LOAD, TRY_LOADM, LOAD, LOADM, UNLOAD,
         // operations in which the n-th construction or assignment of an element (n > 0) or the -n-th allocation fails
         X_PUSHC, X_PUSHM, X_EMPL, X_PUSHV, X_PPUSHC, X_PPUSHM, X_PEMPL, X_PEEK, X_POPCALL, X_LOAD, X_LOADM, X_TRY_LOAD, X_TRY_LOADM, X_UNLOAD };
struct OpDef {
    std::string name;
    int k, on, n;   // on: 0 = A, 1 = D
};
constexpr int MAXN = 6, VALS = 16;
struct Model {
    int n[2] = {0, 0};            // [0] normal channel, [1] priority channel
    int v[2][MAXN] = {};
    int total() const { return n[0] + n[1]; }
    void push(int c, int x) { v[c][n[c]++] = x; }
    int pop()
    {
        int c = n[1] ? 1 : 0;
        int x = v[c][0];
        for (int i = 1; i < n[c]; i++) v[c][i - 1] = v[c][i];
        v[c][--n[c]] = 0;
        return x;
    }
    int front() const { return n[1] ? v[1][0] : v[0][0]; }
};
struct QCfg {
    std::vector<OpDef> ops;
    int maxn;
};
enum Kind { SIMPLE, BLOCKING, PRIORITY };
template<class Q_, class E_, int KIND>
struct Queues : System {
    using Q = Q_;
    using E = E_;
    static constexpr bool only = !std::is_copy_constructible<E>::value;
    typename std::aligned_storage<sizeof(Q), 16>::type sa, sd;
    Q *a = nullptr, *d = nullptr;
    struct MM {
        Model q[2];
        int next;
        int gone;
    } m;
    const QCfg& cfg;
    explicit Queues(const QCfg& c) : cfg(c)
    {
        arena = true;
        roots = {{&sa, sizeof sa}, {&sd, sizeof sd}, {&m, sizeof m}};
    }
    Q* mk(int i)
    {
        auto& s = i ? sd : sa;
        memset((void*)&s, 0, sizeof s);
        return (i ? d : a) = reinterpret_cast<Q*>(&s);
    }
    void loaded() override
    {
        a = reinterpret_cast<Q*>(&sa);
        d = reinterpret_cast<Q*>(&sd);
        T.live = live();
    }
    long live() const { return m.q[0].total() + m.q[1].total(); }
    void init(int) override
    {
        m = MM{};
        new (mk(0)) Q();
        new (mk(1)) Q();
    }
    void finish() override
    {
        a->~Q();
        d->~Q();
    }
    int fresh()
    {
        int v = m.next + 1;
        m.next = (m.next + 1) % VALS;
        return v;
    }
    void unfresh(int n) { m.next = (m.next + VALS - n) % VALS; }
    static int val(const E& e) { return e.get(); }
    void got(std::optional<E> r, Model& M, const char* what)
    {
        if (M.total() == 0) {
            SQ_CHECK(!r, "%s returned an element of an empty queue", what);
            return;
        }
        SQ_CHECK(r, "%s returned nothing with %d elements queued", what, M.total());
        int want = M.pop(), g = r->get();
        SQ_CHECK(g == want, "%s returned %d, the next element is %d", what, g, want);
    }
    bool step(int op) override
    {
        const OpDef& o = cfg.ops[op];
        {
            if (!run(o)) return false;
        }
        SQ_CHECK(T.live == live(), "%ld elements are alive, %ld are queued", T.live, live());
        return true;
    }
    // runs f with a failure armed; true: it failed (and nothing may have changed)
    template<class F> bool failing(int n, F f)
    {
        if (n > 0) T.arm(n);
        else ::arena::failAt = (uint32_t)-n;
        bool threw = false;
        try {
            f();
        }
        catch (const Boom&) {
            threw = true;
        }
        catch (const std::bad_alloc&) {
            threw = true;
        }
        T.disarm();
        ::arena::failAt = 0;
        return threw;
    }
    bool run(const OpDef& o)
    {
        Q& q = o.on ? *d : *a;
        Model& M = m.q[o.on];
        bool room = M.total() < cfg.maxn;
        switch (o.k) {
            case PUSHC:
                if (!room) return false;
                if constexpr (!only) {
                    int v = fresh();
                    E e(v);
                    q.push(e);
                    SQ_CHECK(e.get() == v, "push of an lvalue changed it");
                    M.push(0, v);
                }
                return !only;
            case PUSHM: {
                if (!room) return false;
                int v = fresh();
                q.push(E(v));
                M.push(0, v);
                return true;
            }
            case EMPL: {
                if (!room) return false;
                int v = fresh();
                q.emplace(0, v);
                M.push(0, v);
                return true;
            }
            case PUSHV:
                if (M.total() + o.n > cfg.maxn) return false;
                if constexpr (KIND == SIMPLE && !only) {
                    std::vector<E> x;
                    std::vector<int> vs;
                    for (int i = 0; i < o.n; i++) {
                        vs.push_back(fresh());
                        x.emplace_back(vs.back());
                        M.push(0, vs.back());
                    }
                    q.pushVector(x);
                    SQ_CHECK((int)x.size() == o.n, "pushVector changed the vector given");
                    for (int i = 0; i < o.n; i++) SQ_CHECK(x[i].get() == vs[i], "pushVector changed an element of the vector given");
                    return true;
                }
                return false;
            case PPUSHC:
                if (!room) return false;
                if constexpr (KIND == PRIORITY && !only) {
                    int v = fresh();
                    E e(v);
                    q.pushPriority(e);
                    SQ_CHECK(e.get() == v, "push of an lvalue changed it");
                    M.push(1, v);
                    return true;
                }
                return false;
            case PPUSHM:
                if (!room) return false;
                if constexpr (KIND == PRIORITY) {
                    int v = fresh();
                    q.pushPriority(E(v));
                    M.push(1, v);
                    return true;
                }
                return false;
            case PEMPL:
                if (!room) return false;
                if constexpr (KIND == PRIORITY) {
                    int v = fresh();
                    q.emplacePriority(0, v);
                    M.push(1, v);
                    return true;
                }
                return false;
            case POP:
                if constexpr (KIND == SIMPLE) got(q.pop(), M, "pop");
                else got(q.try_pop(), M, "try_pop");
                return true;
            case POPB:
                if constexpr (KIND != SIMPLE) {
                    if (!M.total()) return false;
                    got(std::optional<E>(q.pop()), M, "pop");
                    return true;
                }
                return false;
            case POPT:
                if constexpr (KIND != SIMPLE) {
                    got(q.pop(std::chrono::milliseconds(o.n)), M, "timed pop");
                    return true;
                }
                return false;
            case POPCALL:
                if constexpr (KIND != SIMPLE) {
                    if (m.gone & (1 << o.on)) {}
                    int calls = 0;
                    bool was = M.total() == 0;
                    std::optional<E> r(q.popOrCall([&] {
                        calls++;
                        SQ_CHECK(was, "popOrCall called the function with %d elements queued", M.total());
                        SQ_CHECK(calls == 1, "popOrCall called the function again although it supplied an element");
                        int v = fresh();
                        if (o.n && KIND == PRIORITY) {
                            if constexpr (KIND == PRIORITY) q.pushPriority(E(v));
                            M.push(1, v);
                        } else {
                            q.push(E(v));
                            M.push(0, v);
                        }
                        if (o.n == 2) {
                            int w = fresh();
                            q.push(E(w));
                            M.push(0, w);
                        }
                    }));
                    SQ_CHECK(calls == (was ? 1 : 0), "popOrCall called the function %d times, the queue was %sempty", calls, was ? "" : "not ");
                    got(std::move(r), M, "popOrCall");
                    return true;
                }
                return false;
            case X_PUSHC:
            case X_PPUSHC:
                if (!room) return false;
                if constexpr (!only) {
                    int v = fresh();
                    E e(v);
                    bool x = failing(o.n, [&] {
                        if constexpr (KIND == PRIORITY) {
                            if (o.k == X_PPUSHC) {
                                q.pushPriority(e);
                                return;
                            }
                        }
                        q.push(e);
                    });
                    SQ_CHECK(e.get() == v, "push of an lvalue changed it");
                    if (x) unfresh(1);
                else M.push(o.k == X_PPUSHC, v);
                    return true;
                }
                return false;
            case X_PUSHM:
            case X_PPUSHM: {
                if (!room) return false;
                int v = fresh();
                E e(v);
                bool x = failing(o.n, [&] {
                    if constexpr (KIND == PRIORITY) {
                        if (o.k == X_PPUSHM) {
                            q.pushPriority(std::move(e));
                            return;
                        }
                    }
                    q.push(std::move(e));
                });
                if (x) unfresh(1);
                else M.push(o.k == X_PPUSHM, v);
                return true;
            }
            case X_EMPL:
            case X_PEMPL: {
                if (!room) return false;
                int v = fresh();
                bool x = failing(o.n, [&] {
                    if constexpr (KIND == PRIORITY) {
                        if (o.k == X_PEMPL) {
                            q.emplacePriority(0, v);
                            return;
                        }
                    }
                    q.emplace(0, v);
                });
                if (x) unfresh(1);
                else M.push(o.k == X_PEMPL, v);
                return true;
            }
            case X_PUSHV:
                if (M.total() + 3 > cfg.maxn) return false;
                if constexpr (KIND == SIMPLE && !only) {
                    std::vector<E> x;
                    x.reserve(3);
                    int vs[3];
                    for (int i = 0; i < 3; i++) x.emplace_back(vs[i] = fresh());
                    if (failing(o.n, [&] { q.pushVector(x); })) unfresh(3);
                    else
                        for (int i = 0; i < 3; i++) M.push(0, vs[i]);
                    for (int i = 0; i < 3; i++) SQ_CHECK(x[i].get() == vs[i], "pushVector changed an element of the vector given");
                    return true;
                }
                return false;
            case X_PEEK:
                if constexpr (!only) {
                    if (!M.total()) return false;
                    (void)failing(o.n, [&] {
                        if constexpr (KIND == SIMPLE) (void)q.peek();
                        else (void)q.try_peek();
                    });
                    return true;
                }
                return false;
            case X_POPCALL:   // the function throws
                if constexpr (KIND != SIMPLE) {
                    if (M.total()) return false;
                    int calls = 0;
                    bool threw = false;
                    try {
                        (void)q.popOrCall([&] {
                            calls++;
                            if (o.n) {
                                int v = fresh();
                                q.push(E(v));
                                M.push(0, v);
                            }
                            throw Boom{};
                        });
                    }
                    catch (const Boom&) {
                        threw = true;
                    }
                    SQ_CHECK(calls == 1 && threw, "the exception of the function given to popOrCall did not reach the caller");
                    return true;
                }
                return false;
            case CLEAR:
                q.clear();
                M = Model{};
                return true;
            case RESERVE: q.reserve(o.n); return true;
            case D_NEW:
            case D_CAP:
                d->~Q();
                if (o.k == D_NEW) new (mk(1)) Q();
                else new (mk(1)) Q((size_t)o.n);
                m.q[1] = Model{};
                return true;
            case D_MOVE:
                d->~Q();
                new (mk(1)) Q(std::move(*a));
                m.q[1] = m.q[0];
                m.q[0] = Model{};
                return true;
            case D_MASSIGN:
                *d = std::move(*a);
                m.q[1] = m.q[0];
                m.q[0] = Model{};
                return true;
            case A_MASSIGN:
                *a = std::move(*d);
                m.q[0] = m.q[1];
                m.q[1] = Model{};
                return true;
        }
        return false;
    }
    void look(Q& q, const Model& M, const char* who)
    {
        const Q& k = q;
        int n = M.total();
        SQ_CHECK(k.empty() == (n == 0), "%s: empty() is %d with %d elements queued", who, k.empty(), n);
        if constexpr (KIND != PRIORITY) SQ_CHECK((int)k.size() == n, "%s: size() is %zu with %d elements queued", who, k.size(), n);
        if constexpr (!only) {
            std::optional<E> r;
            if constexpr (KIND == SIMPLE) r = k.peek();
            else r = k.try_peek();
            if (!n) SQ_CHECK(!r, "%s: peek found an element in an empty queue", who);
            else {
                SQ_CHECK(r, "%s: peek found nothing with %d elements queued", who, n);
                SQ_CHECK(r->get() == M.front(), "%s: peek found %d, the next element is %d", who, r->get(), M.front());
            }
        }
    }
    void check() override
    {
        look(*a, m.q[0], "A");
        look(*d, m.q[1], "D");
    }
};

// ------------------------------------------------------------------------------------------------ air lock
template<class E>
struct Air : System {
    using Q = gc::AirLock<E, Lock, Cond>;
    typename std::aligned_storage<sizeof(Q), 16>::type sa;
    Q* a = nullptr;
    struct MM {
        int full, v, next;
    } m;
    const QCfg& cfg;
    explicit Air(const QCfg& c) : cfg(c)
    {
        arena = true;
        roots = {{&sa, sizeof sa}, {&m, sizeof m}};
    }
    void loaded() override
    {
        a = reinterpret_cast<Q*>(&sa);
        T.live = 1;
    }
    void init(int) override
    {
        m = MM{};
        memset((void*)&sa, 0, sizeof sa);
        a = new (&sa) Q();
    }
    void finish() override { a->~Q(); }
    bool step(int op) override
    {
        int k = cfg.ops[op].k;
        int v = m.next + 1;
        switch (k) {
            case X_LOAD:
            case X_LOADM:
            case X_TRY_LOAD:
            case X_TRY_LOADM: {
                if (m.full && (k == X_LOAD || k == X_LOADM)) return false;
                bool ok = true, threw = false;
                E e(v);
                T.arm(1);
                try {
                    if constexpr (std::is_copy_constructible<E>::value) {
                        if (k == X_LOAD) a->load(e);
                        if (k == X_TRY_LOAD) ok = a->try_load(e);
                    }
                    if (k == X_LOADM) a->load(std::move(e));
                    if (k == X_TRY_LOADM) ok = a->try_load(std::move(e));
                }
                catch (const Boom&) {
                    threw = true;
                }
                T.disarm();
                SQ_CHECK(threw == !m.full, "a load whose assignment fails %s", threw ? "failed on a full air lock" : "succeeded");
                if (!threw) SQ_CHECK(!ok, "try_load succeeded on a full air lock");
                SQ_CHECK(e.get() == v, "a failed load took the value");
                break;
            }
            case X_UNLOAD: {
                if (!m.full) return false;
                T.arm(1);
                bool threw = false;
                try {
                    (void)a->try_unload();
                }
                catch (const Boom&) {
                    threw = true;
                }
                T.disarm();
                SQ_CHECK(threw, "an unload whose move fails did not fail");
                break;
            }
            case TRY_LOAD:
            case LOAD:
                if constexpr (std::is_copy_constructible<E>::value) {
                    E e(v);
                    bool ok = true;
                    if (k == LOAD) {
                        if (m.full) return false;
                        a->load(e);
                    } else
                        ok = a->try_load(e);
                    SQ_CHECK(e.get() == v, "loading an lvalue changed it");
                    SQ_CHECK(ok == !m.full, "try_load returned %d of a %s air lock", ok, m.full ? "full" : "empty");
                    if (ok) {
                        m.full = 1;
                        m.v = v;
                        m.next = (m.next + 1) % VALS;
                    }
                    break;
                } else
                    return false;
            case TRY_LOADM:
            case LOADM: {
                E e(v);
                bool ok = true;
                if (k == LOADM) {
                    if (m.full) return false;
                    a->load(std::move(e));
                } else
                    ok = a->try_load(std::move(e));
                SQ_CHECK(ok == !m.full, "try_load returned %d of a %s air lock", ok, m.full ? "full" : "empty");
                if (!ok) SQ_CHECK(e.get() == v, "a refused load took the value");
                if (ok) {
                    m.full = 1;
                    m.v = v;
                    m.next = (m.next + 1) % VALS;
                }
                break;
            }
            case UNLOAD: {
                auto r = a->try_unload();
                SQ_CHECK((bool)r == (bool)m.full, "try_unload returned %s from a %s air lock", r ? "a value" : "nothing", m.full ? "full" : "empty");
                if (r) SQ_CHECK(r->get() == m.v, "try_unload returned %d, %d was loaded", r->get(), m.v);
                m.full = 0;
                m.v = 0;
                break;
            }
            default: return false;
        }
        SQ_CHECK(T.live == 1, "%ld elements are alive in an air lock", T.live);
        return true;
    }
    void check() override { SQ_CHECK(a->isLoaded() == (bool)m.full, "isLoaded() is %d of a %s air lock", a->isLoaded(), m.full ? "full" : "empty"); }
};

static std::vector<OpDef> ops(int kind)
{
    std::vector<OpDef> d;
    for (int on = 0; on < 2; on++) {
        std::string w = on ? "D." : "A.";
        auto add = [&](std::string n, int k, int x = 0) { d.push_back({w + n, k, on, x}); };
        add("push(const&)", PUSHC);
        add("push(&&)", PUSHM);
        if (kind == SIMPLE)
            for (int n : {0, 1, 2, 3})
                if (!on || n == 2) add("pushVector(" + std::to_string(n) + ")", PUSHV, n);
        if (kind == PRIORITY) {
            add("pushPriority(&&)", PPUSHM);
            if (!on) {
                add("pushPriority(const&)", PPUSHC);
                add("emplacePriority", PEMPL);
            }
        }
        add(kind == SIMPLE ? "pop" : "try_pop", POP);
        if (kind != SIMPLE) {
            add("pop()", POPB);
            add("pop(0ms)", POPT, 0);
            add("popOrCall(push one)", POPCALL, 0);
            if (!on) {
                add("pop(5ms)", POPT, 5);
                if (kind == PRIORITY) add("popOrCall(push priority)", POPCALL, 1);
                add("popOrCall(push two)", POPCALL, 2);
            }
        }
        add("clear", CLEAR);
        if (!on) {
            add("emplace", EMPL);
            add("reserve(1)", RESERVE, 1);
            add("reserve(6)", RESERVE, 6);
        }
    }
    d.push_back({"D := default", D_NEW, 1, 0});
    d.push_back({"D := with capacity 3", D_CAP, 1, 3});
    d.push_back({"D := moved A", D_MOVE, 1, 0});
    d.push_back({"D = move(A)", D_MASSIGN, 1, 0});
    d.push_back({"A = move(D)", A_MASSIGN, 0, 0});
    return d;
}

// the operations with which the states are reached, and the failing ones
static std::vector<OpDef> failOps(int kind, bool only)
{
    std::vector<OpDef> d;
    auto add = [&](std::string n, int k, int x = 0) { d.push_back({"A." + n, k, 0, x}); };
    add("push(&&)", PUSHM);
    add("emplace", EMPL);
    if (kind == SIMPLE && !only) add("pushVector(2)", PUSHV, 2);
    if (kind == PRIORITY) {
        add("pushPriority(&&)", PPUSHM);
        add("emplacePriority", PEMPL);
    }
    add(kind == SIMPLE ? "pop" : "try_pop", POP);
    if (kind != SIMPLE) {
        add("pop()", POPB);
        add("pop(0ms)", POPT, 0);
        add("popOrCall(push one)", POPCALL, 0);
        add("popOrCall(throwing)", X_POPCALL, 0);
        add("popOrCall(pushing, then throwing)", X_POPCALL, 1);
    }
    add("clear", CLEAR);
    add("reserve(3)", RESERVE, 3);
    auto fails = [&](std::string n, int k, int evs, int allocs) {
        for (int i = 1; i <= evs; i++) add(n + ", element " + std::to_string(i) + " fails", k, i);
        for (int i = 1; i <= allocs; i++) add(n + ", allocation " + std::to_string(i) + " fails", k, -i);
    };
    int ev = only ? 1 : 4;   // an element that can only be moved is relocated by moves, which are taken not to fail
    if (!only) fails("push(const&)", X_PUSHC, ev, 1);
    if (!only) fails("push(&&)", X_PUSHM, ev, 1);
    else fails("push(&&)", X_PUSHM, 0, 1);
    fails("emplace", X_EMPL, ev, 1);
    if (kind == SIMPLE && !only) fails("pushVector(3)", X_PUSHV, 6, 1);
    if (kind == PRIORITY) {
        if (!only) fails("pushPriority(const&)", X_PPUSHC, 1, 2);
        if (!only) fails("pushPriority(&&)", X_PPUSHM, 1, 2);
        else fails("pushPriority(&&)", X_PPUSHM, 0, 2);
        fails("emplacePriority", X_PEMPL, 1, 2);
    }
    if (!only) fails("peek", X_PEEK, 2, 0);
    return d;
}
int main(int argc, char** argv)
{
    std::vector<Scen> v;
    static std::deque<QCfg> cfgs;
    auto scen = [&](std::string name, std::vector<OpDef> o, int maxn, std::function<System*(const QCfg&)> mk, int dq, int dt, unsigned tags = 1) {
        cfgs.push_back({o, maxn});
        const QCfg* p = &cfgs.back();
        Scen s;
        s.name = name;
        s.make = [p, mk] { return mk(*p); };
        s.nops = (int)o.size();
        s.opname = [p](int i) { return p->ops[i].name; };
        s.fixpoint = true;
        s.depth_quick = dq;
        s.depth_thorough = dt;
        s.tags = tags;
        v.push_back(s);
    };
#define ADD(NAME, KIND, E, MAXN, DQ, DT, ...) scen(NAME, ops(KIND), MAXN, [](const QCfg& c) -> System* { return new Queues<__VA_ARGS__, E, KIND>(c); }, DQ, DT)
    ADD("simple", SIMPLE, Elem, 5, 8, 10, gc::SimpleQueue<Elem, Lock>);
    ADD("simple_move_only", SIMPLE, Only, 6, 10, 14, gc::SimpleQueue<Only, Lock>);
    ADD("blocking", BLOCKING, Elem, 6, 10, 13, gc::BlockingQueue<Elem, Lock, Cond>);
    ADD("blocking_move_only", BLOCKING, Only, 5, 9, 12, gc::BlockingQueue<Only, Lock, Cond>);
    ADD("priority", PRIORITY, Elem, 5, 7, 9, gc::BlockingPriorityQueue<Elem, Lock, Cond>);
    ADD("priority_move_only", PRIORITY, Only, 6, 6, 8, gc::BlockingPriorityQueue<Only, Lock, Cond>);
    std::vector<OpDef> al = {{"try_load(const&)", TRY_LOAD, 0, 0}, {"try_load(&&)", TRY_LOADM, 0, 0}, {"load(const&)", LOAD, 0, 0}, {"load(&&)", LOADM, 0, 0}, {"try_unload", UNLOAD, 0, 0}};
    scen("airlock", al, 1, [](const QCfg& c) -> System* { return new Air<Elem>(c); }, 0, 0);
    scen("airlock_move_only", al, 1, [](const QCfg& c) -> System* { return new Air<Only>(c); }, 0, 0);
#define FAIL(NAME, KIND, ONLY, E, MAXN, DQ, DT, ...) scen(NAME, failOps(KIND, ONLY), MAXN, [](const QCfg& c) -> System* { return new Queues<__VA_ARGS__, E, KIND>(c); }, DQ, DT, 2)
    FAIL("simple_failing", SIMPLE, false, Elem, 5, 12, 15, gc::SimpleQueue<Elem, Lock>);
    FAIL("simple_failing_move_only", SIMPLE, true, Only, 5, 12, 15, gc::SimpleQueue<Only, Lock>);
    FAIL("simple_failing_moves_safe", SIMPLE, false, Nom, 5, 12, 15, gc::SimpleQueue<Nom, Lock>);
    FAIL("blocking_failing_moves_safe", BLOCKING, false, Nom, 5, 12, 15, gc::BlockingQueue<Nom, Lock, Cond>);
    FAIL("priority_failing_moves_safe", PRIORITY, false, Nom, 4, 10, 13, gc::BlockingPriorityQueue<Nom, Lock, Cond>);
    FAIL("blocking_failing", BLOCKING, false, Elem, 5, 12, 15, gc::BlockingQueue<Elem, Lock, Cond>);
    FAIL("blocking_failing_move_only", BLOCKING, true, Only, 5, 12, 15, gc::BlockingQueue<Only, Lock, Cond>);
    FAIL("priority_failing", PRIORITY, false, Elem, 4, 10, 13, gc::BlockingPriorityQueue<Elem, Lock, Cond>);
    FAIL("priority_failing_move_only", PRIORITY, true, Only, 4, 10, 13, gc::BlockingPriorityQueue<Only, Lock, Cond>);
    std::vector<OpDef> ax = al;
    for (auto& x : std::vector<OpDef>{{"try_load(const&), assignment fails", X_TRY_LOAD, 0, 0}, {"try_load(&&), assignment fails", X_TRY_LOADM, 0, 0}, {"load(const&), assignment fails", X_LOAD, 0, 0}, {"load(&&), assignment fails", X_LOADM, 0, 0}, {"try_unload, move fails", X_UNLOAD, 0, 0}}) ax.push_back(x);
    scen("airlock_failing", ax, 1, [](const QCfg& c) -> System* { return new Air<Elem>(c); }, 0, 0, 2);
    return seq::main(argc, argv, v);
}
