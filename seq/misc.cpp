// C28: mapFind over every map of a small universe;  C29: the life of a work block against a small state machine
#include "arena_ops.hpp"
#include "seq.hpp"
#include <future>
#include <map>
#include <optional>
#include <string>
#include <unordered_map>
#include "gmlc/containers/WorkQueue.hpp"
#include "gmlc/containers/mapOps.hpp"

using namespace seq;
namespace gc = gmlc::containers;

// ------------------------------------------------------------------------------------------------ mapFind
constexpr int NKEYS = 4, NVALS = 3;
template<class K> struct Key;
template<> struct Key<int> {
    static int get(int i)
    {
        static const int k[] = {0, -5, 13, 2147483647};
        return k[i];
    }
};
template<> struct Key<std::string> {
    static std::string get(int i)
    {
        static const char* k[] = {"", "a", "a-key-that-does-not-fit-the-small-string-buffer", "b"};
        return k[i];
    }
};
template<class V> struct Value;
template<> struct Value<int> {
    static int get(int i) { return i == 0 ? 0 : i == 1 ? -1 : 77; }   // includes the value-initialised one
    static int other() { return 12345; }
};
template<> struct Value<std::string> {
    static std::string get(int i) { return i == 0 ? "" : i == 1 ? "x" : "a-value-that-does-not-fit-the-small-string-buffer"; }
    static std::string other() { return "other"; }
};
template<> struct Value<Elem> {
    static Elem get(int i) { return Elem(i + 1); }
    static Elem other() { return Elem(500); }
};
template<> struct Value<bool> {
    static bool get(int i) { return i == 1; }
    static bool other() { return true; }
};
static bool same(const Elem& a, const Elem& b) { return a.get() == b.get(); }
template<class V> static bool same(const V& a, const V& b) { return a == b; }

template<class M, class K, class V>
struct Find : System {
    typename std::aligned_storage<sizeof(M), 16>::type sm;
    struct MM {
        int v[NKEYS];
    } m;
    M* map = nullptr;
    Find()
    {
        arena = true;
        roots = {{&sm, sizeof sm}, {&m, sizeof m}};
    }
    long live() const
    {
        long n = 0;
        if (std::is_same<V, Elem>::value)
            for (int x : m.v) n += x >= 0;
        return n;
    }
    void loaded() override
    {
        map = reinterpret_cast<M*>(&sm);
        T.live = live();
    }
    void init(int) override
    {
        for (int& x : m.v) x = -1;
        memset((void*)&sm, 0, sizeof sm);
        map = new (&sm) M();
    }
    void finish() override { map->~M(); }
    bool step(int op) override
    {
        int k = op / (NVALS + 1), v = op % (NVALS + 1);
        if (v == NVALS) {
            map->erase(Key<K>::get(k));
            m.v[k] = -1;
        } else {
            (*map).insert_or_assign(Key<K>::get(k), Value<V>::get(v));
            m.v[k] = v;
        }
        return true;
    }
    void unchanged()
    {
        int n = 0;
        for (int k = 0; k < NKEYS; k++) {
            auto it = map->find(Key<K>::get(k));
            SQ_CHECK((it != map->end()) == (m.v[k] >= 0), "key %d %s after a lookup", k, m.v[k] >= 0 ? "disappeared" : "appeared");
            if (m.v[k] < 0) continue;
            n++;
            SQ_CHECK(same(it->second, Value<V>::get(m.v[k])), "the value of key %d changed after a lookup", k);
        }
        SQ_CHECK((int)map->size() == n, "the map has %zu entries after a lookup, not %d", map->size(), n);
    }
    void check() override
    {
        const M& c = *map;
        for (int k = 0; k < NKEYS; k++) {
            const K key = Key<K>::get(k);
            {
                auto r = mapFind(c, key);
                static_assert(std::is_same<decltype(r), std::optional<V>>::value, "not an optional value");
                SQ_CHECK(r.has_value() == (m.v[k] >= 0), "mapFind of %s key %d returned %s", m.v[k] >= 0 ? "the present" : "the absent", k, r ? "a value" : "nothing");
                if (r) {
                    SQ_CHECK(same(*r, Value<V>::get(m.v[k])), "mapFind of key %d returned another value", k);
                    *r = Value<V>::other();
                    unchanged();
                }
            }
            for (int d = 0; d < NVALS; d++) {
                {
                    const V def = Value<V>::get(d);
                    auto r = mapFind(c, key, def);
                    SQ_CHECK(same(r, Value<V>::get(m.v[k] >= 0 ? m.v[k] : d)), "mapFind of %s key %d with default %d returned another value", m.v[k] >= 0 ? "the present" : "the absent", k, d);
                    r = Value<V>::other();
                    SQ_CHECK(same(def, Value<V>::get(d)), "the default changed with the result of mapFind");
                    unchanged();
                }
                {
                    // the default is a temporary: the result must not refer to it
                    auto&& r = mapFind(c, key, Value<V>::get(d));
                    Value<V>::other();
                    SQ_CHECK(same(r, Value<V>::get(m.v[k] >= 0 ? m.v[k] : d)), "mapFind of %s key %d with a temporary default returned another value", m.v[k] >= 0 ? "the present" : "the absent", k);
                }
                if (m.v[k] >= 0) {
                    // the result outlives the entry
                    const V def = Value<V>::get(d);
                    auto&& r = mapFind(c, key, def);
                    auto&& s = mapFind(c, key);
                    map->erase(key);
                    bool ok = same(r, Value<V>::get(m.v[k])) && s && same(*s, Value<V>::get(m.v[k]));
                    map->insert_or_assign(key, Value<V>::get(m.v[k]));
                    SQ_CHECK(ok, "the result of mapFind of key %d changed when the entry was erased", k);
                }
            }
        }
        SQ_CHECK(T.live == live(), "%ld elements are alive after lookups, %ld are stored", T.live, live());
    }
};
static std::string findName(int i)
{
    int k = i / (NVALS + 1), v = i % (NVALS + 1);
    return v == NVALS ? "erase(" + std::to_string(k) + ")" : "set(" + std::to_string(k) + "," + std::to_string(v) + ")";
}

// ------------------------------------------------------------------------------------------------ work block
enum WK { NEW_DEFAULT, NEW_FUNC, NEW_THROW, NEW_TASK, NEW_MAKE, NEW_SHARED, NEW_MAKETASK, EXEC, RESET, UPD_FUNC, UPD_THROW, UPD_TASK, MOVE_NEW, MOVE_ASSIGN, MOVE_BACK, SUBMIT, SUBMIT_REQ, SUBMIT_VEC, SUBMIT_NULL, KEEP, WAIT, UPD_FAILCOPY, UPD_OOM1, UPD_OOM2, WK_END };
static const char* wname[] = {"A := empty block", "A := block(function)", "A := block(throwing function)", "A := block(packaged task)", "A := make_workBlock", "A := make_shared_workBlock", "A := make_shared_workBlock(packaged task)",
                              "execute", "reset", "updateWorkFunction", "updateWorkFunction(throwing)", "updateTask", "A := block moved from A", "A = move(other block)", "other = move(A); A = move(other)",
                              "submit", "submit as required", "submit in a vector", "submit a null block", "keep the future", "wait and get the result", "updateWorkFunction(function that cannot be copied)", "updateWorkFunction, 1st allocation fails", "updateWorkFunction, 2nd allocation fails"};
struct WErr {
    int v;
};
struct Ctl {
    int runs, last;
    gc::BasicWorkBlock* now;   // the block being executed
};
static Ctl ctl;
template<class R> struct Work;
struct Common {
    static void body(int v)
    {
        ctl.runs++;
        ctl.last = v;
        if (ctl.now) SQ_CHECK(!ctl.now->isFinished(), "the block is reported finished while its task is running");
        if (v < 0) throw WErr{v};
    }
};
template<> struct Work<int> {
    static auto fn(int v)
    {
        return [v] {
            Common::body(v);
            return v;
        };
    }
    template<class F> static int take(F f) { return f(); }
    static constexpr bool value = true;
};
template<> struct Work<std::string> {
    static auto fn(int v)
    {
        return [v] {
            Common::body(v);
            return std::string(40, 'a') + std::to_string(v);
        };
    }
    template<class F> static int take(F f)
    {
        std::string s = f();
        SQ_CHECK(s.size() > 40, "the result is truncated");
        return atoi(s.c_str() + 40);
    }
    static constexpr bool value = true;
};
template<> struct Work<void> {
    static auto fn(int v)
    {
        return [v] { Common::body(v); };
    }
    template<class F> static int take(F f)
    {
        f();
        return -1000000;
    }
    static constexpr bool value = false;
};
template<class F>
struct BadCopy {   // work that cannot be copied
    F f;
    explicit BadCopy(F x) : f(x) {}
    BadCopy(const BadCopy& o) : f(o.f) { throw WErr{0}; }
    auto operator()() { return f(); }
};
template<class R>
struct Block : System {
    using WB = gc::WorkBlock<R>;
    std::shared_ptr<WB> a;
    std::unique_ptr<gc::WorkQueue> wq;
    bool task = false, fin = false;
    int val = 0, next = 1, runs = 0;      // val: what the current task returns (<0: throws)
    bool hasResult = false;
    struct Kept {
        std::shared_future<R> f;
        int val;
        bool armed, done;      // done: the arming it belongs to was executed
    };
    std::vector<Kept> kept;
    int newv(bool thr) { return thr ? -next++ : next++; }
    void set(bool t, int v)
    {
        task = t;
        val = v;
        rearm();
    }
    void rearm()
    {
        fin = false;
        hasResult = false;
        for (auto& k : kept) k.armed = false;
    }
    void ran()
    {
        if (fin) return;
        fin = true;
        if (!task) return;
        runs++;
        hasResult = true;
        for (auto& k : kept)
            if (k.armed) k.done = true;
    }
    void init(int i) override
    {
        ctl = Ctl{};
        wq = std::make_unique<gc::WorkQueue>(0);
        if (i == 0) a = std::make_shared<WB>();
        else {
            int v = newv(i == 2);
            a = std::make_shared<WB>(Work<R>::fn(v));
            set(true, v);
        }
    }
    bool step(int op) override
    {
        switch (op) {
            case NEW_DEFAULT:
                a = std::make_shared<WB>();
                set(false, 0);
                break;
            case NEW_FUNC:
            case NEW_THROW: {
                int v = newv(op == NEW_THROW);
                a = std::make_shared<WB>(Work<R>::fn(v));
                set(true, v);
            } break;
            case NEW_TASK: {
                int v = newv(false);
                a = std::make_shared<WB>(std::packaged_task<R()>(Work<R>::fn(v)));
                set(true, v);
            } break;
            case NEW_MAKE: {
                int v = newv(false);
                auto f = Work<R>::fn(v);
                a = gc::make_workBlock(f);
                set(true, v);
            } break;
            case NEW_SHARED: {
                int v = newv(false);
                a = gc::make_shared_workBlock(Work<R>::fn(v));
                set(true, v);
            } break;
            case NEW_MAKETASK: {
                int v = newv(false);
                if (v & 1) a = gc::make_shared_workBlock(std::packaged_task<R()>(Work<R>::fn(v)));
                else a = gc::make_workBlock(std::packaged_task<R()>(Work<R>::fn(v)));
                set(true, v);
            } break;
            case EXEC:
                ctl.now = a.get();
                a->execute();
                ctl.now = nullptr;
                ran();
                break;
            case RESET:
                a->reset();
                rearm();
                break;
            case UPD_FUNC:
            case UPD_THROW: {
                int v = newv(op == UPD_THROW);
                auto f = Work<R>::fn(v);
                if (v & 1) a->updateWorkFunction(f);
                else a->updateWorkFunction(std::move(f));
                set(true, v);
            } break;
            case UPD_TASK: {
                int v = newv(false);
                a->updateTask(std::packaged_task<R()>(Work<R>::fn(v)));
                set(true, v);
            } break;
            case MOVE_NEW: {
                auto b = std::make_shared<WB>(std::move(*a));
                a = b;
            } break;
            case MOVE_ASSIGN: {
                int v = newv(false);
                WB b(Work<R>::fn(v));
                *a = std::move(b);
                set(true, v);
            } break;
            case MOVE_BACK: {
                WB b;
                b = std::move(*a);
                SQ_CHECK(b.isFinished() == fin, "a block moved by assignment is reported %sfinished", fin ? "un" : "");
                *a = std::move(b);
            } break;
            case SUBMIT:
            case SUBMIT_REQ: {
                ctl.now = a.get();
                wq->addWorkBlock(a, op == SUBMIT ? gc::WorkQueue::WorkPriority::medium : gc::WorkQueue::WorkPriority::required);
                ctl.now = nullptr;
                ran();
            } break;
            case SUBMIT_VEC: {
                std::vector<std::shared_ptr<gc::BasicWorkBlock>> v{nullptr, a, a, std::make_shared<gc::NullWorkBlock>()};
                ctl.now = a.get();
                wq->addWorkBlock(v);
                ctl.now = nullptr;
                ran();
            } break;
            case SUBMIT_NULL: wq->addWorkBlock(std::shared_ptr<gc::BasicWorkBlock>()); break;
            case KEEP:
                if (!task || kept.size() == 2) return false;
                kept.push_back({a->get_future(), val, true, hasResult});
                break;
            case WAIT:
                if (!hasResult) return false;
                a->wait();
                result("the accessor", [&] { return a->getReturnVal(); }, val, !Work<R>::value);
                result("the accessor, asked again,", [&] { return a->getReturnVal(); }, val, !Work<R>::value);
                break;
            case UPD_FAILCOPY: {
                BadCopy<decltype(Work<R>::fn(0))> f(Work<R>::fn(1));
                bool threw = false;
                try {
                    a->updateWorkFunction(f);
                }
                catch (const WErr&) {
                    threw = true;
                }
                SQ_CHECK(threw, "the exception of the copy was lost");
            } break;
            case UPD_OOM1:
            case UPD_OOM2: {
                bool threw = false;
                int v = next;
                auto f = Work<R>::fn(v);
                ::arena::rawFailAt = op == UPD_OOM1 ? 1 : 2;
                try {
                    a->updateWorkFunction(std::move(f));
                }
                catch (const std::bad_alloc&) {
                    threw = true;
                }
                ::arena::rawFailAt = 0;
                if (!threw) return false;   // same as without a failure
            } break;
        }
        SQ_CHECK(ctl.runs == runs, "the tasks ran %d times, not %d", ctl.runs, runs);
        return true;
    }
    // lenient: the accessor of a void block may or may not deliver the exception
    template<class F> void result(const char* who, F f, int v, bool lenient)
    {
        int g = 0, thrown = 0;
        try {
            g = Work<R>::take(f);
        }
        catch (const WErr& e) {
            thrown = e.v;
        }
        catch (const std::future_error& e) {
            fail("%s failed with %s", who, e.what());
        }
        if (v < 0) SQ_CHECK(thrown == v || (lenient && !thrown), "%s did not deliver the exception %d of the task (delivered %d)", who, v, thrown);
        else SQ_CHECK(!thrown && (g == v || !Work<R>::value), "%s delivered %d, the task returned %d", who, thrown ? thrown : g, v);
    }
    static bool ready(const std::shared_future<R>& f) { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
    void check() override
    {
        SQ_CHECK(a->isFinished() == fin, "the block is reported %sfinished (%s)", a->isFinished() ? "" : "not ", task ? (fin ? "its task ran" : "its task has not run") : "it has no task");
        if (task) {
            auto f = a->get_future();
            SQ_CHECK(f.valid(), "a block with a task has no future");
            SQ_CHECK(ready(f) == hasResult, "the future is %sready although the task has %srun", ready(f) ? "" : "not ", hasResult ? "" : "not ");
            if (hasResult) {
                result("the future", [&] { return f.get(); }, val, false);
                result("the accessor", [&] { return a->getReturnVal(); }, val, !Work<R>::value);
            }
        }
        for (auto& k : kept) {
            if (k.done) {
                SQ_CHECK(ready(k.f), "an earlier future is not ready although its task ran");
                result("an earlier future", [&] { return k.f.get(); }, k.val, false);
            } else if (k.armed)
                SQ_CHECK(!ready(k.f), "an earlier future is ready although the task has not run");
        }
        SQ_CHECK(ctl.runs == runs, "the tasks ran %d times, not %d", ctl.runs, runs);
        SQ_CHECK(wq->isEmpty() && wq->numBlock() == 0 && wq->getWorkerCount() == 0, "a queue without workers holds work");
    }
    void finish() override
    {
        kept.clear();
        a.reset();
        wq.reset();
        SQ_CHECK(ctl.runs == runs, "the tasks ran %d times, not %d", ctl.runs, runs);
    }
};

int main(int argc, char** argv)
{
    std::vector<Scen> v;
    auto find = [&](auto* t, std::string name) {
        using S_ = std::remove_pointer_t<decltype(t)>;
        Scen s;
        s.name = name;
        s.make = [] { return new S_(); };
        s.nops = NKEYS * (NVALS + 1);
        s.opname = findName;
        s.fixpoint = true;
        s.depth_quick = s.depth_thorough = 0;
        s.tags = 1;
        v.push_back(s);
    };
    using S = std::string;
#define FIND(NAME, MAP, K, V) find((Find<MAP<K, V>, K, V>*)nullptr, NAME)
    FIND("map_int_int", std::map, int, int);
    FIND("map_string_string", std::map, S, S);
    FIND("map_int_elem", std::map, int, Elem);
    FIND("map_string_elem", std::map, S, Elem);
    FIND("map_int_bool", std::map, int, bool);
    FIND("unordered_int_int", std::unordered_map, int, int);
    FIND("unordered_string_string", std::unordered_map, S, S);
    FIND("unordered_int_elem", std::unordered_map, int, Elem);
    FIND("unordered_int_bool", std::unordered_map, int, bool);
    FIND("unordered_string_elem", std::unordered_map, S, Elem);
    auto block = [&](auto* t, std::string name, int dq, int dt, bool failing = false) {
        using R = std::remove_pointer_t<decltype(t)>;
        Scen s;
        s.name = name;
        s.make = [] { return new Block<R>(); };
        s.inits = 3;
        s.nops = failing ? (int)WK_END : WAIT + 1;
        s.opname = [](int i) { return std::string(wname[i]); };
        s.depth_quick = dq;
        s.depth_thorough = dt;
        s.tags = failing ? 4 : 2;
        v.push_back(s);
    };
    block((int*)nullptr, "workblock_int", 4, 6);
    block((S*)nullptr, "workblock_string", 4, 5);
    block((void*)nullptr, "workblock_void", 4, 6);
    block((int*)nullptr, "workblock_int_failing", 4, 5, true);
    block((void*)nullptr, "workblock_void_failing", 4, 5, true);
    return seq::main(argc, argv, v);
}
