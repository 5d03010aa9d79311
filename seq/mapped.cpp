// C19..C24: the mapped containers against a list of elements plus a table of keys;  C25: copies and moves of them
#include "arena_ops.hpp"
#include "seq.hpp"
#include <algorithm>
#include <array>
#include <optional>
#include <set>
#include <stdexcept>
#include "gmlc/containers/DualMappedPointerVector.hpp"
#include "gmlc/containers/DualMappedVector.hpp"
#include "gmlc/containers/DualStringMappedVector.hpp"
#include "gmlc/containers/MappedPointerVector.hpp"
#include "gmlc/containers/MappedVector.hpp"
#include "gmlc/containers/StringMappedVector.hpp"

using namespace seq;
namespace gc = gmlc::containers;

// ------------------------------------------------------------------------------------------------ keys
struct OKey {   // ordered, not hashable: selects the std::map path
    int a, b;
    bool operator<(const OKey& o) const { return a != o.a ? a < o.a : b < o.b; }
};
template<class K> struct Keys;
template<> struct Keys<int> {
    static int get(int i)
    {
        static const int k[] = {0, -7, 13, 26};   // 0, 13 and 26 share a bucket
        return k[i];
    }
};
template<> struct Keys<std::string> {
    static std::string get(int i)
    {
        static const char* k[] = {"alpha-rather-long-search-key", "", "b", "alpha-rather-long-search-keY"};
        return k[i];
    }
};
template<> struct Keys<OKey> {
    static OKey get(int i)
    {
        static const OKey k[] = {{1, 2}, {1, 1}, {0, 9}, {2, 1}};
        return k[i];
    }
};
template<> struct Keys<long> {
    static long get(int i) { return 100000000000l * i - 5; }
};
// names given as views of a buffer that is overwritten as soon as the call returns
struct Name {
    char buf[64];
    size_t n;
    explicit Name(int i)
    {
        std::string s = Keys<std::string>::get(i);
        n = s.size();
        memset(buf, '#', sizeof buf);
        memcpy(buf, s.data(), n);
    }
    ~Name() { memset(buf, '!', sizeof buf); }
    std::string_view view() const { return {buf, n}; }
};

template<class C_, class K1_, class K2_, bool DUAL, bool PTR, bool STABLE, bool STR>
struct Conf {
    using C = C_;
    using K1 = K1_;
    using K2 = K2_;
    static constexpr bool dual = DUAL, ptr = PTR, stable = STABLE, str = STR;
};
enum OpK { INS, INS1, INS2, INS0, IOA, IOA1, IOA2, ADDI1, ADDI2, ADD11, ADD22, ADD12, ADD21, REM1, REM2, REMI, XFORM, MODIFY, APPLY, CLEAR, INSP, IOAP, NOPK,
           D_NEW, D_COPY, D_MOVE, D_ASSIGN, A_ASSIGN, A_SELF, D_MASSIGN, A_MASSIGN, D_INS, D_REM, D_REMI, D_CLEAR, INS_ALIAS };
struct OpDef {
    std::string name;
    int k, a, b;
    int f = 0;   // failing variants: >0 the f-th element event, <0 the -f-th allocation, >=100 the (f-99)-th call of the user's function
};
constexpr int NK = 4;      // keys known per space; the last ones may never be bound
constexpr int MAXE = 6;
struct Model {
    int n = 0;
    int gone = 0;          // moved from: only clear, assignment and destruction make sense
    int k1[NK] = {-1, -1, -1, -1}, k2[NK] = {-1, -1, -1, -1};
    void forget(int idx, bool shift)
    {
        for (int* t : {k1, k2})
            for (int i = 0; i < NK; i++) {
                if (t[i] == idx) t[i] = -1;
                else if (shift && t[i] > idx) t[i]--;
            }
    }
};
struct Exp {
    int v, uid;
    const void* addr;
};
struct MCfg {
    std::vector<OpDef> ops;
    int maxn;
    bool pair;
};

template<class T_>
struct Mapped : System {
    using C = typename T_::C;
    using K1 = typename T_::K1;
    using K2 = typename T_::K2;
    typename std::aligned_storage<sizeof(C), 16>::type sa, sd;
    C *a = nullptr, *d = nullptr;
    struct MM {
        Model A, D;
    } m;
    const MCfg& cfg;
    explicit Mapped(const MCfg& c) : cfg(c)
    {
        arena = true;
        roots = {{&sa, sizeof sa}, {&sd, sizeof sd}, {&m, sizeof m}};
    }
    void loaded() override
    {
        a = reinterpret_cast<C*>(&sa);
        d = reinterpret_cast<C*>(&sd);
        T.live = liveExpected();
    }
    long liveExpected() const { return m.A.n + m.D.n; }
    C* mk(bool A)
    {
        auto& s = A ? sa : sd;
        memset((void*)&s, 0, sizeof s);
        return (A ? a : d) = reinterpret_cast<C*>(&s);
    }
    void init(int) override
    {
        m = MM{};
        new (mk(true)) C();
        new (mk(false)) C();
    }
    void finish() override
    {
        a->~C();
        d->~C();
    }
    // -------------------------------------------------------------------------------- uniform access
    static Elem& el(C& c, int i)
    {
        if constexpr (T_::ptr) {
            Elem* p = c[i];
            SQ_CHECK(p, "element %d is null", i);
            return *p;
        } else
            return c[i];
    }
    template<class F> static auto with1(int k, F f)
    {
        if constexpr (T_::str) {
            Name n(k);
            return f(n.view());
        } else {
            K1 key = Keys<K1>::get(k);
            return f((const K1&)key);
        }
    }
    template<class F> static auto with2(int k, F f)
    {
        K2 key = Keys<K2>::get(k);
        return f((const K2&)key);
    }
    template<class It, class CC> static const Elem* deref(It it, CC& c)
    {
        if (it == c.end()) return nullptr;
        return &*it;
    }
    static const Elem* find1(C& c, int k)
    {
        return with1(k, [&](auto&& key) -> const Elem* {
            if constexpr (T_::ptr) return ((const C&)c).find(key);
            else {
                const Elem* x = deref(c.find(key), c);
                const Elem* y = deref(((const C&)c).find(key), (const C&)c);
                SQ_CHECK(x == y, "find and const find of key %d disagree", k);
                return x;
            }
        });
    }
    static const Elem* find2(C& c, int k)
    {
        if constexpr (T_::dual)
            return with2(k, [&](auto&& key) -> const Elem* {
                if constexpr (T_::ptr) return ((const C&)c).find(key);
                else {
                    const Elem* x = deref(c.find(key), c);
                    const Elem* y = deref(((const C&)c).find(key), (const C&)c);
                    SQ_CHECK(x == y, "find and const find of second key %d disagree", k);
                    return x;
                }
            });
        else
            return nullptr;
    }
    static int idxOf(C& c, int n, const Elem* p)
    {
        if (!p) return -1;
        for (int i = 0; i < n; i++)
            if (&el(c, i) == p) return i;
        fail("find returned an element that is not stored");
    }
    void renumber()
    {
        for (int i = 0; i < m.A.n; i++) el(*a, i).v = el(*a, i).uid = i;
        for (int i = 0; i < m.D.n; i++) el(*d, i).v = el(*d, i).uid = 1000 + i;
    }
    std::vector<Exp> snap(C& c, int n)
    {
        std::vector<Exp> s;
        for (int i = 0; i < n; i++) s.push_back({el(c, i).v, el(c, i).uid, &el(c, i)});
        return s;
    }
    static constexpr int ANY = -1;
    static constexpr bool fixedAddr = T_::ptr || T_::stable;
    void verify(C& c, const std::vector<Exp>& s, const char* who)
    {
        SQ_CHECK((size_t)c.size() == s.size(), "%s: size is %zu, not %zu", who, (size_t)c.size(), s.size());
        for (size_t i = 0; i < s.size(); i++) {
            Elem& e = el(c, (int)i);
            int v = e.get();
            SQ_CHECK(v == s[i].v, "%s: element %zu has value %d, not %d", who, i, v, s[i].v);
            if (s[i].addr && fixedAddr) SQ_CHECK(&e == s[i].addr, "%s: element %zu moved to another address", who, i);
            if (s[i].uid != ANY && fixedAddr) SQ_CHECK(e.uid == s[i].uid, "%s: element %zu was created again", who, i);
        }
    }
    // -------------------------------------------------------------------------------- operations on one container
    // returns false if not applicable; updates the model and the expected elements
    bool apply(C& c, Model& M, std::vector<Exp>& e, const OpDef& o, const char* who)
    {
        const int V = 5000;
        auto append = [&](int v) {
            e.push_back({v, Elem::FRESH, nullptr});
            M.n++;
        };
        auto replace = [&](int i, int v) {
            e[i].v = v;
            e[i].uid = T_::ptr ? Elem::FRESH : ANY;
            if (T_::ptr) e[i].addr = nullptr;
        };
        auto got = [&](const std::optional<size_t>& r, bool want) {
            SQ_CHECK(r.has_value() == want, "%s: insert %s", who, want ? "was refused although a key was free" : "of keys in use was accepted");
            if (r) SQ_CHECK((int)*r == M.n, "%s: insert returned index %zu with %d elements stored", who, *r, M.n);
        };
        switch (o.k) {
            case INS:
            case INSP: {
                bool want, part;
                if constexpr (T_::dual) {
                    want = M.k1[o.a] < 0 || M.k2[o.b] < 0;
                    part = want && (M.k1[o.a] >= 0 || M.k2[o.b] >= 0);
                } else {
                    want = M.k1[o.a] < 0;
                    part = false;
                }
                if (want && M.n >= cfg.maxn) return false;
                std::optional<size_t> r;
                const Elem* np = nullptr;
                if constexpr (T_::ptr) {
                    if (o.k == INSP) {
                        std::unique_ptr<Elem> up(new Elem(V));
                        np = up.get();
                        if constexpr (T_::dual) r = with1(o.a, [&](auto&& k) { return with2(o.b, [&](auto&& k2) { return c.insert(k, k2, std::move(up)); }); });
                        else r = with1(o.a, [&](auto&& k) { return c.insert(k, std::move(up)); });
                        if (!want) SQ_CHECK(!up || up->v == V, "%s: a refused insert changed the object offered", who);
                    }
                }
                if (o.k == INS) {
                    if constexpr (T_::dual) r = with1(o.a, [&](auto&& k) { return with2(o.b, [&](auto&& k2) { return c.insert(k, k2, 5, 0); }); });
                    else r = with1(o.a, [&](auto&& k) { return c.insert(k, 5, 0); });
                }
                got(r, want);
                if (!want) return true;
                append(V);
                if (np) {
                    e.back().addr = np;   // the object given is adopted, not copied
                }
                if (!part) {
                    M.k1[o.a] = M.n - 1;
                    if (T_::dual) M.k2[o.b] = M.n - 1;
                } else {
                    // one of the two keys names another element: it may stay or follow
                    adopt(c, M, o.a, true, M.k1[o.a] < 0, who);
                    adopt(c, M, o.b, false, M.k2[o.b] < 0, who);
                }
                return true;
            }
            case INS1: {
                if constexpr (T_::dual) {
                    bool want = M.k1[o.a] < 0;
                    if (want && M.n >= cfg.maxn) return false;
                    std::optional<size_t> r = with1(o.a, [&](auto&& k) {
                        if constexpr (T_::ptr) return c.insert(k, nullptr, 5, 0);
                        else return c.insert(k, no_search, 5, 0);
                    });
                    got(r, want);
                    if (want) {
                        append(V);
                        M.k1[o.a] = M.n - 1;
                    }
                    return true;
                }
                return false;
            }
            case INS2: {
                if constexpr (T_::dual) {
                    bool want = M.k2[o.b] < 0;
                    if (want && M.n >= cfg.maxn) return false;
                    std::optional<size_t> r = with2(o.b, [&](auto&& k) { return c.insert(no_search, k, 5, 0); });
                    got(r, want);
                    if (want) {
                        append(V);
                        M.k2[o.b] = M.n - 1;
                    }
                    return true;
                }
                return false;
            }
            case INS0: {
                if constexpr (!(T_::dual && T_::ptr)) {
                    if (M.n >= cfg.maxn) return false;
                    std::optional<size_t> r;
                    if constexpr (T_::dual) r = c.insert(no_search, no_search, 5, 0);
                    else r = c.insert(no_search, 5, 0);
                    got(r, true);
                    append(V);
                    return true;
                }
                return false;
            }
            case IOA:
            case IOAP: {
                int i1 = M.k1[o.a], i2 = T_::dual ? M.k2[o.b] : -1;
                if (M.n >= cfg.maxn && (i1 < 0 || (T_::dual && i1 != i2))) return false;
                size_t r = 0;
                const Elem* np = nullptr;
                if constexpr (T_::ptr) {
                    if (o.k == IOAP) {
                        std::unique_ptr<Elem> up(new Elem(V));
                        np = up.get();
                        if constexpr (T_::dual) r = with1(o.a, [&](auto&& k) { return with2(o.b, [&](auto&& k2) { return c.insert_or_assign(k, k2, std::move(up)); }); });
                        else r = with1(o.a, [&](auto&& k) { return c.insert_or_assign(k, std::move(up)); });
                    }
                }
                if (o.k == IOA) {
                    if constexpr (T_::dual) r = with1(o.a, [&](auto&& k) { return with2(o.b, [&](auto&& k2) { return c.insert_or_assign(k, k2, 5, 0); }); });
                    else r = with1(o.a, [&](auto&& k) { return c.insert_or_assign(k, 5, 0); });
                }
                bool okAppend = (int)r == M.n, okPlace = (i1 >= 0 && (int)r == i1) || (i2 >= 0 && (int)r == i2);
                if (i1 < 0 && i2 < 0) okPlace = false;
                if (i1 >= 0 && (!T_::dual || i1 == i2)) okAppend = false;
                SQ_CHECK(okAppend || okPlace, "%s: insert_or_assign returned index %zu (%d elements, keys at %d and %d)", who, r, M.n, i1, i2);
                if (okAppend) append(V);
                else replace((int)r, V);
                if (np) e[r].addr = np;
                M.k1[o.a] = (int)r;
                if (T_::dual) M.k2[o.b] = (int)r;
                return true;
            }
            case IOA1:
                if constexpr (T_::dual) {
                    int i1 = M.k1[o.a];
                    if (M.n >= cfg.maxn && i1 < 0) return false;
                    size_t r = with1(o.a, [&](auto&& k) {
                        if constexpr (T_::ptr) return c.insert_or_assign(k, nullptr, 5, 0);
                        else return c.insert_or_assign(k, no_search, 5, 0);
                    });
                    SQ_CHECK((int)r == (i1 >= 0 ? i1 : M.n), "%s: insert_or_assign returned index %zu, not %d", who, r, i1 >= 0 ? i1 : M.n);
                    if (i1 < 0) append(V);
                    else replace(i1, V);
                    M.k1[o.a] = (int)r;
                    return true;
                }
                return false;
            case IOA2:
                if constexpr (T_::dual) {
                    int i2 = M.k2[o.b];
                    if (M.n >= cfg.maxn && i2 < 0) return false;
                    size_t r = with2(o.b, [&](auto&& k) {
                        if constexpr (T_::ptr) return c.insert_or_assign(nullptr, k, 5, 0);
                        else return c.insert_or_assign(no_search, k, 5, 0);
                    });
                    SQ_CHECK((int)r == (i2 >= 0 ? i2 : M.n), "%s: insert_or_assign returned index %zu, not %d", who, r, i2 >= 0 ? i2 : M.n);
                    if (i2 < 0) append(V);
                    else replace(i2, V);
                    M.k2[o.b] = (int)r;
                    return true;
                }
                return false;
            case ADDI1:
                if constexpr (!(T_::dual && T_::ptr) && !(T_::str && !T_::dual)) {
                    bool want = o.b < M.n && M.k1[o.a] < 0;
                    bool r = with1(o.a, [&](auto&& k) { return c.addSearchTermForIndex(k, (size_t)(o.b == 99 ? ~(size_t)0 : o.b)); });
                    SQ_CHECK(r == want, "%s: addSearchTermForIndex returned %d (%d elements, key %s)", who, r, M.n, M.k1[o.a] < 0 ? "free" : "in use");
                    if (want) M.k1[o.a] = o.b;
                    return true;
                }
                return false;
            case ADDI2:
                if constexpr (T_::dual && !T_::ptr) {
                    bool want = o.b < M.n && M.k2[o.a] < 0;
                    bool r = with2(o.a, [&](auto&& k) { return c.addSearchTermForIndex(k, (size_t)(o.b == 99 ? ~(size_t)0 : o.b)); });
                    SQ_CHECK(r == want, "%s: addSearchTermForIndex returned %d (%d elements, second key %s)", who, r, M.n, M.k2[o.a] < 0 ? "free" : "in use");
                    if (want) M.k2[o.a] = o.b;
                    return true;
                }
                return false;
            case ADD11:
            case ADD22:
            case ADD12:   // first kind new, second kind existing
            case ADD21:
                if constexpr (T_::dual && !T_::ptr) {
                    bool new1 = o.k == ADD11 || o.k == ADD12, old1 = o.k == ADD11 || o.k == ADD21;
                    int ex = old1 ? M.k1[o.b] : M.k2[o.b];
                    int& nw = new1 ? M.k1[o.a] : M.k2[o.a];
                    bool want = ex >= 0 && nw < 0;
                    bool r = o.k == ADD11 ? with1(o.a, [&](auto&& x) { return with1(o.b, [&](auto&& y) { return c.addSearchTerm(x, y); }); }) :
                        o.k == ADD22      ? with2(o.a, [&](auto&& x) { return with2(o.b, [&](auto&& y) { return c.addSearchTerm(x, y); }); }) :
                        o.k == ADD12      ? with1(o.a, [&](auto&& x) { return with2(o.b, [&](auto&& y) { return c.addSearchTerm(x, y); }); }) :
                                            with2(o.a, [&](auto&& x) { return with1(o.b, [&](auto&& y) { return c.addSearchTerm(x, y); }); });
                    SQ_CHECK(r == want, "%s: addSearchTerm returned %d (existing term %s, new term %s)", who, r, ex >= 0 ? "bound" : "unbound", nw < 0 ? "free" : "in use");
                    if (want) nw = ex;
                    return true;
                }
                return false;
            case REM1:
            case REM2:
            case REMI: {
                int i;
                if (o.k == REM1) {
                    i = M.k1[o.a];
                    with1(o.a, [&](auto&& k) {
                        c.remove(k);
                        return 0;
                    });
                } else if (o.k == REM2) {
                    if constexpr (T_::dual) {
                        i = M.k2[o.a];
                        with2(o.a, [&](auto&& k) {
                            c.remove(k);
                            return 0;
                        });
                    } else
                        return false;
                } else {
                    i = o.a < M.n ? o.a : -1;
                    c.removeIndex((size_t)(o.a == 99 ? ~(size_t)0 : o.a));
                }
                if (i < 0) return true;
                bool erase = !T_::stable || i == M.n - 1;
                M.forget(i, erase);
                if (erase) {
                    e.erase(e.begin() + i);
                    M.n--;
                }
                return true;
            }
            case XFORM:
                if constexpr (!T_::ptr) {
                    std::set<int> seen;
                    c.transform([&](const Elem& x) {
                        seen.insert(x.get());
                        return Elem(x.get() + 200);
                    });
                    SQ_CHECK((int)seen.size() == M.n, "%s: transform visited %zu of %d elements", who, seen.size(), M.n);
                    for (auto& x : e) x.v += 200, x.uid = ANY;
                    return true;
                }
                return false;
            case MODIFY: {
                int cnt = 0;
                if constexpr (T_::ptr) {
                    c.apply([&](Elem* x) {
                        x->v = x->get() + 300;
                        cnt++;
                    });
                } else
                    c.modify([&](Elem& x) {
                        x.v = x.get() + 300;
                        cnt++;
                    });
                SQ_CHECK(cnt == M.n, "%s: modify visited %d of %d elements", who, cnt, M.n);
                for (auto& x : e) x.v += 300;
                return true;
            }
            case APPLY: {
                int i = 0;
                int base = e.empty() ? 0 : e[0].v;
                auto f = [&](const Elem& x) {
                    SQ_CHECK(i < M.n && x.get() == base + i, "%s: apply visits element %d out of order", who, i);
                    i++;
                };
                if constexpr (T_::ptr) ((const C&)c).apply([&](const Elem* x) { f(*x); });
                else c.apply(f);
                SQ_CHECK(i == M.n, "%s: apply visited %d of %d elements", who, i, M.n);
                return true;
            }
            case CLEAR:
                c.clear();
                M = Model{};
                e.clear();
                return true;
        }
        return false;
    }
    // -------------------------------------------------------------------------------- operations that fail with an exception
    // the call alone; the failure is armed only while it runs.  0: not applicable, 1: returned, 2: failed
    struct UserStop {};
    int rawCall(C& c, const OpDef& o)
    {
        int st = 0;
        auto go = [&](auto f) {
            st = 1;
            if (o.f > 0 && o.f < 100) T.arm(o.f);
            if (o.f < 0) ::arena::failAt = (uint32_t)-o.f;
            try {
                f();
            }
            catch (const Boom&) {
                st = 2;
            }
            catch (const std::bad_alloc&) {
                st = 2;
            }
            catch (const UserStop&) {
                st = 2;
            }
            T.disarm();
            ::arena::failAt = 0;
            return 0;
        };
        int left = o.f - 99;
        auto user = [&] {
            if (o.f >= 100 && --left == 0) throw UserStop{};
        };
        const int V = 5000;
        switch (o.k) {
            case INS:
            case IOA:
                if constexpr (T_::dual)
                    with1(o.a, [&](auto&& k) { return with2(o.b, [&](auto&& k2) { return go([&] { if (o.k == INS) c.insert(k, k2, 5, 0); else c.insert_or_assign(k, k2, 5, 0); }); }); });
                else
                    with1(o.a, [&](auto&& k) { return go([&] { if (o.k == INS) c.insert(k, 5, 0); else c.insert_or_assign(k, 5, 0); }); });
                break;
            case INSP:
            case IOAP:
                if constexpr (T_::ptr) {
                    std::unique_ptr<Elem> up(new Elem(V));
                    if constexpr (T_::dual)
                        with1(o.a, [&](auto&& k) {
                            return with2(o.b, [&](auto&& k2) { return go([&] { if (o.k == INSP) c.insert(k, k2, std::move(up)); else c.insert_or_assign(k, k2, std::move(up)); }); });
                        });
                    else
                        with1(o.a, [&](auto&& k) { return go([&] { if (o.k == INSP) c.insert(k, std::move(up)); else c.insert_or_assign(k, std::move(up)); }); });
                }
                break;
            case INS1:
            case IOA1:
                if constexpr (T_::dual && T_::ptr)
                    with1(o.a, [&](auto&& k) { return go([&] { if (o.k == INS1) c.insert(k, nullptr, 5, 0); else c.insert_or_assign(k, nullptr, 5, 0); }); });
                else if constexpr (T_::dual)
                    with1(o.a, [&](auto&& k) { return go([&] { if (o.k == INS1) c.insert(k, no_search, 5, 0); else c.insert_or_assign(k, no_search, 5, 0); }); });
                break;
            case INS2:
            case IOA2:
                if constexpr (T_::dual && T_::ptr)
                    with2(o.b, [&](auto&& k) { return go([&] { if (o.k == INS2) c.insert(no_search, k, 5, 0); else c.insert_or_assign(nullptr, k, 5, 0); }); });
                else if constexpr (T_::dual)
                    with2(o.b, [&](auto&& k) { return go([&] { if (o.k == INS2) c.insert(no_search, k, 5, 0); else c.insert_or_assign(no_search, k, 5, 0); }); });
                break;
            case INS0:
                if constexpr (T_::dual && !T_::ptr) go([&] { c.insert(no_search, no_search, 5, 0); });
                else if constexpr (!T_::dual) go([&] { c.insert(no_search, 5, 0); });
                break;
            case ADDI1:
                if constexpr (!(T_::dual && T_::ptr) && !(T_::str && !T_::dual)) with1(o.a, [&](auto&& k) { return go([&] { c.addSearchTermForIndex(k, (size_t)o.b); }); });
                break;
            case ADDI2:
                if constexpr (T_::dual && !T_::ptr) with2(o.a, [&](auto&& k) { return go([&] { c.addSearchTermForIndex(k, (size_t)o.b); }); });
                break;
            case ADD11:
                if constexpr (T_::dual && !T_::ptr) with1(o.a, [&](auto&& x) { return with1(o.b, [&](auto&& y) { return go([&] { c.addSearchTerm(x, y); }); }); });
                break;
            case ADD22:
                if constexpr (T_::dual && !T_::ptr) with2(o.a, [&](auto&& x) { return with2(o.b, [&](auto&& y) { return go([&] { c.addSearchTerm(x, y); }); }); });
                break;
            case ADD12:
                if constexpr (T_::dual && !T_::ptr) with1(o.a, [&](auto&& x) { return with2(o.b, [&](auto&& y) { return go([&] { c.addSearchTerm(x, y); }); }); });
                break;
            case ADD21:
                if constexpr (T_::dual && !T_::ptr) with2(o.a, [&](auto&& x) { return with1(o.b, [&](auto&& y) { return go([&] { c.addSearchTerm(x, y); }); }); });
                break;
            case REM1: with1(o.a, [&](auto&& k) { return go([&] { c.remove(k); }); }); break;
            case REM2:
                if constexpr (T_::dual) with2(o.a, [&](auto&& k) { return go([&] { c.remove(k); }); });
                break;
            case REMI: go([&] { c.removeIndex((size_t)o.a); }); break;
            case XFORM:
                if constexpr (!T_::ptr)
                    go([&] {
                        c.transform([&](const Elem& x) {
                            user();
                            return Elem(x.get() + 200);
                        });
                    });
                break;
            case MODIFY:
                if constexpr (T_::ptr)
                    go([&] {
                        c.apply([&](Elem* x) {
                            user();
                            x->v = x->get() + 200;
                        });
                    });
                else
                    go([&] {
                        c.modify([&](Elem& x) {
                            user();
                            x.v = x.get() + 200;
                        });
                    });
                break;
            case D_COPY:
                if constexpr (!T_::ptr) {
                    d->~C();
                    C* where = mk(false);
                    go([&] { new (where) C((const C&)c); });
                    if (st == 1) d->~C();
                    new (mk(false)) C();
                }
                break;
        }
        return st;
    }
    // true: the operation failed, the model has been brought in line with what a failed call may leave behind
    bool applyFailing(C& c, Model& M, std::vector<Exp>& e, const OpDef& o, const char* who)
    {
        bool ins = o.k == INS || o.k == INSP || o.k == INS0 || o.k == INS1 || o.k == INS2, ioa = o.k == IOA || o.k == IOAP || o.k == IOA1 || o.k == IOA2;
        if ((ins || ioa) && M.n >= cfg.maxn) return false;
        if (rawCall(c, o) != 2) return false;
        if (o.k == XFORM || o.k == MODIFY) {   // every element was visited at most once, as many as there were successful calls
            int changed = 0;
            SQ_CHECK((int)c.size() == M.n, "%s: a function that threw changed the size", who);
            for (int i = 0; i < M.n; i++)
                if (el(c, i).get() == e[i].v + 200) {
                    changed++;
                    e[i].v += 200;
                    if (o.k == XFORM) e[i].uid = ANY;
                }
            if (o.f >= 100) SQ_CHECK(changed == o.f - 100, "%s: %d elements changed before the function threw at its call %d", who, changed, o.f - 99);
            return true;
        }
        if (o.f > 0 || !(ins || ioa)) return true;   // an element that could not be made, or a key that could not be added, a removal: nothing may have changed
        // memory ran out: the new element may or may not be stored, each of its keys may or may not be bound to it
        const int V = 5000;
        int n = (int)c.size(), old = M.n;
        SQ_CHECK(n == old || n == old + 1, "%s: a failed insertion changed the size from %d to %d", who, old, n);
        if (n > old) {
            e.push_back({V, Elem::FRESH, nullptr});
            M.n++;
        }
        bool use1 = o.k != INS2 && o.k != IOA2 && o.k != INS0, use2 = T_::dual && o.k != INS1 && o.k != IOA1 && o.k != INS0;
        int i1 = use1 ? M.k1[o.a] : -1, i2 = use2 ? M.k2[o.b] : -1;
        if (ioa)
            for (int i : {i1, i2})
                if (i >= 0 && el(c, i).get() == V) {
                    e[i].v = V;
                    e[i].uid = T_::ptr ? Elem::FRESH : ANY;
                    if (T_::ptr) e[i].addr = nullptr;
                }
        auto settle = [&](int& b, const Elem* p, const char* which) {
            int i = idxOf(c, M.n, p);
            SQ_CHECK(i == b || (n > old && i == old) || (ioa && i >= 0 && (i == i1 || i == i2)), "%s: after a failed insertion its %s key finds element %d (%d before, %d elements)", who, which, i, b, n);
            b = i;
        };
        if (use1) settle(M.k1[o.a], find1(c, o.a), "first");
        if (use2) settle(M.k2[o.b], find2(c, o.b), "second");
        return true;
    }
    void adopt(C& c, Model& M, int k, bool first, bool mustFollow, const char* who)
    {
        int& b = first ? M.k1[k] : M.k2[k];
        int i = idxOf(c, M.n, first ? find1(c, k) : find2(c, k));
        SQ_CHECK(i == M.n - 1 || (!mustFollow && i == b), "%s: after an insert with two keys, %s key %d names element %d", who, first ? "the first" : "the second", k, i);
        b = i;
    }
    bool step(int op) override
    {
        const OpDef& o = cfg.ops[op];
        T.constructed = T.moves = T.assigns = 0;
        {
            std::vector<Exp> ea, ed;
            if (!m.A.gone) ea = snap(*a, m.A.n);
            ed = snap(*d, m.D.n);
            auto copied = [&](std::vector<Exp>& to, const std::vector<Exp>& from) {
                to.clear();
                for (auto& x : from) to.push_back({x.v, ANY, nullptr});
            };
            if (o.f) {
                if (m.A.gone || !applyFailing(*a, m.A, ea, o, "A")) return false;
            } else
            switch (o.k) {
                case D_NEW:
                    d->~C();
                    new (mk(false)) C();
                    m.D = Model{};
                    ed.clear();
                    break;
                case D_COPY:
                    if constexpr (!T_::ptr) {
                        if (m.A.gone) return false;
                        d->~C();
                        new (mk(false)) C((const C&)*a);
                        m.D = m.A;
                        copied(ed, ea);
                        break;
                    } else
                        return false;
                case D_MOVE:
                    if (m.A.gone) return false;
                    d->~C();
                    new (mk(false)) C(std::move(*a));
                    m.D = m.A;
                    ed = ea;
                    m.A = Model{};
                    m.A.gone = 1;
                    break;
                case D_ASSIGN:
                    if constexpr (!T_::ptr) {
                        if (m.A.gone) return false;
                        *d = (const C&)*a;
                        m.D = m.A;
                        copied(ed, ea);
                        break;
                    } else
                        return false;
                case A_ASSIGN:
                    if constexpr (!T_::ptr) {
                        *a = (const C&)*d;
                        m.A = m.D;
                        copied(ea, ed);
                        break;
                    } else
                        return false;
                case A_SELF:
                    if constexpr (!T_::ptr) {
                        if (m.A.gone) return false;
                        const C& alias = *a;
                        *a = alias;
                        auto x = ea;
                        copied(ea, x);
                        break;
                    } else
                        return false;
                case D_MASSIGN:
                    if (m.A.gone) return false;
                    *d = std::move(*a);
                    m.D = m.A;
                    ed = ea;
                    m.A = Model{};
                    m.A.gone = 1;
                    break;
                case A_MASSIGN:   // D is started afresh: only A has a moved-from state
                    *a = std::move(*d);
                    m.A = m.D;
                    ea = ed;
                    d->~C();
                    new (mk(false)) C();
                    m.D = Model{};
                    ed.clear();
                    break;
                case D_INS:
                case D_REM:
                case D_REMI:
                case D_CLEAR: {
                    OpDef x = o;
                    x.k = o.k == D_INS ? INS : o.k == D_REM ? REM1 : o.k == D_REMI ? REMI : CLEAR;
                    if (!apply(*d, m.D, ed, x, "D")) return false;
                } break;
                default:
                    if (m.A.gone) {
                        if (o.k != CLEAR) return false;
                        a->clear();
                        m.A = Model{};
                        break;
                    }
                    if (!apply(*a, m.A, ea, o, "A")) return false;
            }
            if (!m.A.gone) verify(*a, ea, "A");
            verify(*d, ed, "D");
        }
        if (!m.A.gone || T_::ptr) SQ_CHECK(T.live == liveExpected(), "%ld elements are alive, %ld are stored", T.live, liveExpected());
        if (m.A.gone) SQ_CHECK(T.live == liveExpected(), "%ld elements are alive after a move, %ld are stored", T.live, liveExpected());
        renumber();
        return true;
    }
    void look(C& c, Model& M, int base, const char* who)
    {
        const C& k = c;
        SQ_CHECK((int)k.size() == M.n, "%s: size is %zu, not %d", who, (size_t)k.size(), M.n);
        for (int i = 0; i < NK; i++) {
            int x = idxOf(c, M.n, find1(c, i));
            SQ_CHECK(x == M.k1[i], "%s: key %d finds element %d, not %d", who, i, x, M.k1[i]);
            if (T_::dual) {
                int y = idxOf(c, M.n, find2(c, i));
                SQ_CHECK(y == M.k2[i], "%s: second key %d finds element %d, not %d", who, i, y, M.k2[i]);
            }
        }
        int i = 0;
        for (auto it = k.begin(); it != k.end(); ++it, ++i) {
            SQ_CHECK(i < M.n, "%s: iteration does not end", who);
            int v;
            if constexpr (T_::ptr) v = (*it)->get();
            else v = (*it).get();
            SQ_CHECK(v == base + i, "%s: iteration gives element %d where %d is expected", who, v - base, i);
        }
        SQ_CHECK(i == M.n, "%s: iteration visits %d of %d", who, i, M.n);
        for (i = 0; i < M.n; i++) {
            if constexpr (T_::ptr) SQ_CHECK(k[i] && k[i]->get() == base + i, "%s: wrong element at %d", who, i);
            else SQ_CHECK(k[i].get() == base + i && c.at(i).get() == base + i && k.at(i).get() == base + i, "%s: wrong element at %d", who, i);
            if constexpr (T_::ptr && T_::dual) SQ_CHECK(k.at(i) == k[i], "%s: at(%d) is not [%d]", who, i, i);
        }
        if (M.n) {
            if constexpr (T_::ptr) SQ_CHECK(c.back() && c.back()->get() == base + M.n - 1, "%s: wrong back()", who);
            else SQ_CHECK(c.back().get() == base + M.n - 1 && k.back().get() == base + M.n - 1, "%s: wrong back()", who);
        }
        if constexpr (T_::ptr)
            for (size_t bad : {(size_t)M.n, (size_t)M.n + 1, ~(size_t)0}) SQ_CHECK(k[bad] == nullptr, "%s: [%zu] is not null with %d elements", who, bad, M.n);
        if constexpr (!(T_::ptr && !T_::dual)) {
            int t = 0;
            for (size_t bad : {(size_t)M.n, ~(size_t)0}) {
                try {
                    (void)k.at(bad);
                }
                catch (const std::out_of_range&) {
                    t++;
                }
            }
            SQ_CHECK(t == 2, "%s: at() did not throw for an index outside %d elements", who, M.n);
        }
    }
    void check() override
    {
        if (!m.A.gone) look(*a, m.A, 0, "A");
        look(*d, m.D, 1000, "D");
    }
};

// ------------------------------------------------------------------------------------------------ alphabets
static std::vector<OpDef> alphabet(bool dual, bool ptr, bool str, int n1, int n2, bool wide)
{
    std::vector<OpDef> d;
    auto S = [](const char* f, std::vector<int> a) {
        std::string s = f;
        s += "(";
        for (size_t i = 0; i < a.size(); i++) s += (i ? "," : "") + std::to_string(a[i]);
        return s + ")";
    };
    for (int i = 0; i < n1; i++) {
        if (dual) {
            for (int j = 0; j < n2; j++) {
                d.push_back({S("insert", {i, j}), INS, i, j});
                d.push_back({S("insert_or_assign", {i, j}), IOA, i, j});
                if (ptr && wide) d.push_back({S("insert pointer", {i, j}), INSP, i, j});
                if (ptr && wide) d.push_back({S("insert_or_assign pointer", {i, j}), IOAP, i, j});
            }
            d.push_back({S("insert first key", {i}), INS1, i, 0});
            d.push_back({S("insert_or_assign first key", {i}), IOA1, i, 0});
        } else {
            d.push_back({S("insert", {i}), INS, i, 0});
            d.push_back({S("insert_or_assign", {i}), IOA, i, 0});
            if (ptr) d.push_back({S("insert pointer", {i}), INSP, i, 0});
            if (ptr) d.push_back({S("insert_or_assign pointer", {i}), IOAP, i, 0});
        }
        d.push_back({S("remove key", {i}), REM1, i, 0});
    }
    if (dual)
        for (int j = 0; j < n2; j++) {
            d.push_back({S("insert second key", {j}), INS2, 0, j});
            d.push_back({S("insert_or_assign second key", {j}), IOA2, 0, j});
            d.push_back({S("remove second key", {j}), REM2, j, 0});
        }
    if (!(dual && ptr)) d.push_back({"insert without key", INS0, 0, 0});
    for (int i : {0, 1, 2, 99}) d.push_back({S("removeIndex", {i}), REMI, i, 0});
    if (!(dual && ptr) && !(str && !dual)) {
        for (int k = 0; k < n1; k++)
            for (int i : {0, 1, 2, 99}) d.push_back({S("addSearchTermForIndex", {k, i}), ADDI1, k, i});
        if (dual) {
            for (int k = 0; k < n2; k++)
                for (int i : {0, 1, 99}) d.push_back({S("addSearchTermForIndex second", {k, i}), ADDI2, k, i});
            for (int x = 0; x < n1; x++)
                for (int y = 0; y < n1; y++)
                    if (x != y) d.push_back({S("addSearchTerm first,first", {x, y}), ADD11, x, y});
            for (int x = 0; x < n2; x++)
                for (int y = 0; y < n2; y++)
                    if (x != y) d.push_back({S("addSearchTerm second,second", {x, y}), ADD22, x, y});
            for (int x = 0; x < n1; x++)
                for (int y = 0; y < n2; y++) {
                    d.push_back({S("addSearchTerm first,second", {x, y}), ADD12, x, y});
                    d.push_back({S("addSearchTerm second,first", {y, x}), ADD21, y, x});
                }
        }
    }
    d.push_back({"clear", CLEAR, 0, 0});
    d.push_back({"modify", MODIFY, 0, 0});
    d.push_back({"apply", APPLY, 0, 0});
    if (!ptr) d.push_back({"transform", XFORM, 0, 0});
    return d;
}
static std::vector<OpDef> pairs(bool dual, bool ptr, bool str)
{
    std::vector<OpDef> d = {{"A.insert(0,0)", INS, 0, 0}, {"A.insert(1,1)", INS, 1, 1}, {"A.insert_or_assign(2,1)", IOA, 2, 1}, {"A.removeIndex(0)", REMI, 0, 0}, {"A.remove(1)", REM1, 1, 0}, {"A.clear", CLEAR, 0, 0},
                            {"D := default", D_NEW, 0, 0}, {"D := moved A", D_MOVE, 0, 0}, {"D = move(A)", D_MASSIGN, 0, 0}, {"A = move(D)", A_MASSIGN, 0, 0},
                            {"D.insert(1,0)", D_INS, 1, 0}, {"D.insert(2,2)", D_INS, 2, 2}, {"D.remove(0)", D_REM, 0, 0}, {"D.removeIndex(0)", D_REMI, 0, 0}, {"D.clear", D_CLEAR, 0, 0}};
    if (!ptr) {
        d.push_back({"D := copy of A", D_COPY, 0, 0});
        d.push_back({"D = A", D_ASSIGN, 0, 0});
        d.push_back({"A = D", A_ASSIGN, 0, 0});
        d.push_back({"A = A", A_SELF, 0, 0});
    }
    if (!(dual && ptr) && !(str && !dual)) d.push_back({"A.addSearchTermForIndex(0,1)", ADDI1, 0, 1});
    if (dual) d.push_back({"A.insert first key(0)", INS1, 0, 0});
    return d;
}

// a failure at every element event, allocation or call of the user's function of each operation
static std::vector<OpDef> failing(const std::vector<OpDef>& base, bool dual, bool ptr)
{
    std::vector<OpDef> d;
    for (auto& o : base) {
        if (o.k == APPLY || (o.b == 99 || (o.k == REMI && o.a == 99))) continue;
        d.push_back(o);
    }
    auto add = [&](const OpDef& o, int f, const char* what, int n) {
        OpDef x = o;
        x.f = f;
        x.name = o.name + " failing at " + what + " " + std::to_string(n);
        d.push_back(x);
    };
    for (auto o : base) {
        bool io = o.k == INS || o.k == IOA || o.k == INSP || o.k == IOAP || o.k == INS0 || o.k == INS1 || o.k == INS2 || o.k == IOA1 || o.k == IOA2;
        bool addk = o.k >= ADDI1 && o.k <= ADD21;
        if ((o.b == 99)) continue;
        if (io) {
            for (int i = 1; i <= (ptr ? 1 : 3); i++) add(o, i, "element event", i);
            for (int i = 1; i <= (dual ? 8 : 6); i++) add(o, -i, "allocation", i);
        } else if (addk) {
            for (int i = 1; i <= 4; i++) add(o, -i, "allocation", i);
        } else if (o.k == REM1 || o.k == REM2 || (o.k == REMI && o.a != 99)) {
            for (int i = 1; i <= 3; i++) add(o, -i, "allocation", i);
        } else if (o.k == XFORM || o.k == MODIFY) {
            for (int i = 1; i <= 3; i++) add(o, 99 + i, "call", i);
        }
    }
    if (!ptr) {
        OpDef o{"D := copy of A", D_COPY, 0, 0};
        for (int i = 1; i <= 3; i++) add(o, i, "element event", i);
        for (int i = 1; i <= 8; i++) add(o, -i, "allocation", i);
    }
    return d;
}

int main(int argc, char** argv)
{
    std::vector<Scen> v;
    static std::deque<MCfg> cfgs;
    const int FQ = 5, FT = 7;
    auto add = [&](auto* tag, std::string name, int n1, int n2, int maxn, int dq, int dt, unsigned tags, int pq, int pt) {
        using T_ = std::remove_pointer_t<decltype(tag)>;
        for (int pair = 0; pair < 3; pair++) {   // 2: operations that fail
            MCfg c;
            c.ops = pair == 1 ? pairs(T_::dual, T_::ptr, T_::str) : alphabet(T_::dual, T_::ptr, T_::str, n1, pair == 2 && T_::str ? std::min(n2, 1) : n2, true);
            if (pair == 2) c.ops = failing(c.ops, T_::dual, T_::ptr);
            c.maxn = pair == 2 && !T_::str ? 4 : pair ? 3 : maxn;
            c.pair = pair == 1;
            cfgs.push_back(c);
            const MCfg* p = &cfgs.back();
            Scen s;
            s.name = name + (pair == 2 ? "_failing" : pair ? "_copy_move" : "");
            s.make = [p] { return new Mapped<T_>(*p); };
            s.inits = 1;
            s.nops = (int)c.ops.size();
            s.opname = [p](int i) { return p->ops[i].name; };
            s.fixpoint = true;
            s.depth_quick = pair == 2 ? (T_::str ? FQ : 0) : pair ? pq : dq;
            s.depth_thorough = pair == 2 ? (T_::str ? FT : 0) : pair ? pt : dt;
            s.tags = pair == 2 ? 128 : pair ? 64 : tags;
            v.push_back(s);
        }
    };
    using S = std::string;
    using RS = reference_stability;
    constexpr RS ST = RS::stable, UN = RS::unstable;
    //                   container                              K1  K2   dual   ptr    stable str
#define ADD(NAME, CONT, K1, K2, DUAL, PTR, STABLE, STR, ...) add((Conf<CONT, K1, K2, DUAL, PTR, STABLE, STR>*)nullptr, NAME, __VA_ARGS__)
#define COMMA ,
    ADD("mapped_string", gc::MappedVector<Elem COMMA S>, S, int, false, false, false, false, 3, 0, 6, 0, 0, 1, 10, 0);
    ADD("mapped_int", gc::MappedVector<Elem COMMA int>, int, int, false, false, false, false, 3, 0, 6, 0, 0, 1, 0, 0);
    ADD("mapped_ordered", gc::MappedVector<Elem COMMA OKey>, OKey, int, false, false, false, false, 4, 0, 6, 0, 0, 1, 0, 0);
    ADD("mapped_string_stable_b1", gc::MappedVector<Elem COMMA S COMMA ST COMMA 0>, S, int, false, false, true, false, 3, 0, 5, 0, 0, 1, 9, 0);
    ADD("mapped_int_stable_b2", gc::MappedVector<Elem COMMA int COMMA ST COMMA 1>, int, int, false, false, true, false, 3, 0, 6, 0, 0, 1, 0, 0);
    ADD("stringmapped_b1", gc::StringMappedVector<Elem COMMA ST COMMA 0>, S, int, false, false, true, true, 3, 0, 4, 9, 11, 2, 7, 9);
    ADD("stringmapped_b2", gc::StringMappedVector<Elem COMMA ST COMMA 1>, S, int, false, false, true, true, 4, 0, 5, 7, 9, 2, 7, 9);
    ADD("stringmapped_unstable", gc::StringMappedVector<Elem COMMA UN COMMA 1>, S, int, false, false, false, true, 3, 0, 4, 9, 11, 2, 7, 9);
    ADD("pointer_string", gc::MappedPointerVector<Elem COMMA S>, S, int, false, true, false, false, 3, 0, 6, 0, 0, 4, 0, 0);
    ADD("pointer_int", gc::MappedPointerVector<Elem COMMA int>, int, int, false, true, false, false, 3, 0, 6, 0, 0, 4, 0, 0);
    ADD("pointer_ordered", gc::MappedPointerVector<Elem COMMA OKey>, OKey, int, false, true, false, false, 4, 0, 6, 0, 0, 4, 0, 0);
    ADD("dual_string_int", gc::DualMappedVector<Elem COMMA S COMMA int>, S, int, true, false, false, false, 2, 2, 5, 0, 0, 8, 8, 9);
    ADD("dual_int_ordered", gc::DualMappedVector<Elem COMMA int COMMA OKey>, int, OKey, true, false, false, false, 3, 2, 4, 0, 0, 8, 8, 0);
    ADD("dual_stable_b1", gc::DualMappedVector<Elem COMMA S COMMA int COMMA ST COMMA 0>, S, int, true, false, true, false, 2, 2, 5, 0, 0, 8, 8, 9);
    ADD("dualstring_int_b1", gc::DualStringMappedVector<Elem COMMA int COMMA ST COMMA 0>, S, int, true, false, true, true, 2, 2, 4, 6, 8, 16, 7, 8);
    ADD("dualstring_ordered_b2", gc::DualStringMappedVector<Elem COMMA OKey COMMA ST COMMA 1>, S, OKey, true, false, true, true, 3, 2, 4, 5, 6, 16, 7, 8);
    ADD("dualstring_unstable", gc::DualStringMappedVector<Elem COMMA int COMMA UN COMMA 1>, S, int, true, false, false, true, 2, 2, 4, 6, 8, 16, 7, 8);
    ADD("dualpointer_string_int", gc::DualMappedPointerVector<Elem COMMA S COMMA int>, S, int, true, true, false, false, 2, 2, 6, 0, 0, 32, 7, 0);
    ADD("dualpointer_int_ordered", gc::DualMappedPointerVector<Elem COMMA int COMMA OKey>, int, OKey, true, true, false, false, 3, 2, 5, 0, 0, 32, 7, 0);
    ADD("dualpointer_ordered_string", gc::DualMappedPointerVector<Elem COMMA OKey COMMA S>, OKey, S, true, true, false, false, 2, 2, 6, 0, 0, 32, 7, 0);
    return seq::main(argc, argv, v);
}
