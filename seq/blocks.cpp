// C14, C15: StableBlockVector;  C16, C17: StableBlockDeque;  C18: BlockIterator;  C26: throwing elements
#include "arena_ops.hpp"
#include "seq.hpp"
#include "gmlc/containers/StableBlockDeque.hpp"
#include "gmlc/containers/StableBlockVector.hpp"
#include <stdexcept>

using namespace seq;
template<class C> struct IsDeque : std::false_type {};
template<class X, unsigned N, class A> struct IsDeque<gmlc::containers::StableBlockDeque<X, N, A>> : std::true_type {};
// an element that can be copied and moved without an exception (as most types can be), and made from a list of elements:
// storing one must not store a list of one
struct QElem : Elem {
    using Elem::Elem;
    QElem() = default;
    QElem(std::initializer_list<QElem>) : Elem(-999) {}
    QElem(const QElem& o) noexcept : Elem(o) {}
    QElem(QElem&& o) noexcept : Elem(std::move(o)) {}
    QElem& operator=(const QElem& o) noexcept
    {
        Elem::operator=(o);
        return *this;
    }
    QElem& operator=(QElem&& o) noexcept
    {
        Elem::operator=(std::move(o));
        return *this;
    }
};
template<class C> struct ElemOf;
template<class X, unsigned N, class A> struct ElemOf<gmlc::containers::StableBlockVector<X, N, A>> { using type = X; };
template<class X, unsigned N, class A> struct ElemOf<gmlc::containers::StableBlockDeque<X, N, A>> { using type = X; };
// a given allocator (nothing but allocate and deallocate): every block must come from it and go back to it, as it was handed out
template<class X> struct Given {
    static constexpr uint64_t MAGIC = 0x51B0C0A110CA70ull;
    struct Head {
        uint64_t magic;
        uint64_t n;
    };
    X* allocate(size_t n)
    {
        char* p = (char*)operator new(sizeof(Head) + n * sizeof(X));
        new (p) Head{MAGIC, n};
        return (X*)(p + sizeof(Head));
    }
    void deallocate(X* q, size_t n)
    {
        char* p = (char*)q - sizeof(Head);
        SQ_LIFE(arena::isLive(p) && ((Head*)p)->magic == MAGIC, "memory that is not from the allocator is given back to it");
        SQ_LIFE(((Head*)p)->n == n, "a block of %zu elements is given back as one of %zu", (size_t)((Head*)p)->n, n);
        ((Head*)p)->magic = 0;
        operator delete(p);
    }
};
// blocks of two elements come from a given allocator
template<unsigned N> using Al = std::conditional_t<N == 1, Given<Elem>, std::allocator<Elem>>;
template<unsigned N> using SBV = gmlc::containers::StableBlockVector<Elem, N, Al<N>>;
using QVector = gmlc::containers::StableBlockVector<QElem, 0>;
using QDeque = gmlc::containers::StableBlockDeque<QElem, 0>;
template<unsigned N> using SBD = gmlc::containers::StableBlockDeque<Elem, N, Al<N>>;

enum OpK {
    PB_COPY, PB_MOVE, EB, PB_ALIAS, POPB, PF_COPY, PF_MOVE, EF, PF_ALIAS, POPF, CLEAR, SHRINK, ASSIGN, MASSIGN, PB_MANY, POPB_MANY, PF_MANY, POPF_MANY, ROT_F, ROT_B,
    B_NEW, B_COPY, B_MOVE, B_ASSIGN, A_ASSIGN, A_SELF, B_MASSIGN, A_MASSIGN, BPB, BPF, BPOP, BCLEAR, A_MOVERANGE,
    T_PB_COPY, T_PB_MOVE, T_EB, T_PF_COPY, T_PF_MOVE, T_EF, T_BNEW, T_BCOPY, T_ASSIGN,
    X_PB_COPY, X_PB_MOVE, X_EB, X_PF_COPY, X_PF_MOVE, X_EF, X_BNEW, X_BCOPY, X_ASSIGN, X_MASSIGN, X_A_ASSIGN, X_POPB, X_POPF, X_CLEAR, X_PB_MANY, X_PF_MANY
};
struct OpDef {
    std::string name;
    int k, arg;
    int at = 0;   // X_...: the allocation that fails
};
struct InitDef {
    std::string name;
    std::function<int(void*, void*)> f;   // (container, -) -> number of elements
};
struct Cfg {
    std::vector<OpDef> ops;
    int maxA = 8, maxB = 0;
    int checkPairs = 0;    // exhaustive iterator navigation up to this size
    int inits = 1;
    bool macro = false;
};
struct Exp {
    int v, uid;
    const void* addr;
};
using Seq = std::vector<Exp>;

template<class C>
struct Blk : System {
    static constexpr bool DQ = IsDeque<C>::value;
    using Elem = typename ElemOf<C>::type;
    typename std::aligned_storage<sizeof(C), 16>::type sa, sb;
    C *a = nullptr, *b = nullptr;
    struct M {
        int na, nb;
        bool hb;
    } m;
    const Cfg& cfg;
    explicit Blk(const Cfg& c) : cfg(c)
    {
        arena = true;
        roots = {{&sa, sizeof sa}, {&sb, sizeof sb}, {&m, sizeof m}};
    }

    C* mkA()
    {
        memset((void*)&sa, 0, sizeof sa);
        return a = reinterpret_cast<C*>(&sa);
    }
    C* mkB()
    {
        memset((void*)&sb, 0, sizeof sb);
        return b = reinterpret_cast<C*>(&sb);
    }
    void dropB()
    {
        b->~C();
    }
    static void front(C& c, int v)
    {
        if constexpr (DQ) c.push_front(Elem(v));
        else (void)c, (void)v;
    }
    void init(int k) override
    {
        m = M{0, 0, false};
        new (mkB()) C();
        m.hb = true;
        static const int sizes[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 62, 63, 64, 65, 128, 129};
        if (k == 0) {
            new (mkA()) C();
        } else if (k <= 16) {
            int n = sizes[k - 1];
            Elem e(7);
            new (mkA()) C((size_t)n, e);
            m.na = n;
        } else {
            new (mkA()) C();
            int r = k - 17;
            static const int fill[] = {31, 33, 61, 63, 64, 65, 127, 129};
            int n = fill[r % 8];
            r /= 8;
            // 0: all at the back, 1: all at the front, 2: alternating, 3: back then emptied from the front
            for (int i = 0; i < n; i++) {
                if (DQ && (r == 1 || (r == 2 && i % 2))) front(*a, i);
                else a->push_back(Elem(i));
                m.na++;
            }
            if constexpr (DQ)
                if (r == 3)
                    while (m.na > 1) {
                        a->pop_front();
                        m.na--;
                    }
        }
        SQ_CONT((int)a->size() == m.na, "A: size is %zu, not %d", a->size(), m.na);
        renumber();
    }
    void renumber()
    {
        for (int i = 0; i < m.na; i++) (*a)[i].v = (*a)[i].uid = i;
        for (int i = 0; i < m.nb; i++) (*b)[i].v = (*b)[i].uid = 1000 + i;
    }
    Seq exp(C& c, int n)
    {
        Seq s;
        for (int i = 0; i < n; i++) s.push_back({c[i].v, c[i].uid, &c[i]});
        return s;
    }
    static constexpr int ANY = -1;
    Exp fresh(int v) { return {v, Elem::FRESH, nullptr}; }
    void verify(C& c, const Seq& s, const char* who)
    {
        SQ_CONT(c.size() == s.size(), "%s: size is %zu, not %zu", who, c.size(), s.size());
        for (size_t i = 0; i < s.size(); i++) {
            Elem& e = c[i];
            int v = e.get();
            SQ_CONT(v == s[i].v, "%s: element %zu has value %d, not %d", who, i, v, s[i].v);
            if (s[i].addr) SQ_LIFE(&e == s[i].addr, "%s: element %zu moved to another address", who, i);
            if (s[i].uid != ANY) SQ_LIFE(e.uid == s[i].uid, "%s: element %zu was created again (or is not the element constructed for it)", who, i);
        }
    }
    template<class F> static bool noMemory(int at, F f)
    {
        bool threw = false;
        arena::failAt = (uint32_t)at;
        try {
            f();
        }
        catch (const std::bad_alloc&) {
            threw = true;
        }
        arena::failAt = 0;
        return threw;
    }
    bool step(int op) override
    {
        const OpDef& d = cfg.ops[op];
        C &A = *a, &B = *b;
        bool one = false;   // plain insertion: nothing but the new element is touched
        int adds = 0;
        bool plain = false;
        T.constructed = T.moves = T.assigns = 0;
        long live0 = T.live;
        {
            Seq ea = exp(A, m.na), eb = exp(B, m.nb);
            auto grow = [&](int n) { return m.na + n <= cfg.maxA; };
            auto pushBack = [&](int v) {
                ea.push_back(fresh(v));
                adds++;
                plain = true;
            };
            auto pushFront = [&](int v) {
                ea.insert(ea.begin(), fresh(v));
                adds++;
                plain = true;
            };
            auto popBack = [&] {
                if (!ea.empty()) ea.pop_back();
                plain = true;
            };
            auto popFront = [&] {
                if (!ea.empty()) ea.erase(ea.begin());
                plain = true;
            };
            switch (d.k) {
                case PB_COPY: {
                    if (!grow(1)) return false;
                    Elem e(5000);
                    T.constructed = 0;
                    live0++;
                    A.push_back((const Elem&)e);
                    pushBack(5000);
                    one = true;
                    SQ_CONT(e.v == 5000, "push_back(const&) changed its argument");
                    live0--;
                } break;
                case PB_MOVE: {
                    if (!grow(1)) return false;
                    Elem e(5001);
                    T.constructed = 0;
                    A.push_back(std::move(e));
                    pushBack(5001);
                    one = true;
                } break;
                case EB:
                    if (!grow(1)) return false;
                    A.emplace_back(5, 2);
                    pushBack(5002);
                    one = true;
                    break;
                case PB_ALIAS:
                    if (!grow(1) || !m.na) return false;
                    A.push_back((const Elem&)A[0]);
                    pushBack(ea[0].v);
                    one = true;
                    break;
                case POPB:
                    A.pop_back();
                    popBack();
                    break;
                case PB_MANY:
                    if (!grow(d.arg)) return false;
                    for (int i = 0; i < d.arg; i++) {
                        A.emplace_back(6000 + i);
                        pushBack(6000 + i);
                    }
                    break;
                case POPB_MANY:
                    if (m.na < d.arg) return false;
                    for (int i = 0; i < d.arg; i++) {
                        A.pop_back();
                        popBack();
                    }
                    break;
                case PF_COPY:
                    if constexpr (DQ) {
                        if (!grow(1)) return false;
                        Elem e(5003);
                        T.constructed = 0;
                        A.push_front((const Elem&)e);
                        pushFront(5003);
                        one = true;
                        SQ_CONT(e.v == 5003, "push_front(const&) changed its argument");
                    }
                    break;
                case PF_MOVE:
                    if constexpr (DQ) {
                        if (!grow(1)) return false;
                        Elem e(5004);
                        T.constructed = 0;
                        A.push_front(std::move(e));
                        pushFront(5004);
                        one = true;
                    }
                    break;
                case EF:
                    if constexpr (DQ) {
                        if (!grow(1)) return false;
                        A.emplace_front(5, 5);
                        pushFront(5005);
                        one = true;
                    }
                    break;
                case PF_ALIAS:
                    if constexpr (DQ) {
                        if (!grow(1) || !m.na) return false;
                        A.push_front((const Elem&)A[m.na - 1]);
                        pushFront(ea[m.na - 1].v);
                        one = true;
                    }
                    break;
                case POPF:
                    if constexpr (DQ) {
                        A.pop_front();
                        popFront();
                    }
                    break;
                case PF_MANY:
                    if constexpr (DQ) {
                        if (!grow(d.arg)) return false;
                        for (int i = 0; i < d.arg; i++) {
                            A.emplace_front(6000 + i);
                            pushFront(6000 + i);
                        }
                    }
                    break;
                case POPF_MANY:
                    if constexpr (DQ) {
                        if (m.na < d.arg) return false;
                        for (int i = 0; i < d.arg; i++) {
                            A.pop_front();
                            popFront();
                        }
                    }
                    break;
                case ROT_F:   // used as a queue: in at the back, out at the front
                    if constexpr (DQ) {
                        if (!grow(1)) return false;
                        for (int i = 0; i < d.arg; i++) {
                            A.emplace_back(6000 + i);
                            pushBack(6000 + i);
                            A.pop_front();
                            popFront();
                        }
                    }
                    break;
                case ROT_B:
                    if constexpr (DQ) {
                        if (!grow(1)) return false;
                        for (int i = 0; i < d.arg; i++) {
                            A.emplace_front(6000 + i);
                            pushFront(6000 + i);
                            A.pop_back();
                            popBack();
                        }
                    }
                    break;
                case CLEAR:
                    A.clear();
                    ea.clear();
                    plain = true;
                    break;
                case SHRINK:
                    A.shrink_to_fit();
                    plain = true;
                    break;
                case ASSIGN: {
                    if (d.arg > cfg.maxA) return false;
                    std::vector<Elem> src;
                    for (int i = 0; i < d.arg; i++) src.emplace_back(7000 + i);
                    A.assign(src.begin(), src.end());
                    ea.clear();
                    for (int i = 0; i < d.arg; i++) {
                        ea.push_back({7000 + i, ANY, nullptr});
                        SQ_CONT(src[i].v == 7000 + i, "assign changed its source");
                    }
                } break;
                case MASSIGN: {
                    if (d.arg > cfg.maxA) return false;
                    std::vector<Elem> src;
                    for (int i = 0; i < d.arg; i++) src.emplace_back(7000 + i);
                    A.move_assign(src.begin(), src.end());
                    ea.clear();
                    for (int i = 0; i < d.arg; i++) {
                        ea.push_back({7000 + i, ANY, nullptr});
                        SQ_CONT(src[i].v == Elem::MOVED, "move_assign did not move from its source");
                    }
                } break;
                case A_MOVERANGE:   // move the elements of B over
                    if (m.nb > cfg.maxA) return false;
                    A.move_assign(B.begin(), B.end());
                    ea.clear();
                    for (auto& x : eb) {
                        ea.push_back({x.v, ANY, nullptr});
                        x.v = Elem::MOVED;
                    }
                    break;
                case B_NEW: {
                    if (d.arg > cfg.maxB) return false;
                    dropB();
                    {
                        Elem e(8000);
                        if (d.arg < 0) new (mkB()) C();
                        else new (mkB()) C((size_t)d.arg, e);
                        SQ_CONT(e.v == 8000, "the sized constructor changed its argument");
                    }
                    eb.clear();
                    for (int i = 0; i < d.arg; i++) eb.push_back(fresh(8000));
                } break;
                case B_COPY:
                    if (m.na > cfg.maxB) return false;
                    dropB();
                    new (mkB()) C((const C&)A);
                    eb.clear();
                    for (auto& x : ea) eb.push_back({x.v, Elem::FRESH, nullptr});
                    break;
                case B_MOVE:
                    if (m.na > cfg.maxB) return false;
                    dropB();
                    new (mkB()) C(std::move(A));
                    eb = ea;
                    ea.clear();
                    plain = true;
                    break;
                case B_ASSIGN:
                    if (m.na > cfg.maxB) return false;
                    B = (const C&)A;
                    eb.clear();
                    for (auto& x : ea) eb.push_back({x.v, ANY, nullptr});
                    break;
                case A_ASSIGN:
                    if (m.nb > cfg.maxA) return false;
                    A = (const C&)B;
                    ea.clear();
                    for (auto& x : eb) ea.push_back({x.v, ANY, nullptr});
                    break;
                case A_SELF: {
                    const C& alias = A;
                    A = alias;
                    for (auto& x : ea) x.uid = ANY, x.addr = nullptr;
                } break;
                case B_MASSIGN:
                    if (m.na > cfg.maxB) return false;
                    B = std::move(A);
                    eb = ea;
                    ea.clear();
                    plain = true;
                    break;
                case A_MASSIGN:
                    if (m.nb > cfg.maxA) return false;
                    A = std::move(B);
                    ea = eb;
                    eb.clear();
                    plain = true;
                    break;
                case BPB:
                    if (m.nb >= cfg.maxB) return false;
                    B.emplace_back(5006);
                    eb.push_back(fresh(5006));
                    break;
                case BPF:
                    if constexpr (DQ) {
                        if (m.nb >= cfg.maxB) return false;
                        B.emplace_front(5007);
                        eb.insert(eb.begin(), fresh(5007));
                    }
                    break;
                case BPOP:
                    B.pop_back();
                    if (!eb.empty()) eb.pop_back();
                    break;
                case BCLEAR:
                    B.clear();
                    eb.clear();
                    break;
                case T_PB_COPY:
                case T_PB_MOVE:
                case T_EB:
                case T_PF_COPY:
                case T_PF_MOVE:
                case T_EF: {
                    if (!grow(1)) return false;
                    Elem e(5000);
                    bool threw = false;
                    T.arm(1);
                    try {
                        if (d.k == T_PB_COPY) A.push_back((const Elem&)e);
                        if (d.k == T_PB_MOVE) A.push_back(std::move(e));
                        if (d.k == T_EB) A.emplace_back(5, 2);
                        if constexpr (DQ) {
                            if (d.k == T_PF_COPY) A.push_front((const Elem&)e);
                            if (d.k == T_PF_MOVE) A.push_front(std::move(e));
                            if (d.k == T_EF) A.emplace_front(5, 2);
                        }
                    }
                    catch (const Boom&) {
                        threw = true;
                    }
                    T.disarm();
                    SQ_CONT(threw, "the exception of the element did not reach the caller");
                    SQ_CONT(e.v == 5000, "the failed insertion changed its argument");
                } break;
                case T_BNEW:
                case T_BCOPY: {
                    // the constructor throws at its d.arg-th element: nothing may be left of it
                    if (d.k == T_BCOPY && m.na < d.arg) return false;
                    typename std::aligned_storage<sizeof(C), 16>::type tmp;
                    bool threw = false;
                    Elem e(8000);
                    int mem0 = arena::live();
                    T.arm(d.arg);
                    try {
                        C* c = d.k == T_BNEW ? new (&tmp) C((size_t)d.arg + 1, e) : new (&tmp) C((const C&)A);
                        T.disarm();
                        c->~C();
                    }
                    catch (const Boom&) {
                        threw = true;
                    }
                    T.disarm();
                    SQ_CONT(threw, "the exception of the element did not reach the caller");
                    SQ_LIFE(arena::live() == mem0, "a constructor that threw leaked %d memory blocks", arena::live() - mem0);
                } break;
                // ------------------------------------------------------------------ no memory left
                case X_PB_COPY:
                case X_PB_MOVE:
                case X_EB:
                case X_PF_COPY:
                case X_PF_MOVE:
                case X_EF: {
                    if (!grow(1)) return false;
                    Elem e(5000);
                    bool threw = noMemory(d.at, [&] {
                        if (d.k == X_PB_COPY) A.push_back((const Elem&)e);
                        if (d.k == X_PB_MOVE) A.push_back(std::move(e));
                        if (d.k == X_EB) A.emplace_back(5, 2);
                        if constexpr (DQ) {
                            if (d.k == X_PF_COPY) A.push_front((const Elem&)e);
                            if (d.k == X_PF_MOVE) A.push_front(std::move(e));
                            if (d.k == X_EF) A.emplace_front(5, 2);
                        }
                    });
                    if (!threw) return false;
                    SQ_CONT(e.v == 5000, "the failed insertion changed its argument");
                } break;
                case X_PB_MANY:   // a run of insertions, one of which fails: those before it stay, those after it work
                case X_PF_MANY:
                    if constexpr (DQ || true) {
                        if (!grow(d.arg)) return false;
                        bool any = false;
                        for (int i = 0; i < d.arg; i++) {
                            bool threw = noMemory(d.at, [&] {
                                if (d.k == X_PB_MANY) A.emplace_back(5, i);
                                else if constexpr (DQ) A.emplace_front(5, i);
                            });
                            any |= threw;
                            if (!threw) {
                                if (d.k == X_PB_MANY) pushBack(5000 + i);
                                else pushFront(5000 + i);
                            }
                        }
                        if (!any) return false;
                    }
                    break;
                case X_POPB:
                case X_POPF:
                case X_CLEAR: {   // removal needs no memory
                    bool used = false;
                    bool threw = noMemory(1, [&] {
                        if (d.k == X_POPB) A.pop_back();
                        if (d.k == X_CLEAR) A.clear();
                        if constexpr (DQ)
                            if (d.k == X_POPF) A.pop_front();
                        used = arena::failAt == 0;
                    });
                    SQ_CONT(!threw, "a removal failed because there was no memory");
                    if (!used) return false;   // the same as without a failure
                    if (d.k == X_POPB) popBack();
                    if (d.k == X_POPF) popFront();
                    if (d.k == X_CLEAR) ea.clear();
                } break;
                case X_BNEW:
                case X_BCOPY: {
                    typename std::aligned_storage<sizeof(C), 16>::type tmp;
                    Elem e(8000);
                    int mem0 = arena::live();
                    bool done = false;
                    C* c = nullptr;
                    bool threw = noMemory(d.at, [&] {
                        c = d.k == X_BNEW ? new (&tmp) C((size_t)d.arg, e) : new (&tmp) C((const C&)A);
                        done = true;
                    });
                    if (done) {
                        c->~C();
                        return false;
                    }
                    SQ_CONT(threw, "the failure did not reach the caller");
                    SQ_LIFE(arena::live() == mem0, "a constructor that failed leaked %d memory blocks", arena::live() - mem0);
                } break;
                case X_ASSIGN:
                case X_MASSIGN:
                case X_A_ASSIGN: {
                    if ((d.k == X_A_ASSIGN ? m.nb : d.arg) > cfg.maxA) return false;
                    std::vector<Elem> x;
                    if (d.k != X_A_ASSIGN)
                        for (int i = 0; i < d.arg; i++) x.emplace_back(6000 + i);
                    bool threw = noMemory(d.at, [&] {
                        if (d.k == X_ASSIGN) A.assign(x.begin(), x.end());
                        if (d.k == X_MASSIGN) A.move_assign(x.begin(), x.end());
                        if (d.k == X_A_ASSIGN) A = (const C&)B;
                    });
                    if (!threw) return false;
                    // part of the elements may have been taken over, but what is there is a valid sequence of old and new elements
                    size_t n = A.size(), want = d.k == X_A_ASSIGN ? eb.size() : x.size();
                    SQ_CONT(n <= std::max(ea.size(), want), "a failed assignment of %zu elements to %zu left %zu", want, ea.size(), n);
                    Seq now;
                    for (size_t i = 0; i < n; i++) {
                        int v = A[i].get(), w = i >= want ? -1 : d.k == X_A_ASSIGN ? eb[i].v : 6000 + (int)i;
                        SQ_CONT((i < ea.size() && v == ea[i].v) || v == w, "after a failed assignment element %zu is neither the old nor the new one", i);
                        now.push_back({v, ANY, nullptr});
                    }
                    ea = now;
                } break;
                default: return false;
            }
            if (one) SQ_LIFE(T.constructed == 1, "inserting one element constructed %ld", T.constructed);
            if (plain) SQ_LIFE(T.assigns == 0, "stored elements were assigned to");
            (void)live0;
            (void)adds;
            verify(A, ea, "A");
            verify(B, eb, "B");
            m.na = (int)ea.size();
            m.nb = (int)eb.size();
        }
        SQ_LIFE(T.live == m.na + m.nb, "%ld elements are alive, %d are stored", T.live, m.na + m.nb);
        renumber();
        return true;
    }
    void look(C& c, int n, int base, const char* who)
    {
        const C& k = c;
        SQ_CONT((int)c.size() == n, "%s: size is %zu, not %d", who, c.size(), n);
        SQ_CONT(c.empty() == (n == 0), "%s: empty() is %d with %d elements", who, c.empty(), n);
        auto is = [&](const Elem& e, int i, const char* what) { SQ_CONT(e.get() == base + i, "%s: %s gives element %d where %d is expected", who, what, e.v - base, i); };
        for (int i = 0; i < n; i++) {
            is(c[i], i, "operator[]");
            is(k[i], i, "operator[] const");
            is(c.at(i), i, "at");
            is(k.at(i), i, "at const");
        }
        for (size_t bad : {(size_t)n, (size_t)n + 1, (size_t)n + 4, (size_t)n + 100000, ~(size_t)0}) {
            int t = 0;
            try {
                (void)c.at(bad);
            }
            catch (const std::out_of_range&) {
                t++;
            }
            try {
                (void)k.at(bad);
            }
            catch (const std::out_of_range&) {
                t++;
            }
            SQ_CONT(t == 2, "%s: at(%zu) did not throw with %d elements", who, bad, n);
        }
        if (n) {
            is(c.front(), 0, "front");
            is(k.front(), 0, "front const");
            is(c.back(), n - 1, "back");
            is(k.back(), n - 1, "back const");
        }
        auto be = c.begin();
        auto en = c.end();
        auto kb = k.begin();
        auto ke = k.end();
        SQ_CONT((be == en) == (n == 0), "%s: begin() == end() is %d with %d elements", who, be == en, n);
        SQ_CONT((kb == ke) == (n == 0), "%s: begin() == end() (const) is %d with %d elements", who, kb == ke, n);
        int i = 0;
        for (auto it = be; it != en; ++it, ++i) {
            SQ_CONT(i < n, "%s: forward iteration does not end", who);
            is(*it, i, "forward iteration");
        }
        SQ_CONT(i == n, "%s: forward iteration visits %d of %d", who, i, n);
        i = 0;
        for (auto it = kb; it != ke; ++it, ++i) {
            SQ_CONT(i < n, "%s: forward iteration (const) does not end", who);
            is(*it, i, "forward iteration (const)");
        }
        SQ_CONT(i == n, "%s: forward iteration (const) visits %d of %d", who, i, n);
        i = n;
        for (auto it = en; it != be;) {
            SQ_CONT(i > 0, "%s: backward iteration does not end", who);
            --it;
            is(*it, --i, "backward iteration");
        }
        SQ_CONT(i == 0, "%s: backward iteration visits %d of %d", who, n - i, n);
        i = n;
        for (auto it = k.cend(); it != k.cbegin();) {
            SQ_CONT(i > 0, "%s: backward iteration (const) does not end", who);
            --it;
            is(*it, --i, "backward iteration (const)");
        }
        SQ_CONT(i == 0, "%s: backward iteration (const) visits %d of %d", who, n - i, n);
    }
    template<class Get>
    void navigate(Get get, C& c, int n, const char* who)
    {
        // get(i): iterator of position i, built by single steps from begin
        auto same = [&](auto x, int j, const char* how, int i) {
            auto t = get(j);
            SQ_CONT(x == t, "%s: %s from %d does not reach the iterator of %d (size %d)", who, how, i, j, n);
            SQ_CONT(!(x != t), "%s: %s from %d is unequal to the iterator of %d (size %d)", who, how, i, j, n);
            if (j < n) {
                SQ_CONT(&*x == &c[j], "%s: %s from %d to %d refers to another element (size %d)", who, how, i, j, n);
                const auto cx = x;
                SQ_CONT((*cx).get() == c[j].get(), "%s: dereferencing after %s from %d to %d (size %d)", who, how, i, j, n);
                SQ_CONT(x->get() == c[j].get() && cx->get() == c[j].get(), "%s: -> after %s from %d to %d (size %d)", who, how, i, j, n);
                SQ_CONT((bool)x, "%s: iterator of %d converts to false", who, j);
            }
        };
        for (int i = 0; i <= n; i++)
            for (int j = 0; j <= n; j++) {
                auto it = get(i);
                auto jt = get(j);
                SQ_CONT((it == jt) == (i == j), "%s: iterators of %d and %d compare %s (size %d)", who, i, j, it == jt ? "equal" : "unequal", n);
                SQ_CONT((it != jt) == (i != j), "%s: iterators of %d and %d compare %s by != (size %d)", who, i, j, it != jt ? "unequal" : "equal", n);
                auto x = it;
                auto& rx = (x += (j - i));
                SQ_CONT(&rx == &x, "%s: += does not return the iterator", who);
                same(x, j, "+=", i);
                same(it + (j - i), j, "+", i);
                auto y = it;
                auto& ry = (y -= (i - j));
                SQ_CONT(&ry == &y, "%s: -= does not return the iterator", who);
                same(y, j, "-=", i);
                same(it - (i - j), j, "-", i);
                same(it, i, "unmodified + and -", i);
                if (j == i + 1) {
                    auto z = it;
                    auto old = z++;
                    same(z, j, "postfix ++", i);
                    same(old, i, "value of postfix ++", i);
                    auto w = it;
                    auto& rw = ++w;
                    SQ_CONT(&rw == &w, "%s: ++ does not return the iterator", who);
                    same(w, j, "++", i);
                }
                if (j == i - 1) {
                    auto z = it;
                    auto old = z--;
                    same(z, j, "postfix --", i);
                    same(old, i, "value of postfix --", i);
                    auto w = it;
                    auto& rw = --w;
                    SQ_CONT(&rw == &w, "%s: -- does not return the iterator", who);
                    same(w, j, "--", i);
                }
                // there and back again through the middle
                auto b = it;
                b += (j - i);
                b -= (j - i);
                same(b, i, "a jump and its inverse", i);
            }
    }
    void pairs(C& c, int n, const char* who)
    {
        const C& k = c;
        auto gm = [&](int i) {
            auto it = c.begin();
            for (int s = 0; s < i; s++) ++it;
            return it;
        };
        auto gc = [&](int i) {
            auto it = k.begin();
            for (int s = 0; s < i; s++) ++it;
            return it;
        };
        SQ_CONT(gm(n) == c.end() && gc(n) == k.end() && gc(n) == k.cend(), "%s: stepping %d times from begin() does not reach end()", who, n);
        navigate(gm, c, n, who);
        navigate(gc, c, n, who);
        for (int i = 0; i <= n; i++)
            for (int j = 0; j <= n; j++) {
                auto x = gm(i);
                auto y = gc(j);
                SQ_CONT((x == y) == (i == j) && (y == x) == (i == j) && (x != y) == (i != j) && (y != x) == (i != j),
                         "%s: mutable iterator of %d and const iterator of %d compare wrongly (size %d)", who, i, j, n);
            }
        SQ_CONT((c.begin() == k.end()) == (n == 0) && (c.end() == k.end()) && (k.end() == c.end()), "%s: begin/end of mixed constness compare wrongly (size %d)", who, n);
    }
    void check() override
    {
        if (cfg.checkPairs) {
            if (m.na <= cfg.checkPairs) pairs(*a, m.na, "A");
            return;
        }
        if (!(aspects & 1)) return;
        look(*a, m.na, 0, "A");
        look(*b, m.nb, 1000, "B");
    }
    void finish() override
    {
        a->~C();
        b->~C();
    }
    void loaded() override
    {
        a = reinterpret_cast<C*>(&sa);
        b = reinterpret_cast<C*>(&sb);
        T.live = m.na + m.nb;
    }
};

static std::vector<OpDef> single(bool dq, std::vector<int> assigns)
{
    std::vector<OpDef> d = {{"push_back(const&)", PB_COPY, 0}, {"push_back(&&)", PB_MOVE, 0}, {"emplace_back", EB, 0}, {"push_back(own element)", PB_ALIAS, 0}, {"pop_back", POPB, 0}};
    if (dq) {
        std::vector<OpDef> f = {{"push_front(const&)", PF_COPY, 0}, {"push_front(&&)", PF_MOVE, 0}, {"emplace_front", EF, 0}, {"push_front(own element)", PF_ALIAS, 0}, {"pop_front", POPF, 0}};
        d.insert(d.end(), f.begin(), f.end());
    }
    d.push_back({"clear", CLEAR, 0});
    d.push_back({"shrink_to_fit", SHRINK, 0});
    for (int n : assigns) d.push_back({"assign(" + std::to_string(n) + ")", ASSIGN, n});
    for (int n : assigns) d.push_back({"move_assign(" + std::to_string(n) + ")", MASSIGN, n});
    return d;
}
static std::vector<OpDef> pairOps(bool dq, std::vector<int> news)
{
    std::vector<OpDef> d = {{"push_back(const&)", PB_COPY, 0}, {"pop_back", POPB, 0}};
    if (dq) {
        d.push_back({"push_front(&&)", PF_MOVE, 0});
        d.push_back({"pop_front", POPF, 0});
    }
    d.push_back({"clear", CLEAR, 0});
    for (int n : news) d.push_back({n < 0 ? std::string("B := default") : "B := C(" + std::to_string(n) + ", x)", B_NEW, n});
    std::vector<OpDef> e = {{"B := copy of A", B_COPY, 0}, {"B := moved A", B_MOVE, 0}, {"B = A", B_ASSIGN, 0}, {"A = B", A_ASSIGN, 0}, {"A = A", A_SELF, 0},
                            {"B = move(A)", B_MASSIGN, 0}, {"A = move(B)", A_MASSIGN, 0}, {"B.emplace_back", BPB, 0}, {"B.pop_back", BPOP, 0}, {"B.clear", BCLEAR, 0},
                            {"A.move_assign(elements of B)", A_MOVERANGE, 0}, {"shrink_to_fit", SHRINK, 0}};
    d.insert(d.end(), e.begin(), e.end());
    if (dq) d.push_back({"B.emplace_front", BPF, 0});
    return d;
}
static std::vector<OpDef> many(bool dq)
{
    std::vector<OpDef> d = {{"emplace_back", EB, 0}, {"pop_back", POPB, 0}, {"emplace_back x30", PB_MANY, 30}, {"pop_back x33", POPB_MANY, 33}, {"clear", CLEAR, 0}, {"shrink_to_fit", SHRINK, 0},
                            {"B := copy of A", B_COPY, 0}, {"A = move(B)", A_MASSIGN, 0}, {"assign(70)", ASSIGN, 70}};
    if (dq) {
        std::vector<OpDef> f = {{"emplace_front", EF, 0}, {"pop_front", POPF, 0}, {"emplace_front x30", PF_MANY, 30}, {"pop_front x33", POPF_MANY, 33}, {"queue x29", ROT_F, 29}, {"reverse queue x29", ROT_B, 29}};
        d.insert(d.end(), f.begin(), f.end());
    }
    return d;
}
// blocks of 32 elements, as by default
static std::vector<OpDef> wide(bool dq)
{
    std::vector<OpDef> d = {{"emplace_back", EB, 0}, {"pop_back", POPB, 0}, {"emplace_back x15", PB_MANY, 15}, {"pop_back x17", POPB_MANY, 17}, {"clear", CLEAR, 0}, {"shrink_to_fit", SHRINK, 0},
                            {"B := copy of A", B_COPY, 0}, {"A = move(B)", A_MASSIGN, 0}, {"assign(33)", ASSIGN, 33}, {"move_assign(64)", MASSIGN, 64}};
    if (dq) {
        std::vector<OpDef> f = {{"emplace_front", EF, 0}, {"pop_front", POPF, 0}, {"emplace_front x15", PF_MANY, 15}, {"pop_front x17", POPF_MANY, 17}, {"queue x29", ROT_F, 29}, {"reverse queue x29", ROT_B, 29}};
        d.insert(d.end(), f.begin(), f.end());
    }
    return d;
}
static std::vector<OpDef> navWide(bool dq)
{
    std::vector<OpDef> d = {{"emplace_back", EB, 0}, {"pop_back", POPB, 0}, {"emplace_back x11", PB_MANY, 11}, {"clear", CLEAR, 0}};
    if (dq) {
        d.push_back({"emplace_front x11", PF_MANY, 11});
        d.push_back({"pop_front", POPF, 0});
    }
    return d;
}
static std::vector<OpDef> throwing(bool dq)
{
    std::vector<OpDef> d = {{"push_back(const&)", PB_COPY, 0}, {"pop_back", POPB, 0}, {"push_back(const&) throws", T_PB_COPY, 0}, {"push_back(&&) throws", T_PB_MOVE, 0}, {"emplace_back throws", T_EB, 0}};
    if (dq) {
        std::vector<OpDef> f = {{"push_front(const&)", PF_COPY, 0}, {"pop_front", POPF, 0}, {"push_front(const&) throws", T_PF_COPY, 0}, {"push_front(&&) throws", T_PF_MOVE, 0}, {"emplace_front throws", T_EF, 0}};
        d.insert(d.end(), f.begin(), f.end());
    }
    d.push_back({"clear", CLEAR, 0});
    d.push_back({"shrink_to_fit", SHRINK, 0});
    d.push_back({"A = move(B)", A_MASSIGN, 0});
    for (int k : {1, 2, 3, 5}) d.push_back({"sized constructor throws at " + std::to_string(k), T_BNEW, k});
    for (int k : {1, 2, 4}) d.push_back({"copy constructor throws at " + std::to_string(k), T_BCOPY, k});
    return d;
}
static std::vector<OpDef> noMemoryOps(bool dq, bool large)
{
    std::vector<OpDef> d;
    auto X = [&](const char* n, int k, int arg, int at) { d.push_back({std::string(n) + " without memory at allocation " + std::to_string(at), k, arg, at}); };
    d.push_back({"push_back(const&)", PB_COPY, 0});
    d.push_back({"pop_back", POPB, 0});
    if (dq) {
        d.push_back({"push_front(const&)", PF_COPY, 0});
        d.push_back({"pop_front", POPF, 0});
    }
    for (int at : {1, 2}) {
        X("push_back(const&)", X_PB_COPY, 0, at);
        X("push_back(&&)", X_PB_MOVE, 0, at);
        X("emplace_back", X_EB, 0, at);
        if (dq) {
            X("push_front(const&)", X_PF_COPY, 0, at);
            X("push_front(&&)", X_PF_MOVE, 0, at);
            X("emplace_front", X_EF, 0, at);
        }
    }
    X("pop_back", X_POPB, 0, 1);
    X("clear", X_CLEAR, 0, 1);
    if (dq) X("pop_front", X_POPF, 0, 1);
    if (large) {
        d.push_back({"emplace_back x30", PB_MANY, 30});
        d.push_back({"pop_back x33", POPB_MANY, 33});
        d.push_back({"clear", CLEAR, 0});
        for (int at : {1, 2}) {
            X("emplace_back x5", X_PB_MANY, 5, at);
            if (dq) X("emplace_front x5", X_PF_MANY, 5, at);
        }
        if (dq) {
            d.push_back({"emplace_front x30", PF_MANY, 30});
            d.push_back({"pop_front x33", POPF_MANY, 33});
            d.push_back({"queue x29", ROT_F, 29});
            d.push_back({"reverse queue x29", ROT_B, 29});
        }
        for (int at : {1, 2, 66, 67}) {
            X("sized constructor (70)", X_BNEW, 70, at);
            X("copy constructor", X_BCOPY, 0, at);
            X("assign(70)", X_ASSIGN, 70, at);
        }
        return d;
    }
    d.push_back({"clear", CLEAR, 0});
    d.push_back({"shrink_to_fit", SHRINK, 0});
    d.push_back({"A = move(B)", A_MASSIGN, 0});
    d.push_back({"B := copy of A", B_COPY, 0});
    d.push_back({"B.emplace_back", BPB, 0});
    for (int n : {0, 1, 3, 9})
        for (int at : {1, 2, 3}) X(("sized constructor (" + std::to_string(n) + ")").c_str(), X_BNEW, n, at);
    for (int at : {1, 2, 3}) X("copy constructor", X_BCOPY, 0, at);
    for (int at : {1, 2}) {
        X("assign(4)", X_ASSIGN, 4, at);
        X("move_assign(4)", X_MASSIGN, 4, at);
        X("A = B", X_A_ASSIGN, 0, at);
    }
    return d;
}
static std::vector<OpDef> nav(bool dq)
{
    std::vector<OpDef> d = {{"emplace_back", EB, 0}, {"pop_back", POPB, 0}, {"clear", CLEAR, 0}};
    if (dq) {
        d.push_back({"emplace_front", EF, 0});
        d.push_back({"pop_front", POPF, 0});
    }
    return d;
}

int main(int argc, char** argv)
{
    std::vector<Scen> v;
    static std::deque<Cfg> cfgs;
    auto add = [&](auto* tag, std::string name, Cfg c, int inits, int dq, int dt, unsigned tags, bool quick = true) {
        using C = std::remove_pointer_t<decltype(tag)>;
        cfgs.push_back(c);
        const Cfg* p = &cfgs.back();
        Scen s;
        s.name = name;
        s.make = [p] { return new Blk<C>(*p); };
        s.inits = inits;
        s.nops = (int)c.ops.size();
        s.opname = [p](int i) { return p->ops[i].name; };
        s.fixpoint = true;
        s.depth_quick = dq;
        s.depth_thorough = dt;
        s.tags = tags;
        s.quick = quick;
        v.push_back(s);
    };
    auto family = [&](auto* t0, auto* t1, auto* t2, auto* t3, auto* t5, auto* tq, bool dq, std::string n, unsigned tg, unsigned nt, unsigned th) {
        auto cfg = [](std::vector<OpDef> o, int ma, int mb, int cp = 0) {
            Cfg c;
            c.ops = o;
            c.maxA = ma;
            c.maxB = mb;
            c.checkPairs = cp;
            return c;
        };
        auto D = [&](int vec, int deq) { return dq ? deq : vec; };
        add(t0, n + "_b1", cfg(single(dq, {0, 2, 4}), 5, 0), 1, D(0, 9), D(0, 11), tg);
        add(t1, n + "_b2", cfg(single(dq, {0, 2, 5}), 7, 0), 1, D(0, 11), D(0, 14), tg);
        add(t2, n + "_b4", cfg(single(dq, {0, 3, 6, 9}), 11, 0), 1, D(0, 13), D(0, 16), tg);
        add(tq, n + "_list_b1", cfg(single(dq, {0, 2, 4}), 5, 0), 1, D(0, 7), D(0, 9), tg);
        add(t0, n + "_pair_b1", cfg(pairOps(dq, {-1, 0, 1, 2, 3}), 4, 4), 11, D(8, 6), D(11, 8), tg);
        add(t1, n + "_pair_b2", cfg(pairOps(dq, {-1, 0, 2, 4, 5}), 6, 6), 11, D(9, 6), D(13, 8), tg);
        add(t2, n + "_pair_b4", cfg(pairOps(dq, {-1, 0, 3, 4, 9}), 10, 10), 11, D(10, 6), D(14, 8), tg);
        add(t0, n + "_large_b1", cfg(many(dq), 200, 200), dq ? 49 : 25, D(5, 3), D(7, 5), tg);
        add(t1, n + "_large_b2", cfg(many(dq), 300, 300), dq ? 49 : 25, D(5, 3), D(7, 5), tg);
        add(t0, n + "_nav_b1", cfg(nav(dq), 6, 0, 6), 1, D(0, 14), D(0, 18), nt);
        add(t1, n + "_nav_b2", cfg(nav(dq), 8, 0, 8), 1, D(0, 19), D(0, 24), nt);
        add(t2, n + "_nav_b4", cfg(nav(dq), 14, 0, 14), 1, D(0, 26), D(0, 32), nt);
        add(t3, n + "_nav_b8", cfg(nav(dq), 26, 0, 26), 1, D(0, 32), D(0, 44), nt);
        add(t5, n + "_nav_b32", cfg(navWide(dq), 70, 0, 70), 1, D(16, 9), D(30, 12), nt);
        add(t5, n + "_wide_b32", cfg(wide(dq), 150, 150), dq ? 49 : 25, D(6, 4), D(8, 5), tg);
        add(t0, n + "_throw_b1", cfg(throwing(dq), 4, 4), 1, D(0, 10), D(0, 13), th);
        add(t1, n + "_throw_b2", cfg(throwing(dq), 6, 6), 1, D(0, 13), D(0, 16), th);
        add(t2, n + "_throw_b4", cfg(throwing(dq), 10, 10), 1, D(0, 18), D(0, 22), th);
        add(t0, n + "_nomemory_b1", cfg(noMemoryOps(dq, false), 4, 4), 1, D(0, 9), D(0, 11), 64);
        add(t1, n + "_nomemory_b2", cfg(noMemoryOps(dq, false), 6, 6), 1, D(0, 9), D(0, 11), 64);
        add(t2, n + "_nomemory_b4", cfg(noMemoryOps(dq, false), 10, 10), 1, D(0, 9), D(0, 11), 64);
        add(tq, n + "_nomemory_nothrow_b1", cfg(noMemoryOps(dq, false), 4, 4), 1, D(0, 9), D(0, 11), 64);
        add(t0, n + "_nomemory_large_b1", cfg(noMemoryOps(dq, true), 200, 200), dq ? 49 : 25, D(4, 3), D(6, 4), 64);
        add(t1, n + "_nomemory_large_b2", cfg(noMemoryOps(dq, true), 300, 300), dq ? 49 : 25, D(4, 3), D(6, 4), 64);
    };
    family((SBV<0>*)nullptr, (SBV<1>*)nullptr, (SBV<2>*)nullptr, (SBV<3>*)nullptr, (SBV<5>*)nullptr, (QVector*)nullptr, false, "vector", 1, 16, 32);
    family((SBD<0>*)nullptr, (SBD<1>*)nullptr, (SBD<2>*)nullptr, (SBD<3>*)nullptr, (SBD<5>*)nullptr, (QDeque*)nullptr, true, "deque", 4, 16, 32);
    return seq::main(argc, argv, v);
}
