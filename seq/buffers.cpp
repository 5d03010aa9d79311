// C10, C11: circular buffer;  C12, C13: stack buffer
#include "arena_ops.hpp"
#include "bufcommon.hpp"
#include "gmlc/containers/CircularBuffer.hpp"
#include "gmlc/containers/StackBuffer.hpp"

using namespace seq;
using gmlc::containers::CircularBuffer;
using gmlc::containers::CircularBufferRaw;
using gmlc::containers::StackBuffer;
using gmlc::containers::StackBufferRaw;

// ------------------------------------------------------------------------------------------------ one buffer and its model
enum Kind { CIRC, STACK };
template<class B, Kind K>
struct Ops {
    static int front(const BufModel& m) { return K == CIRC ? 0 : m.n - 1; }
    static bool empties(const BufModel& m) { return m.n == 0; }

    // every size for small buffers, the neighbourhoods of the interesting ones for large buffers
    static int next(int s, int cap, long held, int per)
    {
        if (cap <= 300) return s + 1;
        int lim = (int)(cap - held - per);
        if (s < 4 || (s >= cap - per - 2) || (s >= lim - 2 && s <= lim + 2)) return s + 1;
        long n = 2l * s + 1;
        if (s < lim - 2 && n > lim - 2) return lim - 2;
        if (n > cap - per - 2) return cap - per - 2;
        return (int)n;
    }
    static void compare(B& b, BufModel& m, const char* who)
    {
        const B& c = b;
        SQ_CHECK(c.capacity() == m.cap, "%s: capacity is %d, not %d", who, c.capacity(), m.cap);
        SQ_CHECK(c.empty() == (m.n == 0), "%s: empty() is %d with %d blocks stored", who, c.empty(), m.n);
        int want = m.n ? m.q[front(m)].size : 0;
        SQ_CHECK(c.nextDataSize() == want, "%s: nextDataSize() is %d, not %d", who, c.nextDataSize(), want);
        if constexpr (K == STACK) SQ_CHECK(c.getCurrentCount() == m.n, "%s: count is %d, not %d", who, c.getCurrentCount(), m.n);
        int per = K == CIRC ? 4 : 8;
        long held = m.payload(per);
        for (int s = 1; s <= m.cap + 2; s = next(s, m.cap, held, per)) {
            bool sp = c.isSpaceAvailable(s);
            if (m.n == 0)
                SQ_CHECK(sp == (s + per <= m.cap), "%s: space for %d bytes in an empty buffer of %d is reported as %d", who, s, m.cap, sp);
            else if (sp)
                SQ_CHECK(held + s + per <= m.cap, "%s: space for %d bytes reported although %ld of %d are in use", who, s, held, m.cap);
            if (K == STACK && m.n > 0 && !m.rev)
                SQ_CHECK(sp == (held + s + per <= m.cap), "%s: space for %d bytes is reported as %d, %ld of %d in use", who, s, sp, held, m.cap);
        }
        SQ_CHECK(!c.isSpaceAvailable(INT_MAX), "%s: space for INT_MAX bytes is reported", who);
    }
    static void push(B& b, BufModel& m, int s, const char* who)
    {
        if (s <= MAXB) {
            bool sp = b.isSpaceAvailable(s);
            int tag = m.freshTag();
            unsigned char* src = area(0, s);
            for (int i = 0; i < s; i++) src[i] = pat(tag, i);
            if (m.n >= MAXQ - 1) fail("internal: too many blocks");
            bool ok = b.push(src, s);
            SQ_CHECK(ok == sp, "%s: push of %d bytes %s although the space query said %s", who, s, ok ? "succeeded" : "was refused", sp ? "yes" : "no");
            for (int i = 0; i < s; i++) SQ_CHECK(src[i] == pat(tag, i), "%s: push changed its source", who);
            if (ok) m.q[m.n++] = {s, tag};
        }
    }
    static void refusedPush(B& b, int k, const char* who)
    {
        unsigned char* src = area(0, 1);
        bool ok = k == 0 ? b.push(nullptr, 3) : k == 1 ? b.push(src, 0) : k == 2 ? b.push(src, -1) : k == 3 ? b.push(src, INT_MIN) : b.push(src, INT_MAX);
        SQ_CHECK(!ok, "%s: %s succeeded", who, k == 0 ? "push of a null block" : k == 4 ? "push of INT_MAX bytes" : "push of a non-positive size");
    }
    // max < 0: extra = -1 (one byte too small), -2: zero, -3: negative
    static void pop(B& b, BufModel& m, int mode, const char* who)
    {
        int want = m.n ? m.q[front(m)].size : 0;
        int max = mode == 0 ? want : mode == 1 ? want + 9 : mode == 2 ? want - 1 : mode == 3 ? 0 : -4;
        unsigned char* dst = area(1, max > 0 ? max : 0);
        if (max > 0) memset(dst, 0xC3, max);
        int r = b.pop(dst, max);
        if (m.n == 0) {
            SQ_CHECK(r == 0, "%s: pop of an empty buffer returned %d", who, r);
            return;
        }
        if (max < want) {
            SQ_CHECK(r == -want, "%s: pop into %d bytes of a block of %d returned %d", who, max, want, r);
            return;
        }
        SQ_CHECK(r == want, "%s: pop returned %d, not %d", who, r, want);
        int tag = m.q[front(m)].tag;
        for (int i = 0; i < want; i++)
            SQ_CHECK(dst[i] == pat(tag, i), "%s: byte %d of the block popped is %02x, not %02x", who, i, dst[i], pat(tag, i));
        for (int i = want; i < max; i++) SQ_CHECK(dst[i] == 0xC3, "%s: pop wrote past the block", who);
        m.removeAt(front(m));
        if (m.n == 0) m.rev = 0;
    }
    static void clear(B& b, BufModel& m)
    {
        b.clear();
        m.n = 0;
        m.rev = 0;
        for (auto& x : m.q) x = {};
    }
    static void reverse(B& b, BufModel& m)
    {
        if constexpr (K == STACK) {
            b.reverse();
            for (int i = 0, j = m.n - 1; i < j; i++, j--) std::swap(m.q[i], m.q[j]);
            if (m.n > 1) m.rev = 1;
        }
    }
    static int maxSpace(B& b, int lim)
    {
        int r = 0;
        for (int s = 1; s <= lim; s++)
            if (b.isSpaceAvailable(s)) r = s;
        return r;
    }
    static void resize(B& b, BufModel& m, int nc, const char* who)
    {
        int per = K == CIRC ? 4 : 8;
        bool threw = false;
        int before = maxSpace(b, m.cap);
        bool may = m.n > 0 && nc < m.cap;   // only then may it fail
        bool res = true;
        try {
            if constexpr (K == CIRC) b.resize(nc);
            else res = b.resize(nc);
        }
        catch (const std::exception&) {
            threw = true;
        }
        if (threw || !res) {
            SQ_CHECK(may || nc < 0, "%s: resize from %d to %d failed with %d blocks stored", who, m.cap, nc, m.n);
            if (K == STACK && nc >= 0 && !m.rev)
                SQ_CHECK(m.payload(per) > nc, "%s: resize from %d to %d failed although the %ld bytes stored fit", who, m.cap, nc, m.payload(per));
            return;
        }
        SQ_CHECK(nc >= 0, "%s: resize to %d did not fail", who, nc);
        SQ_CHECK(m.payload(per) <= nc, "%s: resize to %d succeeded with %ld bytes stored", who, nc, m.payload(per));
        SQ_CHECK(b.capacity() == nc, "%s: capacity is %d after resize to %d", who, b.capacity(), nc);
        if (K == STACK && nc > m.cap && m.n > 0) {
            int after = maxSpace(b, nc);
            if (before > 0)
                SQ_CHECK(after == before + nc - m.cap, "%s: resize from %d to %d changed the free space from %d to %d", who, m.cap, nc, before, after);
        }
        m.cap = nc;
    }
};

static std::string opn(const std::vector<std::string>& v, int i) { return v[i]; }

// ------------------------------------------------------------------------------------------------ raw buffers on given memory
template<class B, Kind K>
struct Raw : System {
    typename std::aligned_storage<sizeof(B), 16>::type st;
    B* b = nullptr;
    unsigned char* mem = nullptr;
    BufModel m;
    std::vector<int> caps, sizes;   // sizes: block sizes pushed; empty: every size up to the capacity + 1
    Raw(std::vector<int> c, std::vector<int> s) : caps(c), sizes(s) 
    {
        arena = c[0] <= 1000;
        roots = {{&st, sizeof st}, {&m, sizeof m}, {&mem, sizeof mem}};
    }
    void init(int k) override
    {
        memset(&st, 0, sizeof st);
        m = BufModel{};
        m.cap = caps[k];
        mem = new unsigned char[m.cap];
        ::arena::fillMemory(mem, (size_t)m.cap);
        b = new (&st) B(mem, m.cap);
    }
    bool step(int op) override
    {
        using O = Ops<B, K>;
        switch (op) {
            case 0: O::pop(*b, m, 0, "buffer"); return true;
            case 1: O::pop(*b, m, 1, "buffer"); return true;
            case 2: O::pop(*b, m, 2, "buffer"); return true;
            case 3: O::pop(*b, m, 3, "buffer"); return true;
            case 4: O::pop(*b, m, 4, "buffer"); return true;
            case 5: O::clear(*b, m); return true;
            case 6: {
                int k0 = 0;
                for (; k0 < 5; k0++) O::refusedPush(*b, k0, "buffer");
                return true;
            }
            case 7:
                if (K != STACK) return false;
                O::reverse(*b, m);
                return true;
            default: {
                int s = sizes.empty() ? op - 7 : sizes[op - 8];
                if (sizes.empty() && s > m.cap + 1) return false;
                O::push(*b, m, s, "buffer");
                return true;
            }
        }
    }
    void check() override { Ops<B, K>::compare(*b, m, "buffer"); }
    void finish() override
    {
        b->~B();
        delete[] mem;
    }
    void loaded() override { b = reinterpret_cast<B*>(&st); }
    static std::string name(int op, const std::vector<int>& sizes)
    {
        static const char* n[] = {"pop(exact)", "pop(larger)", "pop(1 too small)", "pop(0)", "pop(-4)", "clear", "refused pushes", "reverse"};
        return op < 8 ? n[op] : "push(" + std::to_string(sizes.empty() ? op - 7 : sizes[op - 8]) + ")";
    }
};

// ------------------------------------------------------------------------------------------------ owning buffers
struct OpDef {
    std::string name;
    int kind, arg;
};
enum { A_PUSH, A_POP, A_POPBAD, A_CLEAR, A_REV, A_RESIZE, B_PUSH, B_POP, B_RESIZE, B_NEW, B_COPY, B_MOVE, B_ASSIGN, A_ASSIGN, A_SELF, B_MASSIGN, A_MASSIGN, SWAP, B_REV, B_CLEAR,
       X_RESIZE, X_BASSIGN, X_AASSIGN, X_NEW, X_COPY };
template<class B, Kind K>
struct Own : System {
    typename std::aligned_storage<sizeof(B), 16>::type sa, sb;
    B *a = nullptr, *b = nullptr;
    BufModel m, mb;
    const std::vector<OpDef>& defs;
    std::vector<int> caps;
    bool pair;
    Own(const std::vector<OpDef>& d, std::vector<int> c, bool p) : defs(d), caps(c), pair(p)
    {
        arena = true;
        roots = {{&sa, sizeof sa}, {&sb, sizeof sb}, {&m, sizeof m}, {&mb, sizeof mb}};
    }
    void init(int k) override
    {
        memset(&sa, 0, sizeof sa);
        memset(&sb, 0, sizeof sb);
        m = mb = BufModel{};
        m.cap = caps[k];
        a = m.cap < 0 ? new (&sa) B() : new (&sa) B(m.cap);
        if (m.cap < 0) m.cap = 0;
        b = new (&sb) B();
    }
    void movedFrom(B& x, BufModel& mm, const char* who)
    {
        mm = BufModel{};
        SQ_CHECK(x.empty(), "%s: not empty after it was moved from", who);
        mm.cap = x.capacity();
        SQ_CHECK(mm.cap == 0, "%s: a moved-from buffer claims a capacity of %d", who, mm.cap);
    }
    bool step(int op) override
    {
        using O = Ops<B, K>;
        const OpDef& d = defs[op];
        switch (d.kind) {
            case A_PUSH: O::push(*a, m, d.arg, "A"); break;
            case A_POP: O::pop(*a, m, 0, "A"); break;
            case A_POPBAD:
                O::pop(*a, m, 2, "A");
                O::refusedPush(*a, 0, "A");
                break;
            case A_CLEAR: O::clear(*a, m); break;
            case A_REV: O::reverse(*a, m); break;
            case A_RESIZE:
                if (d.arg == m.cap && false) return false;
                O::resize(*a, m, d.arg, "A");
                break;
            case B_PUSH: O::push(*b, mb, d.arg, "B"); break;
            case B_POP: O::pop(*b, mb, 0, "B"); break;
            case B_REV: O::reverse(*b, mb); break;
            case B_CLEAR: O::clear(*b, mb); break;
            case B_RESIZE: O::resize(*b, mb, d.arg, "B"); break;
            case B_NEW:
                b->~B();
                memset(&sb, 0, sizeof sb);
                mb = BufModel{};
                b = d.arg < 0 ? new (&sb) B() : new (&sb) B(d.arg);
                mb.cap = d.arg < 0 ? 0 : d.arg;
                break;
            case B_COPY:
                b->~B();
                memset(&sb, 0, sizeof sb);
                b = new (&sb) B(*(const B*)a);
                mb = m;
                break;
            case B_MOVE:
                b->~B();
                memset(&sb, 0, sizeof sb);
                b = new (&sb) B(std::move(*a));
                mb = m;
                movedFrom(*a, m, "A");
                break;
            case B_ASSIGN:
                *b = *(const B*)a;
                mb = m;
                break;
            case A_ASSIGN:
                *a = *(const B*)b;
                m = mb;
                break;
            case A_SELF: {
                B& alias = *a;
                *a = *(const B*)&alias;
                break;
            }
            case B_MASSIGN:
                *b = std::move(*a);
                mb = m;
                movedFrom(*a, m, "A");
                break;
            case A_MASSIGN:
                *a = std::move(*b);
                m = mb;
                movedFrom(*b, mb, "B");
                break;
            case X_RESIZE:   // no memory: nothing may change
            case X_BASSIGN:
            case X_AASSIGN:
            case X_NEW:
            case X_COPY: {
                typename std::aligned_storage<sizeof(B), 16>::type tmp;
                B* c = nullptr;
                bool threw = false;
                int mem0 = ::arena::live();
                ::arena::failAt = 1;
                try {
                    if (d.kind == X_RESIZE) a->resize(d.arg);
                    if (d.kind == X_BASSIGN) *b = *(const B*)a;
                    if (d.kind == X_AASSIGN) *a = *(const B*)b;
                    if (d.kind == X_NEW) c = new (&tmp) B(d.arg);
                    if (d.kind == X_COPY) c = new (&tmp) B(*(const B*)a);
                }
                catch (const std::bad_alloc&) {
                    threw = true;
                }
                catch (const std::exception&) {   // it would not have worked with memory either
                }
                ::arena::failAt = 0;
                if (c) c->~B();
                if (!threw) return false;
                SQ_CHECK(::arena::live() == mem0, "an operation that failed for lack of memory leaked %d memory blocks", ::arena::live() - mem0);
                break;
            }
            case SWAP:
                if constexpr (K == STACK) {
                    a->swap(*b);
                    std::swap(m, mb);
                }
                break;
        }
        return true;
    }
    void check() override
    {
        Ops<B, K>::compare(*a, m, "A");
        Ops<B, K>::compare(*b, mb, "B");
    }
    void finish() override
    {
        a->~B();
        b->~B();
    }
    void loaded() override
    {
        a = reinterpret_cast<B*>(&sa);
        b = reinterpret_cast<B*>(&sb);
    }
};

static std::vector<OpDef> mk(std::vector<int> push, std::vector<int> resize, bool rev, bool pair, std::vector<int> bpush = {}, std::vector<int> bnew = {})
{
    std::vector<OpDef> d;
    auto N = [](const char* f, int x) { return std::string(f) + "(" + std::to_string(x) + ")"; };
    for (int s : push) d.push_back({N("A.push", s), A_PUSH, s});
    d.push_back({"A.pop", A_POP, 0});
    d.push_back({"A.pop(too small), A.push(null)", A_POPBAD, 0});
    d.push_back({"A.clear", A_CLEAR, 0});
    if (rev) d.push_back({"A.reverse", A_REV, 0});
    for (int s : resize) d.push_back({N("A.resize", s), A_RESIZE, s});
    if (pair) {
        for (int s : bpush) d.push_back({N("B.push", s), B_PUSH, s});
        d.push_back({"B.pop", B_POP, 0});
        d.push_back({"B.resize(30)", B_RESIZE, 30});
        for (int s : bnew) d.push_back({s < 0 ? std::string("B := default") : N("B := Buffer", s), B_NEW, s});
        d.push_back({"B := copy of A", B_COPY, 0});
        d.push_back({"B := moved A", B_MOVE, 0});
        d.push_back({"B = A", B_ASSIGN, 0});
        d.push_back({"A = B", A_ASSIGN, 0});
        d.push_back({"A = A", A_SELF, 0});
        d.push_back({"B = move(A)", B_MASSIGN, 0});
        d.push_back({"A = move(B)", A_MASSIGN, 0});
        if (rev) d.push_back({"swap(A, B)", SWAP, 0});
        if (rev) d.push_back({"B.reverse", B_REV, 0});
    }
    return d;
}
static std::vector<OpDef> noMemory(std::vector<OpDef> d, std::vector<int> resize)
{
    for (int n : resize) d.push_back({"A.resize(" + std::to_string(n) + ") without memory", X_RESIZE, n});
    d.push_back({"B = A without memory", X_BASSIGN, 0});
    d.push_back({"A = B without memory", X_AASSIGN, 0});
    d.push_back({"Buffer(20) without memory", X_NEW, 20});
    d.push_back({"copy of A without memory", X_COPY, 0});
    return d;
}
// what fresh memory may hold: negative sizes, zero, a small block size
static const std::vector<uint32_t> fills = {0xAAAAAAAAu, 0, 5};
template<class B, Kind K>
static Scen own(std::string name, std::vector<int> caps, const std::vector<OpDef>* d, bool pair, int dq, int dt, unsigned tags)
{
    Scen s;
    s.name = name;
    s.make = [=] { return new Own<B, K>(*d, caps, pair); };
    s.inits = (int)caps.size();
    s.nops = (int)d->size();
    s.opname = [=](int i) { return (*d)[i].name; };
    s.fixpoint = true;
    s.depth_quick = dq;
    s.depth_thorough = dt;
    s.tags = tags;
    s.fills = fills;
    return s;
}

int main(int argc, char** argv)
{
    std::vector<Scen> v;
    // capacities in the order given (largest first: better balance)
    auto raw = [&](auto* tag, const char* name, std::vector<int> caps, std::vector<int> sizes, int dq, int dt, unsigned tags, bool quick) {
        using R = std::remove_pointer_t<decltype(tag)>;
        Scen s;
        s.name = name;
        s.make = [=] { return new R(caps, sizes); };
        s.inits = (int)caps.size();
        s.nops = 8 + (sizes.empty() ? *std::max_element(caps.begin(), caps.end()) + 1 : (int)sizes.size());
        s.opname = [=](int o) { return R::name(o, sizes); };
        s.fixpoint = caps[0] <= 1000;
        s.depth_quick = dq;
        s.depth_thorough = dt;
        s.tags = tags;
        s.quick = quick;
        s.fills = fills;
        v.push_back(s);
    };
    auto down = [](int hi, int lo) {
        std::vector<int> c;
        for (int i = hi; i >= lo; i--) c.push_back(i);
        return c;
    };
    auto* rc = (Raw<CircularBufferRaw, CIRC>*)nullptr;
    auto* rs = (Raw<StackBufferRaw, STACK>*)nullptr;
    raw(rc, "raw_circular_every_size", down(14, 0), {}, 0, 0, 1, true);
    raw(rc, "raw_circular_cap15", {15}, {}, 0, 0, 1, false);
    raw(rc, "raw_circular_larger", down(40, 15), {1, 4, 7, 12}, 10, 13, 1, true);
    raw(rc, "raw_circular_queueing", down(30, 16), {3, 6}, 16, 30, 1, true);
    raw(rc, "raw_circular_big_blocks", {140000, 70100, 33000}, {1, 128, 300, 32768, 70000}, 4, 5, 1, true);
    raw(rs, "raw_stack_every_size", down(22, 8), {}, 0, 0, 4, true);
    raw(rs, "raw_stack_cap23", {23}, {}, 0, 0, 4, false);
    raw(rs, "raw_stack_larger", down(52, 23), {1, 4, 9}, 10, 13, 4, true);
    raw(rs, "raw_stack_many", down(50, 30), {1}, 16, 30, 4, true);
    raw(rs, "raw_stack_big_blocks", {140000, 70100, 33000}, {1, 128, 300, 32768, 70000}, 4, 5, 4, true);
    static auto dc1 = mk({1, 3, 6}, {0, 7, 10, 12, 15, 16, 19, 24}, false, false);
    static auto dc2 = mk({2, 5}, {0, 9, 14, 21}, false, true, {2}, {-1, 12});
    static auto ds1 = mk({1, 3, 6}, {-1, 0, 9, 17, 20, 28, 31, 40}, true, false);
    static auto ds2 = mk({2, 5}, {0, 17, 27, 36}, true, true, {2}, {-1, 20});
    v.push_back(own<CircularBuffer, CIRC>("circular_resize", {-1, 0, 8, 13, 16, 20, 24}, &dc1, false, 10, 13, 3));
    v.push_back(own<CircularBuffer, CIRC>("circular_copy_move", {-1, 8, 13, 16}, &dc2, true, 9, 11, 2));
    v.push_back(own<StackBuffer, STACK>("stack_resize", {-1, 0, 9, 20, 24, 31, 40}, &ds1, false, 8, 10, 12));
    v.push_back(own<StackBuffer, STACK>("stack_copy_move", {-1, 20, 30, 36}, &ds2, true, 8, 9, 8));
    static auto nc = noMemory(mk({2, 5}, {9, 14, 21}, false, true, {2}, {-1, 12}), {14, 21, 60});
    static auto ns = noMemory(mk({2, 5}, {17, 27, 36}, true, true, {2}, {-1, 20}), {27, 36, 60});
    v.push_back(own<CircularBuffer, CIRC>("circular_nomemory", {-1, 8, 13, 16}, &nc, true, 7, 9, 16));
    v.push_back(own<StackBuffer, STACK>("stack_nomemory", {-1, 20, 30, 36}, &ns, true, 6, 8, 16));
    return seq::main(argc, argv, v);
}
