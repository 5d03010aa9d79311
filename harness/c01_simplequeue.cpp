#include "families.hpp"

#include <gmlc/containers/SimpleQueue.hpp>
// the elements: values that know whether they are alive, or (BOOLS) truth values, which a std::vector packs
#ifdef BOOLS
using E = bool;
static bool mk(int v) { return v & 1; }
static int get(bool b) { return b; }
static int norm(int v) { return v & 1; }
#include "given.hpp"
using Q = gmlc::containers::SimpleQueue<E, GivenMutex>;
#else
using E = Val;
static Val mk(int v) { return Val(v); }
static int get(const Val& v) { return v.get(); }
static int norm(int v) { return v; }
using Q = gmlc::containers::SimpleQueue<E>;
#endif

enum { PUSH, EMPLACE, PUSHV, POP, PEEK, SIZE, EMPTY, CLEAR, RESERVE, PUSHV0, PUSHX, EMPLACEX, PUSHVX, NOPS };   // ..X: an element construction throws
static const char* opname(int c)
{
    static const char* n[] = {"push", "emplace", "pushVector", "pop", "peek", "size", "empty", "clear", "reserve", "pushVector", "push(throwing)", "emplace(throwing)", "pushVector(throwing)"};
    return n[c];
}
static bool spec(mc::St& s, const mc::Op& o)
{
    switch (o.code) {
        case PUSH:
        case EMPLACE: s.v[s.n++] = o.a[0]; return true;
        case PUSHV:
            for (int i = 1; i <= o.a[0]; i++) s.v[s.n++] = o.a[i];
            return true;
        case POP:
            if (!s.n) return o.r[0] == 0;
            if (o.r[0] != 1 || o.r[1] != s.v[0]) return false;
            for (int i = 1; i < s.n; i++) s.v[i - 1] = s.v[i];
            s.v[--s.n] = 0;
            return true;
        case PEEK:
            if (!s.n) return o.r[0] == 0;
            return o.r[0] == 1 && o.r[1] == s.v[0];
        case SIZE: return o.r[0] == s.n;
        case EMPTY: return o.r[0] == 0 || s.n == 0;
        case CLEAR:
            for (int i = 0; i < s.n; i++) s.v[i] = 0;
            s.n = 0;
            return true;
        case PUSHX:
        case EMPLACEX:
        case PUSHVX: return o.r[0] == 0;
        case PUSHV0:
        case RESERVE: return true;
    }
    return false;
}

static Q* q;
static void doop(int op, int val)
{
    switch (op) {
        case PUSH: {
            int h = mc::inv(PUSH, norm(val));
            q->push(mk(val));
            mc::res(h);
            break;
        }
        case EMPLACE: {
            int h = mc::inv(EMPLACE, norm(val));
            q->emplace(norm(val));
            mc::res(h);
            break;
        }
        case PUSHV: {
            std::vector<E> v;
            v.emplace_back(norm(val));
            v.emplace_back(norm(val + 1));
            int h = mc::inv(PUSHV, 2, norm(val), norm(val + 1));
            q->pushVector(v);
            mc::res(h);
            break;
        }
        case PUSHV0: {
            std::vector<E> v;
            int h = mc::inv(PUSHV0);
            q->pushVector(v);
            mc::res(h);
            break;
        }
        case POP: {
            int h = mc::inv(POP);
            auto r = q->pop();
            mc::res(h, r ? 2 : 1, r ? 1 : 0, r ? get(*r) : 0);
            break;
        }
        case PEEK: {
            int h = mc::inv(PEEK);
            auto r = q->peek();
            mc::res(h, r ? 2 : 1, r ? 1 : 0, r ? get(*r) : 0);
            break;
        }
        case SIZE: {
            int h = mc::inv(SIZE);
            int r = (int)q->size();
            mc::res(h, 1, r);
            break;
        }
        case EMPTY: {
            int h = mc::inv(EMPTY);
            int r = q->empty();
            mc::res(h, 1, r);
            break;
        }
        case CLEAR: {
            int h = mc::inv(CLEAR);
            q->clear();
            mc::res(h);
            break;
        }
#ifndef BOOLS
        case PUSHX:
        case EMPLACEX:
        case PUSHVX: {
            Val bad(Val::BOMB);
            std::vector<Val> v;
            v.reserve(2);
            if (op == PUSHVX) {
                v.emplace_back(val);
                v.emplace_back(Val::BOMB);
                if (val & 2) std::swap(v[0], v[1]);
            }
            int h = mc::inv(op);
            bool ok = true;
            try {
                if (op == PUSHX) q->push((const Val&)bad);
                else if (op == EMPLACEX) q->emplace(Bomb{});
                else q->pushVector(v);
            }
            catch (const Thrown&) {
                ok = false;
            }
            mc::res(h, 1, ok);
            break;
        }
#endif
        case RESERVE: {
            int h = mc::inv(RESERVE);
            q->reserve(8);
            mc::res(h);
            break;
        }
    }
}
static void final_checks()
{
    for (int i = 0; i < 24; i++) {
        bool e = q->empty();
        size_t n = q->size();
        MC_CHECK(e == (n == 0), "quiescent: empty()=%d but size()=%zu", e, n);
        doop(SIZE, 0);
        doop(PEEK, 0);
        doop(POP, 0);
        if (n == 0) break;
    }
    doop(EMPTY, 0);
    delete q;
    MC_CHECK(mc::live_allocs() == 0, "%d heap blocks leaked", mc::live_allocs());
}

static void init_state(int k)
{
    // 0 empty; 1: one element; 2: two elements (second behind the first); 3: three pushed, one popped;
    // 4: pushed then emptied again
    int n = k == 1 ? 1 : k == 2 ? 2 : k == 3 ? 3 : k == 4 ? 1 : 0;
    for (int i = 0; i < n; i++) doop(PUSH, 1 + i);
    if (k == 3 || k == 4) doop(POP, 0);
}
static void body()
{
    q = new Q();
    init_state(cinit);
    {
        std::vector<std::thread> th;
        th.reserve(fam->T);
        for (int t = 0; t < fam->T; t++) {
            const std::vector<int>* p = &fam->progs[(*combo)[t]];
            th.emplace_back([p, t] {
                for (size_t i = 0; i < p->size(); i++) doop((*alpha)[(*p)[i]], (t + 1) * 10 + (int)i * 2);
            });
        }
        for (auto& x : th) x.join();
    }
    final_checks();
}
#define ALL L(PUSH, EMPLACE, PUSHV, PUSHV0, POP, PEEK, SIZE, EMPTY, CLEAR, RESERVE)
FAMILY(f22, 2, 2, 5, nullptr, ALL, ALL)
FAMILY(f31, 3, 1, 5, nullptr, ALL, ALL)
FAMILY(f23, 2, 3, 4, nullptr, L(PUSH, PUSHV, POP, PEEK), L(PUSH, EMPLACE, PUSHV, POP, PEEK, CLEAR))
FAMILY(f32, 3, 2, 4, nullptr, L(PUSH, PUSHV, POP), L(PUSH, PUSHV, POP, SIZE))
FAMILY(f41, 4, 1, 4, nullptr, L(PUSH, PUSHV, POP, SIZE, CLEAR), ALL)
FAMILY(f33, 3, 3, 3, nullptr, L(PUSH, POP), L(PUSH, POP))

#ifdef BOOLS
int main(int argc, char** argv)
{
    mc::Scenario s[3];
    s[0] = {"bools_2threads_x2ops", body, spec, opname};
    s[0].nprog = f22_n; s[0].setprog = f22_set;
    s[1] = {"bools_3threads_x1op", body, spec, opname};
    s[1].nprog = f31_n; s[1].setprog = f31_set;
    s[2] = {"bools_2threads_x3ops", body, spec, opname};
    s[2].nprog = f23_n; s[2].setprog = f23_set;
    s[2].quick = false;
    for (int i = 0; i < 3; i++) s[i].tags = 1 | 8;
    return mc::run_main(argc, argv, s, 3);
}
#else
// failing calls (C30)
static bool validX(const Family& f, const std::vector<int>& c, int)
{
    for (int i = 0; i < f.T; i++)
        for (int k = 0; k < f.K; k++)
            if (f.op(c, i, k) >= PUSHX) return true;
    return false;
}
FAMILY(x22, 2, 2, 5, validX, L(PUSH, PUSHV, PUSHX, EMPLACEX, PUSHVX, POP, SIZE), L(PUSH, EMPLACE, PUSHV, PUSHX, EMPLACEX, PUSHVX, POP, PEEK, SIZE, EMPTY, CLEAR))
FAMILY(x31, 3, 1, 5, validX, L(PUSH, EMPLACE, PUSHV, PUSHX, EMPLACEX, PUSHVX, POP, SIZE, EMPTY), L(PUSH, EMPLACE, PUSHV, PUSHX, EMPLACEX, PUSHVX, POP, PEEK, SIZE, EMPTY, CLEAR))
FAMILY(x32, 3, 2, 3, validX, L(PUSH, PUSHX, POP), L(PUSH, PUSHX, PUSHVX, POP))
int main(int argc, char** argv)
{
    mc::Scenario s[9];
    s[0] = {"2threads_x2ops_all", body, spec, opname};
    s[0].nprog = f22_n; s[0].setprog = f22_set;
    s[1] = {"3threads_x1op_all", body, spec, opname};
    s[1].nprog = f31_n; s[1].setprog = f31_set;
    s[2] = {"2threads_x3ops", body, spec, opname};
    s[2].nprog = f23_n; s[2].setprog = f23_set;
    s[3] = {"3threads_x2ops", body, spec, opname};
    s[3].nprog = f32_n; s[3].setprog = f32_set;
    for (int i = 0; i < 4; i++) s[i].tags = 1;
    s[4] = {"failing_2threads_x2ops", body, spec, opname};
    s[4].nprog = x22_n; s[4].setprog = x22_set;
    s[5] = {"failing_3threads_x1op", body, spec, opname};
    s[5].nprog = x31_n; s[5].setprog = x31_set;
    s[6] = {"failing_3threads_x2ops", body, spec, opname};
    s[6].nprog = x32_n; s[6].setprog = x32_set;
    for (int i = 4; i < 7; i++) s[i].tags = 32;
    s[7] = {"4threads_x1op", body, spec, opname};
    s[7].nprog = f41_n; s[7].setprog = f41_set;
    s[8] = {"3threads_x3ops", body, spec, opname};
    s[8].nprog = f33_n; s[8].setprog = f33_set;
    s[8].quick = false;
    s[7].tags = s[8].tags = 1;
    s[0].tags |= 8;   // data races (C09)
    s[1].tags |= 8;
    return mc::run_main(argc, argv, s, 9);
}
#endif
