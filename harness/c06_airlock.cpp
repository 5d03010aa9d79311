// schedule exploration of AirLock
#include "families.hpp"
#include <gmlc/containers/AirLock.hpp>
using Q = gmlc::containers::AirLock<Val>;

enum { TRYLOAD, LOAD, TRYUNLOAD, ISLOADED, TRYLOADX, LOADX };   // ..X: the assignment of the value throws
static const char* opname(int c)
{
    static const char* n[] = {"try_load", "load", "try_unload", "isLoaded", "try_load(throwing)", "load(throwing)"};
    return n[c];
}
static bool spec(mc::St& s, const mc::Op& o)
{
    switch (o.code) {
        case TRYLOAD:
            if (s.n) return o.r[0] == 0;
            if (o.r[0] != 1) return false;
            s.v[s.n++] = o.a[0];
            return true;
        case LOAD:
            if (s.n) return false;
            s.v[s.n++] = o.a[0];
            return true;
        case TRYUNLOAD:
            if (!s.n) return o.r[0] == 0;
            if (o.r[0] != 1 || o.r[1] != s.v[0]) return false;
            s.n = 0;
            s.v[0] = 0;
            return true;
        case ISLOADED: return o.r[0] == s.n;
        case TRYLOADX: return o.r[0] == (s.n ? 0 : 2);   // refused, or failed with the slot empty
        case LOADX: return o.r[0] == 2 && s.n == 0;
    }
    return false;
}
static Q* q;
static bool doop(int op, int val)
{
    switch (op) {
        case TRYLOAD: {
            int h = mc::inv(TRYLOAD, val);
            Val x(val);
            bool r = q->try_load(std::move(x));
            mc::res(h, 1, r);
            MC_CHECK(r || x.get() == val, "a refused try_load consumed its argument");
            return r;
        }
        case TRYLOADX:
        case LOADX: {
            Val bad(Val::BOMB);
            int h = mc::inv(op);
            int r = 1;
            try {
                if (op == LOADX) q->load((const Val&)bad);
                else r = q->try_load((const Val&)bad);
            }
            catch (const Thrown&) {
                r = 2;
            }
            mc::res(h, 1, r);
            return false;
        }
        case LOAD: {
            int h = mc::inv(LOAD, val);
            q->load(Val(val));
            mc::res(h);
            return true;
        }
        case TRYUNLOAD: {
            int h = mc::inv(TRYUNLOAD);
            auto r = q->try_unload();
            mc::res(h, r ? 2 : 1, r ? 1 : 0, r ? r->get() : 0);
            return (bool)r;
        }
        case ISLOADED: {
            int h = mc::inv(ISLOADED);
            bool r = q->isLoaded();
            mc::res(h, 1, r);
            return r;
        }
    }
    return false;
}
static void body()
{
    q = new Q();
    if (cinit) doop(LOAD, 1);
    if (cinit == 2) doop(TRYUNLOAD, 0);
    {
        std::vector<std::thread> th;
        th.reserve(fam->T);
        for (int t = 0; t < fam->T; t++) {
            const std::vector<int>* p = &fam->progs[(*combo)[t]];
            th.emplace_back([p, t] {
                for (size_t i = 0; i < p->size(); i++) doop((*alpha)[(*p)[i]], (t + 1) * 10 + (int)i);
            });
        }
        // whenever nothing can move, the only legitimate reason is a full slot; make room
        while (mc::await_quiet()) {
            MC_CHECK(q->isLoaded(), "a blocking load stays asleep although the slot is empty");
            MC_CHECK(doop(TRYUNLOAD, 0), "quiescent: isLoaded() but try_unload() returned nothing");
        }
        for (auto& x : th) x.join();
    }
    for (int i = 0; i < 2; i++) {
        bool l = doop(ISLOADED, 0);
        bool u = doop(TRYUNLOAD, 0);
        MC_CHECK(l == u, "quiescent: isLoaded()=%d but try_unload() %s a value", l, u ? "returned" : "did not return");
    }
    MC_CHECK(doop(TRYLOAD, 99), "quiescent: try_load() refused on an empty slot");
    delete q;
    MC_CHECK(mc::live_allocs() == 0, "%d heap blocks leaked", mc::live_allocs());
}
#define ALL L(TRYLOAD, LOAD, TRYUNLOAD, ISLOADED)
#define LU L(LOAD, TRYUNLOAD)
#define LTU L(TRYLOAD, LOAD, TRYUNLOAD)
FAMILY(f22, 2, 2, 3, nullptr, ALL, ALL)
FAMILY(f31, 3, 1, 3, nullptr, ALL, ALL)
FAMILY(f41, 4, 1, 2, nullptr, ALL, ALL)
FAMILY(f51, 5, 1, 2, nullptr, LU, ALL)
FAMILY(f23, 2, 3, 2, nullptr, ALL, ALL)
FAMILY(f32, 3, 2, 2, nullptr, LTU, ALL)
FAMILY(f33, 3, 3, 2, nullptr, LU, LU)
FAMILY(f42, 4, 2, 1, nullptr, LU, LTU)

// failing calls (C30)
static bool validX(const Family& f, const std::vector<int>& c, int)
{
    for (int i = 0; i < f.T; i++)
        for (int k = 0; k < f.K; k++)
            if (f.op(c, i, k) >= TRYLOADX) return true;
    return false;
}
FAMILY(x22, 2, 2, 3, validX, L(TRYLOAD, LOAD, TRYUNLOAD, TRYLOADX, LOADX), L(TRYLOAD, LOAD, TRYUNLOAD, ISLOADED, TRYLOADX, LOADX))
FAMILY(x31, 3, 1, 3, validX, L(TRYLOAD, LOAD, TRYUNLOAD, TRYLOADX, LOADX), L(TRYLOAD, LOAD, TRYUNLOAD, ISLOADED, TRYLOADX, LOADX))
FAMILY(x32, 3, 2, 2, validX, L(LOAD, TRYUNLOAD, LOADX), L(TRYLOAD, LOAD, TRYUNLOAD, LOADX))
FAMILY(x41, 4, 1, 2, validX, L(LOAD, TRYUNLOAD, LOADX), L(TRYLOAD, LOAD, TRYUNLOAD, TRYLOADX, LOADX))
int main(int argc, char** argv)
{
    mc::Scenario s[16];
    int n = 0;
    auto add = [&](const char* nm, long (*np)(), void (*sp)(long), int spur, bool quick = true, int pb = -1) {
        s[n] = {nm, body, spec, opname};
        s[n].nprog = np;
        s[n].setprog = sp;
        s[n].spurious = spur;
        s[n].quick = quick;
        s[n].pb = pb;
        s[n++].tags = 1;
    };
    add("2threads_x2ops", f22_n, f22_set, 1);
    add("3threads_x1op", f31_n, f31_set, 1);
    add("4threads_x1op", f41_n, f41_set, 1);
    add("2threads_x3ops", f23_n, f23_set, 0);
    add("3threads_x2ops", f32_n, f32_set, 0);
    add("4threads_x2ops_pb2", f42_n, f42_set, 0, true, 2);
    add("5threads_x1op", f51_n, f51_set, 0);
    add("3threads_x3ops", f33_n, f33_set, 0, false);
    for (int i = 0; i < 3; i++) s[i].tags |= 8;
    int k = n;
    add("failing_2threads_x2ops", x22_n, x22_set, 0);
    add("failing_3threads_x1op", x31_n, x31_set, 0);
    add("failing_3threads_x2ops", x32_n, x32_set, 0);
    add("failing_4threads_x1op", x41_n, x41_set, 0);
    for (; k < n; k++) s[k].tags = 32;   // data races (C09)
    return mc::run_main(argc, argv, s, n);
}
