// shared by the schedule-exploration harnesses
#pragma once
#include "mc.hpp"

#include <optional>
#include <thread>
#include <vector>

// Element type: not trivially copyable, so every container-internal move/copy is an instrumented access;
// a moved-from or destroyed element carries a recognisable value.
struct Bomb {};        // an element constructed from it, or copied from one with this value, throws
struct Thrown {};
struct Val {
    static constexpr int BOMB = 9000;
    int v;
    int magic;
    static constexpr int LIVE = 0x11fe;
    Val() : v(-1000), magic(LIVE) {}
    Val(int x) : v(x), magic(LIVE) {}
    Val(Bomb) : v(0), magic(LIVE) { throw Thrown{}; }
    Val(const Val& o) : v(o.get()), magic(LIVE)
    {
        if (v == BOMB) throw Thrown{};
    }
    Val(Val&& o) noexcept : v(o.get()), magic(LIVE) { o.v = -2000; }
    Val& operator=(const Val& o)
    {
        chk();
        if (o.get() == BOMB) throw Thrown{};
        v = o.get();
        return *this;
    }
    Val& operator=(Val&& o) noexcept
    {
        chk();
        int t = o.get();
        o.v = -2000;
        v = t;
        return *this;
    }
    ~Val()
    {
        chk();
        magic = 0xdead;
        v = -3000;
    }
    void chk() const
    {
        if (magic != LIVE) mc::fail_memory("operation on an element that is not alive");
    }
    int get() const
    {
        chk();
        return v;
    }
};

// ---- families of client programs: T threads, each a sequence of K ops drawn from an alphabet of A ops, with I
// initial states; thread programs are enumerated as multisets (threads are symmetric).
struct Family {
    int T, K, A, I;
    bool (*valid)(const Family&, const std::vector<int>& combo, int init) = nullptr;
    const std::vector<int>* alpha = nullptr;
    std::vector<std::pair<int, int>> items;   // (combo, init)
    std::vector<std::vector<int>> progs;   // all thread programs (indices into the alphabet)
    std::vector<std::vector<int>> combos;  // multisets of thread programs
    void build()
    {
        progs.clear();
        combos.clear();
        long n = 1;
        for (int i = 0; i < K; i++) n *= A;
        for (long x = 0; x < n; x++) {
            std::vector<int> p;
            long y = x;
            for (int i = 0; i < K; i++) {
                p.push_back((int)(y % A));
                y /= A;
            }
            progs.push_back(p);
        }
        std::vector<int> c;
        rec(c, 0);
        items.clear();
        for (int k = 0; k < (int)combos.size(); k++)
            for (int i = 0; i < I; i++)
                if (!valid || valid(*this, combos[k], i)) items.push_back({k, i});
    }
    // operation codes of thread t in a combination
    int op(const std::vector<int>& combo, int t, int i) const { return (*alpha)[progs[combo[t]][i]]; }
    void rec(std::vector<int>& c, int from)
    {
        if ((int)c.size() == T) {
            combos.push_back(c);
            return;
        }
        for (int i = from; i < (int)progs.size(); i++) {
            c.push_back(i);
            rec(c, i);
            c.pop_back();
        }
    }
    long count() const { return (long)items.size(); }
};
