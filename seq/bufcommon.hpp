// shared by the buffer harnesses: payload patterns, exact-size source and destination areas, snapshots of plain objects
#pragma once
#include "seq.hpp"
#include <climits>
#include <new>

namespace seq {
inline unsigned char pat(int tag, int i) { return tag == 0 ? 0xFF : (unsigned char)(tag * 37 + i * 11 + 3); }
constexpr int MAXB = 70010;
// heap areas of every exact size, so that a read or write past the given length is an address error
inline unsigned char* area(int which, int n)
{
    static unsigned char* a[2][MAXB + 1];
    if (n < 0) n = 0;
    if (n > MAXB) fail("internal: area of %d bytes", n);
    if (!a[which][n]) {
        bool h = heapOn;
        heapOn = false;
        a[which][n] = (unsigned char*)malloc(n ? n : 1);
        if (n == 0) ASAN_POISON_MEMORY_REGION(a[which][n], 1);
        heapOn = h;
    }
    return a[which][n];
}
struct Blk {
    int size, tag;
};
constexpr int MAXQ = 24;
struct BufModel {
    int cap = 0;
    int n = 0;
    int rev = 0;         // stack: a reversal happened since it was last empty (space may be held until it is empty again)
    int slack = 0;
    Blk q[MAXQ] = {};
    int freshTag() const
    {
        for (int t = 0;; t++) {
            bool u = false;
            for (int i = 0; i < n; i++) u |= q[i].tag == t;
            if (!u) return t;
        }
    }
    long payload(int per) const
    {
        long s = 0;
        for (int i = 0; i < n; i++) s += q[i].size + per;
        return s;
    }
    void removeAt(int k)
    {
        for (int i = k; i + 1 < n; i++) q[i] = q[i + 1];
        n--;
        q[n] = {};
    }
};
inline std::vector<int> operator|(std::vector<int> a, const std::vector<int>& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
}  // namespace seq
