// A snapshotable heap.  While `arena::on`, every operator new is served from fixed slots at fixed addresses, lowest free slot
// of its size class first, with poisoned (AddressSanitizer) surroundings; the set of live slots with their contents is part
// of a state of the explored system, so a state can be stored, compared, and restored byte for byte.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>

namespace seq {
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}
namespace arena {
constexpr int NC = 12;                       // 16 .. 32768 bytes
constexpr int SLOTS[NC] = {512, 1024, 512, 256, 128, 128, 64, 64, 32, 32, 16, 8};
constexpr size_t RED = 64;
inline bool on = false;
inline char* base;
inline size_t total;
inline char* cbase[NC];
inline uint64_t used[NC][16];
inline uint32_t req[NC][1024];
inline uint32_t failAt;                       // >0: the failAt-th allocation from now throws bad_alloc
inline uint32_t rawFailAt = 0;   // the same for allocations outside the arena
inline uint64_t allocs;
inline uint32_t fill = 0xAAAAAAAAu;           // what fresh memory holds (repeated)
inline void fillMemory(void* p, size_t n)
{
    for (size_t i = 0; i + 4 <= n; i += 4) memcpy((char*)p + i, &fill, 4);
    memcpy((char*)p + n / 4 * 4, &fill, n % 4);
}
constexpr size_t csize(int c) { return (size_t)16 << c; }
constexpr size_t stride(int c) { return csize(c) + RED; }
inline void setup()
{
    if (base) return;
    total = 4096;
    for (int c = 0; c < NC; c++) total += SLOTS[c] * stride(c) + RED;
    base = (char*)mmap((void*)0x200000000000ull, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (base == MAP_FAILED) abort();
    char* p = base + RED;
    for (int c = 0; c < NC; c++) {
        cbase[c] = p;
        p += SLOTS[c] * stride(c);
    }
    ASAN_POISON_MEMORY_REGION(base, total);
}
inline char* slot(int c, int i) { return cbase[c] + (size_t)i * stride(c); }
inline bool owns(const void* p) { return base && (const char*)p >= base && (const char*)p < base + total; }
inline void* alloc(size_t n)
{
    setup();
    allocs++;
    if (failAt > 0 && --failAt == 0) throw std::bad_alloc();
    int c = 0;
    while (c < NC && csize(c) < n) c++;
    if (c == NC) seq::fail("internal: allocation of %zu bytes", n);
    for (int i = 0; i < SLOTS[c]; i++)
        if (!(used[c][i >> 6] >> (i & 63) & 1)) {
            used[c][i >> 6] |= 1ull << (i & 63);
            req[c][i] = (uint32_t)n;
            char* p = slot(c, i);
            ASAN_UNPOISON_MEMORY_REGION(p, n);
            fillMemory(p, n);
            return p;
        }
    seq::fail("too many allocations of %zu bytes", n);
}
inline void release(void* q)
{
    char* p = (char*)q;
    for (int c = 0; c < NC; c++)
        if (p >= cbase[c] && p < cbase[c] + SLOTS[c] * stride(c)) {
            size_t i = (size_t)(p - cbase[c]) / stride(c);
            if (p != slot(c, (int)i)) seq::fail("release of an address inside an allocation");
            if (!(used[c][i >> 6] >> (i & 63) & 1)) seq::fail("memory released twice");
            used[c][i >> 6] &= ~(1ull << (i & 63));
            ASAN_POISON_MEMORY_REGION(p, csize(c));
            return;
        }
    seq::fail("release of an invalid address");
}
inline void checkSize(const void* q, size_t n)   // the size an allocation is released with is the one it was made with
{
    const char* p = (const char*)q;
    for (int c = 0; c < NC; c++)
        if (p >= cbase[c] && p < cbase[c] + SLOTS[c] * stride(c)) {
            size_t i = (size_t)(p - cbase[c]) / stride(c);
            if ((used[c][i >> 6] >> (i & 63) & 1) && req[c][i] != n) seq::fail("an allocation of %u bytes is released as one of %zu", req[c][i], n);
        }
}
inline int live()
{
    int n = 0;
    for (int c = 0; c < NC; c++)
        for (int w = 0; w < SLOTS[c] / 64 + 1 && w < 16; w++) n += __builtin_popcountll(used[c][w]);
    return n;
}
inline bool isLive(const void* q)             // start of a live allocation
{
    const char* p = (const char*)q;
    for (int c = 0; c < NC; c++)
        if (p >= cbase[c] && p < cbase[c] + SLOTS[c] * stride(c)) {
            size_t i = (size_t)(p - cbase[c]) / stride(c);
            return used[c][i >> 6] >> (i & 63) & 1;
        }
    return false;
}
inline void reset()
{
    setup();
    for (int c = 0; c < NC; c++)
        for (int i = 0; i < SLOTS[c]; i++)
            if (used[c][i >> 6] >> (i & 63) & 1) {
                used[c][i >> 6] &= ~(1ull << (i & 63));
                ASAN_POISON_MEMORY_REGION(slot(c, i), csize(c));
            }
}
template<class F>
inline void eachUsed(int c, F f)
{
    for (int w = 0; w * 64 < SLOTS[c]; w++)
        for (uint64_t m = used[c][w]; m; m &= m - 1) f(w * 64 + __builtin_ctzll(m));
}
inline void save(std::string& out)
{
    setup();
    for (int c = 0; c < NC; c++) {
        int words = (SLOTS[c] + 63) / 64;
        out.append((const char*)used[c], (size_t)words * 8);
        eachUsed(c, [&](int i) {
            out.append((const char*)&req[c][i], 4);
            out.append(slot(c, i), req[c][i]);
        });
    }
}
inline const char* load(const char* p)
{
    setup();
    for (int c = 0; c < NC; c++) {
        int words = (SLOTS[c] + 63) / 64;
        for (int w = 0; w < words; w++) {
            uint64_t u;
            memcpy(&u, p + w * 8, 8);
            for (uint64_t m = used[c][w] & ~u; m; m &= m - 1) {
                int i = w * 64 + __builtin_ctzll(m);
                ASAN_POISON_MEMORY_REGION(slot(c, i), csize(c));
            }
            for (uint64_t m = u & ~used[c][w]; m; m &= m - 1) req[c][w * 64 + __builtin_ctzll(m)] = 0;   // to be unpoisoned
            used[c][w] = u;
        }
        p += words * 8;
        eachUsed(c, [&](int i) {
            uint32_t n;
            memcpy(&n, p, 4);
            p += 4;
            char* s = slot(c, i);
            if (n != req[c][i]) {
                ASAN_POISON_MEMORY_REGION(s, csize(c));
                ASAN_UNPOISON_MEMORY_REGION(s, n);
                req[c][i] = n;
            }
            memcpy(s, p, n);
            p += n;
        });
    }
    return p;
}
// A form of the state that does not depend on which slots the allocator chose: live allocations are numbered in the order in
// which a scan from the roots meets them, pointers into them become (number, offset), pointers to released memory become one
// constant.  Only used to recognise states already seen; what is stored and restored are the real bytes.
struct Root {
    void* p;
    size_t n;
};
inline void canon(const Root* roots, int nroots, std::string& out)
{
    static int id[NC][1024];
    static uint32_t epoch[NC][1024], now;
    static struct {
        int c, i;
    } order[4096];
    int n = 0;
    now++;
    auto visit = [&](int c, int i) {
        if (epoch[c][i] != now) {
            epoch[c][i] = now;
            id[c][i] = n;
            order[n++] = {c, i};
        }
        return id[c][i];
    };
    auto word = [&](uint64_t w) -> uint64_t {
        const char* q = (const char*)w;
        if (!owns(q)) return w;
        for (int c = 0; c < NC; c++)
            if (q >= cbase[c] && q < cbase[c] + SLOTS[c] * stride(c)) {
                size_t i = (size_t)(q - cbase[c]) / stride(c), off = (size_t)(q - cbase[c]) % stride(c);
                if (!(used[c][i >> 6] >> (i & 63) & 1)) break;
                return 0xF1F1000000000000ull | (uint64_t)visit(c, (int)i) << 24 | off;
            }
        return 0xF2F2F2F2F2F2F2F2ull;
    };
    auto scan = [&](const char* p, size_t len) {
        size_t k = 0;
        for (; k + 8 <= len; k += 8) {
            uint64_t w;
            memcpy(&w, p + k, 8);
            w = word(w);
            out.append((const char*)&w, 8);
        }
        if (k < len) {
            uint64_t w = 0;
            memcpy(&w, p + k, len - k);
            out.append((const char*)&w, 8);
        }
    };
    for (int r = 0; r < nroots; r++) scan((const char*)roots[r].p, roots[r].n);
    int done = 0;
    auto drain = [&] {
        for (; done < n; done++) {
            uint64_t h = 0xF3F3000000000000ull | req[order[done].c][order[done].i];
            out.append((const char*)&h, 8);
            scan(slot(order[done].c, order[done].i), req[order[done].c][order[done].i]);
        }
    };
    drain();
    for (int c = 0; c < NC; c++)
        eachUsed(c, [&](int i) {
            if (epoch[c][i] != now) {   // not reachable from the roots
                visit(c, i);
                drain();
            }
        });
}
struct On {
    bool old;
    explicit On(bool b = true) : old(on) { on = b; }
    ~On() { on = old; }
};
}  // namespace arena

