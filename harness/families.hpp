// program families for the queue harnesses: FAMILY(name, threads, ops, inits, validity, quick alphabet,
// thorough alphabet, thorough threads, thorough ops)
#pragma once
#include "qcommon.hpp"
static const std::vector<int>* alpha;
static Family* fam;
static int cinit;
static const std::vector<int>* combo;
static void use(Family& f, long ix)
{
    fam = &f;
    alpha = f.alpha;
    cinit = f.items[ix].second;
    combo = &f.combos[f.items[ix].first];
}
#define L(...) (std::vector<int>{__VA_ARGS__})
#define FAMILY(NAME, T, K, I, VALID, QA, TA)                                   \
    static Family NAME;                                                        \
    static std::vector<int> NAME##_al;                                         \
    static long NAME##_n()                                                     \
    {                                                                          \
        if (mc::thorough()) NAME##_al = TA; else NAME##_al = QA;               \
        NAME = Family{T, K, (int)NAME##_al.size(), I, VALID, &NAME##_al};      \
        NAME.build();                                                          \
        return NAME.count();                                                   \
    }                                                                          \
    static void NAME##_set(long ix) { use(NAME, ix); }
