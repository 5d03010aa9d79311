#include <cstring>
#define PRIO 0
#include "bq.hpp"
#define ALL L(PUSH, EMPLACE, TRYPOP, PEEK, POP, TPOP, POPCALL, POPCALLP, CLEAR, SIZE, EMPTY, RESERVE)
// linearizability
FAMILY(l22, 2, 2, 5, validLin, ALL, ALL)
FAMILY(l31, 3, 1, 5, validLin, ALL, ALL)
FAMILY(l23, 2, 3, 2, validLin, L(PUSH, TRYPOP, PEEK, TPOP, EMPTY), L(PUSH, EMPLACE, TRYPOP, PEEK, TPOP, EMPTY, CLEAR, SIZE))
FAMILY(l32, 3, 2, 2, validLin, L(PUSH, TRYPOP, PEEK), L(PUSH, TRYPOP, PEEK, TPOP, SIZE, CLEAR))
FAMILY(l41, 4, 1, 3, validLin, L(PUSH, TRYPOP, TPOP, SIZE), L(PUSH, EMPLACE, TRYPOP, TPOP, PEEK, SIZE, CLEAR, EMPTY))
FAMILY(l33, 3, 3, 2, validLin, L(PUSH, TRYPOP), L(PUSH, TRYPOP))
// wake-ups: no timed wait may expire, whoever sleeps must be woken
#define WK L(PUSH, EMPLACE, POP, TPOP, POPCALL, POPCALLP, TRYPOP, PEEK, EMPTY)
FAMILY(w22, 2, 2, 5, validWake, WK, WK)
FAMILY(w31, 3, 1, 5, validWake, WK, WK)
FAMILY(w41, 4, 1, 2, validWake, WK, ALL)
FAMILY(w23, 2, 3, 2, validWake, L(PUSH, POP, TRYPOP, TPOP), WK)
FAMILY(w32, 3, 2, 2, validWake, L(PUSH, POP, TRYPOP), L(PUSH, EMPLACE, POP, TPOP, TRYPOP))
FAMILY(w51, 5, 1, 1, validWake, L(PUSH, POP), L(PUSH, EMPLACE, POP, TPOP))

#define WK2 L(PUSH, POP, TPOP, POPCALL, POPCALLP, TRYPOP, PEEK, CLEAR)
FAMILY(d22, 2, 2, 5, validFeed, WK2, ALL)
FAMILY(d31, 3, 1, 5, validFeed, WK2, ALL)
FAMILY(d32, 3, 2, 1, validFeed, L(PUSH, POP), L(PUSH, POP, TRYPOP, CLEAR))
// failing calls (C30)
FAMILY(x22, 2, 2, 5, validX, L(PUSH, PUSHX, EMPLACEX, POP, TPOP, POPCALLX, TRYPOP), L(PUSH, EMPLACE, PUSHX, EMPLACEX, POP, TPOP, POPCALLX, TRYPOP, PEEK, CLEAR))
FAMILY(x31, 3, 1, 5, validX, L(PUSH, EMPLACE, PUSHX, EMPLACEX, POP, TPOP, POPCALLX, POPCALLP, TRYPOP), L(PUSH, EMPLACE, PUSHX, EMPLACEX, POP, TPOP, POPCALL, POPCALLX, POPCALLP, TRYPOP, PEEK, CLEAR))
FAMILY(x32, 3, 2, 2, validX, L(PUSH, PUSHX, POP), L(PUSH, PUSHX, EMPLACEX, POP))
int main(int argc, char** argv)
{
    mc::Scenario s[24];
    int n = 0;
    auto lin = [&](const char* nm, long (*np)(), void (*sp)(long), int timeouts, int spur) {
        s[n] = {nm, bodyLin, spec, opname};
        s[n].nprog = np;
        s[n].setprog = sp;
        s[n].timeouts = timeouts;
        s[n].spurious = spur;
        s[n].free_timeouts = true;
        s[n++].tags = 1;
    };
    auto wake = [&](const char* nm, long (*np)(), void (*sp)(long), int spur) {
        s[n] = {nm, bodyWake, spec, opname};
        s[n].nprog = np;
        s[n].setprog = sp;
        s[n].spurious = spur;
        s[n++].tags = 2;
    };
    lin("lin_2threads_x2ops", l22_n, l22_set, 1, 0);
    lin("lin_3threads_x1op", l31_n, l31_set, 1, 1);
    lin("lin_2threads_x3ops", l23_n, l23_set, 1, 0);
    lin("lin_3threads_x2ops", l32_n, l32_set, 0, 0);
    lin("lin_4threads_x1op", l41_n, l41_set, 0, 0);
    lin("lin_3threads_x3ops", l33_n, l33_set, 0, 0);
    s[n - 1].quick = false;
    wake("wake_5threads_x1op", w51_n, w51_set, 0);
    wake("wake_2threads_x2ops", w22_n, w22_set, 0);
    wake("wake_3threads_x1op", w31_n, w31_set, 1);
    wake("wake_4threads_x1op", w41_n, w41_set, 0);
    wake("wake_2threads_x3ops", w23_n, w23_set, 0);
    wake("wake_3threads_x2ops", w32_n, w32_set, 0);
    auto feed = [&](const char* nm, long (*np)(), void (*sp)(long)) {
        s[n] = {nm, bodyFeed, spec, opname};
        s[n].nprog = np;
        s[n].setprog = sp;
        s[n++].tags = 2;
    };
    feed("feed_2threads_x2ops", d22_n, d22_set);
    feed("feed_3threads_x1op", d31_n, d31_set);
    feed("feed_3threads_x2ops", d32_n, d32_set);
    s[n - 1].pb = 2;
    s[n - 1].quick = false;
    auto failing = [&](const char* nm, long (*np)(), void (*sp)(long)) {
        wake(nm, np, sp, 0);
        s[n - 1].tags = 32;
    };
    failing("failing_2threads_x2ops", x22_n, x22_set);
    failing("failing_3threads_x1op", x31_n, x31_set);
    failing("failing_3threads_x2ops", x32_n, x32_set);
    // data races (C09): the whole alphabet on two threads, and waiting consumers
    for (int i = 0; i < n; i++)
        if (!strcmp(s[i].name, "lin_2threads_x2ops") || !strcmp(s[i].name, "feed_2threads_x2ops")) s[i].tags |= 8;
    return mc::run_main(argc, argv, s, n);
}
