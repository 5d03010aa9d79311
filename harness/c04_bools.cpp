// the queue of truth values: their vectors are packed, an element has no address of its own
#include <cstring>
#define PRIO 1
#define BOOLS
#include "bq.hpp"
#define ALL L(PUSH, EMPLACE, PUSHP, EMPLACEP, TRYPOP, PEEK, POP, TPOP, POPCALL, POPCALLP, CLEAR, EMPTY)
#define SOME L(PUSH, PUSHP, TRYPOP, POP, POPCALL)
#define INITS 8
#include "bools_main.hpp"
