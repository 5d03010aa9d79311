// the queue of truth values: their vectors are packed, an element has no address of its own
#include <cstring>
#define PRIO 0
#define BOOLS
#include "bq.hpp"
#define ALL L(PUSH, EMPLACE, TRYPOP, PEEK, POP, TPOP, POPCALL, POPCALLP, CLEAR, SIZE, EMPTY)
#define SOME L(PUSH, TRYPOP, POP, TPOP, POPCALL)
#define INITS 5
#include "bools_main.hpp"
