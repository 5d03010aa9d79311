// the queue of truth values: their vectors are packed, an element has no address of its own
#define BOOLS
#include "c01_simplequeue.cpp"
