#define LIFE 1
#include "fifo.cpp"
