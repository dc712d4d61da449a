#define RT_FILE 1
#include "rt.cpp"
