// rt_split.cpp for elements of an arbitrary class that is kept inline
#define VF_CLASS_ELT 1
#include "rt_split.cpp"
