// The same with chunks that are too large to be stored inline: they are stored externally, as any chunk beyond the
// cache line size is.
#undef L1D_CACHE_LINE_SIZE
#define L1D_CACHE_LINE_SIZE 16
#include "rt_file.cpp"
