// Stand-in for the empty git submodule header "demangle.hpp" (declarations only).
#ifndef VERIF_STUB_DEMANGLE
#define VERIF_STUB_DEMANGLE 1
#include <string>
namespace raft { std::string demangle( const char *name ); }
#endif
