#include <cstdint>
// an arbitrary class too large to be stored inline
struct Big
{
   Big( std::uint64_t v );
   Big( const Big &o );
   Big& operator = ( const Big &o );
   ~Big();
   std::uint64_t v;
   std::uint64_t w[ 15 ];
};
#define ELEM Big
#include "fifo_common.inc"
template ELEM& FIFO::allocate< ELEM, std::uint64_t >( std::uint64_t && );
template FIFO::autorelease< ELEM, FIFO::allocatetype > FIFO::allocate_s< ELEM, std::uint64_t >( std::uint64_t && );
