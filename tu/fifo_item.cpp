#include <cstdint>
// an arbitrary class stored inline: its special members are opaque (declared, never defined)
struct Item
{
   Item( std::uint64_t v );
   Item( const Item &o );
   Item& operator = ( const Item &o );
   ~Item();
   std::uint64_t v;
   std::uint64_t w;
};
#define ELEM Item
#include "fifo_common.inc"
template ELEM& FIFO::allocate< ELEM, std::uint64_t >( std::uint64_t && );
template FIFO::autorelease< ELEM, FIFO::allocatetype > FIFO::allocate_s< ELEM, std::uint64_t >( std::uint64_t && );
template FIFO::autorelease< ELEM, FIFO::peekrange > FIFO::peek_range< ELEM >( const std::size_t );
template class FIFO::autorelease< ELEM, FIFO::peekrange >;
