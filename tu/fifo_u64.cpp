#include <cstdint>
#define ELEM std::uint64_t
#include "fifo_common.inc"
template ELEM& FIFO::allocate< ELEM >();
template FIFO::autorelease< ELEM, FIFO::allocatetype > FIFO::allocate_s< ELEM >();
template FIFO::autorelease< ELEM, FIFO::peekrange > FIFO::peek_range< ELEM >( const std::size_t );
template class FIFO::autorelease< ELEM, FIFO::peekrange >;
