// The file reader, its chunks and the text search over them, instantiated for small and larger chunks.
#ifndef FILE_CHUNK
#define FILE_CHUNK 8
#endif
#include "rt_ports.cpp"
#include "raftinc/fileio.tcc"
#include "raftinc/search.tcc"
using CHUNK = raft::filechunk< FILE_CHUNK >;
using READER = raft::filereader< CHUNK, false >;
using SEARCH = raft::search< CHUNK, raft::stdlib >;
using CITER = raft::chunk_iterator< FILE_CHUNK >;
template class raft::filereader< CHUNK, false >;
template class raft::search< CHUNK, raft::stdlib >;
template struct raft::filechunk< FILE_CHUNK >;
template class raft::chunk_iterator< FILE_CHUNK >;
extern "C" CITER *vf_iter_add( CITER &i, const int n ){ return &( i += n ); }
K( FR_FP, offsetof( READER, fp ) )
K( FR_LENGTH, offsetof( READER, length ) )
K( FR_ITER, offsetof( READER, iterations ) )
K( FR_INIT, offsetof( READER, init ) )
K( FR_INDEX, offsetof( READER, chunk_index ) )
K( FR_OFFSET, offsetof( READER, chunk_offset ) )
K( FR_SIZE, sizeof( READER ) )
K( FC_SIZE, sizeof( CHUNK ) )
K( FC_BYTES, sizeof( CHUNK::buffer ) )
K( FC_BUFFER, offsetof( CHUNK, buffer ) )
K( FC_START, offsetof( CHUNK, start_position ) )
K( FC_LENGTH, offsetof( CHUNK, length ) )
K( FC_INDEX, offsetof( CHUNK, index ) )
K( SE_TLEN, offsetof( SEARCH, term_length ) )
K( SE_TERM, offsetof( SEARCH, term ) )
K( CI_CHUNK, offsetof( CITER, chunk ) )
K( CI_INDEX, offsetof( CITER, index ) )
K( CI_SIZE, sizeof( CITER ) )
K( STAT_SIZE, offsetof( struct stat, st_size ) )
K( CI_END, offsetof( CITER, is_end ) )
K( FC_EXT, ( ext_alloc< CHUNK >::value ? 1 : 0 ) )
