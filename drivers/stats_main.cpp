// Histories of the access statistics on memory of our own; the report goes to stderr at the end.
#include <flatdata/flatdata.h>
#include <flatdata/DebugDataAccessStatistics.h>
#include <cstdint>
#include <iostream>
#include <string>
#include <thread>
#include <vector>
alignas( 4096 ) static uint8_t memory[ 1 << 20 ];

struct Read { size_t at, n, pos, size; };
// Reads that follow each other, by several threads
static void
flush( std::vector< Read >& reads, size_t ways )
{
    auto some = [ & ]( size_t k ) {
        for ( size_t i = k; i < reads.size( ); i += ways )
            flatdata::DebugDataAccessStatistics::read( flatdata::MemoryDescriptor( memory + reads[ i ].at, reads[ i ].n ), reads[ i ].pos, reads[ i ].size );
    };
    std::vector< std::thread > ts;
    for ( size_t k = 1; k < ways; k++ )
        ts.emplace_back( some, k );
    some( 0 );
    for ( auto& t : ts )
        t.join( );
    reads.clear( );
}
int
main( int argc, char** argv )
{
    const size_t ways = argc > 1 ? std::stoul( argv[ 1 ] ) : 1;
    std::vector< Read > reads;
    using flatdata::DebugDataAccessStatistics;
    std::string op, name;
    size_t at, n, pos, size;
    while ( std::cin >> op )
    {
        if ( op != "read" )
            flush( reads, ways );
        if ( op == "register" && std::cin >> name >> at >> size )
            DebugDataAccessStatistics::register_mapping( name.c_str( ), flatdata::MemoryDescriptor( memory + at, size ) );
        else if ( op == "deregister" && std::cin >> at >> size )
            DebugDataAccessStatistics::deregister_mapping( flatdata::MemoryDescriptor( memory + at, size ) );
        else if ( op == "read" && std::cin >> at >> n >> pos >> size )
            reads.push_back( { at, n, pos, size } );
        else if ( op == "clear" )
            DebugDataAccessStatistics::clear( );
        else
            return 3;
    }
    flush( reads, ways );
    return 0;
}
