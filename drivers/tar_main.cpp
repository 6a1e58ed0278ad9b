// stdin lines: <path> <hex name>...   stdout: what the tar index and the tar storage say, one JSON per line
#include "fd.h"
using namespace fd;
int main( )
{
    std::clog.rdbuf( nullptr );
    std::string line;
    while ( std::getline( std::cin, line ) )
    {
        Tok t( line );
        std::string path = t.next( );
        Out o;
        o.obj( );
        {
            std::ifstream f( path, std::ios::binary );
            std::string d( ( std::istreambuf_iterator< char >( f ) ), std::istreambuf_iterator< char >( ) );
            std::unique_ptr< char[] > exact( new char[ d.size( ) ] );    // bounds as tight as they can be
            std::copy( d.begin( ), d.end( ), exact.get( ) );
            o.key( "list" );
            try
            {
                auto es = flatdata::internal::read_tar_file_entries( flatdata::MemoryDescriptor( exact.get( ), d.size( ) ) );
                o.list( );
                for ( auto& e : es ) { o.list( ); o.str( hex( e.name.data( ), e.name.size( ) ) ); o.u( e.offset ); o.u( e.size ); o.end( ); }
                o.end( );
            }
            catch ( const std::runtime_error& ) { o.str( "rejected" ); }
        }
        o.key( "created" );
        auto s = flatdata::TarArchiveResourceStorage::create( path.c_str( ) );
        o.boolean( static_cast< bool >( s ) );
        o.key( "read" );
        o.list( );
        std::unique_ptr< flatdata::MemoryMappedTarFileStorage > m;
        try { m.reset( new flatdata::MemoryMappedTarFileStorage( path.c_str( ) ) ); } catch ( const std::runtime_error& ) { }
        for ( std::string n = t.next( ); !n.empty( ); n = t.next( ) )
        {
            std::string name = unhex( n );
            if ( !m ) { o.null( ); continue; }
            auto d = m->read( name.c_str( ) );
            bool there = s && s->exists( name.c_str( ) );
            if ( there != ( d.data( ) != nullptr ) ) { o.str( "exists disagrees" ); continue; }
            if ( !d.data( ) ) o.null( );
            else { o.list( ); o.u( d.size_in_bytes( ) ); o.str( hex( d.char_ptr( ), std::min< size_t >( d.size_in_bytes( ), 1 << 16 ) ) ); o.end( ); }
        }
        o.end( );
        o.end( );
        std::cout << o.s << std::endl;
    }
}
