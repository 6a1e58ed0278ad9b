// Elements far into a resource: "far storage archive", then "look resource ask | ask ...".
#pragma once
#include "fd.h"
namespace fd
{
template < typename F > std::string shown( F f ) { Out o; f( o ); return o.s; }

// one element by every way to it
template < typename T, typename V > void look_at( const V& v, uint64_t i, Out& o )
{
    std::string a = shown( [ & ]( Out& p ) { Ops< T >::get( v[ i ], p ); } );
    auto same = [ & ]( const std::string& b, const char* way ) { if ( a != b ) a = std::string( "\"" ) + way + " disagrees\""; };
    auto it = v.begin( ) + i;
    same( shown( [ & ]( Out& p ) { Ops< T >::get( *it, p ); } ), "iterator" );
    same( shown( [ & ]( Out& p ) { Ops< T >::get( v.begin( )[ i ], p ); } ), "iterator index" );
    same( shown( [ & ]( Out& p ) { Ops< T >::get( *( v.end( ) - ( v.size( ) - i ) ), p ); } ), "iterator from the end" );
    same( shown( [ & ]( Out& p ) { Ops< T >::get( v.skip( i ).front( ), p ); } ), "skip" );
    same( shown( [ & ]( Out& p ) { Ops< T >::get( v.slice_after( i )[ 0 ], p ); } ), "slice_after" );
    same( shown( [ & ]( Out& p ) { Ops< T >::get( v.slice_before( i + 1 ).back( ), p ); } ), "slice_before" );
    same( shown( [ & ]( Out& p ) { Ops< T >::get( v.skip_last( v.size( ) - i - 1 ).back( ), p ); } ), "skip_last" );
    same( shown( [ & ]( Out& p ) { Ops< T >::get( v.slice( 0, i + 1 ).back( ), p ); } ), "slice" );
    same( shown( [ & ]( Out& p ) { Ops< T >::get( v.slice( std::make_pair( size_t( 0 ), size_t( i + 1 ) ) ).back( ), p ); } ), "slice of a pair" );
    if ( static_cast< uint64_t >( it - v.begin( ) ) != i || v.end( ) - it != static_cast< std::ptrdiff_t >( v.size( ) - i ) ) a = "\"distances disagree\"";
    if ( !( it < v.end( ) ) || it >= v.end( ) || ( i && !( v.begin( ) < it ) ) || !( it == v.begin( ) + i ) ) a = "\"order of iterators disagrees\"";
    if ( v.skip( i ).size( ) != v.size( ) - i || v.slice_before( i ).size( ) != i || v.skip_last( i ).size( ) != v.size( ) - i || v.slice_after( i ).size( ) != v.size( ) - i || v.slice( i, v.size( ) - i ).size( ) != v.size( ) - i
         || v.slice( std::make_pair( size_t( i ), v.size( ) ) ).size( ) != v.size( ) - i || v.slice_before( i ).empty( ) != ( i == 0 ) ) a = "\"sizes of slices disagree\"";
    o.raw( a );
}
template < typename T, typename V > void look_vec( const V& v, const std::string& c, Tok& t, Out& o )
{
    uint64_t i = c == "size" ? 0 : to_u( t.next( ) );
    if ( c == "size" ) o.u( v.size( ) );
    else if ( c == "at" ) look_at< T >( v, i, o );
    else if ( c == "run" )
    {
        uint64_t n = to_u( t.next( ) );
        auto s = v.slice( i, n );
        if ( s.size( ) != n ) { o.str( "slice of another size" ); return; }
        std::string a = shown( [ & ]( Out& p ) { dump_view< T >( s, p ); } ), b = shown( [ & ]( Out& p ) { dump_view< T >( v.slice( std::make_pair( i, i + n ) ), p ); } );
        o.raw( a == b ? a : "\"slices disagree\"" );
    }
    else if ( c == "span" ) { if ( !Ops< T >::range( v[ i ], o ) ) o.null( ); }
    else throw Unknown( c );
}
template < typename I, typename F, typename... R > void look_multi( const flatdata::MultiArrayView< I, F, R... >& v, const std::string& c, Tok& t, Out& o )
{
    if ( c == "size" ) { o.u( v.size( ) ); return; }
    if ( c != "item" ) throw Unknown( c );
    uint64_t i = to_u( t.next( ) );
    o.list( );
    v.for_each( i, Visitor< I >{ &o } );
    o.end( );
}
inline void look_raw( const flatdata::MemoryDescriptor& d, const std::string& c, Tok& t, Out& o )
{
    if ( c == "size" ) { o.u( d.size_in_bytes( ) ); return; }
    uint64_t i = to_u( t.next( ) ), n = to_u( t.next( ) );
    o.list( );
    for ( uint64_t k = 0; k < n; ++k ) o.u( d.data( )[ i + k ] );
    o.end( );
}
typedef std::function< void( const std::string&, const std::string&, Tok&, Out& ) > Look;
typedef std::function< Look( std::shared_ptr< flatdata::ResourceStorage > ) > Looks;
inline std::map< std::string, Looks >& looks( ) { static std::map< std::string, Looks > l; return l; }
}  // namespace fd
