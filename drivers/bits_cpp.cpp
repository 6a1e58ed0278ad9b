// Line protocol: "init n b..." | "read off w s wide" | "write off w s wide b0..b7"; prints the resulting bytes.
#include <flatdata/internal/Reader.h>
#include <flatdata/internal/Writer.h>
#include <cstdio>
#include <cstdint>
#include <iostream>
#include <vector>
#include <utility>
#ifndef OFFLO
#define OFFLO 0
#endif
using Rd = uint64_t ( * )( const unsigned char* );
using Wr = void ( * )( unsigned char*, uint64_t );
template < int W, bool S, bool WIDE > struct Ty {
    using U = typename std::conditional< WIDE, uint64_t, typename flatdata::BitsToUnsigned< W >::type >::type;
    using type = typename std::conditional< S, typename std::make_signed< U >::type, U >::type;
};
template < int O, int W, bool S, bool WIDE > uint64_t rd( const unsigned char* d ) {
    using T = typename Ty< W, S, WIDE >::type;
    flatdata::Reader< T, O, W > r{ d };
    T t = r;
    return S ? static_cast< uint64_t >( static_cast< int64_t >( t ) ) : static_cast< uint64_t >( t );
}
template < int O, int W, bool S, bool WIDE > void wr( unsigned char* d, uint64_t v ) {
    using T = typename Ty< W, S, WIDE >::type;
    flatdata::Writer< T, O, W > w{ d };
    w = static_cast< T >( v );
}
static Rd g_rd[ 8 ][ 65 ][ 2 ][ 2 ];
static Wr g_wr[ 8 ][ 65 ][ 2 ][ 2 ];
template < int O, int W > void reg( ) {
    // vary the byte part of the offset with the width, so that it is never constantly zero
    const int OO = O + 8 * ( ( O + W + OFFLO ) % 3 );
    g_rd[ O ][ W ][ 0 ][ 0 ] = rd< OO, W, false, false >; g_wr[ O ][ W ][ 0 ][ 0 ] = wr< OO, W, false, false >;
    g_rd[ O ][ W ][ 1 ][ 0 ] = rd< OO, W, true, false >;  g_wr[ O ][ W ][ 1 ][ 0 ] = wr< OO, W, true, false >;
    g_rd[ O ][ W ][ 0 ][ 1 ] = rd< OO, W, false, true >;  g_wr[ O ][ W ][ 0 ][ 1 ] = wr< OO, W, false, true >;
    g_rd[ O ][ W ][ 1 ][ 1 ] = rd< OO, W, true, true >;   g_wr[ O ][ W ][ 1 ][ 1 ] = wr< OO, W, true, true >;
}
template < int O, int... W > void regW( std::integer_sequence< int, W... > ) { (void)std::initializer_list< int >{ ( reg< O, W + 1 >( ), 0 )... }; }
template < int... O > void regO( std::integer_sequence< int, O... > ) { (void)std::initializer_list< int >{ ( regW< O >( std::make_integer_sequence< int, 64 >( ) ), 0 )... }; }
int main( ) {
    regO( std::make_integer_sequence< int, 8 >( ) );
    std::vector< unsigned char > m;
    std::string op;
    auto dump = [&]( const unsigned char* p, size_t n ) { for ( size_t i = 0; i < n; ++i ) printf( "%u ", (unsigned)p[ i ] ); printf( "\n" ); };
    while ( std::cin >> op ) {
        if ( op == "init" ) { size_t n; std::cin >> n; m.assign( n, 0 ); for ( auto& b : m ) { unsigned x; std::cin >> x; b = x; } continue; }
        int o, w, s, wide; std::cin >> o >> w >> s >> wide;
        if ( op == "read" ) {
            uint64_t v = g_rd[ o % 8 ][ w ][ s ][ wide ]( m.data( ) );
            unsigned char b[ 8 ]; for ( int i = 0; i < 8; ++i ) b[ i ] = v >> ( 8 * i );
            dump( b, 8 );
        } else {
            uint64_t v = 0; for ( int i = 0; i < 8; ++i ) { uint64_t x; std::cin >> x; v |= x << ( 8 * i ); }
            g_wr[ o % 8 ][ w ][ s ][ wide ]( m.data( ), v );
            dump( m.data( ), m.size( ) );
        }
    }
}
