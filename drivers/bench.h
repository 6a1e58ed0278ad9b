// Bench: every generated struct behind one text protocol, with registers for vectors, structs, views and iterators.
#pragma once
#include "fd.h"
#include <flatdata/Copy.h>
#include <flatdata/Hash.h>
#include <flatdata/ExternalVector.h>
#include <flatdata/MultiVector.h>

namespace fd
{
struct Bench
{
    virtual ~Bench( ) {}
    virtual void cmd( const std::string& c, Tok& t, Out& o ) = 0;
};
inline std::map< std::string, std::function< std::unique_ptr< Bench >( ) > >& benches( )
{
    static std::map< std::string, std::function< std::unique_ptr< Bench >( ) > > b;
    return b;
}

// memory of exactly n bytes plus the padding the library requires, so that the address sanitizer sees every stray access
struct Buf
{
    std::unique_ptr< unsigned char[] > p;
    size_t n;
    explicit Buf( const std::string& d, unsigned char pad = 0xa5 ) : p( new unsigned char[ d.size( ) + 8 ] ), n( d.size( ) )
    {
        memcpy( p.get( ), d.data( ), n );
        memset( p.get( ) + n, pad, 8 );
    }
    std::string hexs( ) const { return hex( reinterpret_cast< const char* >( p.get( ) ), n ); }
    bool pad_kept( unsigned char pad = 0xa5 ) const { for ( int i = 0; i < 8; ++i ) if ( p[ n + i ] != pad ) return false; return true; }
};

template < typename T, bool RANGE > struct Singles    // flatdata::Struct does not exist for range structures
{
    typedef flatdata::Struct< T > S;
    std::map< std::string, S > s;
    bool cmd( const std::string& c, Tok& t, Out& o, std::map< std::string, flatdata::Vector< T > >& v )
    {
        std::string id = t.next( );
        if ( c == "snew" ) { s.erase( id ); s[ id ]; }
        else if ( c == "sset" ) { size_t n = to_u( t.next( ) ); auto m = *s.at( id ); for ( size_t i = 0; i < n; ++i ) { size_t k = to_u( t.next( ) ); Ops< T >::set_field( m, k, t ); } }
        else if ( c == "scopy" ) { S x = s.at( t.next( ) ); s[ id ] = x; }
        else if ( c == "sfromv" ) { std::string src = t.next( ); const auto& cv = v.at( src ); flatdata::copy_struct( *s.at( id ), cv[ to_u( t.next( ) ) ] ); }
        else if ( c == "vfroms" ) { size_t i = to_u( t.next( ) ); const S& cs = s.at( t.next( ) ); flatdata::copy_struct( v.at( id )[ i ], *cs ); return false; }
        else if ( c == "seq" ) { const S &a = s.at( id ), &b = s.at( t.next( ) ); o.key( "eq" ); o.boolean( *a == *b ); o.key( "ne" ); o.boolean( *a != *b ); o.key( "hash" ); o.boolean( flatdata::Hash( )( *a ) == flatdata::Hash( )( *b ) ); return true; }
        const S& x = s.at( id );
        o.key( "hex" ); o.str( hex( reinterpret_cast< const char* >( ( *x ).data( ) ), T::size_in_bytes( ) ) );
        o.key( "get" ); Ops< T >::get( *x, o );
        o.key( "getm" ); Ops< typename T::AccessorType >::get( *s.at( id ), o );
        return true;
    }
    static void enc( Tok& t, Out& o )
    {
        S x;
        Ops< T >::set( *x, t );
        const S& cx = x;
        o.key( "hex" ); o.str( hex( reinterpret_cast< const char* >( ( *cx ).data( ) ), T::size_in_bytes( ) ) );
        o.key( "get" ); Ops< T >::get( *cx, o );
        o.key( "getm" ); Ops< T >::get( *x, o );
    }
};
template < typename T > struct Singles< T, true >
{
    bool cmd( const std::string&, Tok&, Out&, std::map< std::string, flatdata::Vector< T > >& ) { throw Unknown( "struct of a range type" ); }
    static void enc( Tok& t, Out& o )
    {
        flatdata::Vector< T > v( 2 );
        Ops< T >::set( v[ 0 ], t );
        const auto& cv = v;
        o.key( "hex" ); o.str( hex( reinterpret_cast< const char* >( cv.data( ) ), T::size_in_bytes( ) ) );
        o.key( "get" ); Ops< T >::get( cv[ 0 ], o );
        o.key( "getm" ); Ops< T >::get( v[ 0 ], o );
    }
};

template < typename T, bool RANGE > struct BenchT : Bench
{
    typedef flatdata::Vector< T > V;
    typedef flatdata::ExternalVector< T > X;
    typedef flatdata::ArrayView< T > W;
    typedef typename W::const_iterator I;
    std::map< std::string, V > v;
    std::map< std::string, std::unique_ptr< X > > x;
    std::map< std::string, std::string > xkey;
    std::map< std::string, W > w;
    std::map< std::string, I > it;
    std::map< std::string, std::unique_ptr< Buf > > buf;
    std::unique_ptr< flatdata::MemoryResourceStorage > store;
    Singles< T, RANGE > singles;
    size_t serial = 0;
    BenchT( ) : store( flatdata::MemoryResourceStorage::create( ) ) {}

    static void sets( typename T::MutatorType m, Tok& t )
    {
        std::string ns = t.next( );
        size_t n = ns.empty( ) ? 0 : to_u( ns );
        for ( size_t i = 0; i < n; ++i ) { size_t k = to_u( t.next( ) ); Ops< T >::set_field( m, k, t ); }
    }
    static void vstate( V& v, Out& o )
    {
        const V& c = v;
        o.key( "n" ); o.u( c.size( ) );
        o.key( "nb" ); o.u( c.size_in_bytes( ) );
        o.key( "hex" ); o.str( hex( reinterpret_cast< const char* >( c.data( ) ), c.size( ) * T::size_in_bytes( ) ) );
        o.key( "el" ); o.list( ); for ( size_t i = 0; i < c.size( ); ++i ) Ops< T >::get( c[ i ], o ); o.end( );
        o.key( "elm" ); o.list( ); for ( size_t i = 0; i < c.size( ); ++i ) Ops< T >::get( v[ i ], o ); o.end( );
        o.key( "ends" ); o.list( );
        if ( c.size( ) ) { Ops< T >::get( c.front( ), o ); Ops< T >::get( v.front( ), o ); Ops< T >::get( c.back( ), o ); Ops< T >::get( v.back( ), o ); }
        o.end( );
        W view = c;
        o.key( "view" ); wstate( view, o );
    }
    static void wstate( const W& a, Out& o )
    {
        o.obj( );
        o.key( "n" ); o.u( a.size( ) );
        o.key( "nb" ); o.u( a.size_in_bytes( ) );
        o.key( "empty" ); o.boolean( a.empty( ) );
        o.key( "ok" ); o.boolean( static_cast< bool >( a ) );
        o.key( "el" ); o.list( ); for ( size_t i = 0; i < a.size( ); ++i ) Ops< T >::get( a[ i ], o ); o.end( );
        o.key( "it" ); o.list( ); for ( auto e : a ) Ops< T >::get( e, o ); o.end( );
        o.key( "post" ); o.list( ); for ( auto i = a.begin( ); i != a.end( ); ) { auto old = i++; Ops< T >::get( *old, o ); } o.end( );
        o.key( "rev" ); o.list( ); for ( auto i = a.end( ); i != a.begin( ); ) { --i; Ops< T >::get( *i, o ); } o.end( );
        o.key( "ends" ); o.list( ); if ( !a.empty( ) ) { Ops< T >::get( a.front( ), o ); Ops< T >::get( a.back( ), o ); } o.end( );
        o.key( "span" ); o.num( static_cast< int64_t >( a.end( ) - a.begin( ) ) );
        o.key( "rg" ); o.list( ); for ( size_t i = 0; i < a.size( ); ++i ) if ( !Ops< T >::range( a[ i ], o ) ) break; o.end( );
        o.end( );
    }
    static void cmp( const I& a, const I& b, Out& o )
    {
        o.key( "diff" ); o.num( static_cast< int64_t >( a - b ) );
        o.key( "cmp" ); o.list( );
        for ( bool r : { a == b, a != b, a < b, a <= b, a > b, a >= b } ) o.boolean( r );
        o.end( );
    }
    void cmd( const std::string& c, Tok& t, Out& o ) override
    {
        if ( c == "size" ) { o.key( "size" ); o.u( T::size_in_bytes( ) ); o.key( "sizem" ); o.u( T::MutatorType::size_in_bytes( ) ); o.key( "name" ); o.str( T::name( ) ); o.key( "limits" ); Ops< T >::limits( o ); }
        else if ( c == "enc" ) Singles< T, RANGE >::enc( t, o );
        else if ( c == "dec" )
        {
            Buf b( unhex( t.next( ) ) );
            o.key( "get" ); Ops< T >::get( T( b.p.get( ) ), o );
            o.key( "getm" ); Ops< T >::get( typename T::MutatorType( b.p.get( ) ), o );
        }
        else if ( c == "setf" )
        {
            Buf b( unhex( t.next( ) ) );
            size_t k = to_u( t.next( ) );
            Ops< T >::set_field( typename T::MutatorType( b.p.get( ) ), k, t );
            o.key( "hex" ); o.str( b.hexs( ) );
            o.key( "pad" ); o.boolean( b.pad_kept( ) );
            o.key( "get" ); Ops< T >::get( T( b.p.get( ) ), o );
            o.key( "getm" ); Ops< T >::get( typename T::MutatorType( b.p.get( ) ), o );
        }
        else if ( c == "eq" )    // two elements in separate memory
        {
            Buf a( unhex( t.next( ) ) ), b( unhex( t.next( ) ), 0x5a );
            T p( a.p.get( ) ), q( b.p.get( ) );
            o.key( "eq" ); o.boolean( p == q ); o.key( "ne" ); o.boolean( p != q );
            o.key( "hash" ); o.boolean( flatdata::Hash( )( p ) == flatdata::Hash( )( q ) );
        }
        else if ( c == "reset" ) { it.clear( ); w.clear( ); x.clear( ); v.clear( ); buf.clear( ); singles = Singles< T, RANGE >( ); store = flatdata::MemoryResourceStorage::create( ); o.key( "ok" ); o.boolean( true ); }
        else if ( c[ 0 ] == 's' || c == "vfroms" )
        {
            std::streampos p = t.in.tellg( );
            if ( !singles.cmd( c, t, o, v ) ) { t.in.clear( ); t.in.seekg( p ); vstate( v.at( t.next( ) ), o ); }
        }
        else if ( c[ 0 ] == 'v' )
        {
            std::string id = t.next( );
            if ( c == "vnew" ) { std::string n = t.next( ); v.erase( id ); if ( n == "-" ) v.emplace( id, V( ) ); else v.emplace( id, V( to_u( n ) ) ); }
            else if ( c == "vcopy" ) { V n( v.at( t.next( ) ) ); v.erase( id ); v.emplace( id, n ); }
            else if ( c == "vassign" ) v.at( id ) = v.at( t.next( ) );
            else if ( c == "vmove" ) { std::string src = t.next( ); V n( std::move( v.at( src ) ) ); v.erase( src ); v.erase( id ); v.emplace( id, std::move( n ) ); }
            else if ( c == "vgrow" ) sets( v.at( id ).grow( ), t );
            else if ( c == "vset" ) { size_t i = to_u( t.next( ) ); sets( v.at( id )[ i ], t ); }
            else if ( c == "vback" ) sets( v.at( id ).back( ), t );
            else if ( c == "vfront" ) sets( v.at( id ).front( ), t );
            else if ( c == "vresize" ) v.at( id ).resize( to_u( t.next( ) ) );
            else if ( c == "vreserve" ) v.at( id ).reserve( to_u( t.next( ) ) );
            else if ( c == "vpop" ) v.at( id ).pop_back( );
            else if ( c == "vcpel" ) { size_t i = to_u( t.next( ) ); std::string src = t.next( ); const V& s = v.at( src ); flatdata::copy_struct( v.at( id )[ i ], s[ to_u( t.next( ) ) ] ); }
            else if ( c == "vload" ) { V n; std::string d = unhex( t.next( ) ); n.resize( d.size( ) / T::size_in_bytes( ) ); memcpy( n.data( ), d.data( ), d.size( ) ); v.erase( id ); v.emplace( id, std::move( n ) ); }
            else throw Unknown( c );
            vstate( v.at( id ), o );
        }
        else if ( c[ 0 ] == 'x' )
        {
            std::string id = t.next( );
            if ( c == "xnew" )
            {
                xkey[ id ] = "k" + std::to_string( ++serial );
                x[ id ].reset( new X( store->create_external_vector< T >( xkey[ id ].c_str( ), "schema" ) ) );
            }
            else if ( c == "xgrow" ) sets( x.at( id )->grow( ), t );
            else if ( c == "xpat" )    // count elements made up from their position; every third stays as it is born
            {
                size_t n = to_u( t.next( ) );
                X& g = *x.at( id );
                for ( size_t i = 0; i < n; ++i ) { auto e = g.grow( ); if ( i % 3 != 2 ) Ops< T >::pat( e, i ); }
            }
            else if ( c == "xbig" )    // close: the first elements, and whether everything behind repeats them
            {
                size_t p = to_u( t.next( ) ), z = T::size_in_bytes( );
                W a = x.at( id )->close( );
                o.key( "ok" ); o.boolean( static_cast< bool >( a ) );
                o.key( "vn" ); o.u( a.size( ) );
                o.key( "vnb" ); o.u( a.size_in_bytes( ) );
                auto d = store->read_resource( xkey[ id ].c_str( ) );
                o.key( "bytes" ); o.u( d.size_in_bytes( ) );
                const char* q = d.char_ptr( );
                size_t end = d.size_in_bytes( ) - 8;
                o.key( "head" ); o.str( hex( q, 8 ) );
                o.key( "tail" ); o.str( hex( q + end, 8 ) );
                o.key( "first" ); o.str( hex( q + 8, std::min( p * z, end - 8 ) ) );
                bool rep = true;
                for ( size_t i = 8 + p * z; i < end; ++i ) rep = rep && q[ i ] == q[ i - p * z ];
                o.key( "repeats" ); o.boolean( rep );
                bool same = a.size_in_bytes( ) <= d.size_in_bytes( ) && !memcmp( a.data( ), q + 8, a.size_in_bytes( ) );
                o.key( "same" ); o.boolean( same );
            }
            else if ( c == "xclose" )
            {
                W a = x.at( id )->close( );
                o.key( "view" ); wstate( a, o );
                auto d = store->read_resource( xkey[ id ].c_str( ) );
                o.key( "hex" ); o.str( hex( d.char_ptr( ), d.size_in_bytes( ) ) );
                auto r = store->read< W >( xkey[ id ].c_str( ), "schema" );
                o.key( "read" );
                if ( !r ) o.null( ); else wstate( *r, o );
            }
            else throw Unknown( c );
            o.key( "n" ); o.u( x.at( id )->size( ) ); o.key( "empty" ); o.boolean( x.at( id )->empty( ) );
        }
        else if ( c[ 0 ] == 'w' )
        {
            std::string id = t.next( );
            if ( c == "wnull" ) { w.erase( id ); w.emplace( id, W( ) ); }
            else if ( c == "wload" )    // a view of raw memory
            {
                buf[ id ].reset( new Buf( unhex( t.next( ) ) ) );
                W n( buf[ id ]->p.get( ), buf[ id ]->p.get( ) + buf[ id ]->n );
                w.erase( id ); w.emplace( id, n );
            }
            else if ( c == "wfromv" ) { const V& s = v.at( t.next( ) ); W n = s; w.erase( id ); w.emplace( id, n ); }
            else
            {
                W s = w.at( t.next( ) );
                W n;
                if ( c == "wcopy" ) n = s;
                else if ( c == "wslice" ) { size_t a = to_u( t.next( ) ), l = to_u( t.next( ) ); n = s.slice( a, l ); }
                else if ( c == "wrange" ) { size_t a = to_u( t.next( ) ), l = to_u( t.next( ) ); n = s.slice( std::make_pair( a, l ) ); }
                else if ( c == "wbefore" ) n = s.slice_before( to_u( t.next( ) ) );
                else if ( c == "wafter" ) n = s.slice_after( to_u( t.next( ) ) );
                else if ( c == "wskip" ) n = s.skip( to_u( t.next( ) ) );
                else if ( c == "wskiplast" ) n = s.skip_last( to_u( t.next( ) ) );
                else throw Unknown( c );
                w.erase( id ); w.emplace( id, n );
            }
            o.key( "view" ); wstate( w.at( id ), o );
        }
        else if ( c[ 0 ] == 'i' )
        {
            std::string id = t.next( );
            std::string old;
            if ( c == "ibegin" ) it[ id ] = w.at( t.next( ) ).begin( );
            else if ( c == "iend" ) it[ id ] = w.at( t.next( ) ).end( );
            else if ( c == "icopy" ) it[ id ] = it.at( t.next( ) );
            else if ( c == "iadd" ) { I a = it.at( t.next( ) ); it[ id ] = a + static_cast< ptrdiff_t >( std::stoll( t.next( ) ) ); }
            else if ( c == "isub" ) { I a = it.at( t.next( ) ); it[ id ] = a - static_cast< ptrdiff_t >( std::stoll( t.next( ) ) ); }
            else if ( c == "iaddeq" ) { I& r = ( it.at( id ) += static_cast< ptrdiff_t >( std::stoll( t.next( ) ) ) ); o.key( "self" ); o.boolean( &r == &it.at( id ) ); }
            else if ( c == "isubeq" ) { I& r = ( it.at( id ) -= static_cast< ptrdiff_t >( std::stoll( t.next( ) ) ) ); o.key( "self" ); o.boolean( &r == &it.at( id ) ); }
            else if ( c == "iinc" ) { I& r = ++it.at( id ); o.key( "self" ); o.boolean( &r == &it.at( id ) ); }
            else if ( c == "idec" ) { I& r = --it.at( id ); o.key( "self" ); o.boolean( &r == &it.at( id ) ); }
            else if ( c == "ipinc" ) { std::string dst = t.next( ); I r = it.at( id )++; it[ dst ] = r; }
            else if ( c == "ipdec" ) { std::string dst = t.next( ); I r = it.at( id )--; it[ dst ] = r; }
            else if ( c == "icmp" ) { cmp( it.at( id ), it.at( t.next( ) ), o ); return; }
            else if ( c == "iderefs" )    // element i + k, through *, [] and ->
            {
                ptrdiff_t k = std::stoll( t.next( ) );
                I a = it.at( id );
                o.key( "el" ); o.list( );
                Ops< T >::get( a[ k ], o );
                Ops< T >::get( *( a + k ), o );
                Ops< T >::get( T( ( a + k )->data( ) ), o );
                o.end( );
                return;
            }
            else throw Unknown( c );
            o.key( "ok" ); o.boolean( true );
        }
        else throw Unknown( c );
    }
};

struct Counter
{
    size_t* n;
    template < typename T > void operator( )( T ) const { ++*n; }
};

// multivectors of a fixed list of types: grow/add/close in memory storage
struct MBench
{
    virtual ~MBench( ) {}
    virtual void cmd( const std::string& c, Tok& t, Out& o ) = 0;
};
inline std::map< std::string, std::function< std::unique_ptr< MBench >( ) > >& mbenches( )
{
    static std::map< std::string, std::function< std::unique_ptr< MBench >( ) > > b;
    return b;
}
template < typename I, typename... A > struct MBenchT : MBench
{
    typedef flatdata::MultiVector< I, A... > M;
    std::map< std::string, std::unique_ptr< M > > m;
    std::map< std::string, std::unique_ptr< typename M::ListBuilder > > item;
    std::map< std::string, std::string > key;
    std::unique_ptr< flatdata::MemoryResourceStorage > store;
    size_t serial = 0;
    MBenchT( ) : store( flatdata::MemoryResourceStorage::create( ) ) {}
    static void add( typename M::ListBuilder&, size_t, Tok&, Out&, Visit<> ) { throw Unknown( "alternative" ); }
    static void pat( typename M::ListBuilder&, size_t, uint64_t, Visit<> ) {}
    template < typename F, typename... R > static void pat( typename M::ListBuilder& b, size_t alt, uint64_t i, Visit< F, R... > )
    {
        if ( alt ) return pat( b, alt - 1, i, Visit< R... >( ) );
        auto e = b.template add< F >( );
        if ( i % 3 != 2 ) Ops< F >::pat( e, i );
    }
    // per type: visiting that type alone, chosen by the caller and by the visitor, and through the iterator's other increment
    template < typename V > static void some( const V&, Out&, Visit<> ) {}
    template < typename V, typename F, typename... R > static void some( const V& v, Out& o, Visit< F, R... > )
    {
        o.key( F::name( ) );
        o.list( );
        for ( size_t i = 0; i < v.size( ); ++i )
        {
            o.list( );
            o.list( ); v.template for_each< F >( i, [ & ]( F x ) { Ops< F >::get( x, o ); } ); o.end( );
            o.list( ); v.for_each( i, flatdata::make_overload( [ & ]( F x ) { Ops< F >::get( x, o ); } ) ); o.end( );
            o.list( ); for ( auto it = v.template iterator< F >( i ); it.valid( ); it++ ) Ops< F >::get( *it, o ); o.end( );
            o.end( );
        }
        o.end( );
        some( v, o, Visit< R... >( ) );
    }
    template < typename V > static void dump( const V& v, Out& o )
    {
        o.obj( );
        o.key( "n" ); o.u( v.size( ) );
        o.key( "all" ); dump_multi< I, A... >( v, o );
        o.key( "some" ); o.obj( ); some( v, o, Visit< A... >( ) ); o.end( );
        o.end( );
    }
    template < typename F, typename... R > static void add( typename M::ListBuilder& b, size_t alt, Tok& t, Out& o, Visit< F, R... > )
    {
        if ( alt ) return add( b, alt - 1, t, o, Visit< R... >( ) );
        auto e = b.template add< F >( );
        o.key( "fresh" ); Ops< F >::get( e, o );
        size_t n = to_u( t.next( ) );
        for ( size_t i = 0; i < n; ++i ) { size_t k = to_u( t.next( ) ); Ops< F >::set_field( e, k, t ); }
        o.key( "get" ); Ops< F >::get( e, o );
    }
    void cmd( const std::string& c, Tok& t, Out& o ) override
    {
        if ( c == "reset" ) { item.clear( ); m.clear( ); store = flatdata::MemoryResourceStorage::create( ); o.key( "ok" ); o.boolean( true ); return; }
        std::string id = t.next( );
        if ( c == "mnew" )
        {
            key[ id ] = "m" + std::to_string( ++serial );
            m[ id ].reset( new M( store->create_multi_vector< I, A... >( key[ id ].c_str( ), "schema" ) ) );
        }
        else if ( c == "mgrow" ) item[ id ].reset( new typename M::ListBuilder( m.at( id )->grow( ) ) );
        else if ( c == "madd" ) { size_t alt = to_u( t.next( ) ); add( *item.at( id ), alt, t, o, Visit< A... >( ) ); }
        else if ( c == "mclose" )
        {
            auto a = m.at( id )->close( );
            o.key( "view" ); dump( a, o );
            auto d = store->read_resource( key[ id ].c_str( ) );
            o.key( "data" ); o.str( hex( d.char_ptr( ), d.size_in_bytes( ) ) );
            auto x = store->read_resource( ( key[ id ] + "_index" ).c_str( ) );
            o.key( "index" ); o.str( hex( x.char_ptr( ), x.size_in_bytes( ) ) );
            auto r = store->read< flatdata::MultiArrayView< I, A... > >( key[ id ].c_str( ), "schema" );
            o.key( "read" );
            if ( !r ) o.null( ); else dump( *r, o );
        }
        else if ( c == "mpat" )    // n items made up from their position: i % 4 elements, the first of type i % types
        {
            size_t n = to_u( t.next( ) );
            M& g = *m.at( id );
            for ( size_t i = 0; i < n; ++i )
            {
                auto b = g.grow( );
                for ( size_t j = 0; j < i % 4; ++j ) pat( b, ( i + j ) % sizeof...( A ), i + j, Visit< A... >( ) );
            }
        }
        else if ( c == "mfull" )    // close: whether that succeeds, and whether anything can be read afterwards
        {
            auto a = m.at( id )->close( );
            o.key( "open" ); o.boolean( static_cast< bool >( a ) );
            o.key( "n" ); o.u( a.size( ) );
            size_t seen = 0, count = 0;
            for ( size_t i = 0; i < a.size( ); ++i ) { a.for_each( i, Counter{ &seen } ); count += i % 4; }
            o.key( "visited" ); o.boolean( seen == count );
            auto r = store->read< flatdata::MultiArrayView< I, A... > >( key[ id ].c_str( ), "schema" );
            o.key( "read" ); o.boolean( static_cast< bool >( r ) );
        }
        else if ( c == "mbig" )    // close: what the first items hold, and whether everything behind repeats them
        {
            size_t p = to_u( t.next( ) );
            auto a = m.at( id )->close( );
            o.key( "open" ); o.boolean( static_cast< bool >( a ) );
            o.key( "n" ); o.u( a.size( ) );
            auto d = store->read_resource( key[ id ].c_str( ) );
            auto x = store->read_resource( ( key[ id ] + "_index" ).c_str( ) );
            const char *q = d.char_ptr( ), *xi = x.char_ptr( ) + 8;
            size_t end = d.size_in_bytes( ) - 8, w = I::size_in_bytes( ), xn = ( x.size_in_bytes( ) - 16 ) / w;
            auto at = [ & ]( size_t i ) { return static_cast< uint64_t >( I( reinterpret_cast< const unsigned char* >( xi + i * w ) ).value ); };
            o.key( "bytes" ); o.u( d.size_in_bytes( ) );
            o.key( "head" ); o.str( hex( q, 8 ) );
            o.key( "tail" ); o.str( hex( q + end, 8 ) );
            o.key( "ibytes" ); o.u( x.size_in_bytes( ) );
            o.key( "ihead" ); o.str( hex( x.char_ptr( ), 8 ) );
            o.key( "itail" ); o.str( hex( xi + xn * w, 8 ) );
            size_t per = xn > p ? at( p ) : end - 8;
            o.key( "first" ); o.str( hex( q + 8, per ) );
            o.key( "offsets" ); o.list( ); for ( size_t i = 0; i < xn && i <= p; ++i ) o.u( at( i ) ); o.end( );
            o.key( "last" ); o.u( xn ? at( xn - 1 ) : 0 );
            bool rep = true;
            for ( size_t i = 8 + per; i < end; ++i ) rep = rep && q[ i ] == q[ i - per ];
            for ( size_t i = p; i < xn; ++i ) rep = rep && at( i ) - at( i - p ) == per;
            o.key( "repeats" ); o.boolean( rep );
            size_t seen = 0, count = 0;
            for ( size_t i = 0; i < a.size( ); ++i ) { a.for_each( i, Counter{ &seen } ); count += i % 4; }
            o.key( "visited" ); o.boolean( seen == count );
        }
        else throw Unknown( c );
        o.key( "ok" ); o.boolean( true );
    }
};

inline bool bench_command( const std::string& c, Tok& t, Out& o )
{
    static std::map< std::string, std::unique_ptr< Bench > > live;
    static std::map< std::string, std::unique_ptr< MBench > > mlive;
    if ( c == "B" )
    {
        std::string s = t.next( );
        if ( !live.count( s ) ) live[ s ] = benches( ).at( s )( );
        std::string k = t.next( );
        live[ s ]->cmd( k, t, o );
        return true;
    }
    if ( c == "M" )
    {
        std::string s = t.next( );
        if ( !mlive.count( s ) ) mlive[ s ] = mbenches( ).at( s )( );
        std::string k = t.next( );
        mlive[ s ]->cmd( k, t, o );
        return true;
    }
    return false;
}
}  // namespace fd
