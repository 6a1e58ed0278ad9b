// Runtime of the generated C++ drivers: a line protocol around the public flatdata-cpp API.
#pragma once
#include <flatdata/flatdata.h>
#include <flatdata/FileResourceStorage.h>
#include <flatdata/MemoryResourceStorage.h>
#include <flatdata/TarArchiveResourceStorage.h>
#include <flatdata/Struct.h>
#include <flatdata/Vector.h>
#include <atomic>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace fd
{
struct Unknown : std::runtime_error { explicit Unknown( const std::string& s ) : std::runtime_error( "unknown " + s ) {} };

inline uint64_t to_u( const std::string& s ) { return std::stoull( s ); }

struct Tok
{
    std::istringstream in;
    explicit Tok( const std::string& l ) : in( l ) {}
    std::string next( ) { std::string s; in >> s; return s; }
};

struct Out
{
    std::string s;
    bool first = true;
    std::vector< char > st;
    void sep( ) { if ( !first ) s += ','; first = false; }
    void list( ) { sep( ); s += '['; st.push_back( ']' ); first = true; }
    void obj( ) { sep( ); s += '{'; st.push_back( '}' ); first = true; }
    void end( ) { s += st.back( ); st.pop_back( ); first = false; }
    void key( const std::string& k ) { sep( ); s += '"' + k + "\":"; first = true; }
    void null( ) { sep( ); s += "null"; }
    void boolean( bool b ) { sep( ); s += b ? "true" : "false"; }
    void u( uint64_t v ) { sep( ); s += std::to_string( v ); }
    template < typename T >
    typename std::enable_if< std::is_enum< T >::value >::type num( T v ) { num( static_cast< typename std::underlying_type< T >::type >( v ) ); }
    template < typename T >
    typename std::enable_if< !std::is_enum< T >::value >::type num( T v )
    {
        if ( std::is_signed< T >::value ) u( static_cast< uint64_t >( static_cast< int64_t >( v ) ) );
        else u( static_cast< uint64_t >( v ) );
    }
    // an optional field: presence, value and the conversion must tell the same story
    template < typename T, typename F >
    void opt( const F& f )
    {
        boost::optional< T > o = f;
        bool has = static_cast< bool >( f );
        if ( has != static_cast< bool >( o ) ) { str( "presence disagrees with conversion" ); return; }
        if ( !o ) { null( ); return; }
        if ( static_cast< T >( *f ) != *o ) { str( "value disagrees with conversion" ); return; }
        num( *o );
    }
    void raw( const std::string& x ) { sep( ); s += x; }
    void str( const std::string& x )
    {
        sep( );
        s += '"';
        for ( char c : x )
        {
            if ( c == '"' || c == '\\' ) { s += '\\'; s += c; }
            else if ( static_cast< unsigned char >( c ) < 32 || static_cast< unsigned char >( c ) > 126 ) { char b[ 8 ]; snprintf( b, 8, "\\u%04x", static_cast< unsigned char >( c ) ); s += b; }
            else s += c;
        }
        s += '"';
    }
};

inline std::string unhex( const std::string& h )
{
    std::string r;
    if ( h == "-" ) return r;
    for ( size_t i = 0; i + 1 < h.size( ); i += 2 ) r += static_cast< char >( std::stoi( h.substr( i, 2 ), nullptr, 16 ) );
    return r;
}
inline std::string hex( const char* p, size_t n )
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for ( size_t i = 0; i < n; ++i ) { r += d[ ( static_cast< unsigned char >( p[ i ] ) ) >> 4 ]; r += d[ p[ i ] & 15 ]; }
    return r;
}

template < typename T > struct Ops;

template < typename T > void dump_inst( T x, Out& o ) { Ops< T >::get( x, o ); }

template < typename T, typename V > void dump_view( const V& v, Out& o )
{
    o.list( );
    for ( size_t i = 0; i < v.size( ); ++i ) Ops< T >::get( v[ i ], o );
    o.end( );
}

template < typename... > struct Visit {};

inline void dump_raw( const flatdata::MemoryDescriptor& d, Out& o ) { o.str( hex( d.char_ptr( ), d.size_in_bytes( ) ) ); }

template < typename Args > struct Visitor
{
    Out* o;
    template < typename T > void operator( )( T t ) const
    {
        o->list( );
        o->str( T::name( ) );
        Ops< T >::get( t, *o );
        o->end( );
    }
};

template < typename I, typename T, typename View > void dump_iter( const View& v, Out& o )
{
    o.key( T::name( ) );
    o.list( );
    for ( size_t i = 0; i < v.size( ); ++i )
    {
        o.list( );
        for ( auto it = v.template iterator< T >( i ); it.valid( ); ++it ) Ops< T >::get( *it, o );
        o.end( );
    }
    o.end( );
}

// items through for_each with all types, through one iterator per type, and through a partial visitor
template < typename I, typename F, typename... R > void dump_multi( const flatdata::MultiArrayView< I, F, R... >& v, Out& o )
{
    o.obj( );
    o.key( "items" );
    o.list( );
    for ( size_t i = 0; i < v.size( ); ++i )
    {
        o.list( );
        v.for_each( i, Visitor< I >{ &o } );
        o.end( );
    }
    o.end( );
    o.key( "iter" );
    o.obj( );
    dump_iter< I, F >( v, o );
    int unused[] = { 0, ( dump_iter< I, R >( v, o ), 0 )... };
    (void)unused;
    o.end( );
    o.key( "only" );    // a visitor that accepts the first type only
    o.list( );
    for ( size_t i = 0; i < v.size( ); ++i )
    {
        o.list( );
        v.for_each( i, flatdata::make_overload( [ & ]( F x ) { Ops< F >::get( x, o ); } ) );
        o.end( );
    }
    o.end( );
    o.key( "ok" );
    o.boolean( static_cast< bool >( v ) );
    o.end( );
}

struct Growing
{
    virtual ~Growing( ) {}
    virtual void grow( Tok& t ) = 0;
    virtual void close( Out& o ) = 0;
    virtual void pat( uint64_t i ) = 0;                                       // one more element or item, made up from i
    virtual void close_some( Out& o, const std::vector< uint64_t >& at ) = 0; // like close, but showing some only
    virtual uint64_t size( ) { return 0; }
};

template < typename T > struct GrowingVec : Growing
{
    flatdata::ExternalVector< T > v;
    explicit GrowingVec( flatdata::ExternalVector< T > x ) : v( std::move( x ) ) {}
    void grow( Tok& t ) override { Ops< T >::set( v.grow( ), t ); }
    uint64_t size( ) override { return v.empty( ) ? ( v.size( ) == 0 ? 0 : ~0ull ) : v.size( ); }
    void close( Out& o ) override
    {
        auto view = v.close( );
        o.obj( );
        o.key( "ok" );
        o.boolean( static_cast< bool >( view ) );
        o.key( "view" );
        dump_view< T >( view, o );
        o.end( );
    }
    void pat( uint64_t i ) override { Ops< T >::pat( v.grow( ), i ); }
    void close_some( Out& o, const std::vector< uint64_t >& at ) override
    {
        auto view = v.close( );
        o.obj( );
        o.key( "ok" ); o.boolean( static_cast< bool >( view ) );
        o.key( "size" ); o.u( view.size( ) );
        o.key( "some" ); o.list( );
        for ( uint64_t i : at ) Ops< T >::get( view[ i ], o );
        o.end( );
        o.end( );
    }
};

template < typename I, typename... A > struct GrowingMulti : Growing
{
    flatdata::MultiVector< I, A... > v;
    explicit GrowingMulti( flatdata::MultiVector< I, A... > x ) : v( std::move( x ) ) {}
    template < typename B > static void add( B& b, size_t, Tok& ) { (void)b; throw Unknown( "alternative" ); }
    template < typename B, typename F, typename... R > static void add( B& b, size_t alt, Tok& t )
    {
        if ( alt == 0 ) { Ops< F >::set( b.template add< F >( ), t ); return; }
        add< B, R... >( b, alt - 1, t );
    }
    void grow( Tok& t ) override
    {
        auto b = v.grow( );
        size_t n = to_u( t.next( ) );
        for ( size_t i = 0; i < n; ++i ) { size_t alt = to_u( t.next( ) ); add< decltype( b ), A... >( b, alt, t ); }
    }
    template < typename B > static void addpat( B&, size_t, uint64_t ) {}
    template < typename B, typename F, typename... R > static void addpat( B& b, size_t alt, uint64_t i )
    {
        if ( alt == 0 ) { Ops< F >::pat( b.template add< F >( ), i ); return; }
        addpat< B, R... >( b, alt - 1, i );
    }
    void pat( uint64_t i ) override
    {
        auto b = v.grow( );
        for ( uint64_t j = 0; j < i % 4; ++j ) addpat< decltype( b ), A... >( b, ( i + j ) % sizeof...( A ), i + j );
    }
    void close_some( Out& o, const std::vector< uint64_t >& at ) override
    {
        auto view = v.close( );
        o.obj( );
        o.key( "ok" ); o.boolean( static_cast< bool >( view ) );
        o.key( "size" ); o.u( view.size( ) );
        o.key( "some" ); o.list( );
        for ( uint64_t i : at ) { o.list( ); view.for_each( i, Visitor< I >{ &o } ); o.end( ); }
        o.end( );
        o.end( );
    }
    void close( Out& o ) override
    {
        auto view = v.close( );
        o.obj( );
        o.key( "ok" );
        o.boolean( static_cast< bool >( view ) );
        o.key( "view" );
        dump_multi< I, A... >( view, o );
        o.end( );
    }
};

struct Builder
{
    virtual ~Builder( ) {}
    virtual bool open( ) = 0;
    virtual bool set( const std::string& n, Tok& t ) = 0;
    virtual std::unique_ptr< Growing > start( const std::string& n ) = 0;
    virtual std::unique_ptr< Builder > sub( const std::string& n ) = 0;
};

struct Arch
{
    std::function< void( std::shared_ptr< flatdata::ResourceStorage >, Out& ) > dump;
    std::function< std::unique_ptr< Builder >( std::shared_ptr< flatdata::ResourceStorage > ) > build;
    const char* schema;
    std::function< void( std::shared_ptr< flatdata::ResourceStorage >, Out& ) > probe;    // sizes only
    std::function< std::string( std::shared_ptr< flatdata::ResourceStorage > ) > describe;
};

inline std::map< std::string, Arch >& archives( ) { static std::map< std::string, Arch > a; return a; }
void register_all( );

typedef std::function< bool( const std::string&, Tok&, Out& ) > Extra;    // further commands of a driver

struct Shell
{
    std::map< std::string, std::shared_ptr< flatdata::ResourceStorage > > st;
    std::map< std::string, flatdata::MemoryResourceStorage* > mem;
    std::map< std::string, std::string > paths;
    std::map< std::string, std::shared_ptr< Builder > > bs;
    std::map< std::string, std::shared_ptr< Growing > > gs;
    Extra extra;

    std::string exec( const std::string& line )
    {
        Tok t( line );
        std::string c = t.next( );
        Out o;
        o.obj( );
        try
        {
            if ( c == "store" )
            {
                std::string id = t.next( ), kind = t.next( ), path = t.next( );
                std::shared_ptr< flatdata::ResourceStorage > s;
                paths[ id ] = kind == "file" ? path : "";
                mem.erase( id );
                if ( kind == "file" ) s = flatdata::FileResourceStorage::create( path.c_str( ) );
                else if ( kind == "tar" ) s = flatdata::TarArchiveResourceStorage::create( path.c_str( ) );
                else if ( kind == "tarsub" ) { std::string sub = t.next( ); s = flatdata::TarArchiveResourceStorage::create( path.c_str( ), sub.c_str( ) ); }
                else
                {
                    auto m = flatdata::MemoryResourceStorage::create( );
                    mem[ id ] = m.get( );
                    s = std::move( m );
                }
                st[ id ] = s;
                o.key( "ok" ); o.boolean( static_cast< bool >( s ) );
            }
            else if ( c == "dump" )
            {
                auto s = st[ t.next( ) ];
                std::string a = t.next( );
                o.key( "dump" );
                archives( ).at( a ).dump( s, o );
            }
            else if ( c == "probe" )
            {
                auto s = st[ t.next( ) ];
                std::string a = t.next( );
                o.key( "probe" );
                archives( ).at( a ).probe( s, o );
            }
            else if ( c == "describe" )
            {
                auto s = st[ t.next( ) ];
                o.key( "text" ); o.str( archives( ).at( t.next( ) ).describe( s ) );
            }
            else if ( c == "subdump" )    // storage, directory, archive
            {
                auto s = st[ t.next( ) ];
                std::string d = t.next( ), a = t.next( );
                std::shared_ptr< flatdata::ResourceStorage > sub = s->directory( d.c_str( ) );
                o.key( "dir" ); o.boolean( static_cast< bool >( sub ) );
                if ( sub ) { o.key( "dump" ); archives( ).at( a ).dump( sub, o ); }
            }
            else if ( c == "schema" ) { o.key( "schema" ); o.str( archives( ).at( t.next( ) ).schema ); }
            else if ( c == "builder" )
            {
                std::string id = t.next( );
                auto s = st[ t.next( ) ];
                bs[ id ] = archives( ).at( t.next( ) ).build( s );
                o.key( "ok" ); o.boolean( bs[ id ]->open( ) );
            }
            else if ( c == "sub" )
            {
                std::string id = t.next( ), b = t.next( ), n = t.next( );
                bs[ id ] = bs.at( b )->sub( n );
                o.key( "ok" ); o.boolean( bs[ id ]->open( ) );
            }
            else if ( c == "set" )
            {
                std::string b = t.next( ), n = t.next( );
                o.key( "ok" );
                bool r = bs.at( b )->set( n, t );
                o.boolean( r );
            }
            else if ( c == "start" )
            {
                std::string id = t.next( ), b = t.next( ), n = t.next( );
                gs[ id ] = bs.at( b )->start( n );
                o.key( "ok" ); o.boolean( true );
            }
            else if ( c == "grow" )
            {
                auto& g = *gs.at( t.next( ) );
                g.grow( t );
                o.key( "ok" ); o.boolean( true );
                o.key( "size" ); o.u( g.size( ) );
            }
            else if ( c == "close" )
            {
                o.key( "close" );
                gs.at( t.next( ) )->close( o );
            }
            else if ( c == "growpat" )    // id, first, count
            {
                auto& g = *gs.at( t.next( ) );
                uint64_t a = to_u( t.next( ) ), n = to_u( t.next( ) );
                for ( uint64_t i = a; i < a + n; ++i ) g.pat( i );
                o.key( "size" ); o.u( g.size( ) );
            }
            else if ( c == "closesome" )
            {
                auto& g = *gs.at( t.next( ) );
                std::vector< uint64_t > at;
                for ( std::string x = t.next( ); !x.empty( ); x = t.next( ) ) at.push_back( to_u( x ) );
                o.key( "close" );
                g.close_some( o, at );
            }
            else if ( c == "peek" )
            {
                std::string id = t.next( ), k = t.next( );
                auto d = mem.at( id )->read_resource( k.c_str( ) );
                o.key( "hex" );
                if ( !d.data( ) ) o.null( ); else o.str( hex( d.char_ptr( ), d.size_in_bytes( ) ) );
            }
            else if ( c == "assign" )
            {
                std::string id = t.next( ), k = t.next( ), v = unhex( t.next( ) );
                for ( size_t p = k.find( '/' ); p != std::string::npos; p = k.find( '/', p + 1 ) )
                    mem.at( id )->create_directory( k.substr( 0, p ).c_str( ) );
                mem.at( id )->assign_value( k.c_str( ), flatdata::MemoryDescriptor( v.data( ), v.size( ) ) );
                o.key( "ok" ); o.boolean( true );
            }
            else if ( c == "drop" ) { gs.clear( ); bs.clear( ); st.clear( ); mem.clear( ); o.key( "ok" ); o.boolean( true ); }
            else if ( c == "end" ) { gs.clear( ); bs.clear( ); o.key( "ok" ); o.boolean( true ); }
            else if ( c == "files" )    // everything a file storage or a memory storage holds
            {
                std::string id = t.next( );
                if ( mem.count( id ) ) { o.key( "hexdump" ); o.str( mem.at( id )->hexdump( true ) ); }
                else
                {
                    o.key( "files" ); o.obj( );
                    boost::filesystem::path root( paths[ id ] );
                    boost::system::error_code ec;
                    for ( boost::filesystem::recursive_directory_iterator i( root, ec ), e; i != e; ++i )
                        if ( boost::filesystem::is_regular_file( i->path( ) ) )
                        {
                            std::ifstream f( i->path( ).string( ), std::ios::binary );
                            std::string d( ( std::istreambuf_iterator< char >( f ) ), std::istreambuf_iterator< char >( ) );
                            o.key( i->path( ).string( ).substr( paths[ id ].size( ) + 1 ) );
                            o.str( hex( d.data( ), d.size( ) ) );
                        }
                    o.end( );
                }
            }
            else if ( c == "mkdir" || c == "dir" )    // new id, storage, key
            {
                std::string id = t.next( ), sid = t.next( ), k = t.next( );
                auto s = st.at( sid );
                std::shared_ptr< flatdata::ResourceStorage > d = c == "dir" ? s->directory( k.c_str( ) ) : s->create_directory( k.c_str( ) );
                o.key( "ok" ); o.boolean( static_cast< bool >( d ) );
                if ( d ) st[ id ] = d;
            }
            else if ( c == "put" )    // storage, key, schema, payload
            {
                auto s = st.at( t.next( ) );
                std::string k = t.next( ), sc = t.next( ), v = unhex( t.next( ) );
                o.key( "ok" );
                o.boolean( s->write( k.c_str( ), sc.c_str( ), flatdata::MemoryDescriptor( v.data( ), v.size( ) ) ) );
            }
            else if ( c == "get" )
            {
                auto s = st.at( t.next( ) );
                std::string k = t.next( ), sc = t.next( );
                auto d = s->read< flatdata::MemoryDescriptor >( k.c_str( ), sc.c_str( ) );
                o.key( "get" );
                if ( !d ) o.null( ); else o.str( hex( d->char_ptr( ), d->size_in_bytes( ) ) );
            }
            else if ( c == "schemaof" )
            {
                auto s = st.at( t.next( ) );
                auto d = s->read_schema( t.next( ).c_str( ) );
                o.key( "schema" );
                if ( !d.data( ) ) o.null( ); else o.str( std::string( d.char_ptr( ), d.size_in_bytes( ) ) );
            }
            else if ( c == "exists" )
            {
                auto s = st[ t.next( ) ];
                o.key( "ok" ); o.boolean( s->exists( t.next( ).c_str( ) ) );
            }
            else if ( c == "par" ) { o.key( "par" ); par( line.substr( 3 ), o ); }
            else if ( extra && extra( c, t, o ) ) {}
            else { o.key( "err" ); o.str( "unknown command " + c ); }
        }
        catch ( const std::exception& e )
        {
            Out f;
            f.obj( ); f.key( "err" ); f.str( e.what( ) ); f.end( );
            return f.s;
        }
        o.end( );
        return o.s;
    }

    // Commands run by several threads: " @ticket command | @ticket command || ...".  A command starts once all
    // commands with lower tickets have started; it notes when it started and ended.  All of this is relaxed,
    // so that it orders nothing but the threads' progress.
    void par( const std::string& text, Out& o )
    {
        struct Cmd { uint64_t ticket; std::string line, out; uint64_t s = 0, e = 0; };
        std::vector< std::vector< Cmd > > progs( 1 );
        std::istringstream in( text );
        std::string w;
        while ( in >> w )
        {
            if ( w == "||" ) progs.emplace_back( );
            else if ( w[ 0 ] == '@' ) { progs.back( ).emplace_back( ); progs.back( ).back( ).ticket = to_u( w.substr( 1 ) ); }
            else if ( w != "|" ) { auto& l = progs.back( ).back( ).line; l += ( l.empty( ) ? "" : " " ) + w; }
        }
        std::atomic< uint64_t > turn{ 0 }, clock{ 0 };
        std::vector< Shell > shells;
        for ( size_t i = 0; i < progs.size( ); ++i ) shells.push_back( *this );
        std::vector< std::thread > threads;
        for ( size_t i = 0; i < progs.size( ); ++i )
            threads.emplace_back( [ &, i ] {
                for ( auto& c : progs[ i ] )
                {
                    while ( turn.load( std::memory_order_relaxed ) < c.ticket ) std::this_thread::yield( );
                    c.s = clock.fetch_add( 1, std::memory_order_relaxed );
                    turn.fetch_add( 1, std::memory_order_relaxed );
                    c.out = shells[ i ].exec( c.line );
                    c.e = clock.fetch_add( 1, std::memory_order_relaxed );
                }
            } );
        for ( auto& t : threads ) t.join( );
        o.list( );
        for ( size_t i = 0; i < progs.size( ); ++i )
        {
            o.list( );
            for ( auto& c : progs[ i ] )
            {
                o.obj( );
                o.key( "s" ); o.u( c.s );
                o.key( "e" ); o.u( c.e );
                o.key( "out" ); o.raw( c.out );
                o.end( );
            }
            o.end( );
            for ( auto& x : shells[ i ].st ) st.insert( x );
            for ( auto& x : shells[ i ].bs ) bs.insert( x );
            for ( auto& x : shells[ i ].gs ) gs.insert( x );
        }
        o.end( );
    }
};

inline int run( Extra extra = Extra( ) )
{
    std::cout.rdbuf( )->pubsetbuf( nullptr, 0 );
    Shell shell;
    shell.extra = extra;
    std::string line;
    while ( std::getline( std::cin, line ) ) std::cout << shell.exec( line ) << std::endl;
    return 0;
}
}  // namespace fd
