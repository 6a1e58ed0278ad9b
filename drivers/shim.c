// LD_PRELOAD: records (and can stop the process before) the n-th operation on files below $FD_ROOT.
// Log: one line per operation, written with raw system calls to $FD_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static char* names[ MAXFD ];
static int append_[ MAXFD ];
static char root[ PATH_MAX ];
static size_t root_len;
static int log_fd = -1;
static long ops, kill_at = -1;
static long max_hex = 1 << 20;

void shim_set( const char* r, const char* log, long k )
{
    root_len = 0;
    if ( r ) { strncpy( root, r, sizeof( root ) - 1 ); root_len = strlen( root ); }
    if ( log_fd >= 0 ) syscall( SYS_close, log_fd );
    log_fd = -1;
    if ( log && *log )
    {
        int fd = syscall( SYS_openat, AT_FDCWD, log, O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0644 );
        log_fd = fcntl( fd, F_DUPFD_CLOEXEC, 900 );
        syscall( SYS_close, fd );
    }
    ops = 0;
    kill_at = k;
}
__attribute__( ( constructor ) ) static void init( void )
{
    const char* k = getenv( "FD_KILL" );
    if ( getenv( "FD_MAXHEX" ) ) max_hex = atol( getenv( "FD_MAXHEX" ) );
    if ( getenv( "FD_ROOT" ) ) shim_set( getenv( "FD_ROOT" ), getenv( "FD_LOG" ), k ? atol( k ) : -1 );
}
static void emit( const char* b, size_t n )
{
    while ( log_fd >= 0 && n > 0 )
    {
        long w = syscall( SYS_write, log_fd, b, n );
        if ( w <= 0 ) return;
        b += w;
        n -= w;
    }
}
static int under( const char* p ) { return root_len && p && strncmp( p, root, root_len ) == 0 && ( p[ root_len ] == '/' || p[ root_len ] == 0 ); }
static void point( void )
{
    if ( kill_at >= 0 && ops == kill_at ) syscall( SYS_exit_group, 137 );
    ops++;
}
static void note( const char* op, const char* path, long at )
{
    char line[ PATH_MAX + 64 ];
    int n = snprintf( line, sizeof line, "%s %s %ld ", op, under( path ) && path[ root_len ] ? path + root_len + 1 : ".", at );
    emit( line, n );
}
static void hexout( const unsigned char* b, size_t n )
{
    static const char* d = "0123456789abcdef";
    char buf[ 4096 ];
    size_t k = 0;
    char pre[ 40 ];
    emit( pre, snprintf( pre, sizeof pre, "%zu ", n ) );
    if ( (long)n > max_hex ) n = 0;
    for ( size_t i = 0; i < n; ++i )
    {
        buf[ k++ ] = d[ b[ i ] >> 4 ];
        buf[ k++ ] = d[ b[ i ] & 15 ];
        if ( k >= sizeof buf - 2 ) { emit( buf, k ); k = 0; }
    }
    emit( buf, k );
}
static void opened( int fd, const char* path, int flags, int existed )
{
    if ( fd < 0 || fd >= MAXFD || !under( path ) ) return;
    free( names[ fd ] );
    names[ fd ] = strdup( path );
    append_[ fd ] = ( flags & O_APPEND ) != 0;
    if ( ( flags & O_TRUNC ) || !existed ) { note( "create", path, 0 ); emit( "0 \n", 3 ); }
}
static int writing( int flags ) { return ( flags & O_ACCMODE ) != O_RDONLY || ( flags & ( O_CREAT | O_TRUNC ) ); }

static int do_open( int dir, const char* path, int flags, mode_t mode )
{
    struct stat st;
    int mine = under( path ) && writing( flags ), existed = 1;
    if ( mine ) { existed = stat( path, &st ) == 0; point( ); }
    int fd = syscall( SYS_openat, dir, path, flags, mode );
    if ( mine ) { int e = errno; opened( fd, path, flags, existed ); errno = e; }
    return fd;
}
#define MODE( f ) mode_t mode = 0; if ( ( f ) & O_CREAT ) { va_list ap; va_start( ap, f ); mode = va_arg( ap, mode_t ); va_end( ap ); }
int open( const char* p, int f, ... ) { MODE( f ) return do_open( AT_FDCWD, p, f, mode ); }
int open64( const char* p, int f, ... ) { MODE( f ) return do_open( AT_FDCWD, p, f | O_LARGEFILE, mode ); }
int openat( int d, const char* p, int f, ... ) { MODE( f ) return do_open( d, p, f, mode ); }
int openat64( int d, const char* p, int f, ... ) { MODE( f ) return do_open( d, p, f | O_LARGEFILE, mode ); }
int creat( const char* p, mode_t m ) { return do_open( AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m ); }

static FILE* do_fopen( const char* which, const char* p, const char* m )
{
    FILE* ( *real )( const char*, const char* ) = dlsym( RTLD_NEXT, which );
    int w = m[ 0 ] != 'r' || strchr( m, '+' );
    struct stat st;
    int mine = under( p ) && w, existed = 1;
    if ( mine ) { existed = stat( p, &st ) == 0; point( ); }
    FILE* f = real( p, m );
    if ( mine && f ) opened( fileno( f ), p, m[ 0 ] == 'w' ? O_TRUNC : m[ 0 ] == 'a' ? O_APPEND : 0, existed );
    return f;
}
FILE* fopen( const char* p, const char* m ) { return do_fopen( "fopen", p, m ); }
FILE* fopen64( const char* p, const char* m ) { return do_fopen( "fopen64", p, m ); }

static int mine( int fd ) { return fd >= 0 && fd < MAXFD && names[ fd ]; }
static long where( int fd ) { return append_[ fd ] ? lseek( fd, 0, SEEK_END ) : lseek( fd, 0, SEEK_CUR ); }
static void wrote( int fd, long at, const void* b, long n ) { note( "write", names[ fd ], at ); hexout( b, n ); emit( "\n", 1 ); }

ssize_t write( int fd, const void* b, size_t n )
{
    if ( !mine( fd ) ) return syscall( SYS_write, fd, b, n );
    point( );
    long at = where( fd );
    ssize_t r = syscall( SYS_write, fd, b, n );
    if ( r > 0 ) wrote( fd, at, b, r );
    return r;
}
ssize_t pwrite( int fd, const void* b, size_t n, off_t at )
{
    if ( !mine( fd ) ) return syscall( SYS_pwrite64, fd, b, n, at );
    point( );
    ssize_t r = syscall( SYS_pwrite64, fd, b, n, at );
    if ( r > 0 ) wrote( fd, at, b, r );
    return r;
}
ssize_t pwrite64( int fd, const void* b, size_t n, off_t at ) { return pwrite( fd, b, n, at ); }
ssize_t writev( int fd, const struct iovec* v, int c )
{
    if ( !mine( fd ) ) return syscall( SYS_writev, fd, v, c );
    point( );
    long at = where( fd );
    ssize_t r = syscall( SYS_writev, fd, v, c );
    if ( r > 0 )
    {
        size_t left = r, k = 0;
        unsigned char* all = malloc( left );
        for ( int i = 0; i < c && left; ++i )
        {
            size_t m = v[ i ].iov_len < left ? v[ i ].iov_len : left;
            memcpy( all + k, v[ i ].iov_base, m );
            k += m;
            left -= m;
        }
        wrote( fd, at, all, r );
        free( all );
    }
    return r;
}
static int do_trunc( int fd, off_t n )
{
    if ( mine( fd ) ) point( );
    int r = syscall( SYS_ftruncate, fd, n );
    if ( mine( fd ) && r == 0 ) { note( "truncate", names[ fd ], n ); emit( "0 \n", 3 ); }
    return r;
}
int ftruncate( int fd, off_t n ) { return do_trunc( fd, n ); }
int ftruncate64( int fd, off_t n ) { return do_trunc( fd, n ); }
int mkdir( const char* p, mode_t m )
{
    if ( under( p ) ) point( );
    return syscall( SYS_mkdirat, AT_FDCWD, p, m );
}
static int do_unlink( const char* p )
{
    if ( under( p ) ) point( );
    int r = syscall( SYS_unlinkat, AT_FDCWD, p, 0 );
    if ( under( p ) && r == 0 ) { note( "unlink", p, 0 ); emit( "0 \n", 3 ); }
    return r;
}
int unlink( const char* p ) { return do_unlink( p ); }
int rename( const char* a, const char* b )
{
    if ( under( a ) || under( b ) ) point( );
    int r = syscall( SYS_renameat, AT_FDCWD, a, AT_FDCWD, b );
    if ( r == 0 && under( b ) )
    {
        note( "rename", b, 0 );
        emit( "0 ", 2 );
        emit( a + root_len + 1, strlen( a + root_len + 1 ) );
        emit( "\n", 1 );
    }
    return r;
}
static void closing( int fd ) { if ( mine( fd ) ) { free( names[ fd ] ); names[ fd ] = 0; } }
int close( int fd ) { closing( fd ); return syscall( SYS_close, fd ); }
int fclose( FILE* f )
{
    static int ( *real )( FILE* );
    if ( !real ) real = dlsym( RTLD_NEXT, "fclose" );
    closing( fileno( f ) );
    return real( f );
}
