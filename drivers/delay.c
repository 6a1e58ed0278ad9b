// LD_PRELOAD: a thread named "d<n>" waits n microseconds after opening a file for reading.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>

static int slow( int fd, int flags )
{
    char name[ 32 ] = "";
    int e = errno;
    if ( fd >= 0 && ( flags & O_ACCMODE ) == O_RDONLY && prctl( PR_GET_NAME, name ) == 0 && name[ 0 ] == 'd' && name[ 1 ] >= '0' && name[ 1 ] <= '9' )
        usleep( atoi( name + 1 ) );
    errno = e;
    return fd;
}
#define MODE( f ) mode_t mode = 0; if ( ( f ) & O_CREAT ) { va_list ap; va_start( ap, f ); mode = va_arg( ap, mode_t ); va_end( ap ); }
int open( const char* p, int f, ... ) { MODE( f ) return slow( syscall( SYS_openat, AT_FDCWD, p, f, mode ), f ); }
int open64( const char* p, int f, ... ) { MODE( f ) return slow( syscall( SYS_openat, AT_FDCWD, p, f | O_LARGEFILE, mode ), f ); }
int openat( int d, const char* p, int f, ... ) { MODE( f ) return slow( syscall( SYS_openat, d, p, f, mode ), f ); }
int openat64( int d, const char* p, int f, ... ) { MODE( f ) return slow( syscall( SYS_openat, d, p, f | O_LARGEFILE, mode ), f ); }
