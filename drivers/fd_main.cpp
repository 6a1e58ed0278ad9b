#include "fd.h"
int main( ) { fd::register_all( ); return fd::run( ); }
