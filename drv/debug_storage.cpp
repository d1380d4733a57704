#include "files.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include "flut/system/debug_storage.hpp"
using namespace flut;
static std::vector< J > todo;
void begin() { todo.clear(); }
J observe() { return J::arr(); }
// the process whose debug output is looked at: a child that does the recorded calls and ends
static J run() {
	static int n = 0; char b[ 64 ]; snprintf( b, 64, "scratch-%d-%d", int( getpid() ), ++n ); mkdir( b, 0777 );
	pid_t p = fork();
	if ( p == 0 ) {
		if ( chdir( b ) != 0 ) _exit( 1 );
		for ( auto& c : todo ) {
			if ( c[ 0 ].s == "write" ) write_debug( c[ 1 ].text(), float( double( c[ 2 ].i ) / 4 ) );
			else set_debug_output( path( c[ 1 ].text() ) );
		}
		exit( 0 );
	}
	int st = 0; waitpid( p, &st, 0 );
	J r = J::arr(); std::vector< std::string > names;
	if ( DIR* d = opendir( b ) ) { while ( dirent* e = readdir( d ) ) if ( e->d_name[ 0 ] != '.' ) names.push_back( e->d_name ); closedir( d ); }
	std::sort( names.begin(), names.end() );
	for ( auto& f : names ) r.push( J::arr( { J::bytes( f ), J::bytes( read_file( std::string( b ) + "/" + f ) ) } ) );
	scratch::clear( b ); rmdir( b ); todo.clear();
	return WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ? ok( r ) : err();
}
J call( const J& c ) {
	if ( c[ 0 ].s == "exit" ) return run();
	if ( c[ 0 ].s != "write" && c[ 0 ].s != "output" ) unknown( c );
	todo.push_back( c ); return ok();
}
