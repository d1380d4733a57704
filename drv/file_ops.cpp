// Runs inside a scratch folder as an unprivileged user.
#include "common.hpp"
#include "files.hpp"
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/resource.h>
#include "flut/filesystem.hpp"
typedef std::string S;
using flut::path;
static S root;
static int root_fd = -1;
static int max_size = -1;
static bool less_name( const S& a, const S& b ) { return std::lexicographical_compare( a.begin(), a.end(), b.begin(), b.end(), []( unsigned char x, unsigned char y ) { return x < y; } ); }
static std::vector< S > names( const S& d ) { std::vector< S > r; if ( DIR* p = opendir( d.c_str() ) ) { while ( dirent* e = readdir( p ) ) { S n = e->d_name; if ( n != "." && n != ".." ) r.push_back( n ); } closedir( p ); } std::sort( r.begin(), r.end(), less_name ); return r; }
static void clean( const S& d ) { for ( auto& n : names( d ) ) { S f = d + "/" + n; struct stat s; if ( lstat( f.c_str(), &s ) == 0 && S_ISDIR( s.st_mode ) ) { clean( f ); rmdir( f.c_str() ); } else unlink( f.c_str() ); } }
// long contents are written by rule and shown by the rule's number and their length
static S by_rule( int s, size_t n ) { S t( n, 0 ); for ( size_t i = 0; i < n; ++i ) t[ i ] = char( ( i * 7 + i / 251 + s ) % 256 ); return t; }
static J pack( const S& t ) {
	if ( t.size() <= 22000 ) return J::bytes( t );
	int s = (unsigned char)t[ 0 ]; if ( t == by_rule( s, t.size() ) ) return J::arr( { -1, s, (long long)t.size() } );
	return J::arr( { -2, (long long)t.size() } );
}
static void show( const S& d, const J& where, J& out ) {
	for ( auto& n : names( d ) ) {
		S f = d + "/" + n; struct stat s; J w = where; w.push( J::bytes( n ) );
		if ( lstat( f.c_str(), &s ) ) continue;
		if ( S_ISDIR( s.st_mode ) ) { out.push( J::arr( { w, J::arr( { "dir" } ) } ) ); show( f, w, out ); }
		else if ( S_ISSOCK( s.st_mode ) ) out.push( J::arr( { w, J::arr( { "socket" } ) } ) );
		else out.push( J::arr( { w, J::arr( { "file", pack( read_file( f ) ) } ) } ) );
	}
}
static S here() { char b[ 8192 ]; if ( !getcwd( b, sizeof b ) ) _exit( 99 ); return b; }
static void set_limit( long n ) { struct rlimit r; getrlimit( RLIMIT_FSIZE, &r ); r.rlim_cur = n < 0 ? r.rlim_max : rlim_t( n ); setrlimit( RLIMIT_FSIZE, &r ); }
void begin() {
	if ( root_fd < 0 ) {
		auto* t = new scratch;
		if ( chdir( t->dir.c_str() ) ) _exit( 99 );
		if ( getuid() == 0 ) { if ( chown( ".", 65534, 65534 ) || setgid( 65534 ) || setuid( 65534 ) ) _exit( 99 ); }
		root_fd = open( ".", O_RDONLY | O_DIRECTORY ); root = here();
		signal( SIGXFSZ, SIG_IGN );
	}
	if ( fchdir( root_fd ) ) _exit( 99 );
	set_limit( -1 );
	clean( "." ); max_size = -1;
}

J observe() { S w = here(); int back = open( ".", O_RDONLY | O_DIRECTORY ); if ( fchdir( root_fd ) ) _exit( 99 ); J r = J::arr(); show( ".", J::arr(), r ); if ( fchdir( back ) ) _exit( 99 ); close( back ); return r; }
// the limit holds only while flut runs
struct limited { limited() { if ( max_size >= 0 ) set_limit( max_size ); } ~limited() { set_limit( -1 ); } };
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f == "limit" ) { max_size = c[ 1 ].num(); return ok(); }
	if ( f == "pwd" ) { S p = flut::current_path().str(); J r = J::arr(); if ( p.compare( 0, root.size(), root ) ) return ok( J::bytes( p ) ); std::stringstream s( p.substr( root.size() ) ); S n; while ( std::getline( s, n, '/' ) ) if ( !n.empty() ) r.push( J::bytes( n ) ); return ok( r ); }
	S p = c[ 1 ].text();
	if ( f == "home" ) { setenv( "HOME", p.c_str(), 1 ); return ok( J::arr( { J::bytes( flut::get_config_folder().str() ), J::bytes( flut::get_documents_folder().str() ) } ) ); }
	if ( f == "write" ) { write_file( p, c[ 2 ].text() ); return ok(); }
	if ( f == "writebig" ) { write_file( p, by_rule( c[ 2 ].num(), c[ 3 ].num() ) ); return ok(); }
	if ( f == "socket" ) { struct sockaddr_un a; memset( &a, 0, sizeof a ); a.sun_family = AF_UNIX; if ( p.size() >= sizeof a.sun_path ) _exit( 98 ); strcpy( a.sun_path, p.c_str() ); int s = socket( AF_UNIX, SOCK_STREAM, 0 ); if ( s < 0 || bind( s, (sockaddr*)&a, sizeof a ) ) _exit( 97 ); close( s ); return ok(); }
	limited lim;
	if ( f == "load" ) return ok( pack( flut::load_string( path( p ) ) ) );
	if ( f == "loadec" ) { flut::error_code ec; S t = flut::load_string( path( p ), &ec ); return ok( J::arr( { ec.error(), pack( t ) } ) ); }
	if ( f == "copy" ) return ok( flut::copy_file( path( p ), path( c[ 2 ].text() ), c[ 3 ].num() != 0 ) );
	if ( f == "remove" ) return ok( flut::remove( path( p ) ) );
	if ( f == "exists" ) return ok( flut::exists( path( p ) ) );
	if ( f == "fileexists" ) return ok( flut::file_exists( path( p ) ) );
	if ( f == "folderexists" ) return ok( flut::folder_exists( path( p ) ) );
	if ( f == "mkdirs" ) return ok( flut::create_directories( path( p ) ) );
	if ( f == "cd" ) { flut::current_path( path( p ) ); return ok(); }
	unknown( c );
}
