#include "tree.hpp"
#include "files.hpp"
#include <sys/resource.h>
typedef std::string S;
using flut::path;
static scratch tmp;
static S name( const J& i ) { return tmp( "f" + std::to_string( i.num() ) + ".prop" ); }
void begin() { scratch::clear( tmp.dir ); }
J observe() { J r = J::arr(); for ( int i = 1; i <= 2; ++i ) { struct stat s; r.push( stat( name( J( i ) ).c_str(), &s ) == 0 ); } return r; }
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f == "save" ) return ok( flut::save_prop( built( c[ 2 ] ), path( name( c[ 1 ] ) ), c[ 3 ].num() != 0 ) );
	if ( f == "savelim" ) {
		prop_node n = built( c[ 2 ] ); signal( SIGXFSZ, SIG_IGN ); struct rlimit l, m; getrlimit( RLIMIT_FSIZE, &l ); m = l; m.rlim_cur = rlim_t( c[ 4 ].i ); setrlimit( RLIMIT_FSIZE, &m );
		bool r = flut::save_prop( n, path( name( c[ 1 ] ) ), c[ 3 ].num() != 0 ); setrlimit( RLIMIT_FSIZE, &l ); if ( !r ) unlink( name( c[ 1 ] ).c_str() ); return ok( r );
	}
	if ( f == "savedef" ) return ok( flut::save_prop( built( c[ 2 ] ), path( name( c[ 1 ] ) ) ) );
	if ( f == "savebad" ) return ok( flut::save_prop( prop_node( S( "v" ) ), path( tmp( "no-such-folder/x.prop" ) ) ) );
	if ( f == "load" ) return ok( show( flut::load_prop( path( name( c[ 1 ] ) ) ) ) );
	if ( f == "loadany" ) return ok( show( flut::load_file( path( name( c[ 1 ] ) ) ) ) );
	if ( f == "parse" ) { struct stat s; if ( stat( name( c[ 1 ] ).c_str(), &s ) ) return err(); S t = read_file( name( c[ 1 ] ) ); prop_node n( t.c_str() ); return ok( show( n ) ); }
	if ( f == "loadec" ) { flut::error_code ec; prop_node n = flut::load_prop( path( name( c[ 1 ] ) ), &ec ); return ok( J::arr( { ec.error(), show( n ) } ) ); }
	if ( f == "again" ) { prop_node n = flut::load_prop( path( name( c[ 1 ] ) ) ); return flut::save_prop( n, path( name( c[ 2 ] ) ), c[ 3 ].num() != 0 ) ? ok() : none(); }
	if ( f == "remove" ) { unlink( name( c[ 1 ] ).c_str() ); return ok(); }
	if ( f == "trip" ) {
		J r = J::arr(); S g = tmp( "trip.prop" ); prop_node n = built( c[ 1 ] );
		for ( int k = 1; k >= 0; --k ) { if ( !flut::save_prop( n, path( g ), k ) ) return none(); r.push( show( flut::load_prop( path( g ) ) ) ); }
		unlink( g.c_str() ); return ok( r );
	}
	unknown( c );
}
