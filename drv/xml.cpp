#include "tree.hpp"
#include "files.hpp"
typedef std::string S;
using flut::path;
static scratch tmp;
static S name( const J& i ) { return tmp( "f" + std::to_string( i.num() ) + ".xml" ); }
void begin() { scratch::clear( tmp.dir ); }
J observe() { J r = J::arr(); for ( int i = 1; i <= 2; ++i ) { struct stat s; r.push( stat( name( J( i ) ).c_str(), &s ) == 0 ); } return r; }
static J with_code( const S& g ) { flut::error_code ec; prop_node n = flut::load_xml( path( g ), &ec ); return J::arr( { ec.error(), show( n ) } ); }
J call( const J& c ) {
	const S& f = c[ 0 ].s; S g = tmp( "trip.xml" );
	if ( f == "save" ) { flut::save_xml( built( c[ 2 ] ), path( name( c[ 1 ] ) ) ); return ok(); }
	if ( f == "load" ) return ok( show( flut::load_xml( path( name( c[ 1 ] ) ) ) ) );
	if ( f == "loadany" ) return ok( show( flut::load_file( path( name( c[ 1 ] ) ) ) ) );
	if ( f == "loadec" ) return ok( with_code( name( c[ 1 ] ) ) );
	if ( f == "trip" ) { flut::save_xml( built( c[ 1 ] ), path( g ) ); return ok( show( flut::load_xml( path( g ) ) ) ); }
	if ( f == "xml" ) { write_file( g, c[ 4 ].text() ); J r = show( flut::load_xml( path( g ) ) ); J e = with_code( g ); S x, y; put( x, r ); put( y, e[ 1 ] ); return x == y && e[ 0 ].num() == 0 ? ok( r ) : none(); }
	if ( f == "cut" ) {
		write_file( g, c[ 3 ].text() );
		J r = guarded( [&]() { flut::load_xml( path( g ) ); return ok(); } ); if ( r[ 0 ].s != "err" ) return none();   // without an error code it throws
		return ok( with_code( g ) );
	}
	unknown( c );
}
