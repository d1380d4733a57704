#include "common.hpp"
#include "flut/system/version.hpp"
using namespace flut;
#undef major
#undef minor
void begin() {}
J observe() { return J::arr(); }
static int num( const J& n ) { return std::stoi( n.text() ); }
static version make( const J& v ) { return version( num( v[ 0 ] ), num( v[ 1 ] ), num( v[ 2 ] ), num( v[ 3 ] ), v[ 4 ].text() ); }
static J show( const version& v ) { J r = J::arr(); for ( int n : { v.major, v.minor, v.patch, v.build } ) r.push( J::bytes( std::to_string( n ) ) ); r.push( J::bytes( v.postfix ) ); return r; }
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "make" ) return ok( J::bytes( make( c[ 1 ] ).to_str() ) );
	if ( f == "make3" ) return ok( J::bytes( version( num( c[ 1 ][ 0 ] ), num( c[ 1 ][ 1 ] ), num( c[ 1 ][ 2 ] ) ).to_str() ) );
	if ( f == "stream" ) { std::ostringstream s; s << make( c[ 1 ] ); return ok( J::bytes( s.str() ) ); }
	if ( f == "read" ) return ok( show( version( c[ 1 ].text() ) ) );
	if ( f == "again" ) return ok( show( version( make( c[ 1 ] ).to_str() ) ) );
	unknown( c );
}
