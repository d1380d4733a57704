#include "common.hpp"
#include "flut/string_tools.hpp"
using namespace flut;
void begin() {}
J observe() { return 0; }
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "enc" ) return ok( J::bytes( encode_char( char( c[ 1 ].num() ) ) ) );
	std::string s = c[ 1 ].text();
	if ( f == "dec" ) {
		std::unique_ptr< char[] > buf( new char[ s.size() ] ); // exact size: reading outside is caught
		std::copy( s.begin(), s.end(), buf.get() );
		int len = -77;
		char r = decode_char( buf.get(), s.size(), &len );
		return ok( J::arr( { int( (unsigned char)r ), len } ) );
	}
	if ( f == "quoted" ) return ok( J::bytes( flut::quoted( s ) ) );
	if ( f == "needs" ) return ok( needs_quotes( s ) );
	if ( f == "tryq" ) return ok( J::bytes( try_quoted( s ) ) );
	if ( f == "tryunq" ) return ok( J::bytes( try_unquoted( s ) ) );
	if ( f == "trip" ) return ok( J::arr( { J::bytes( try_unquoted( flut::quoted( s ) ) ), J::bytes( try_unquoted( try_quoted( s ) ) ) } ) );
	unknown( c );
}
