#include "common.hpp"
#include "flut/string_tools.hpp"
#include "flut/prop_node.hpp"
#include "flut/pattern_matcher.hpp"
using namespace flut;
void begin() {}
J observe() { return 0; }
static J run( const pattern_matcher& m, const J& strs ) {
	J r = J::arr(); std::vector< std::string > v;
	for ( auto& s : strs.a ) v.push_back( s.text() );
	for ( auto& s : v ) {
		bool a = m( s ); const std::string* p = &s; bool b = m( p ); bool d = m( v.begin() + ( p - v.data() ) );
		r.push( a == b && a == d ? int( a ) : 2 );
	}
	return ok( J::arr( { r, int( m.find_match( v.begin(), v.end() ) - v.begin() ) } ) );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "match" ) return ok( pattern_match( c[ 1 ].text(), c[ 2 ].text() ) );
	if ( f == "matcher" ) return run( pattern_matcher( c[ 1 ].text(), c[ 2 ].text().c_str() ), c[ 3 ] );
	if ( f == "matcherc" ) return run( pattern_matcher( c[ 1 ].text().c_str(), c[ 2 ].text().c_str() ), c[ 3 ] );
	if ( f == "matcherd" ) return run( pattern_matcher( c[ 1 ].text() ), c[ 2 ] );
	if ( f == "matchercd" ) return run( pattern_matcher( c[ 1 ].text().c_str() ), c[ 2 ] );
	if ( f == "matcherpn" ) { prop_node pn; pn.set( "p", c[ 1 ].text() ); return run( pn.get< pattern_matcher >( "p" ), c[ 2 ] ); }
	unknown( c );
}
