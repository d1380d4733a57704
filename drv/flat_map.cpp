#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/flat_map.hpp"
typedef flut::flat_map< std::string, int > map_t;
static map_t m;
void begin() { m = map_t(); }
J observe() {
	J j = J::arr();
	for ( auto& kv : m ) j.push( J::arr( { J::bytes( kv.first ), kv.second } ) );
	return j;
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	const map_t& cm = m;
	if ( f == "set" ) { m[ c[ 1 ].text() ] = c[ 2 ].num(); return ok(); }
	if ( f == "index" ) return ok( m[ c[ 1 ].text() ] );
	if ( f == "cindex" ) return ok( cm[ c[ 1 ].text() ] );
	if ( f == "at" ) return ok( m.at( c[ 1 ].text() ) );
	if ( f == "cat" ) return ok( cm.at( c[ 1 ].text() ) );
	if ( f == "atset" ) { m.at( c[ 1 ].text() ) = c[ 2 ].num(); return ok(); }
	if ( f == "find" ) { auto it = m.find( c[ 1 ].text() ); return it == m.end() ? none() : ok( J::arr( { int( it - m.begin() ), it->second } ) ); }
	if ( f == "cfind" ) { auto it = cm.find( c[ 1 ].text() ); return it == cm.end() ? none() : ok( J::arr( { int( it - cm.begin() ), it->second } ) ); }
	if ( f == "has" ) return ok( m.has_key( c[ 1 ].text() ) );
	if ( f == "count" ) return ok( cm.count( c[ 1 ].text() ) );
	if ( f == "size" ) return ok( J::arr( { cm.size(), cm.empty() } ) );
	if ( f == "erase" ) { // erase at position
		size_t n = c[ 1 ].num();
		if ( n >= m.size() ) return none();
		auto it = m.erase( m.begin() + n );
		return ok( int( it - m.begin() ) );
	}
	if ( f == "ends" ) { if ( m.empty() ) return none(); return ok( J::arr( { J::bytes( m.front().first ), m.front().second, J::bytes( m.back().first ), m.back().second } ) ); }
	if ( f == "clear" ) { m.clear(); return ok(); }
	if ( f == "copy" ) { std::string extra = "#"; while ( cm.find( extra ) != cm.end() ) extra += "#"; map_t t( m ); t[ extra ] = 99; m.clear(); map_t u; u = t; u.erase( u.find( extra ) ); m = u; return ok(); }
	unknown( c );
}
