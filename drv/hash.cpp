#include "common.hpp"
#include "flut/hash.hpp"
void begin() {}
J observe() { return 0; }
static J H( flut::hash_t h ) { J r = J::arr(); for ( int i = 0; i < 8; ++i ) { r.push( int( h & 255 ) ); h >>= 8; } return r; }
// evaluated by the compiler
template< flut::hash_t V > struct fixed { static flut::hash_t get() { return V; } };
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "literals" ) {
		J r = J::arr();
		r.push( J::arr( { H( fixed< ""_hash >::get() ), H( fixed< flut::hash_constexpr( "" ) >::get() ) } ) );
		r.push( J::arr( { H( fixed< "a"_hash >::get() ), H( fixed< flut::hash_constexpr( "a" ) >::get() ) } ) );
		r.push( J::arr( { H( fixed< "appel"_hash >::get() ), H( fixed< flut::hash_constexpr( "appel" ) >::get() ) } ) );
		r.push( J::arr( { H( fixed< "peer"_hash >::get() ), H( fixed< flut::hash_constexpr( "peer" ) >::get() ) } ) );
		r.push( J::arr( { H( fixed< "banaan"_hash >::get() ), H( fixed< flut::hash_constexpr( "banaan" ) >::get() ) } ) );
		r.push( J::arr( { H( fixed< "Zz09_ ~"_hash >::get() ), H( fixed< flut::hash_constexpr( "Zz09_ ~" ) >::get() ) } ) );
		return ok( r );
	}
	std::string s = c[ 1 ].text();
	if ( f == "hash" ) return ok( J::arr( { H( flut::hash( s.c_str() ) ), H( flut::hash( s ) ), H( flut::hash_constexpr( s.c_str() ) ), H( operator""_hash( s.c_str(), s.size() ) ) } ) );
	if ( f == "parts" ) {
		std::string t = c[ 2 ].text(), st = s + t;
		return ok( J::arr( { H( flut::hash_constexpr( t.c_str(), flut::hash( s ) ) ), H( flut::hash_constexpr( t.c_str(), flut::hash_constexpr( s.c_str() ) ) ), H( flut::hash( st ) ), H( flut::hash_constexpr( st.c_str() ) ) } ) );
	}
	unknown( c );
}
