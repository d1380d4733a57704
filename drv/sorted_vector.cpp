#include "common.hpp"
#include "flut/sorted_vector.hpp"
struct E { int k = 0, t = 0; E() {} E( int a, int b ) : k( a ), t( b ) {} bool operator<( const E& o ) const { return k < o.k; } bool operator==( const E& o ) const { return k == o.k; } };
typedef flut::sorted_vector< E > vec_t;
static vec_t v;
void begin() { v = vec_t(); }
J observe() { J r = J::arr(); for ( auto& e : v ) r.push( J::arr( { e.k, e.t } ) ); return r; }
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	const vec_t& cv = v;
	if ( f == "insert" ) { auto it = v.insert( E( c[ 1 ].num(), c[ 2 ].num() ) ); return ok( int( it - v.begin() ) ); }
	if ( f == "find" ) { auto it = v.find( E( c[ 1 ].num(), -5 ) ); return it == v.end() ? none() : ok( J::arr( { int( it - v.begin() ), it->t } ) ); }
	if ( f == "cfind" ) { auto it = cv.find( E( c[ 1 ].num(), -5 ) ); return it == cv.cend() ? none() : ok( J::arr( { int( it - cv.cbegin() ), it->t } ) ); }
	if ( f == "erase" ) { size_t n = c[ 1 ].num(); if ( n >= v.size() ) return none(); return ok( int( v.erase( v.begin() + n ) - v.begin() ) ); }
	if ( f == "erange" ) { size_t a = c[ 1 ].num(), b = c[ 2 ].num(); if ( a > b || b > v.size() ) return none(); return ok( int( v.erase( v.begin() + a, v.begin() + b ) - v.begin() ) ); }
	if ( f == "ends" ) { if ( v.empty() ) return none(); return ok( J::arr( { J::arr( { v.front().k, v.front().t } ), J::arr( { v.back().k, v.back().t } ) } ) ); }
	if ( f == "size" ) return ok( J::arr( { cv.size(), cv.empty() } ) );
	if ( f == "clear" ) { v.clear(); return ok(); }
	if ( f == "copy" ) { vec_t w( v ); v.clear(); vec_t x; x = w; w.insert( E( 0, 0 ) ); v = x; return ok(); }
	unknown( c );
}
