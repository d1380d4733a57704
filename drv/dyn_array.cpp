#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/system/assert.hpp"
#include "flut/dynarray.hpp"
struct V { int v = 0; V( int x = 0 ) : v( x ) {} };
typedef flut::dynarray< V > arr;
static arr s[ 4 ];
void begin() { for ( auto& x : s ) x = arr(); }
J observe() { J r = J::arr(); for ( int i = 1; i <= 3; ++i ) { J e = J::arr(); const arr& c = s[ i ]; for ( auto& x : c ) e.push( x.v ); if ( c.size() != e.size() || c.cend() - c.cbegin() != int( e.size() ) ) e.push( -99 ); r.push( e ); } return r; }
J call( const J& c ) {
	const std::string& f = c[ 0 ].s; arr& x = s[ c[ 1 ].num() ]; const arr& cx = x;
	if ( f == "reset" ) { x = arr(); return ok(); }
	int n = c[ 2 ].num();
	if ( f == "new" ) { x = arr( size_t( n ) ); return ok(); }
	if ( f == "newv" ) { x = arr( size_t( n ), V( c[ 3 ].num() ) ); return ok(); }
	if ( f == "set" ) { if ( size_t( n ) >= x.size() ) return none(); x[ n ] = V( c[ 3 ].num() ); return ok(); }
	if ( f == "dataset" ) { if ( size_t( n ) >= x.size() ) return none(); x.data()[ n ] = V( c[ 3 ].num() ); return ok(); }
	if ( f == "atset" ) { x.at( n ) = V( c[ 3 ].num() ); return ok(); }
	if ( f == "get" ) return size_t( n ) < x.size() ? ok( x[ n ].v ) : none();
	if ( f == "cget" ) return size_t( n ) < cx.size() ? ok( cx[ n ].v + cx.data()[ n ].v - x.begin()[ n ].v ) : none();
	if ( f == "at" ) return ok( x.at( n ).v );
	if ( f == "cat" ) return ok( cx.at( n ).v );
	if ( f == "fill" ) { x.assign( V( n ) ); return ok(); }
	arr& y = s[ n ];
	if ( f == "copy" ) { x = y; return ok(); }
	if ( f == "copyc" ) { arr t( y ); x = std::move( t ); return ok(); }
	if ( f == "move" ) { x = std::move( y ); return ok(); }
	if ( f == "movec" ) { if ( &x == &y ) { arr t( std::move( x ) ); x = std::move( t ); return ok(); } arr t( std::move( y ) ); x = std::move( t ); return ok(); }
	if ( f == "swap" ) { std::swap( x, y ); return ok(); }
	unknown( c );
}
