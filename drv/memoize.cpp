#include "common.hpp"
#include "flut/memoize.hpp"
using flut::memoize;
typedef std::string S;
static std::vector< J > calls; static int next_, armed; static std::vector< int > fibs;
static int invoke( J args ) {
	calls.push_back( args );
	if ( armed > 0 && --armed == 0 ) throw std::runtime_error( "armed" );
	return next_++;
}
struct set_t {
	memoize< int( int, int ) > a{ []( int x, int y ) { return invoke( J::arr( { x, y } ) ); } }, b = a;
	memoize< S( S ) > c{ []( S s ) { return std::to_string( invoke( J::arr( { J::bytes( s ) } ) ) ); } }, d = c;
	memoize< int() > e{ []() { return invoke( J::arr() ); } };
	memoize< int( S, S ) > f{ []( S x, S y ) { return invoke( J::arr( { J::bytes( x ), J::bytes( y ) } ) ); } };
	memoize< long( S, int, double ) > g{ []( S x, int y, double z ) { return long( invoke( J::arr( { J::bytes( x ), y, int( z * 4 ) } ) ) ); } };
	memoize< int( const S& ) > h{ []( const S& s ) { return invoke( J::arr( { J::bytes( s ) } ) ); } };
	memoize< long( int ) > fib{ [this]( int n ) -> long { fibs.push_back( n ); if ( n < 2 ) return n; long p = fib( n - 1 ); long q = fib( n - 2 ); return p + q; } };
};
static std::unique_ptr< set_t > s;
void begin() { calls.clear(); next_ = 1; armed = 0; fibs.clear(); s.reset( new set_t ); }
J observe() { return J::arr( { calls.size(), calls.empty() ? J::arr() : calls.back(), fibs.size(), fibs.empty() ? -1 : fibs.back() } ); }
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f == "call" ) {
		const J& a = c[ 2 ];
		switch ( c[ 1 ].num() ) {
		case 1: return ok( s->a( a[ 0 ].num(), a[ 1 ].num() ) );
		case 2: return ok( s->b( a[ 0 ].num(), a[ 1 ].num() ) );
		case 3: return ok( atoi( s->c( a[ 0 ].text() ).c_str() ) );
		case 4: return ok( atoi( s->d( a[ 0 ].text() ).c_str() ) );
		case 5: return ok( s->e() );
		case 6: return ok( s->f( a[ 0 ].text(), a[ 1 ].text() ) );
		case 7: return ok( s->g( a[ 0 ].text(), a[ 1 ].num(), a[ 2 ].num() / 4.0 ) );
		case 8: return ok( s->h( a[ 0 ].text() ) );
		}
	}
	if ( f == "arm" ) { armed = c[ 1 ].num(); return ok(); }
	if ( f == "reset" ) { set_t t; switch ( c[ 1 ].num() ) { case 1: s->a = t.a; break; case 2: s->b = t.b; break; case 3: s->c = t.c; break; case 4: s->d = t.d; break; case 5: s->e = t.e; break; case 6: s->f = t.f; break; case 7: s->g = t.g; break; case 8: s->h = t.h; break; } return ok(); }
	if ( f == "copy" ) { int k = c[ 1 ].num() * 10 + c[ 2 ].num(); if ( k == 12 ) s->a = s->b; else if ( k == 21 ) s->b = s->a; else if ( k == 34 ) s->c = s->d; else if ( k == 43 ) s->d = s->c; else unknown( c ); return ok(); }
	if ( f == "fib" ) return ok( s->fib( c[ 1 ].num() ) );
	unknown( c );
}
