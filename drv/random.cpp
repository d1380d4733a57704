#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/math/random.hpp"
using namespace flut;
using math::random_number_generator;
static std::unique_ptr< random_number_generator > gens[ 4 ];
static random_number_generator& gen( const J& g ) { return g.i == 0 ? random_number_generator::global_instance() : *gens[ g.i ]; }
void begin() { static const random_number_generator at_start = random_number_generator::global_instance(); for ( auto& g : gens ) g.reset(); random_number_generator::global_instance() = at_start; }
J observe() { return J::arr(); }
static unsigned seed_of( const J& s ) { return unsigned( s[ 0 ].i ) << 16 | unsigned( s[ 1 ].i ); }
template< typename T > static J bits( T v ) { J r = J::arr(); uint16_t b[ sizeof( T ) / 2 ]; memcpy( b, &v, sizeof v ); for ( auto x : b ) r.push( int( x ) ); return r; }
template< typename T > static J draw( const J& c ) {
	const std::string& f = c[ 0 ].s; T a = T( c[ 3 ].i ) / 64, b = T( c[ 4 ].i ) / 64, v;
	bool normal = f == "norm" || f == "randnorm";
	if ( f == "uni" ) v = gen( c[ 1 ] ).uni( a, b );
	else if ( f == "unit" ) v = gen( c[ 1 ] ).template uni< T >();
	else if ( f == "norm" ) v = gen( c[ 1 ] ).norm( a, b );
	else if ( f == "rand" ) v = rand_uni( a, b );
	else v = rand_norm( a, b );
	double part = normal ? ( double( v ) - a ) / b : ( double( v ) - a ) / ( double( b ) - a );
	bool in = normal ? std::isfinite( v ) : v >= a && v <= b;
	outcome() = { bits( v ), std::isfinite( part ) && std::fabs( part ) < 1e4 ? (long long)std::floor( part * 4096 ) : -100000000LL, in };
	return ok();
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "spread" ) {
		random_number_generator g( seed_of( c[ 1 ] ) ); double a = c[ 2 ].i / 64.0, b = c[ 3 ].i / 64.0; int n[ 10 ] = {}, all = 4000, hit = 0; bool even = true;
		for ( int k = 0; k < all; ++k ) { double v = c[ 4 ].i ? g.uni< float >( float( a ), float( b ) ) : g.uni< double >( a, b ); int d = int( ( v - a ) / ( b - a ) * 10 ); even = even && v >= a && v <= b; if ( d >= 0 && d <= 10 ) ++n[ d == 10 ? 9 : d ]; }
		for ( int x : n ) { hit += x > 0; even = even && x < all / 5; }
		return ok( J::arr( { hit, even } ) );
	}
	size_t g = size_t( c[ 1 ].i );
	if ( f == "new" ) { gens[ g ].reset( new random_number_generator( seed_of( c[ 2 ] ) ) ); return ok(); }
	if ( f == "default" ) { gens[ g ].reset( new random_number_generator() ); return ok(); }
	if ( f == "seed" ) { gen( c[ 1 ] ).seed( seed_of( c[ 2 ] ) ); return ok(); }
	if ( f == "copy" ) { auto* p = new random_number_generator( gen( c[ 1 ] ) ); gens[ c[ 2 ].i ].reset( p ); return ok(); }
	if ( f == "skip" ) { auto& x = gen( c[ 1 ] ); for ( int k = atoi( c[ 2 ].s.c_str() ); k > 0; --k ) x.uni< double >(); return ok(); }
	if ( f == "assign" ) { gen( c[ 2 ] ) = gen( c[ 1 ] ); return ok(); }
	if ( f == "uni" || f == "unit" || f == "norm" || f == "rand" || f == "randnorm" ) return c[ 2 ].s == "f" ? draw< float >( c ) : draw< double >( c );
	unknown( c );
}
