#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/filter.hpp"
#include "flut/math/delta.hpp"
#include "flut/math/average.hpp"
#include "flut/math/delayer.hpp"
#include <complex>
using namespace flut;
static const double unit = 1.0 / 64; // seconds per unit of time
static J exact( double v ) { double r = std::nearbyint( v ); return std::fabs( v - r ) < 1e-6 && std::fabs( r ) < 2e9 ? J( (long long)r ) : J( -1999999999LL ); }
struct object { virtual ~object() {} virtual object* copy() const = 0; virtual J use( const J& c ) = 0; };
template< typename D > struct base : object { object* copy() const override { return new D( static_cast< const D& >( *this ) ); } };
template< typename T, int N > struct velocity_of { static J get( const iir_filter< T, N >& f ) { return exact( f.velocity() ); } };
template< typename T > struct velocity_of< T, 1 > { static J get( const iir_filter< T, 1 >& ) { return 0; } };
template< typename T, int N > struct filter_o : base< filter_o< T, N > > {
	iir_filter< T, N > f;
	filter_o( const J& c ) { f.b0_ = T( c[ 2 ].i ); for ( int i = 0; i < N; ++i ) { f.b_[ i ] = T( c[ 3 ][ i ].i ); f.a_[ i ] = T( c[ 4 ][ i ].i ); } }
	J use( const J& c ) override {
		if ( c[ 0 ].s == "in" ) return ok( exact( f( T( c[ 2 ].i ) ) ) );
		if ( c[ 0 ].s == "out" ) return ok( exact( f() ) );
		if ( c[ 0 ].s == "velocity" ) return ok( velocity_of< T, N >::get( f ) );
		unknown( c );
	}
};
template< typename T > struct delta_o : base< delta_o< T > > {
	delta< T > d; delta_o( const J& c ) : d( T( c[ 2 ].i ) ) {}
	J use( const J& c ) override { if ( c[ 0 ].s == "change" ) return ok( exact( d( T( c[ 2 ].i ) ) ) ); unknown( c ); }
};
template< typename T > struct average_o : base< average_o< T > > {
	math::average_< T > a; T unit; average_o( const J& c ) : unit( T( std::ldexp( 1.0, int( c[ 2 ].i ) ) ) ) {}
	J use( const J& c ) override {
		const std::string& f = c[ 0 ].s;
		if ( f == "add" ) { a.add( T( c[ 2 ].i ), T( c[ 3 ].i ) * unit ); return ok(); }
		if ( f == "addone" ) { a.add( T( c[ 2 ].i ) ); return ok(); }
		if ( f == "reset" ) { a.reset(); return ok(); }
		if ( f == "empty" ) return ok( a.empty() );
		if ( f == "get" ) { double m = a.get(), v = m * double( c[ 2 ].i ), r = std::nearbyint( v ); return ok( c[ 2 ].i == 0 ? ( m == 0 ? 0 : -1 ) : std::fabs( v - r ) < ( sizeof( T ) == 4 ? .3 : 1e-6 ) ? J( (long long)r ) : J( -1999999999LL ) ); }
		unknown( c );
	}
};
template< typename T, template< typename, int > class D, int N > struct delay_o : base< delay_o< T, D, N > > {
	D< T, N > d; double factor;
	delay_o( const J& c, bool smooth ) : d( float( ( smooth ? N - .5 : N - 1 ) * double( c[ 3 ].i ) * unit ), T( c[ 4 ].i ) ), factor( double( smooth ? c[ 3 ].i * c[ 3 ].i : c[ 3 ].i ) ) {}
	J use( const J& c ) override {
		const std::string& f = c[ 0 ].s;
		if ( f == "sample" ) { d.add_sample( T( c[ 2 ].i ), float( double( c[ 3 ].i ) * unit ) ); return ok(); }
		if ( f == "next" ) return ok( exact( d( T( c[ 2 ].i ), float( double( c[ 3 ].i ) * unit ) ) * factor ) );
		if ( f == "value" ) return ok( exact( d.delayed_value() * factor ) );
		if ( f == "now" ) return ok( exact( d() * factor ) );
		unknown( c );
	}
};
static std::unique_ptr< object > objs[ 5 ];
void begin() { for ( auto& o : objs ) o.reset(); }
J observe() { return J::arr(); }
template< typename T > object* make( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "filter" ) switch ( c[ 3 ].size() ) { case 1: return new filter_o< T, 1 >( c ); case 2: return new filter_o< T, 2 >( c ); case 3: return new filter_o< T, 3 >( c ); case 4: return new filter_o< T, 4 >( c ); case 9: return new filter_o< T, 9 >( c ); default: unknown( c ); }
	if ( f == "delta" ) return new delta_o< T >( c );
	if ( f == "average" ) return new average_o< T >( c );
	if ( f == "delay" ) switch ( c[ 2 ].i ) { case 2: return new delay_o< T, delayer, 2 >( c, false ); case 3: return new delay_o< T, delayer, 3 >( c, false ); case 5: return new delay_o< T, delayer, 5 >( c, false ); case 9: return new delay_o< T, delayer, 9 >( c, false ); case 33: return new delay_o< T, delayer, 33 >( c, false ); case 130: return new delay_o< T, delayer, 130 >( c, false ); default: unknown( c ); }
	if ( f == "smooth" ) switch ( c[ 2 ].i ) { case 2: return new delay_o< T, smooth_delayer, 2 >( c, true ); case 3: return new delay_o< T, smooth_delayer, 3 >( c, true ); case 5: return new delay_o< T, smooth_delayer, 5 >( c, true ); case 9: return new delay_o< T, smooth_delayer, 9 >( c, true ); case 33: return new delay_o< T, smooth_delayer, 33 >( c, true ); case 130: return new delay_o< T, smooth_delayer, 130 >( c, true ); default: unknown( c ); }
	return nullptr;
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "lowpass" ) {
		double fc = c[ 1 ].i / 1000.0; auto flt = make_lowpass_butterworth_2nd_order< double >( fc );
		int n = 20000; std::vector< double > h( n ); for ( int k = 0; k < n; ++k ) h[ k ] = flt( k == 0 ? 1.0 : 0.0 );
		auto power = [&]( double w ) { std::complex< double > s; for ( int k = 0; k < n; ++k ) s += h[ k ] * std::polar( 1.0, -2 * M_PI * w * k ); return std::norm( s ); };
		bool curve = true;
		for ( double w : { .02, .1, .17, .25, .31, .4, .47 } ) { double e = 1 / ( 1 + std::pow( std::tan( M_PI * w ) / std::tan( M_PI * fc ), 4 ) ); if ( std::fabs( power( w ) - e ) > 1e-4 ) curve = false; }
		return ok( J::arr( { std::llround( std::sqrt( power( 0 ) ) * 1e4 ), std::llround( std::sqrt( power( .5 ) ) * 1e4 ), std::llround( power( fc ) * 1e4 ), curve } ) );
	}
	size_t i = size_t( c[ 1 ].i );
	if ( f == "copy" ) { objs[ c[ 2 ].i ].reset( objs[ i ]->copy() ); return ok(); }
	if ( object* o = c[ c.size() - 1 ].k == J::STR && c.size() > 2 ? ( c[ c.size() - 1 ].s == "f" ? make< float >( c ) : make< double >( c ) ) : nullptr ) { objs[ i ].reset( o ); return ok(); }
	return objs[ i ]->use( c );
}
