#include "common.hpp"
#include "flut/prop_node.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/bounds.hpp"
#include "flut/math/bounding_box.hpp"
#include "flut/math/irange.hpp"
#include "flut/math/angle.hpp"
using namespace flut;
using namespace flut::math;
void begin() {}
J observe() { return J::arr(); }
static const long long BAD = -1999999999LL;
static J exact( double v, double tol = 1e-6 ) { double r = std::nearbyint( v ); return std::fabs( v - r ) < tol && std::fabs( r ) < 2.2e9 ? J( (long long)r ) : J( BAD ); }
static bool same( const J& a, const J& b ) { std::string x, y; put( x, a ); put( y, b ); return x == y; }
static bool small( const J& c ) { if ( c.k == J::INT ) return std::llabs( c.i ) < 60000; for ( auto& e : c.a ) if ( !small( e ) ) return false; return true; }
// numbers of type T in units of u
template< typename T > struct calc {
	double u; calc( double u ) : u( u ) {}
	T n( const J& v ) const { return T( double( v.i ) * u ); }
	J r( T v ) const { return exact( double( v ) / u ); }
	using V = vec3_< T >;
	V vec( const J& p ) const { return V( n( p[ 0 ] ), n( p[ 1 ] ), n( p[ 2 ] ) ); }
	J show( const V& v ) const { return J::arr( { r( v.x ), r( v.y ), r( v.z ) } ); }
	J run( const J& c ) const {
		const std::string& f = c[ 0 ].s;
		if ( f == "clamp" ) { T v = n( c[ 1 ] ); T k = clamped( v, n( c[ 2 ] ), n( c[ 3 ] ) ); T& w = clamp( v, n( c[ 2 ] ), n( c[ 3 ] ) ); return v == k && &w == &v ? r( v ) : J( BAD ); }
		if ( f == "boundsclamp" ) { T v = n( c[ 1 ] ); bounds< T > b( n( c[ 2 ] ), n( c[ 3 ] ) ); T& w = b.clamp( v ); return &w == &v ? r( v ) : J( BAD ); }
		if ( f == "wrap" ) { T v = n( c[ 1 ] ); T k = wrapped( v, n( c[ 2 ] ), n( c[ 3 ] ) ); T& w = wrap( v, n( c[ 2 ] ), n( c[ 3 ] ) ); return v == k && &w == &v ? r( v ) : J( BAD ); }
		if ( f == "sign" ) return exact( double( sign( n( c[ 1 ] ) ) ) );
		if ( f == "between" ) return is_between( n( c[ 1 ] ), n( c[ 2 ] ), n( c[ 3 ] ) );
		if ( f == "lower" ) { T v = n( c[ 1 ] ); T& w = set_if_smaller( v, n( c[ 2 ] ) ); return &w == &v ? r( v ) : J( BAD ); }
		if ( f == "raise" ) { T v = n( c[ 1 ] ); T& w = set_if_bigger( v, n( c[ 2 ] ) ); return &w == &v ? r( v ) : J( BAD ); }
		if ( f == "bounds" ) { bounds< T > b( n( c[ 1 ] ), n( c[ 2 ] ) ), m = -b, d( b ); T v = n( c[ 3 ] ); return d.lower == b.lower && d.upper == b.upper ? J::arr( { b.is_within( v ), r( b.range() ), r( b.get_violation( v ) ), r( m.lower ), r( m.upper ) } ) : J( BAD ); }
		if ( f == "point" ) { bounds< T > b( n( c[ 1 ] ) ), z; return J::arr( { r( b.lower ), r( b.upper ), r( z.lower ), r( z.upper ) } ); }
		if ( f == "box" ) { bounding_box_< T > b; for ( auto& p : c[ 1 ].a ) b += vec( p ); return J::arr( { show( b.lower_bounds ), show( b.upper_bounds ) } ); }
		if ( f == "boxfrom" ) { bounding_box_< T > b( vec( c[ 1 ][ 0 ] ) ); for ( auto& p : c[ 1 ].a ) b += vec( p ); return J::arr( { show( b.lower_bounds ), show( b.upper_bounds ) } ); }
		if ( f == "boxes" ) { // boxes of the two halves together
			bounding_box_< T > a, b; size_t k = 0; for ( auto& p : c[ 1 ].a ) if ( k++ % 2 ) a += vec( p ); else b += vec( p );
			bounding_box_< T > ab( a.lower_bounds, a.upper_bounds ); ab += b; b += a; auto x = J::arr( { show( ab.lower_bounds ), show( ab.upper_bounds ) } ), y = J::arr( { show( b.lower_bounds ), show( b.upper_bounds ) } ); return same( x, y ) ? x : J( BAD );
		}
		unknown( c );
	}
};
template< typename T > static J ints( const J& c ) {
	T v = T( c[ 1 ].i ); const std::string& f = c[ 0 ].s;
	if ( f == "parity" ) return J::arr( { is_even( v ), is_odd( v ) } );
	return is_power_of_two( v );
}
template< typename T > static J reals( const J& c ) {
	const std::string& f = c[ 0 ].s; double e = sizeof( T ) == 4 ? 1e-2 : 1e-6;
	if ( f == "powers" ) return J::arr( { exact( squared( T( c[ 1 ].i ) ), e ), exact( cubed( T( c[ 1 ].i ) ), e ) } );
	if ( f == "root" ) { T v = T( c[ 1 ].i ); return exact( signed_sqrt( v < 0 ? -( v * v ) : v * v ), e ); }
	if ( f == "wave" ) return exact( square_wave( T( c[ 1 ].i ) / 8 ) );
	if ( f == "softclamp" ) {
		T v = T( c[ 1 ].i ), a = T( c[ 2 ].i ), b = T( c[ 3 ].i ), k = T( c[ 4 ].i ) / 4; double d = double( c[ 5 ].i ); T w = v, x = v, y = v;
		w = soft_clamped( v, a, b, k ); T s = soft_clamp( x, a, b, k ), t = bounds< T >( a, b ).soft_clamp( y, k );
		return w == x && s == x && t == y && x == y ? exact( w * d, e ) : J( BAD );
	}
	if ( f == "degrees" ) {
		T k = T( c[ 1 ].i ), g = T( M_PI / 180 ) * k; degree_< T > d( k ); radian_< T > r( g ), rd( d ); degree_< T > dr( r ); radian_< T > as; as = d; degree_< T > back; back = as;
		bool rad = std::fabs( rd.value - g ) < e && std::fabs( d.rad_value() - g ) < e && std::fabs( deg_to_rad( k ) - g ) < e && std::fabs( r.radian().value - g ) < e && std::fabs( d.radian().value - g ) < e;
		bool deg = std::fabs( rad_to_deg( g ) - k ) < e * 10 && d.deg_value() == k && d.degree().value == k;
		return rad && deg ? J::arr( { exact( dr.value, e * 10 ), exact( r.deg_value(), e * 10 ), exact( back.value, e * 10 ), exact( r.degree().value, e * 10 ) } ) : J( BAD );
	}
	if ( f == "sines" ) {
		T k = T( 30 * c[ 1 ].i ); degree_< T > d( k ); radian_< T > r( d );
		auto q = [&]( T v ) { return exact( ( v < 0 ? -4 : 4 ) * double( v ) * v, e ); };
		T s = sin( d ), o = cos( d ); bool ok = std::fabs( sin( r ) - s ) < e && std::fabs( cos( r ) - o ) < e && ( std::fabs( o ) < .1 || std::fabs( tan( d ) - s / o ) < e * 10 );
		return ok ? J::arr( { q( s ), q( o ) } ) : J( BAD );
	}
	if ( f == "angle" ) {
		degree_< T > a( T( c[ 1 ].i ) ), b( T( c[ 2 ].i ) ); int s = int( c[ 3 ].i ); degree_< T > p( a ), m( a ), t( a ), v( a ); p += b; m -= b; t *= s; v *= s; v /= s;
		bool same = ( a + b ) == p && ( a - b ) == m && a * s == t && s * a == t;
		radian_< T > x( T( c[ 1 ].i ) ), y( T( c[ 2 ].i ) ); same = same && ( x + y ).value == p.value && ( x - y ).value == m.value && ( -x ).value == ( -a ).value;
		T z = T( s ) / T( 4 ); degree_< T > g( a ), h( a ); g *= z; h *= z; h /= z;          // quarters
		same = same && g.value * 4 == t.value && ( a * z ).value == g.value && ( z * a ).value == g.value && std::fabs( double( h.value - a.value ) ) <= e && std::fabs( double( ( g / z ).value - a.value ) ) <= e;
		using O = typename std::conditional< std::is_same< T, float >::value, double, float >::type; degree_< O > o( O( c[ 2 ].i ) ); radian_< O > ro( a );
		same = same && ( a + o ).value == p.value && ( a - o ).value == m.value && ( o + a ).value == p.value && std::fabs( double( degree_< T >( ro ).value - a.value ) ) <= 1e-3;
		return same ? J::arr( { exact( p.value ), exact( m.value ), exact( ( -a ).value ), exact( t.value ), exact( v.value, e ), exact( ( t / s ).value, e ) } ) : J( BAD );
	}
	if ( f == "compare" ) {
		degree_< T > a( T( c[ 1 ].i ) ), b( T( c[ 2 ].i ) ); radian_< T > x( a ), y( b );
		J r = J::arr( { a < b, a > b, a <= b, a >= b, a == b, a != b } ), s = J::arr( { x < y, x > y, x <= y, x >= y, x == y, x != y } ); return same( r, s ) ? r : J( BAD );
	}
	unknown( c );
}
template< typename R > static J visited( const R& r, bool back = false ) {
	J v = J::arr(), w = J::arr(); int n = 0; (void)back;
	for ( auto x : r ) { v.push( (long long)x ); if ( ++n > 100000 ) break; }
	n = 0; for ( auto it = r.begin(); it != r.end(); ) { if ( it == r.end() ) break; w.push( (long long)( it++ ) ); if ( ++n > 100000 ) break; }
	auto e = r.end(); auto b = r.begin(); return same( v, w ) ? J::arr( { v, (long long)( e - b ) } ) : J( BAD );
}
template< typename T > static J ranges( const J& c ) {
	const std::string& f = c[ 0 ].s; T a = T( c[ 1 ].i );
	if ( f == "range" ) return visited( make_irange( a, T( c[ 2 ].i ) ) );
	if ( f == "rangefrom0" ) return visited( make_irange( a ) );
	if ( c.size() > 3 && c[ 3 ].i == 1 ) return f == "steps" ? visited( irange_step< T >( a, T( c[ 2 ].i ) ) ) : visited( irange_step< T >( irange< T >( a, T( c[ 2 ].i ) ) ) ); // the default step
	if ( f == "steps" ) return visited( make_irange( a, T( c[ 2 ].i ), T( c[ 3 ].i ) ) );
	return visited( make_irange( make_irange( a, T( c[ 2 ].i ) ), T( c[ 3 ].i ) ) );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "wide" ) { uint64_t v = ( uint64_t( 1 ) << c[ 1 ].i ) + uint64_t( c[ 2 ].i ); long long s = (long long)v; J r = J::arr( { is_power_of_two( v ), is_even( v ), is_odd( v ) } ), q = J::arr( { is_power_of_two( s ), is_even( s ), is_odd( s ) } ); return ok( same( r, q ) ? r : J( BAD ) ); }
	if ( f == "parity" || f == "power" ) {
		J r = ints< int >( c ), l = ints< long long >( c ); bool k = same( r, l ); long long v = c[ 1 ].i;
		if ( v >= -32768 && v < 32768 ) k = k && same( r, ints< short >( c ) ); if ( v >= 0 ) k = k && same( r, ints< unsigned >( c ) ) && same( r, ints< size_t >( c ) ); if ( v >= -128 && v < 128 ) k = k && same( r, ints< signed char >( c ) );
		return ok( k ? r : J( BAD ) );
	}
	if ( f == "range" || f == "rangefrom0" || f == "steps" || f == "stepsof" ) {
		J r = ranges< int >( c ), l = ranges< long long >( c ); bool pos = true; for ( size_t k = 1; k < c.size(); ++k ) pos = pos && c[ k ].i >= 0; return ok( same( r, l ) && ( !pos || same( r, ranges< size_t >( c ) ) ) ? r : J( BAD ) );
	}
	if ( f == "powers" || f == "root" || f == "wave" || f == "softclamp" || f == "degrees" || f == "sines" || f == "angle" || f == "compare" ) {
		J r = reals< double >( c ); if ( c[ 1 ].i > -200 && c[ 1 ].i < 200 && small( c ) ) { J g = reals< float >( c ); if ( !same( r, g ) ) return ok( f == "softclamp" && r.i == BAD ? r : g ); }
		return ok( r );
	}
	J d = calc< double >( 1 ).run( c ); bool k = same( d, calc< double >( 1.0 / 64 ).run( c ) );
	if ( small( c ) ) k = k && same( d, calc< float >( 1 ).run( c ) ) && same( d, calc< float >( 1.0 / 64 ).run( c ) );
	k = k && same( d, calc< int >( 1 ).run( c ) ); if ( !k ) d = BAD;
	if ( f == "wrap" ) { outcome() = { d }; return ok(); }
	return ok( d );
}
