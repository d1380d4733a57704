#include "common.hpp"
#include "flut/prop_node.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/vec4.hpp"
using namespace flut;
using namespace flut::math;
void begin() {}
J observe() { return J::arr(); }
static const long long BAD = -1999999999LL;
static bool same( const J& a, const J& b ) { std::string x, y; put( x, a ); put( y, b ); return x == y; }
static long long size( const J& c ) { if ( c.k == J::INT ) return std::llabs( c.i ); long long m = 0; for ( auto& e : c.a ) m = std::max( m, size( e ) ); return m; }
static J exact( double v, double tol ) { double r = std::nearbyint( v ); return std::fabs( v - r ) < tol && std::fabs( r ) < 2.2e9 ? J( (long long)r ) : J( BAD ); }
// numbers of type T in units of u
template< typename T > struct calc {
	using V3 = vec3_< T >; using V4 = vec4_< T >;
	double u, tol; calc( double u, double t ) : u( u ), tol( t ) {}
	T n( const J& v ) const { return T( double( v.i ) * u ); }
	V3 v3( const J& p ) const { return V3( n( p[ 0 ] ), n( p[ 1 ] ), n( p[ 2 ] ) ); }
	V4 v4( const J& p ) const { return V4( n( p[ 0 ] ), n( p[ 1 ] ), n( p[ 2 ] ), n( p[ 3 ] ) ); }
	J r( double v, double p = 1 ) const { double q = p == 1 ? u : u * u; return exact( v / q, tol * ( 1 + std::fabs( v / q ) ) ); }
	J show( const V3& v, double p = 1 ) const { return J::arr( { r( v.x, p ), r( v.y, p ), r( v.z, p ) } ); }
	J show( const V4& v, double p = 1 ) const { return J::arr( { r( v.x, p ), r( v.y, p ), r( v.z, p ), r( v.w, p ) } ); }
	template< typename V > J linear( const J& c, V a ) const { return J(); }
	template< typename V > J arith( const J& c, const V& a, const V& b ) const {
		V s = a, d = a, e = a; V& rs = s += b; V& rd = d -= b; J x = show( a + b ), y = show( a - b ); (void)e;
		return &rs == &s && &rd == &d && same( x, show( s ) ) && same( y, show( d ) ) ? J::arr( { x, y } ) : J( BAD );
	}
	template< typename V > J scaled( const V& a, T s ) const { V k = a; V& rk = k *= s; J x = show( a * s ), y = show( s * a ); return &rk == &k && same( x, y ) && same( x, show( k ) ) ? x : J( BAD ); }
	template< typename V > J divided( const V& a, T s ) const { V k = a * s, m = k; V& rk = k /= s; J x = show( m / s ); return &rk == &k && same( x, show( k ) ) ? x : J( BAD ); }
	J run( const J& c ) const {
		const std::string& f = c[ 0 ].s;
		if ( f == "sum" ) return c[ 1 ].size() == 3 ? arith( c, v3( c[ 1 ] ), v3( c[ 2 ] ) ) : arith( c, v4( c[ 1 ] ), v4( c[ 2 ] ) );
		if ( f == "neg" ) return c[ 1 ].size() == 3 ? show( -v3( c[ 1 ] ) ) : show( -v4( c[ 1 ] ) );
		if ( f == "scale" ) return c[ 2 ].size() == 3 ? scaled( v3( c[ 2 ] ), T( c[ 1 ].i ) ) : scaled( v4( c[ 2 ] ), T( c[ 1 ].i ) );
		if ( f == "divide" ) return c[ 2 ].size() == 3 ? divided( v3( c[ 2 ] ), T( c[ 1 ].i ) ) : divided( v4( c[ 2 ] ), T( c[ 1 ].i ) );
		if ( f == "mask" ) { V3 a = v3( c[ 1 ] ), b = v3( c[ 2 ] ), k = a; V3& rk = k *= b; J x = show( a * b, 2 ); return &rk == &k && same( x, show( k, 2 ) ) ? x : J( BAD ); }
		if ( f == "dot" ) return r( dot_product( v3( c[ 1 ] ), v3( c[ 2 ] ) ), 2 );
		if ( f == "cross" ) return show( cross_product( v3( c[ 1 ] ), v3( c[ 2 ] ) ), 2 );
		if ( f == "length" ) {
			auto sq = [&]( T l ) { return r( double( l ) * double( l ), 2 ); };
			if ( c[ 1 ].size() == 4 ) { V4 a = v4( c[ 1 ] ); J x = sq( a.length() ); return same( x, r( a.squared_length(), 2 ) ) ? J::arr( { x, a.is_null() } ) : J( BAD ); }
			V3 a = v3( c[ 1 ] ); J x = sq( length( a ) ); return same( x, sq( a.length() ) ) && same( x, r( squared_length( a ), 2 ) ) && same( x, r( a.squared_length(), 2 ) ) ? J::arr( { x, a.is_null() } ) : J( BAD );
		}
		if ( f == "distance" ) { T d = distance( v3( c[ 1 ] ), v3( c[ 2 ] ) ); return d >= 0 ? r( double( d ) * double( d ), 2 ) : J( BAD ); }
		if ( f == "equal" ) return J::arr( { v3( c[ 1 ] ) == v3( c[ 2 ] ), v3( c[ 1 ] ) != v3( c[ 2 ] ) } );
		if ( f == "normalize" ) {
			V3 a = v3( c[ 1 ] ), k = a; normalize( k ); V3 m = normalized( a ); T l = length( a ); bool nul = l == 0;
			J x = show( nul ? m : m * l ), y = show( nul ? k : k * l ), z = nul ? x : show( a.normalized() * l );
			J len = exact( double( length( m ) ) * 1000, tol * 1000 ); bool unit = equals( length( m ), T( 1 ), T( 1e-4 ) ); if ( unit != !nul ) return BAD;
			return same( x, y ) && same( x, z ) ? J::arr( { x, len } ) : J( BAD );
		}
		if ( f == "polar" ) { T q = T( M_PI / 2 ); V3 a = vec3_from_polar( n( c[ 1 ] ), radian_< T >( q * T( c[ 2 ].i ) ), radian_< T >( q * T( c[ 3 ].i ) ) ), b = vec3_from_polar( n( c[ 1 ] ), degree_< T >( T( 90 * c[ 2 ].i ) ), degree_< T >( T( 90 * c[ 3 ].i ) ) ); calc< T > w( u, tol * double( 1 + c[ 1 ].i ) ); return same( w.show( a ), w.show( b ) ) ? w.show( a ) : J( BAD ); }
		calc< T > one( 1, tol ); int i = int( c[ 1 ].i );
		if ( f == "unit" && c[ 2 ].i == 4 ) return one.show( i == 1 ? V4::unit_x() : i == 2 ? V4::unit_y() : i == 3 ? V4::unit_z() : V4::unit_w() );
		if ( f == "unit" ) { V3 a = i == 1 ? V3::unit_x() : i == 2 ? V3::unit_y() : V3::unit_z(); return V3::unit( size_t( i - 1 ) ) == a && is_normalized( a ) ? one.show( a ) : J( BAD ); }
		if ( f == "negunit" ) return one.show( i == 1 ? V3::neg_unit_x() : i == 2 ? V3::neg_unit_y() : V3::neg_unit_z() );
		if ( f == "uniform" ) { V3 a = V3::uniform( n( c[ 1 ] ) ), b( n( c[ 1 ] ) ); return a == b ? show( a ) : J( BAD ); }
		if ( f == "zero" ) { if ( i == 4 ) { V4 a; return same( show( a ), show( V4::zero() ) ) && a.is_null() ? show( a ) : J( BAD ); } V3 a, b = v3( J::arr( { 1, 2, 3 } ) ); b.clear(); return a == V3::zero() && a == b && a.is_null() ? show( a ) : J( BAD ); }
		if ( f == "set" ) {
			V3 w = v3( c[ 2 ] ), a = v3( c[ 1 ] ), b = a, d = a, e = a; a.set( n( c[ 2 ][ 0 ] ), n( c[ 2 ][ 1 ] ), n( c[ 2 ][ 2 ] ) ); for ( size_t k = 0; k < 3; ++k ) b[ k ] = w[ k ];
			vec3_< double > wd( n( c[ 2 ][ 0 ] ), n( c[ 2 ][ 1 ] ), n( c[ 2 ][ 2 ] ) ); d = wd; V3 g( wd ); size_t k = 0; for ( T& x : e ) x = w[ k++ ]; const V3& ce = e; T s = 0; for ( const T& x : ce ) s += x;
			return a == b && a == d && a == e && a == g && a == w && std::fabs( s - ( w.x + w.y + w.z ) ) < 1e-3 && k == 3 && ce[ 0 ] == w.x && ce[ 1 ] == w.y && ce[ 2 ] == w.z ? show( a ) : J( BAD );
		}
		if ( f == "print" ) { std::ostringstream s; s << V3( T( c[ 1 ][ 0 ].i ), T( c[ 1 ][ 1 ].i ), T( c[ 1 ][ 2 ].i ) ); return J::bytes( s.str() ); }
		if ( f == "read" ) {
			V3 w = v3( c[ 1 ] ), a( 9, 9, 9 ); std::stringstream s; s << std::setprecision( 17 ) << w; s >> a; V3 b( static_cast< prop_node >( w ) ); prop_node pn; pn.set_value( s.str() ); V3 d( pn ); prop_node q; q.set( "v", w ); V3 e = q.get< V3 >( "v" );
			return same( show( a ), show( b ) ) && same( show( a ), show( d ) ) && same( show( a ), show( e ) ) ? show( a ) : J( BAD );
		}
		unknown( c );
	}
};
J call( const J& c ) {
	J d = calc< double >( 1, 1e-9 ).run( c ); bool k = same( d, calc< double >( 1.0 / 8, 1e-9 ).run( c ) );
	if ( size( c ) < 1000 ) k = k && same( d, calc< float >( 1, 1e-4 ).run( c ) ) && same( d, calc< float >( 1.0 / 8, 1e-4 ).run( c ) );
	const std::string& f = c[ 0 ].s;
	if ( f != "read" && f != "print" && f != "polar" && f != "set" ) // any unit will do
		k = k && same( d, calc< double >( std::ldexp( 1, -40 ), 1e-9 ).run( c ) ) && same( d, calc< double >( std::ldexp( 1, 60 ), 1e-9 ).run( c ) )
			&& ( size( c ) >= 1000 || ( same( d, calc< float >( std::ldexp( 1, -20 ), 1e-4 ).run( c ) ) && same( d, calc< float >( std::ldexp( 1, 20 ), 1e-4 ).run( c ) ) ) );
	return ok( k ? d : J( BAD ) );
}
