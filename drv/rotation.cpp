#include "common.hpp"
#include "flut/prop_node.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/transform.hpp"
using namespace flut;
using namespace flut::math;
void begin() {}
J observe() { return J::arr(); }
template< typename T > struct calc {
	using V = vec3_< T >; using Q = quat_< T >; using X = transform_< T >;
	static V vec( const J& v ) { return V( T( v[ 0 ].i ), T( v[ 1 ].i ), T( v[ 2 ].i ) ); }
	static Q raw( const J& q ) { return Q( T( q[ 0 ].i ), T( q[ 1 ].i ), T( q[ 2 ].i ), T( q[ 3 ].i ) ); }
	static Q quat( const J& q ) { return normalized( raw( q ) ); }
	static X tr( const J& s ) { return X( vec( s[ 1 ] ), quat( s[ 2 ] ) ); }
	static J scaled( const V& v, double d ) {
		J r = J::arr();
		for ( double x : { double( v.x ), double( v.y ), double( v.z ) } ) { double y = x * d, n = std::nearbyint( y ); r.push( std::fabs( y - n ) < ( sizeof( T ) == 4 ? .4 : 1e-4 ) && std::fabs( n ) < 2e9 ? (long long)n : -1999999999LL ); }
		return r;
	}
	static bool close( const V& a, const V& b ) { double e = sizeof( T ) == 4 ? 1e-3 : 1e-9, s = 1 + std::fabs( a.x ) + std::fabs( a.y ) + std::fabs( a.z ); return std::fabs( a.x - b.x ) < e * s && std::fabs( a.y - b.y ) < e * s && std::fabs( a.z - b.z ) < e * s; }
	static T angle( double w, double s ) { return T( 2 * std::atan2( s, w ) ); }
	static V axis( const J& q ) { // unit vector along the axis
		double x = double( q[ 1 ].i ), y = double( q[ 2 ].i ), z = double( q[ 3 ].i );
		V v; for ( int k = 0; k < 4; ++k ) { long double l = std::sqrt( (long double)( x ) * x + (long double)( y ) * y + (long double)( z ) * z ); if ( l == 0 ) return V::unit_x(); x = double( x / l ); y = double( y / l ); z = double( z / l ); v = V( T( x ), T( y ), T( z ) ); if ( sizeof( T ) == 4 ) { x = v.x; y = v.y; z = v.z; } }
		return v;
	}
	static V turned( const V& v, const V& k, double a ) { // v turned by a about k
		double l = std::sqrt( double( k.x ) * k.x + double( k.y ) * k.y + double( k.z ) * k.z ), x = k.x, y = k.y, z = k.z; if ( l == 0 ) return v; x /= l; y /= l; z /= l;
		double s = std::sin( a ), o = 1 - std::cos( a ), d = x * v.x + y * v.y + z * v.z, c = std::cos( a );
		return V( T( v.x * c + ( y * v.z - z * v.y ) * s + x * d * o ), T( v.y * c + ( z * v.x - x * v.z ) * s + y * d * o ), T( v.z * c + ( x * v.y - y * v.x ) * s + z * d * o ) );
	}
	static J run( const J& c ) {
		const std::string& f = c[ 0 ].s;
		if ( f == "product" ) { Q q; bool first = true; for ( auto& s : c[ 1 ].a ) { Q r = quat( s[ 1 ] ); if ( s[ 0 ].s == "inv" ) r = -r; q = first ? r : q * r; first = false; } return scaled( q * vec( c[ 2 ] ), double( c[ 3 ].i ) ); }
		if ( f == "turns" ) { V v = vec( c[ 2 ] ); for ( size_t k = c[ 1 ].size(); k-- > 0; ) { Q r = quat( c[ 1 ][ k ][ 1 ] ); v = ( c[ 1 ][ k ][ 0 ].s == "inv" ? -r : r ) * v; } return scaled( v, double( c[ 3 ].i ) ); }
		if ( f == "composed" ) {
			X t; bool first = true; int n = 0;
			for ( auto& s : c[ 1 ].a ) { X x = tr( s ); if ( s[ 0 ].s == "inv" ) x = ++n % 2 ? x.inverse() : -x; t = first ? x : t * x; first = false; }
			V v = vec( c[ 2 ] ), a = t * v, b = t.transform( v ); return close( a, b ) ? scaled( a, double( c[ 3 ].i ) ) : J( -1 );
		}
		if ( f == "applied" ) { V v = vec( c[ 2 ] ); for ( size_t k = c[ 1 ].size(); k-- > 0; ) { X x = tr( c[ 1 ][ k ] ); v = c[ 1 ][ k ][ 0 ].s == "inv" ? x.inv_transform( v ) : x * v; } return scaled( v, double( c[ 3 ].i ) ); }
		if ( f == "composedinv" ) {
			X t = X::identity(); Q q = Q::identity(), q2; V v = vec( c[ 2 ] );
			for ( size_t k = c[ 1 ].size(); k-- > 0; ) { X x = tr( c[ 1 ][ k ] ); bool i = c[ 1 ][ k ][ 0 ].s == "inv"; t = i ? x.inv_transform( t ) : x.transform( t ); q2 = i ? x.inv_transform( q ) : x.transform( q ); if ( !i && !close( q2 * v, ( x * q ) * v ) ) return -1; q = q2; }
			return close( q * v, t.q * v ) ? scaled( t * v, double( c[ 3 ].i ) ) : J( -1 );
		}
		if ( f == "axes" ) { Q q = quat( c[ 1 ] ); return scaled( quat_from_axes( q * V::unit_x(), q * V::unit_y(), q * V::unit_z() ) * vec( c[ 2 ] ), double( c[ 3 ].i ) ); }
		if ( f == "axisangle" || f == "axisanglerad" ) {
			V a = axis( c[ 1 ] ); double l = std::sqrt( double( c[ 1 ][ 1 ].i * c[ 1 ][ 1 ].i + c[ 1 ][ 2 ].i * c[ 1 ][ 2 ].i + c[ 1 ][ 3 ].i * c[ 1 ][ 3 ].i ) ); T an = angle( double( c[ 1 ][ 0 ].i ), l );
			Q q = f == "axisangle" ? quat_from_axis_angle( a, degree_< T >( an * T( 180 / M_PI ) ) ) : quat_from_axis_angle( a, radian_< T >( an ) );
			return scaled( q * vec( c[ 2 ] ), double( c[ 3 ].i ) );
		}
		if ( f == "toaxisangle" || f == "torotvec" ) {
			Q q = quat( c[ 1 ] ); V v = vec( c[ 2 ] ), a; double an;
			if ( f == "toaxisangle" ) { auto p = axis_angle_from_quat( q ); a = p.first; an = p.second.value; }
			else { a = rotation_vector_from_quat( q ); an = std::sqrt( double( a.x ) * a.x + double( a.y ) * a.y + double( a.z ) * a.z ); if ( an > 0 ) a = a * T( 1 / an ); else a = V::unit_x(); }
			// Rodrigues
			double co = std::cos( an ), si = std::sin( an ), d = double( a.x ) * v.x + double( a.y ) * v.y + double( a.z ) * v.z;
			V w( T( v.x * co + ( a.y * v.z - a.z * v.y ) * si + a.x * d * ( 1 - co ) ), T( v.y * co + ( a.z * v.x - a.x * v.z ) * si + a.y * d * ( 1 - co ) ), T( v.z * co + ( a.x * v.y - a.y * v.x ) * si + a.z * d * ( 1 - co ) ) );
			return scaled( w, double( c[ 3 ].i ) );
		}
		if ( f == "euler" || f == "eulervec" ) {
			std::string o = c[ 1 ][ 0 ].s + c[ 1 ][ 1 ].s + c[ 1 ][ 2 ].s;
			euler_order eo = o == "xyz" ? euler_order::xyz : o == "xzy" ? euler_order::xzy : o == "yxz" ? euler_order::yxz : o == "yzx" ? euler_order::yzx : o == "zxy" ? euler_order::zxy : euler_order::zyx;
			T a[ 3 ]; for ( int k = 0; k < 3; ++k ) a[ k ] = angle( double( c[ 2 + k ][ 0 ].i ), double( c[ 2 + k ][ 1 ].i ) );
			T g = T( 180 / M_PI ); Q q = f == "euler" ? quat_from_euler( radian_< T >( a[ 0 ] ), radian_< T >( a[ 1 ] ), radian_< T >( a[ 2 ] ), eo )
				: quat_from_euler( degree_< T >( a[ 0 ] * g ), degree_< T >( a[ 1 ] * g ), degree_< T >( a[ 2 ] * g ), eo );
			return scaled( q * vec( c[ 5 ] ), double( c[ 6 ].i ) );
		}
		if ( f == "single" ) {
			const std::string& k = c[ 1 ].s; T w = T( c[ 2 ][ 0 ].i ), s = T( c[ 2 ][ 1 ].i ), o = T( 0 ); Q q = normalized( Q( w, k == "x" ? s : o, k == "y" ? s : o, k == "z" ? s : o ) );
			T a = k == "x" ? pitch( q ).value : k == "y" ? yaw( q ).value : roll( q ).value; T h = a / 2;
			return scaled( Q( std::cos( h ), k == "x" ? std::sin( h ) : o, k == "y" ? std::sin( h ) : o, k == "z" ? std::sin( h ) : o ) * vec( c[ 3 ] ), double( c[ 4 ].i ) );
		}
		if ( f == "directions" ) {
			V a = vec( c[ 1 ] ), b = vec( c[ 2 ] ); Q q = quat_from_directions( a, b ); double la = std::sqrt( double( a.x ) * a.x + double( a.y ) * a.y + double( a.z ) * a.z ), lb = std::sqrt( double( b.x ) * b.x + double( b.y ) * b.y + double( b.z ) * b.z );
			V p( a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x );
			return J::arr( { scaled( q * a, lb / la ), scaled( q * p, 1 ) } );
		}
		if ( f == "between" ) return scaled( quat_from_quats( quat( c[ 1 ] ), quat( c[ 2 ] ) ) * vec( c[ 3 ] ), double( c[ 4 ].i ) );
		if ( f == "unit" ) {
			Q q = raw( c[ 1 ] ), n = q; normalize( n ); double l = length( q ), m = n.w * n.w + n.x * n.x + n.y * n.y + n.z * n.z; Q k = normalized( q );
			bool same = std::fabs( k.w - n.w ) + std::fabs( k.x - n.x ) + std::fabs( k.y - n.y ) + std::fabs( k.z - n.z ) < 1e-6;
			return J::arr( { std::llround( l * l * 1e3 ) % 1000 == 0 ? std::llround( l * l ) : -1, std::fabs( m - 1 ) < 1e-6 && same, std::fabs( n.w * l - q.w ) + std::fabs( n.x * l - q.x ) + std::fabs( n.y * l - q.y ) + std::fabs( n.z * l - q.z ) < 1e-3 } );
		}
		if ( f == "axesnear" ) {
			T p[ 4 ]; for ( int k = 0; k < 4; ++k ) p[ k ] = T( c[ 1 ][ k ].i * std::pow( 10., -double( c[ 2 ][ k ].i ) ) );
			Q q = normalized( Q( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] ) ), r = quat_from_axes( q * V::unit_x(), q * V::unit_y(), q * V::unit_z() ); V v = vec( c[ 3 ] );
			return J( close( q * v, r * v ) );
		}
		if ( f == "heading" ) {
			Q q = quat( c[ 2 ] ); char k = c[ 1 ].s[ 0 ]; auto e = euler_from_quat( q );
			double p = double( c[ 3 ][ 0 ].i ), s = double( c[ 3 ][ 1 ].i ), l = std::sqrt( p * p + s * s ), tol = sizeof( T ) == 4 ? 1e-2 : 1e-9;
			double a = k == 'x' ? pitch( q ).value : k == 'y' ? yaw( q ).value : roll( q ).value, b = k == 'x' ? e.x.value : k == 'y' ? e.y.value : e.z.value;
			bool good = true; for ( double x : { a, b } ) good = good && std::fabs( std::cos( x ) - p / l ) < tol && std::fabs( std::sin( x ) - s / l ) < tol;
			return J( good );
		}
		if ( f == "betweennear" ) {
			T m = T( std::pow( 10., -double( c[ 3 ].i ) ) ); Q a = quat( c[ 1 ] ), p = raw( c[ 2 ] ), b = normalized( Q( a.w + p.w * m, a.x + p.x * m, a.y + p.y * m, a.z + p.z * m ) );
			V v = normalized( vec( c[ 4 ] ) ), want = b * v;
			Q d = quat_from_quats( a, b ); auto r = rotation_vector_from_quat( d ); auto aa = axis_angle_from_quat( d );
			V t = a * ( d * v ), u = a * turned( v, r, double( length( r ) ) ), z = a * turned( v, aa.first, double( aa.second.value ) );
			double e = sizeof( T ) == 4 ? 5e-3 : 1e-6; bool good = true;
			for ( V x : { t, u, z } ) good = good && std::fabs( x.x - want.x ) < e && std::fabs( x.y - want.y ) < e && std::fabs( x.z - want.z ) < e;
			return J( good );
		}
		if ( f == "dirnear" ) {
			V a = normalized( vec( c[ 1 ] ) ), p = vec( c[ 2 ] ) * T( std::pow( 10., -double( c[ 3 ].i ) ) ), b = normalized( a * T( c[ 4 ].i ) + p ); V t = quat_from_directions( a, b ) * a;
			double e = sizeof( T ) == 4 ? 5e-3 : 1e-6;
			return J( std::fabs( t.x - b.x ) < e && std::fabs( t.y - b.y ) < e && std::fabs( t.z - b.z ) < e );
		}
		if ( f == "identity" ) { V v = vec( c[ 1 ] ); return J::arr( { scaled( Q::identity() * v, 1 ), scaled( X::identity() * v, 1 ), scaled( -quat_from_axis_angle( V::unit_z(), radian_< T >( T( 1.5 ) ) ) * ( ( Q() * quat_from_axis_angle( V::unit_z(), radian_< T >( T( 1.5 ) ) ) ) * v ), 1 ) } ); }
		unknown( c );
	}
};
static long long size( const J& j ) { if ( j.k == J::INT ) return std::llabs( j.i ); long long m = 0; for ( auto& e : j.a ) m = std::max( m, size( e ) ); return m; }
static void text( std::string& o, const J& j ) { put( o, j ); }
J call( const J& c ) {
	J d = calc< double >::run( c );
	if ( size( c ) <= 60 && size( d ) < 2000 ) { J f = calc< float >::run( c ); std::string a, b; text( a, d ); text( b, f ); if ( a != b ) return ok( f ); }
	return ok( d );
}
