#include "common.hpp"
#include "flut/prop_node.hpp"
#include "flut/math/vec3.hpp"
#include "flut/storage.hpp"
#include "flut/table.hpp"
#include "flut/buffer/interpolation.hpp"
#include "flut/buffer/data_algorithms.hpp"
#include "flut/math/regular_piecewise_linear_function.hpp"
#include "flut/math/polynomial.hpp"
#include "flut/math/linear_regression.hpp"
#include "flut/math/catmull_rom.hpp"
using namespace flut;
using math::vec3d;
void begin() {}
J observe() { return J::arr(); }
static const long long BAD = -1999999999LL;
static J exact( double v, double tol = 1e-5 ) { double r = std::nearbyint( v ); return std::fabs( v - r ) < tol * ( 1 + std::fabs( v ) * 1e-6 ) && std::fabs( r ) < 2e9 ? J( (long long)r ) : J( BAD ); }
static bool near( double a, double b, double e = 1e-4 ) { return std::fabs( a - b ) <= e * ( 1 + std::fabs( a ) ); }
static std::vector< double > nums( const J& s ) { std::vector< double > r; for ( auto& e : s.a ) r.push_back( double( e.i ) ); return r; }
static vec3d spread( double v ) { return vec3d( v, 3 - v, 2 * v ); }
static bool spread( const vec3d& v, double x, double n = 1 ) { return near( v.x, x ) && near( v.y, 3 * n - x ) && near( v.z, 2 * x ); }
template< size_t D > static double poly( const std::vector< double >& k, double x, bool& same ) {
	polynomial< double, D > p; for ( size_t i = 0; i <= D; ++i ) p[ i ] = k[ i ];
	polynomial< float, D > f; for ( size_t i = 0; i <= D; ++i ) f[ i ] = float( k[ i ] );
	const auto& cp = p; for ( size_t i = 0; i <= D; ++i ) same = same && cp[ i ] == k[ i ];
	same = same && cp.offset() == k[ 0 ] && cp.slope() == k[ 1 ]; double r = p( x ); same = same && ( std::fabs( r ) > 1e6 || near( f( float( x ) ), r ) ); return r;
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "pairs" ) {
		std::vector< std::pair< double, double > > d; std::vector< std::pair< float, float > > g; std::vector< std::pair< double, vec3d > > v; double x = c[ 2 ].i / 8.0;
		for ( auto& p : c[ 1 ].a ) { d.emplace_back( p[ 0 ].i / 8.0, double( p[ 1 ].i ) ); g.emplace_back( p[ 0 ].i / 8.0f, float( p[ 1 ].i ) ); v.emplace_back( p[ 0 ].i / 8.0, spread( double( p[ 1 ].i ) ) ); }
		double r = interpolated_value( d, x ); bool same = near( interpolated_value( g, float( x ) ), r, 1e-3 ) && spread( interpolated_value( v, x ), r );
		return ok( same ? exact( r * double( c[ 3 ].i ) ) : J( BAD ) );
	}
	if ( f == "nopairs" ) return ok( exact( interpolated_value( std::vector< std::pair< double, double > >(), 1.0 ) ) );
	if ( f == "novector" ) return ok( exact( interpolated_value( std::vector< double >(), 1.0 ) ) );
	if ( f == "vector" ) {
		auto d = nums( c[ 1 ] ); std::vector< float > g( d.begin(), d.end() ); std::vector< vec3d > v; for ( double x : d ) v.push_back( spread( x ) ); double x = c[ 2 ].i / 8.0;
		double r = interpolated_value( d, x ); bool same = near( interpolated_value( g, float( x ) ), r, 1e-3 ) && spread( interpolated_value( v, x ), r );
		return ok( same ? exact( r * 8 ) : J( BAD ) );
	}
	if ( f == "far" ) { auto d = nums( c[ 1 ] ); double x = std::ldexp( 1.0, int( c[ 2 ].i ) ); std::vector< float > g( d.begin(), d.end() ); bool same = c[ 2 ].i > 120 || ( interpolated_value( g, float( x ) ) == g.back() && interpolated_value( g, float( -x ) ) == g.front() ); return ok( same ? J::arr( { exact( interpolated_value( d, x ) ), exact( interpolated_value( d, -x ) ) } ) : J::arr( { 0, 0, 0 } ) ); }
	if ( f == "piecewise" ) {
		auto d = nums( c[ 1 ] ); double a = c[ 2 ].i / 8.0, s = c[ 3 ].i / 8.0, x = c[ 4 ].i / 8.0; int n = int( d.size() ) - 1;
		auto fn = [&]( double y ) { long k = std::lround( ( y - a ) / s ); return k >= 0 && k <= n ? d[ size_t( k ) ] : 1e9; };
		math::regular_piecewise_linear_function< double > p( a, a + n * s, n, fn ); math::regular_piecewise_linear_function< float > g( float( a ), float( a + n * s ), n, fn );
		double r = p( x ); return ok( near( g( float( x ) ), r, 1e-2 ) ? exact( r * double( c[ 3 ].i ) ) : J( BAD ) );
	}
	if ( f == "poly" ) {
		auto k = nums( c[ 1 ] ); double x = double( c[ 2 ].i ), r = 0; bool same = true;
		switch ( k.size() ) { case 2: r = poly< 1 >( k, x, same ); same = same && linear_function< double >( k[ 0 ], k[ 1 ] )( x ) == r; break; case 3: r = poly< 2 >( k, x, same ); same = same && quadratic_function< double >( k[ 0 ], k[ 1 ], k[ 2 ] )( x ) == r; break; case 4: r = poly< 3 >( k, x, same ); break; case 5: r = poly< 4 >( k, x, same ); break; case 8: r = poly< 7 >( k, x, same ); break; default: unknown( c ); }
		return ok( same ? exact( r ) : J( BAD ) );
	}
	if ( f == "line" ) { linear_function< double > l( double( c[ 1 ][ 0 ].i ), double( c[ 1 ][ 1 ].i ) ), z; return ok( z.offset() == 0 && z.slope() == 0 ? J::arr( { exact( l.offset() ), exact( l.slope() ) } ) : J( BAD ) ); }
	if ( f == "intersect" ) { linear_function< double > l( double( c[ 1 ][ 0 ].i ), double( c[ 1 ][ 1 ].i ) ); return ok( exact( intersect_y( l, double( c[ 2 ].i ) ) * double( c[ 1 ][ 1 ].i ) ) ); }
	if ( f == "regress" || f == "regressbad" ) {
		auto x = nums( c[ 1 ] ), y = nums( c[ 2 ] ); auto l = linear_regression( x, y ), m = linear_regression( x.begin(), x.end(), y.begin(), y.end() ); double d = f == "regress" ? double( c[ 3 ].i ) : 1;
		return ok( near( l.slope(), m.slope() ) && near( l.offset(), m.offset() ) ? J::arr( { exact( l.slope() * d, 1e-3 ), exact( l.offset() * d, 1e-3 ) } ) : J( BAD ) );
	}
	if ( f == "regresseven" ) { auto y = nums( c[ 3 ] ); auto l = linear_regression( double( c[ 1 ].i ), double( c[ 2 ].i ), y ); double d = double( c[ 4 ].i ); return ok( J::arr( { exact( l.slope() * d, 1e-3 ), exact( l.offset() * d, 1e-3 ) } ) ); }
	if ( f == "means" || f == "covariance" ) {
		storage< double, string > s; double n = double( c[ 1 ].size() ); size_t m = c[ 1 ][ 0 ].size();
		for ( size_t k = 0; k < m; ++k ) s.add_channel( "c" + std::to_string( k ) );
		for ( auto& fr : c[ 1 ].a ) s.add_frame( nums( fr ) );
		J r = J::arr();
		if ( f == "means" ) { for ( double x : compute_channel_means( s ) ) r.push( exact( x * n ) ); return ok( r ); }
		auto t = compute_covariance( s ); if ( t.row_size() != m || t.column_size() != m ) return ok( BAD );
		for ( size_t a = 0; a < m; ++a ) { J q = J::arr(); for ( size_t b = 0; b < m; ++b ) q.push( exact( t( a, b ) * n * n, 1e-3 ) ); r.push( q ); }
		return ok( r );
	}
	if ( f == "segment" ) {
		auto p = nums( c[ 1 ] ); double t = c[ 2 ].i / 8.0; double r = catmull_rom_segment< double >( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] )( t );
		bool same = spread( catmull_rom_segment< vec3d >( spread( p[ 0 ] ), spread( p[ 1 ] ), spread( p[ 2 ] ), spread( p[ 3 ] ) )( t ), r ); return ok( same ? exact( r * 1024 ) : J( BAD ) );
	}
	if ( f == "alphazero" || f == "alphaends" ) {
		auto p = nums( c[ 1 ] ); std::vector< vec3d > v; for ( double x : p ) v.push_back( spread( x ) );
		if ( f == "alphazero" ) { auto r = catmull_rom_segment_alpha< vec3d >( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], 0.0f )( float( c[ 2 ].i / 8.0 ) ); return ok( spread( r, r.x ) ? exact( r.x * 1024, .2 ) : J( BAD ) ); }
		J r = J::arr(); catmull_rom_segment_alpha< vec3d > h( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], 0.5f ), o( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], 1.0f );
		for ( float t : { 0.0f, 1.0f } ) { auto a = h( t ), b = o( t ); r.push( near( a.x, b.x, 1e-3 ) && spread( a, a.x ) ? exact( a.x, 1e-2 ) : J( BAD ) ); }
		return ok( r );
	}
	if ( f == "spline" || f == "splinebad" ) {
		auto p = nums( c[ 1 ] ), t = nums( c[ 2 ] ); catmull_rom< double, double > s( p, t ); if ( f == "splinebad" ) return ok();
		double d = double( c[ 4 ].i ); return ok( exact( s( double( c[ 3 ].i ) ) * 2 * d * d * d, 1e-3 ) );
	}
	if ( f == "length" ) { double l = double( c[ 1 ].i ); auto line = [&]( float t ) { return vec3d( 2 * l * t, 1 - 2 * l * t, l * t ); }; return ok( exact( compute_spline_length( line, 0.0f, 1.0f, 7 ) / 3 * 8, 1e-2 ) ); }
	unknown( c );
}
