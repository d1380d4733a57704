#include "common.hpp"
#include <deque>
#include "flut/container_tools.hpp"
using namespace flut;
#ifdef PLAIN_TYPES
typedef long text_t;
#else
typedef std::string text_t;
#endif
void begin() {}
J observe() { return J::arr(); }
static const long long BAD = -1999999999LL;
static J exact( double v ) { double r = std::nearbyint( v ); return std::fabs( v - r ) < 1e-6 && std::fabs( r ) < 2.2e9 ? J( (long long)r ) : J( BAD ); }
static bool same( const J& a, const J& b ) { std::string x, y; put( x, a ); put( y, b ); return x == y; }
// numbers as elements of type T, and back
template< typename T > struct as { static T to( long long v ) { return T( v ); } static long long from( const T& v ) { return exact( double( v ) ).i; } };
template<> struct as< double > { static double to( long long v ) { return double( v ) / 16; } static long long from( double v ) { return exact( v * 16 ).i; } };
template<> struct as< float > { static float to( long long v ) { return float( v ) / 8; } static long long from( float v ) { return exact( double( v ) * 8 ).i; } };
template<> struct as< std::string > { static std::string to( long long v ) { char b[ 32 ]; snprintf( b, 32, "%011lld", v + 3000000000LL ); return b; } static long long from( const std::string& v ) { return atoll( v.c_str() ) - 3000000000LL; } };
template<> struct as< unsigned > { static unsigned to( long long v ) { return unsigned( v + 1500000000LL ); } static long long from( unsigned v ) { return (long long)v - 1500000000LL; } };
template< typename C > C make( const J& s ) { C c; for ( auto& e : s.a ) c.push_back( as< typename C::value_type >::to( e.i ) ); return c; }
template< typename C > J show( const C& c ) { J r = J::arr(); for ( auto& e : c ) r.push( as< typename C::value_type >::from( e ) ); return r; }
template< typename C > J order_of( const J& c ) {
	using T = typename C::value_type; C v = make< C >( c[ 1 ] ); const C& k = v; const std::string& f = c[ 0 ].s; J r;
	if ( f == "min" || f == "max" ) { auto a = f == "min" ? flut::min_element( v ) : flut::max_element( v ); auto b = f == "min" ? flut::min_element( k ) : flut::max_element( k ); r = a - v.begin() == b - k.begin() ? J::arr( { (long long)( a - v.begin() ), as< T >::from( *a ) } ) : J( BAD ); }
	else if ( f == "sorted" ) r = show( sorted_copy( k ) );
	else if ( f == "order" ) { auto i = sort_indices( k ); r = J::seq( i.begin(), i.end() ); }
	else if ( f == "filter" || f == "firstof" ) {
		long long m = c[ 2 ].i, q = c[ 3 ].i; auto pred = [=]( const T& x ) { long long y = as< T >::from( x ); return ( ( y % m ) + m ) % m == q; };
		if ( f == "firstof" ) { auto a = flut::find_if( v, pred ); auto b = flut::find_if( k, pred ); r = a - v.begin() == b - k.begin() ? J( a == v.end() ? -1LL : (long long)( a - v.begin() ) ) : J( BAD ); }
		else {
			auto w = make_view_if( v, pred ); auto w2 = make_view_if( k.begin(), k.end(), pred ); J x = J::arr(), y = J::arr(), z = J::arr(), u = J::arr();
			for ( auto it = w.begin(); it != w.end(); ++it ) x.push( as< T >::from( *it ) );
			for ( auto it = w2.begin(); !( it == w2.end() ); ) { auto o = it++; y.push( as< T >::from( *o ) ); u.push( as< T >::from( *o.operator->() ) ); }
			for ( auto& e : w ) z.push( as< T >::from( e ) );
			r = same( x, y ) && same( x, z ) && same( x, u ) ? x : J( BAD );
		}
	}
	else unknown( c );
	return same( show( v ), c[ 1 ] ) ? r : J( "changed" );
}
template< typename T > J index_of( const J& c ) {
	auto v = make< std::vector< T > >( c[ 1 ] ); const auto& k = v; J r;
	if ( c[ 0 ].s == "index" ) {
		T x = as< T >::to( c[ 2 ].i ); r = find_index( k, x ); auto it = flut::find( v, x ); if ( r.i != ( it == v.end() ? -1 : it - v.begin() ) ) r = BAD;
	}
	else r = guarded( [&]() { return J( back_index( k ) ); } );
	return same( show( v ), c[ 1 ] ) ? r : J( "changed" );
}
// u: one in T; scaled by the number of elements where the result is an average
template< typename T > J reals( const J& c, bool whole ) {
	auto v = make< std::vector< T > >( c[ 1 ] ); const auto& k = v; const std::string& f = c[ 0 ].s; double one = double( as< T >::to( 1 ) ); double r = 0, n = double( v.size() );
	if ( f == "average" ) { T a = average( k ), b = average( k.begin(), k.end() ), d = average( v.begin(), v.end() ); if ( a != b || a != d ) return BAD; r = double( a ); }
	else if ( f == "median" ) { r = double( median( k ) ); n = 2; }
	else { n = double( c[ 2 ].i ); r = double( top_average( k, size_t( c[ 2 ].i ) ) ); }
	if ( !same( show( v ), c[ 1 ] ) ) return "changed";
	if ( whole ) return exact( r / one );
	double e = r / one * n; if ( sizeof( T ) == 4 ) e = std::fabs( e - std::nearbyint( e ) ) < std::max( .25, std::fabs( e ) * 1e-5 ) ? std::nearbyint( e ) : e;
	return exact( e );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "average" || f == "median" || f == "lowest" ) {
		if ( f == "median" && c[ 1 ].size() == 0 ) { int n = 0; try { median( std::vector< int >() ); } catch ( std::exception& ) { ++n; } try { median( std::vector< double >() ); } catch ( std::exception& ) { ++n; } return n == 2 ? err() : ok( J( BAD ) ); }
		J d = reals< double >( c, false ), i = reals< int >( c, true ), l = reals< long long >( c, true ); long long big = 0; for ( auto& e : c[ 1 ].a ) big += std::llabs( e.i );
		if ( big < 40000 && !same( reals< float >( c, false ), d ) ) d = BAD;
		return ok( J::arr( { d, same( i, l ) ? i : J( BAD ) } ) );
	}
	if ( f == "index" || f == "back" ) {
		J i = index_of< int >( c ); if ( !same( i, index_of< double >( c ) ) || !same( i, index_of< text_t >( c ) ) ) i = BAD;
		return i.k == J::ARR ? i : ok( i );
	}
	if ( f == "print" ) { auto v = make< std::vector< int > >( c[ 1 ] ); std::ostringstream s, t; flut::operator<<( s, v ); std::vector< std::string > w; for ( int x : v ) w.push_back( std::to_string( x ) ); flut::operator<<( t, w ); return ok( s.str() == t.str() ? J::bytes( s.str() ) : J( BAD ) ); }
	J r = order_of< std::vector< int > >( c );
	if ( f == "order" ) { // each kind of element in turn, decided by the call
		long long h = 0; for ( auto& e : c[ 1 ].a ) h = h * 31 + e.i; switch ( ( h % 4 + 4 ) % 4 ) { case 1: r = order_of< std::deque< double > >( c ); break; case 2: r = order_of< std::vector< text_t > >( c ); break; case 3: r = order_of< std::vector< unsigned > >( c ); }
		outcome() = { r }; return ok();
	}
	bool k = same( r, order_of< std::vector< double > >( c ) ) && same( r, order_of< std::vector< text_t > >( c ) ) && same( r, order_of< std::vector< unsigned > >( c ) ) && same( r, order_of< std::deque< int > >( c ) );
	return ok( k ? r : J( BAD ) );
}
