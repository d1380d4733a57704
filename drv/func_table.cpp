#include "files.hpp"
#include "flut/system/types.hpp"
#include "flut/system/assert.hpp"
#include "flut/debug_tools.hpp"
using namespace flut;
void begin() {}
J observe() { return J::arr(); }
template< typename T > T same( T x ) { return x; }
template< typename T > T fall( T x ) { return 1 - 2 * x; }
template< typename T > T three( T x ) { return 3; }
template< typename T > T absolute( T x ) { return x < 0 ? -x : x; }
template< typename T > static void sample( const J& c, const char* name ) {
	const std::string& g = c[ 2 ].s;
	T ( *f )( T ) = g == "same" ? same< T > : g == "fall" ? fall< T > : g == "const" ? three< T > : absolute< T >;
	int n = c.size() > 5 ? c[ 5 ].num() : 101;
	T a = T( double( c[ 3 ].i ) / 4 ), b = T( double( c[ 3 ].i + c[ 4 ].i * ( n - 1 ) ) / 4 );
	if ( c.size() > 5 ) output_function( path( name ), a, b, f, n ); else output_function( path( name ), a, b, f );
}
J call( const J& c ) {
	static int n = 0; char b[ 64 ]; snprintf( b, 64, "table-%d-%d", int( getpid() ), ++n );
	if ( c[ 1 ].s == "int" ) sample< int >( c, b ); else if ( c[ 1 ].s == "float" ) sample< float >( c, b ); else sample< double >( c, b );
	std::string s = read_file( b ); unlink( b );
	return ok( J::bytes( s ) );
}
