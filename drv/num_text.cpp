#include "common.hpp"
#include "flut/string_tools.hpp"
using namespace flut;
void begin() { set_to_str_precision( 4 ); }
J observe() { return to_str_precision(); }
enum class color { red, green = 5, blue = -3 };
template< typename T > static J micro( T v ) { return J::bytes( std::to_string( std::llround( double( v ) * 1e6 ) ) ); }
template< typename T > static J reals( const J& c ) {
	const std::string& f = c[ 0 ].s; std::string s = c[ 2 ].text(); T v = T( atof( s.c_str() ) / 1e6 );
	if ( f == "rto" ) return ok( J::bytes( to_str( v ) ) );
	if ( f == "rtrip" ) return ok( micro( from_str< T >( to_str( v ) ) ) );
	if ( f == "rfrom" ) return ok( micro( from_str< T >( s ) ) );
	if ( f == "ris" ) return ok( string_is< T >( s ) );
	J r = J::arr(); for ( auto x : str_to_vec< T >( s, c[ 3 ].num() < 0 ? no_index : size_t( c[ 3 ].num() ) ) ) r.push( micro( x ) ); return ok( r );
}
template< typename T > std::string show( T v ) { return std::is_same< T, bool >::value ? ( v ? "1" : "0" ) : std::to_string( v ); }
template< typename T > J num( const std::string& f, const std::string& s ) {
	auto val = [&]() { return std::is_signed< T >::value ? T( strtoll( s.c_str(), 0, 10 ) ) : T( strtoull( s.c_str(), 0, 10 ) ); };
	if ( f == "to" ) return ok( J::bytes( to_str( val() ) ) );
	if ( f == "from" ) return ok( J::bytes( show( from_str< T >( s ) ) ) );
	if ( f == "is" ) return ok( string_is< T >( s ) );
	T v = val(); T r = from_str< T >( to_str( v ) ); return ok( J::bytes( show( r ) ) ); // trip
}
template< typename... A > void add( J& r, A... ) {}
static J shown( const std::string& s ) { return J::bytes( s ); }
static J shown( int v ) { return J::bytes( std::to_string( v ) ); }
template< typename A > J scan1( const std::string& s ) { A a = A(); int n = scan_str( s, a ); J r = J::arr(); if ( n > 0 ) r.push( shown( a ) ); return ok( J::arr( { n, r } ) ); }
template< typename A, typename B > J scan2( const std::string& s ) { A a = A(); B b = B(); int n = scan_str( s, a, b ); J r = J::arr(); if ( n > 0 ) r.push( shown( a ) ); if ( n > 1 ) r.push( shown( b ) ); return ok( J::arr( { n, r } ) ); }
template< typename A, typename B, typename C > J scan3( const std::string& s ) {
	A a = A(); B b = B(); C c = C(); int n = scan_str( s, a, b, c ); J r = J::arr();
	if ( n > 0 ) r.push( shown( a ) ); if ( n > 1 ) r.push( shown( b ) ); if ( n > 2 ) r.push( shown( c ) ); return ok( J::arr( { n, r } ) ); }
template< typename T > J many( const J& c ) {
	std::string s = c[ 2 ].text(); J r = J::arr();
	if ( c[ 0 ].s == "vect" ) { for ( auto x : str_to_vec< T >( s, c[ 3 ].num() < 0 ? no_index : size_t( c[ 3 ].num() ) ) ) r.push( J::bytes( std::to_string( x ) ) ); return ok( r ); }
	T v[ 3 ] = {}; int n = scan_str( s, v[ 0 ], v[ 1 ], v[ 2 ] );
	for ( int i = 0; i < n && i < 3; ++i ) r.push( J::bytes( std::to_string( v[ i ] ) ) );
	return ok( J::arr( { n, r } ) );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	typedef std::string S;
	if ( f == "to" || f == "from" || f == "is" || f == "trip" ) {
		const S& t = c[ 1 ].s; S s = c[ 2 ].text();
		if ( t == "short" ) return num< short >( f, s );
		if ( t == "ushort" ) return num< unsigned short >( f, s );
		if ( t == "int" ) return num< int >( f, s );
		if ( t == "uint" ) return num< unsigned >( f, s );
		if ( t == "long" ) return num< long >( f, s );
		if ( t == "ulong" ) return num< unsigned long >( f, s );
		if ( t == "llong" ) return num< long long >( f, s );
		if ( t == "ullong" ) return num< unsigned long long >( f, s );
		if ( t == "bool" ) return num< bool >( f, s );
	}
	if ( f == "vect" || f == "scant" ) {
		const S& t = c[ 1 ].s;
		if ( t == "short" ) return many< short >( c );
		if ( t == "ushort" ) return many< unsigned short >( c );
		if ( t == "int" ) return many< int >( c );
		if ( t == "uint" ) return many< unsigned >( c );
		if ( t == "long" ) return many< long >( c );
		if ( t == "ulong" ) return many< unsigned long >( c );
		if ( t == "llong" ) return many< long long >( c );
		if ( t == "ullong" ) return many< unsigned long long >( c );
	}
	if ( f == "prec" ) return ok( set_to_str_precision( c[ 1 ].num() ) );
	if ( f == "eto" ) return ok( J::bytes( to_str( color( atoi( c[ 1 ].text().c_str() ) ) ) ) );
	if ( f == "efrom" ) return ok( J::bytes( std::to_string( int( from_str< color >( c[ 1 ].text() ) ) ) ) );
	if ( f[ 0 ] == 'r' ) return c[ 1 ].s == "float" ? reals< float >( c ) : reals< double >( c );
	if ( f == "words" ) { S s = c[ 1 ].text(); return ok( J::arr( { J::bytes( from_str< S >( to_str( s ) ) ), J::bytes( to_str( s.c_str() ) ) } ) ); }
	if ( f == "vec" || f == "vecd" ) {
		S d = f == "vec" ? c[ 3 ].text() : S(); size_t m = c[ 2 ].num() < 0 ? no_index : size_t( c[ 2 ].num() );
		auto v = f == "vec" ? str_to_vec< long long >( c[ 1 ].text(), m, d.c_str() ) : str_to_vec< long long >( c[ 1 ].text(), m );
		J r = J::arr(); for ( auto x : v ) r.push( J::bytes( std::to_string( x ) ) ); return ok( r );
	}
	if ( f == "vecw" ) { J r = J::arr(); for ( auto& x : str_to_vec< S >( c[ 1 ].text(), c[ 2 ].num() < 0 ? no_index : size_t( c[ 2 ].num() ) ) ) r.push( J::bytes( x ) ); return ok( r ); }
	if ( f == "scan" ) {
		S k, s = c[ 2 ].text(); for ( auto& x : c[ 1 ].a ) k += x.s;
		if ( k == "i" ) return scan1< int >( s ); if ( k == "w" ) return scan1< S >( s );
		if ( k == "ii" ) return scan2< int, int >( s ); if ( k == "iw" ) return scan2< int, S >( s );
		if ( k == "wi" ) return scan2< S, int >( s ); if ( k == "ww" ) return scan2< S, S >( s );
		if ( k == "iii" ) return scan3< int, int, int >( s ); if ( k == "wwi" ) return scan3< S, S, int >( s );
		if ( k == "iwi" ) return scan3< int, S, int >( s ); if ( k == "wiw" ) return scan3< S, int, S >( s );
	}
	unknown( c );
}
