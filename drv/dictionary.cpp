#include "common.hpp"
#include "flut/string_tools.hpp"
#include "flut/system/string_cast.hpp"
#include "flut/dictionary.hpp"
typedef std::string S; typedef std::vector< std::pair< int, S > > entries;
static const size_t MAXN = 48;
static entries es; static flut::dictionary< int > dict;
// initializer lists have a length fixed by the compiler: one function per length
template< size_t... I > static flut::dictionary< int > mk( const entries& e, bool make, std::index_sequence< I... > ) {
	if ( make ) return flut::make_dictionary< int >( { std::pair< int, S >( e[ I ] )... } );
	return flut::dictionary< int >( { std::pair< int, S >( e[ I ] )... } ); }
template< size_t... I > static int lk( const entries& e, const S& s, std::index_sequence< I... > ) { return flut::lookup< int >( s, { std::pair< const char*, int >( e[ I ].second.c_str(), e[ I ].first )... } ); }
template< size_t N > struct at { 
	static flut::dictionary< int > make( const entries& e, bool m ) { return e.size() == N ? mk( e, m, std::make_index_sequence< N >() ) : at< N - 1 >::make( e, m ); }
	static int look( const entries& e, const S& s ) { return e.size() == N ? lk( e, s, std::make_index_sequence< N >() ) : at< N - 1 >::look( e, s ); } };
template<> struct at< 0 > { static flut::dictionary< int > make( const entries&, bool ) { return flut::dictionary< int >(); } static int look( const entries&, const S& s ) { return flut::lookup< int >( s, {} ); } };
static flut::dictionary< int > make( const entries& e, bool m ) { if ( e.size() == 100 ) return mk( e, m, std::make_index_sequence< 100 >() ); if ( e.size() == 257 ) return mk( e, m, std::make_index_sequence< 257 >() ); if ( e.size() > MAXN ) _exit( 99 ); return at< MAXN >::make( e, m ); }
static int look( const entries& e, const S& s ) { if ( e.size() == 100 ) return lk( e, s, std::make_index_sequence< 100 >() ); if ( e.size() == 257 ) return lk( e, s, std::make_index_sequence< 257 >() ); return at< MAXN >::look( e, s ); }
void begin() { es.clear(); dict = flut::dictionary< int >(); }
J observe() { return es.size(); }
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f == "new" || f == "make" ) { es.clear(); for ( auto& e : c[ 1 ].a ) es.emplace_back( e[ 0 ].num(), e[ 1 ].text() ); dict = make( es, f == "make" ); return ok(); }
	if ( f == "name" ) return ok( J::bytes( dict( c[ 1 ].num() ) ) );
	if ( f == "elem" ) return ok( dict( c[ 1 ].text() ) );
	if ( f == "elemd" ) return ok( int( dict( c[ 1 ].text(), c[ 2 ].num() ) ) );
	if ( f == "lookup" ) return ok( look( es, c[ 1 ].text() ) );
	if ( f == "copy" ) { auto t = dict; dict = flut::dictionary< int >(); dict = t; return ok(); }
	unknown( c );
}
