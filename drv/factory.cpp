#include "common.hpp"
#include "flut/string_tools.hpp"
#include "flut/factory.hpp"
typedef std::string S;
static int made;
struct base { S cls; int i; S s; base( S c, int i, S s ) : cls( c ), i( i ), s( s ) { ++made; } virtual ~base() {} };
#define CLASS( N ) struct N : base { N() : base( #N, 0, "" ) {} N( int i, S s ) : base( #N, i, s ) {} };
CLASS( A )
CLASS( long_class_name_with_underscores_42 )
namespace ns { CLASS( B ) CLASS( A2 ) namespace inner { CLASS( C ) } }
struct outer { CLASS( D ) };
namespace { CLASS( E ) }
typedef flut::factory< base, int, S > fac; typedef flut::factory< base > fac0;
static fac f[ 3 ]; static fac0 f0;
void begin() { f[ 1 ] = fac(); f[ 2 ] = fac(); f0 = fac0(); made = 0; }
J observe() { return made; }
template< typename F > J reg( F& x, const S& k, const S* n ) {
	if ( k == "A" ) n ? x.template register_class< A >( *n ) : x.template register_class< A >();
	else if ( k == "B" ) n ? x.template register_class< ns::B >( *n ) : x.template register_class< ns::B >();
	else if ( k == "A2" ) n ? x.template register_class< ns::A2 >( *n ) : x.template register_class< ns::A2 >();
	else if ( k == "C" ) n ? x.template register_class< ns::inner::C >( *n ) : x.template register_class< ns::inner::C >();
	else if ( k == "D" ) n ? x.template register_class< outer::D >( *n ) : x.template register_class< outer::D >();
	else if ( k == "E" ) n ? x.template register_class< E >( *n ) : x.template register_class< E >();
	else if ( k[ 0 ] == 'l' ) n ? x.template register_class< long_class_name_with_underscores_42 >( *n ) : x.template register_class< long_class_name_with_underscores_42 >();
	else { fprintf( stderr, "class?\n" ); _exit( 99 ); }
	return ok();
}
static J show( std::unique_ptr< base > p ) { if ( !p ) return none(); return ok( J::arr( { J::bytes( p->cls ), p->i, J::bytes( p->s ) } ) ); }
template< typename F, typename... A > J use( const F& x, const S& g, const S& n, A... a ) {
	if ( g == "create" ) return show( x.create( n, a... ) );
	if ( g == "op" ) return show( x( n, a... ) );
	if ( g == "index" ) return show( x[ n ]( a... ) );
	return show( x.try_create( n, a... ) );
}
J call( const J& c ) {
	const S& g = c[ 0 ].s; int k = c[ 1 ].num();
	if ( g == "reg" || g == "regd" ) { S n; if ( g == "reg" ) n = c[ 3 ].text(); const S* p = g == "reg" ? &n : nullptr; return k == 3 ? reg( f0, c[ 2 ].text(), p ) : reg( f[ k ], c[ 2 ].text(), p ); }
	if ( g == "create" || g == "op" || g == "index" || g == "try" ) return k == 3 ? use( f0, g, c[ 2 ].text() ) : use( f[ k ], g, c[ 2 ].text(), c[ 3 ].num(), c[ 4 ].text() );
	if ( g == "has" ) return ok( k == 3 ? f0.has_type( c[ 2 ].text() ) : f[ k ].has_type( c[ 2 ].text() ) );
	if ( g == "empty" ) return ok( k == 3 ? f0.empty() : f[ k ].empty() );
	if ( g == "copy" ) { f[ k ] = f[ c[ 2 ].num() ]; return ok(); }
	if ( g == "new" ) { if ( k == 3 ) f0 = fac0(); else f[ k ] = fac(); return ok(); }
	unknown( c );
}
