#include "common.hpp"
#include <utility>
#include "flut/flag_set.hpp"
enum flag { flag_first = 0, flag_last = 63 };
template< typename S, int W > struct box {
	typedef flut::flag_set< flag, S > set_t;
	set_t f[ 3 ];
	template< int I > static bool tget( const set_t& s ) { return s.template get< flag( I ) >(); }
	template< int I > static void tset( set_t& s ) { s.template set< flag( I ) >(); }
	template< int I > static void tsetv( set_t& s, bool v ) { s.template set< flag( I ) >( v ); }
	template< int I > static void tclear( set_t& s ) { s.template clear< flag( I ) >(); }
	template< int... I > static bool tget( const set_t& s, int i, std::integer_sequence< int, I... > ) { bool ( *t[] )( const set_t& ) = { &tget< I >... }; return t[ i ]( s ); }
	template< int... I > static void tset( set_t& s, int i, std::integer_sequence< int, I... > ) { void ( *t[] )( set_t& ) = { &tset< I >... }; t[ i ]( s ); }
	template< int... I > static void tsetv( set_t& s, int i, bool v, std::integer_sequence< int, I... > ) { void ( *t[] )( set_t&, bool ) = { &tsetv< I >... }; t[ i ]( s, v ); }
	template< int... I > static void tclear( set_t& s, int i, std::integer_sequence< int, I... > ) { void ( *t[] )( set_t& ) = { &tclear< I >... }; t[ i ]( s ); }
	typedef std::make_integer_sequence< int, W > seq;
	// lists have a length known at compile time
	template< typename Fn > static void with_list( const J& l, Fn fn ) {
		auto g = [&]( int i ) { return flag( l[ i ].num() ); };
		switch ( l.size() ) {
		case 0: fn( std::initializer_list< flag >{} ); break;
		case 1: fn( { g( 0 ) } ); break;
		case 2: fn( { g( 0 ), g( 1 ) } ); break;
		case 3: fn( { g( 0 ), g( 1 ), g( 2 ) } ); break;
		case 4: fn( { g( 0 ), g( 1 ), g( 2 ), g( 3 ) } ); break;
		case 5: fn( { g( 0 ), g( 1 ), g( 2 ), g( 3 ), g( 4 ) } ); break;
		default: fn( { g( 0 ), g( 1 ), g( 2 ), g( 3 ), g( 4 ), g( 5 ) } );
		}
	}
	J call( const J& c ) {
		const std::string& n = c[ 0 ].s; set_t& x = f[ c[ 1 ].num() ];
		typedef std::initializer_list< flag > il;
		if ( n == "set" ) x.set( flag( c[ 2 ].num() ) );
		else if ( n == "tset" ) tset( x, c[ 2 ].num(), seq() );
		else if ( n == "setv" ) x.set( flag( c[ 2 ].num() ), c[ 3 ].num() != 0 );
		else if ( n == "tsetv" ) tsetv( x, c[ 2 ].num(), c[ 3 ].num() != 0, seq() );
		else if ( n == "tclear" ) tclear( x, c[ 2 ].num(), seq() );
		else if ( n == "setl" ) with_list( c[ 2 ], [&]( il l ) { x.set( l ); } );
		else if ( n == "clearl" ) with_list( c[ 2 ], [&]( il l ) { x.clear( l ); } );
		else if ( n == "newl" ) with_list( c[ 2 ], [&]( il l ) { x = set_t( l ); } );
		else if ( n == "clear" ) x.clear();
		else if ( n == "copy" ) x = f[ c[ 2 ].num() ];
		else if ( n == "copyc" ) { set_t t( f[ c[ 2 ].num() ] ); x = t; }
		else if ( n == "any" ) return ok( x.any() );
		else unknown( c );
		return ok();
	}
	J observe() {
		J r = J::arr();
		for ( int k = 1; k <= 2; ++k ) {
			J e = J::arr();
			for ( int i = 0; i < W; ++i ) { bool a = f[ k ].get( flag( i ) ), b = f[ k ]( flag( i ) ), d = tget( f[ k ], i, seq() ); e.push( a == b && a == d ? int( a ) : 2 ); }
			r.push( e );
		}
		r.push( f[ 1 ].any() ); r.push( f[ 2 ].any() );
		return r;
	}
};
static box< unsigned char, 8 > b8; static box< unsigned int, 32 > b32; static box< unsigned long long, 64 > b64;
static int width = 32;
void begin() { width = 32; b8 = box< unsigned char, 8 >(); b32 = box< unsigned int, 32 >(); b64 = box< unsigned long long, 64 >(); }
J observe() { return width == 8 ? b8.observe() : width == 32 ? b32.observe() : b64.observe(); }
J call( const J& c ) {
	if ( c[ 0 ].s == "width" ) { begin(); width = c[ 1 ].num(); return ok(); }
	return width == 8 ? b8.call( c ) : width == 32 ? b32.call( c ) : b64.call( c );
}
