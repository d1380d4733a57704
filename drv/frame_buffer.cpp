#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/buffer/circular_frame_buffer.hpp"
typedef flut::circular_frame_buffer< double, std::string > buf_t;
static std::unique_ptr< buf_t > b; static size_t n;
static J I( double v ) { return J( (long long)std::llround( v ) ); }
void begin() { b.reset( new buf_t() ); n = 0; }
J observe() {
	const buf_t& c = *b; J l = J::arr(), fr = J::arr();
	for ( size_t i = 0; i < c.channel_size(); ++i ) l.push( J::bytes( c.get_label( i ) ) );
	size_t kept = std::min( n, c.frame_size() );
	for ( size_t f = c.frame_size() - kept; f < c.frame_size(); ++f ) {
		J r = J::arr();
		for ( size_t i = 0; i < c.channel_size(); ++i ) { double x = c.at( f, i ), y = c( f, i ), z = c.reverse( c.frame_size() - 1 - f, i ); r.push( x == y && x == z ? I( x ) : J( -987654 ) ); }
		fr.push( r );
	}
	return J::arr( { c.frame_size(), c.channel_size(), l, c.empty(), fr } );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s; const buf_t& cb = *b;
	auto N = [&]( int k ) { return size_t( c[ k ].num() ); };
	auto kept = [&]( long long fr, size_t ch ) { return fr >= 0 && fr < (long long)cb.frame_size() && fr + (long long)n >= (long long)cb.frame_size() && ch < cb.channel_size(); };
	long long last = (long long)cb.frame_size() - 1;
	if ( f == "newd" ) { b.reset( new buf_t() ); n = 0; return ok(); }
	if ( f == "newc" ) { b.reset( new buf_t( N( 1 ) ) ); n = 0; return ok(); }
	if ( f == "new" ) { b.reset( new buf_t( N( 1 ), N( 2 ) ) ); n = N( 2 ); return ok(); }
	if ( f == "add" ) { if ( c[ 1 ].size() != b->channel_size() || n == 0 ) return none(); auto r = b->add_frame(); for ( size_t i = 0; i < c[ 1 ].size(); ++i ) ( *b )[ i ] = c[ 1 ][ i ].num(); return ok( r ); }
	if ( f == "at" ) return ok( I( b->at( N( 1 ), N( 2 ) ) ) );
	if ( f == "cat" ) return ok( I( cb.at( N( 1 ), N( 2 ) ) ) );
	if ( f == "get" ) return kept( N( 1 ), N( 2 ) ) ? ok( I( ( *b )( N( 1 ), N( 2 ) ) ) ) : none();
	if ( f == "cget" ) return kept( N( 1 ), N( 2 ) ) ? ok( I( cb( N( 1 ), N( 2 ) ) ) ) : none();
	if ( f == "rev" ) return kept( last - c[ 1 ].num(), N( 2 ) ) ? ok( I( b->reverse( N( 1 ), N( 2 ) ) ) ) : none();
	if ( f == "crev" ) return kept( last - c[ 1 ].num(), N( 2 ) ) ? ok( I( cb.reverse( N( 1 ), N( 2 ) ) ) ) : none();
	if ( f == "last" ) return kept( last, N( 1 ) ) ? ok( I( ( *b )[ N( 1 ) ] ) ) : none();
	if ( f == "clast" ) return kept( last, N( 1 ) ) ? ok( I( cb[ N( 1 ) ] ) ) : none();
	if ( f == "atset" ) { b->at( N( 1 ), N( 2 ) ) = c[ 3 ].num(); return ok(); }
	if ( f == "set" ) { if ( !kept( N( 1 ), N( 2 ) ) ) return none(); ( *b )( N( 1 ), N( 2 ) ) = c[ 3 ].num(); return ok(); }
	if ( f == "revset" ) { if ( !kept( last - c[ 1 ].num(), N( 2 ) ) ) return none(); b->reverse( N( 1 ), N( 2 ) ) = c[ 3 ].num(); return ok(); }
	if ( f == "lastset" ) { if ( !kept( last, N( 1 ) ) ) return none(); ( *b )[ N( 1 ) ] = c[ 2 ].num(); return ok(); }
	if ( f == "interp" ) { if ( kept( N( 1 ), N( 2 ) ) && c[ 3 ].num() != 0 && (long long)N( 1 ) >= last ) return none(); return ok( I( 4 * b->get_interpolated_value( N( 1 ), N( 2 ), c[ 3 ].num() / 4.0 ) ) ); }
	if ( f == "resize" ) { b->resize_buffer( N( 1 ), N( 2 ), double( c[ 3 ].num() ) ); n = N( 1 ); return ok(); }
	if ( f == "resized" ) { b->resize_buffer( N( 1 ), N( 2 ) ); n = N( 1 ); return ok(); }
	if ( f == "resizef" ) { b->resize_buffer( N( 1 ), double( c[ 2 ].num() ) ); n = N( 1 ); return ok(); }
	if ( f == "addch" ) return ok( b->add_channel( c[ 1 ].text() ) );
	if ( f == "faddch" ) return ok( b->find_or_add_channel( c[ 1 ].text() ) );
	if ( f == "label" ) { b->set_label( N( 1 ), c[ 2 ].text() ); return ok(); }
	if ( f == "find" ) return ok( cb.find_channel( c[ 1 ].text() ) );
	unknown( c );
}
