#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/circular_deque.hpp"
typedef flut::circular_deque< std::string > dq_t; // strings: stale storage is noticed by the sanitizer
static std::unique_ptr< dq_t > d;
static std::string enc( int v ) { return std::string( 24, 'v' ) + std::to_string( v ); }
static int dec( const std::string& s ) { return s.size() > 24 ? atoi( s.c_str() + 24 ) : -1; }
void begin() { d.reset( new dq_t() ); }
J observe() {
	J a = J::arr(), b = J::arr(), e = J::arr();
	const dq_t& c = *d;
	for ( auto it = d->begin(); it != d->end(); ++it ) a.push( dec( *it ) );
	for ( auto& s : c ) b.push( dec( s ) );
	for ( size_t i = 0; i < c.size(); ++i ) e.push( dec( c[ i ] ) );
	std::string sa, sb, se; put( sa, a ); put( sb, b ); put( se, e );
	return sa == sb && sa == se ? a : J::arr( { a, b, e } );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	const dq_t& cd = *d;
	if ( f == "new" ) { d.reset( new dq_t( c[ 1 ].num() ) ); return ok(); }
	if ( f == "pushb" ) { d->push_back( enc( c[ 1 ].num() ) ); return ok(); }
	if ( f == "pushf" ) { d->push_front( enc( c[ 1 ].num() ) ); return ok(); }
	if ( f == "popb" ) { d->pop_back(); return ok(); }
	if ( f == "popf" ) { d->pop_front(); return ok(); }
	if ( f == "back" ) return ok( dec( d->back() ) );
	if ( f == "cback" ) return ok( dec( cd.back() ) );
	if ( f == "front" ) return ok( dec( d->front() ) );
	if ( f == "cfront" ) return ok( dec( cd.front() ) );
	if ( f == "setb" ) { d->back() = enc( c[ 1 ].num() ); return ok(); }
	if ( f == "setf" ) { d->front() = enc( c[ 1 ].num() ); return ok(); }
	size_t n = c.size() > 1 ? c[ 1 ].num() : 0;
	if ( f == "get" ) return n < d->size() ? ok( dec( ( *d )[ n ] ) ) : none();
	if ( f == "cget" ) return n < cd.size() ? ok( dec( cd[ n ] ) ) : none();
	if ( f == "set" ) { if ( n >= d->size() ) return none(); ( *d )[ n ] = enc( c[ 2 ].num() ); return ok(); }
	if ( f == "clear" ) { d->clear(); return ok(); }
	if ( f == "reserve" ) { d->reserve( n ); return ok(); }
	if ( f == "cap" ) return ok( J::arr( { cd.size(), cd.empty(), cd.capacity() >= cd.size(), cd.full() == ( cd.size() == cd.capacity() ), cd.capacity() >= n } ) );
	if ( f == "iter" ) {
		if ( n >= d->size() ) return none();
		auto b = d->begin(); auto k = b++; auto m = d->begin() + int( n );
		return ok( J::arr( { int( d->end() - d->begin() ), dec( *m ), dec( *( m - int( n ) ) ), d->size() > 1 ? dec( *b ) : 0, dec( *k ), dec( std::string( k->c_str() ) ), d->begin() + int( d->size() ) == d->end(), d->begin() == d->end() } ) );
	}
	if ( f == "copy" ) { std::unique_ptr< dq_t > e( new dq_t( *d ) ); e->push_back( "x" ); if ( d->size() ) e->front() = "y"; dq_t g( *d ); d->clear(); *d = g; return ok(); }
	unknown( c );
}
