#include "common.hpp"
#include "flut/memory_tools.hpp"
using namespace flut;
static int live = 0;
struct thing {
	int* v; // on the heap, so that sharing is an error
	thing( int x ) : v( new int( x ) ) { ++live; }
	thing( const thing& o ) : v( new int( *o.v ) ) { ++live; }
	thing& operator=( const thing& o ) { *v = *o.v; return *this; }
	~thing() { --live; delete v; }
};
typedef std::vector< std::unique_ptr< thing > > things;
static std::vector< things > vecs;
void begin() { vecs.clear(); live = 0; }
J observe() {
	J r = J::arr();
	for ( auto& v : vecs ) { J x = J::arr(); for ( auto& e : v ) x.push( e ? *e->v : -1 ); r.push( x ); }
	return J::arr( { r, live } );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s; auto at = [&]( int k ) { return size_t( c[ k ].i - 1 ); };
	if ( f == "new" ) vecs.emplace_back();
	else if ( f == "push" ) vecs[ at( 1 ) ].emplace_back( new thing( c[ 2 ].num() ) );
	else if ( f == "clone" ) { const things& s = vecs[ at( 1 ) ]; auto n = clone( s ); vecs.push_back( std::move( n ) ); }
	else if ( f == "cloneone" ) { const auto& p = vecs[ at( 1 ) ][ at( 2 ) ]; auto n = clone( p ); vecs[ at( 1 ) ].push_back( std::move( n ) ); }
	else if ( f == "assign" ) vecs[ at( 2 ) ] = clone( vecs[ at( 1 ) ] );
	else if ( f == "write" ) *vecs[ at( 1 ) ][ at( 2 ) ] = thing( c[ 3 ].num() );
	else if ( f == "drop" ) vecs[ at( 1 ) ].clear();
	else unknown( c );
	return ok();
}
