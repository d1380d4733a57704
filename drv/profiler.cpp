#include "common.hpp"
#include "clock.hpp"
#include "flut/system/profiler.hpp"
#include <deque>
using namespace flut;
static long long unit = 1;
static std::deque< std::vector< char > > names; // every name is a text of its own, kept until the end
static std::vector< scoped_section_profiler* > scopes;
static void reset( long long u ) { unit = u; for ( auto& s : scopes ) if ( s ) ::operator delete( s ); scopes.clear(); profiler::instance().reset(); names.clear(); }
void begin() { clock_tick = 0; clock_ns = 1000000007; reset( 1 ); }
J observe() { return J::arr(); }
static const char* name( const J& n ) { auto t = n.text(); names.emplace_back( t.begin(), t.end() ); names.back().push_back( 0 ); return names.back().data(); }
static std::vector< double > numbers( const std::string& s ) {
	std::vector< double > r; const char* p = s.c_str();
	while ( *p ) if ( isdigit( (unsigned char)*p ) || ( *p == '-' && isdigit( (unsigned char)p[ 1 ] ) ) ) { char* e; r.push_back( strtod( p, &e ) ); p = e; } else ++p;
	return r;
}
struct entry { std::string name; long long total, exclusive; const prop_node* pn; };
static J show( const std::string& nm, const prop_node& pn, long long root );
static entry read( const std::string& nm, const prop_node& pn, long long& root ) {
	auto v = numbers( pn.get_value() ); v.resize( 3, -1e9 );
	long long ms = std::llround( v[ 0 ] ); if ( ms % unit ) ms = -unit;
	entry e { nm, ms / unit, 0, &pn }; if ( root < 0 ) root = e.total;
	if ( std::llround( v[ 1 ] / 100 * root ) != e.total ) e.total = -7;
	e.exclusive = std::llround( v[ 2 ] / 100 * root );
	return e;
}
static J show( const entry& e, long long root ) {
	std::vector< entry > es; for ( auto& p : *e.pn ) es.push_back( read( p.first, p.second, root ) );
	// the order among equally long sections is left open: by name
	for ( size_t a = 0; a < es.size(); ) { size_t b = a; while ( b < es.size() && es[ b ].total == es[ a ].total ) ++b; std::sort( es.begin() + a, es.begin() + b, []( const entry& x, const entry& y ) { return x.name < y.name; } ); a = b; }
	J k = J::arr(); for ( auto& x : es ) k.push( show( x, root ) );
	return J::arr( { J::bytes( e.name ), e.total, e.exclusive, k } );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	auto& p = profiler::instance();
	if ( f == "reset" ) { reset( c[ 1 ].i ); return ok(); }
	if ( f == "advance" ) { clock_ns += c[ 1 ].i * unit * 1000000; return ok(); }
	if ( f == "start" ) { p.start_section( name( c[ 1 ] ) ); scopes.push_back( nullptr ); return ok(); }
	if ( f == "scope" ) { scopes.push_back( new scoped_section_profiler( name( c[ 1 ] ) ) ); return ok(); }
	if ( f == "end" ) { if ( scopes.back() ) delete scopes.back(); else p.end_section(); scopes.pop_back(); return ok(); }
	if ( f == "report" ) {
		auto pn = p.report(); long long root = -1;
		if ( pn.size() != 1 ) return ok( int( pn.size() ) );
		auto e = read( pn.begin()->first, pn.begin()->second, root );
		return ok( show( e, root ) );
	}
	unknown( c );
}
