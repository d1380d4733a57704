#include "common.hpp"
#include "files.hpp"
#include "flut/system/path.hpp"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
#include "flut/system/string_cast.hpp"
typedef std::string S;
using namespace flut;
static scratch tmp;
struct mem : log::sink {
	J got = J::arr();
	mem( log::level l ) : sink( l ) {}
	mem() {}
	void send_log_message( log::level l, const string& m ) override { got.push( J::arr( { int( l ), J::bytes( m ) } ) ); }
};
struct cell { S kind; std::unique_ptr< log::sink > s; std::ostringstream str; S file; size_t seen = 0; };
static std::unique_ptr< cell > cells[ 20 ];
static int serial = 0;
static void drop( int i ) { cells[ i ]->s.reset(); cells[ i ].reset(); }
static void drop_all() { for ( int i = 0; i < 20; ++i ) if ( cells[ i ] ) drop( i ); }
void begin() { static int once = atexit( drop_all ); (void)once; for ( int i = 0; i < 20; ++i ) if ( cells[ i ] ) drop( i ); scratch::clear( tmp.dir ); }
J observe() {
	J r = J::arr();
	for ( auto& c : cells ) {
		if ( !c ) { r.push( J::arr() ); continue; }
		if ( c->kind == "mem" ) { auto& m = static_cast< mem& >( *c->s ); r.push( m.got ); m.got = J::arr(); continue; }
		S t = c->kind == "stream" ? c->str.str() : read_file( c->file );
		r.push( J::bytes( t.size() >= c->seen ? t.substr( c->seen ) : "?" + t ) ); c->seen = t.size();
	}
	return r;
}
static void vs( log::level l, const char* f, ... ) { va_list v; va_start( v, f ); log::log_vstring( l, f, v ); va_end( v ); }
struct arg { S s; int n; bool text; friend std::ostream& operator<<( std::ostream& o, const arg& a ) { if ( a.text ) return o << a.s; else return o << a.n; } };
static arg ar( const J& j ) { bool t = j[ 0 ].s == "t"; return arg{ t ? j[ 1 ].text() : S(), t ? 0 : j[ 1 ].num(), t }; }
#define SPREAD( FUN, ... ) switch ( a.size() ) { case 0: FUN( __VA_ARGS__ ); break; case 1: FUN( __VA_ARGS__ a[ 0 ] ); break; case 2: FUN( __VA_ARGS__ a[ 0 ], a[ 1 ] ); break; case 3: FUN( __VA_ARGS__ a[ 0 ], a[ 1 ], a[ 2 ] ); break; default: FUN( __VA_ARGS__ a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ); }
#define NAMED( L, CALL ) switch ( L ) { case 1: log::trace CALL; break; case 2: log::debug CALL; break; case 3: log::info CALL; break; case 4: log::warning CALL; break; case 5: log::error CALL; break; case 6: log::critical CALL; break; default: unknown( c ); }
#define NAMEDF( L, CALL ) switch ( L ) { case 1: log::tracef CALL; break; case 2: log::debugf CALL; break; case 3: log::infof CALL; break; case 4: log::warningf CALL; break; case 5: log::errorf CALL; break; case 6: log::criticalf CALL; break; default: unknown( c ); }
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	int n = c.size() > 1 ? c[ 1 ].num() : 0; int i = n - 1;
	auto l = log::level( n );
	if ( f == "create" ) {
		const S& k = c[ 2 ].s; auto lv = log::level( c[ 3 ].num() );
		cells[ i ].reset( new cell ); auto& x = *cells[ i ]; x.kind = k; bool good = true;
		if ( k == "mem" ) x.s.reset( new mem( lv ) );
		else if ( k == "stream" ) x.s.reset( new log::stream_sink( lv, x.str ) );
		else { x.file = tmp( ( k == "bad" ? "none/" : "" ) + ( "log" + std::to_string( ++serial ) ) ); auto* p = new log::file_sink( lv, path( x.file ) ); x.s.reset( p ); good = p->good(); }
		return ok( good );
	}
	if ( f == "createdef" ) { cells[ i ].reset( new cell ); cells[ i ]->kind = "mem"; cells[ i ]->s.reset( new mem ); return ok( 1 ); }
	if ( f == "destroy" ) { drop( i ); return ok(); }
	if ( f == "level" ) { cells[ i ]->s->set_log_level( log::level( c[ 2 ].num() ) ); return ok(); }
	if ( f == "getlevel" ) return ok( int( cells[ i ]->s->get_log_level() ) );
	if ( f == "global" ) { log::set_global_log_level( l ); return ok(); }
	if ( f == "remove" ) { log::remove_sink( cells[ i ]->s.get() ); return ok(); }
	if ( f == "add" ) { log::add_sink( cells[ i ]->s.get() ); return ok(); }
	if ( f == "query" ) return ok( int( log::get_global_log_level() ) );
	if ( f == "test" ) return ok( log::test_log_level( l ) );
	if ( f == "vars" ) { int aa = n, bb = c[ 2 ].num(); flut_logvar2( aa, bb ); return ok(); }
	if ( f == "message" || f == "string" || f == "stream" || f == "named" ) {
		std::vector< arg > a; for ( auto& j : c[ 2 ].a ) a.push_back( ar( j ) );
		std::stringstream st;
		if ( f == "string" ) { S t; std::stringstream b; for ( auto& x : a ) b << x; log::log_string( l, b.str() ); return ok(); }
		if ( f == "stream" ) { switch ( a.size() ) { case 0: log::log_stream( l, st ); break; case 1: log::log_stream( l, st, a[ 0 ] ); break; case 2: log::log_stream( l, st, a[ 0 ], a[ 1 ] ); break; case 3: log::log_stream( l, st, a[ 0 ], a[ 1 ], a[ 2 ] ); break; default: log::log_stream( l, st, a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ); } return ok(); }
		if ( f == "message" ) { switch ( a.size() ) { case 0: log::message( l ); break; case 1: log::message( l, a[ 0 ] ); break; case 2: log::message( l, a[ 0 ], a[ 1 ] ); break; case 3: log::message( l, a[ 0 ], a[ 1 ], a[ 2 ] ); break; default: log::message( l, a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ); } return ok(); }
		switch ( a.size() ) { case 0: NAMED( n, () ) break; case 1: NAMED( n, ( a[ 0 ] ) ) break; case 2: NAMED( n, ( a[ 0 ], a[ 1 ] ) ) break; case 3: NAMED( n, ( a[ 0 ], a[ 1 ], a[ 2 ] ) ) break; default: NAMED( n, ( a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ) ) }
		return ok();
	}
	S s = c[ 2 ].text(); S t = c.size() > 4 ? c[ 4 ].text() : S(); int v = c.size() > 3 ? c[ 3 ].num() : 0;
	if ( f == "messagef" ) { log::messagef( l, "%s%d%%%s", s.c_str(), v, t.c_str() ); return ok(); }
	if ( f == "vstring" ) { vs( l, "%s%d%%%s", s.c_str(), v, t.c_str() ); return ok(); }
	if ( f == "namedf" ) { NAMEDF( n, ( "%s%d%%%s", s.c_str(), v, t.c_str() ) ) return ok(); }
	if ( f == "formatonly" ) { log::messagef( l, s.c_str() ); return ok(); }
	if ( f == "namedformat" ) { NAMEDF( n, ( s.c_str() ) ) return ok(); }
	if ( f == "mixed" ) { log::message( l, s, v, 'c', 2.5, " lit", true ); return ok(); }
	if ( f == "namedmixed" ) { NAMED( n, ( s, v, 'c', 2.5, " lit", true ) ) return ok(); }
	unknown( c );
}
