#include "common.hpp"
#include "flut/system/path.hpp"
#include "flut/system/log.hpp"
#include "flut/system/log_sink.hpp"
#include "flut/system/test_framework.hpp"
typedef std::string S;
using namespace flut;
struct mem : log::sink {
	J got = J::arr();
	mem() : sink( log::trace_level ) {}
	void send_log_message( log::level l, const string& m ) override { got.push( J::arr( { int( l ), J::bytes( m ) } ) ); }
};
static mem* sink = nullptr;
static std::unique_ptr< test_framework > own;
static test_framework& fw( int i ) { return i == 1 ? *own : test_framework::get_instance(); }
void begin() {
	if ( !sink ) { sink = new mem; atexit( []() { delete sink; } ); }
	own.reset( new test_framework );
	test_framework::get_instance() = test_framework(); // a fresh global one
	sink->got = J::arr();
}
J observe() {
	J m = sink->got; sink->got = J::arr(); J r = J::arr();
	for ( int i = 1; i <= 2; ++i ) r.push( J::arr( { fw( i ).num_tests, fw( i ).num_passed, fw( i ).num_failed } ) );
	return J::arr( { r, m } );
}
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f == "test" ) { S n = c[ 2 ].text(), m = c[ 4 ].text(); bool r = c[ 3 ].num() != 0; return ok( m.empty() ? fw( c[ 1 ].num() ).test( n.c_str(), r ) : fw( c[ 1 ].num() ).test( n.c_str(), r, m ) ); }
	if ( f == "macro" ) { int b = c[ 1 ].num(); return ok( FLUT_TEST( b != 0 ) ); }
	if ( f == "macromsg" ) { int b = c[ 1 ].num(); S m = c[ 2 ].text(); return ok( FLUT_TEST_MSG( b != 0, m ) ); }
	if ( f == "show" ) { fw( c[ 1 ].num() ).show_passed = c[ 2 ].num() != 0; return ok(); }
	if ( f == "reset" ) { fw( c[ 1 ].num() ).reset(); return ok(); }
	if ( f == "report" ) return ok( c[ 1 ].num() == 2 ? FLUT_TEST_REPORT() != 0 : fw( 1 ).report() != 0 );
	unknown( c );
}
