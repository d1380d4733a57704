#include "common.hpp"
#include "clock.hpp"
#include "flut/timer.hpp"
#include "flut/stopwatch.hpp"
using namespace flut;
static std::unique_ptr< timer > timers[ 2 ];
static std::unique_ptr< stopwatch > watches[ 2 ];
void begin() { for ( auto& t : timers ) t.reset(); for ( auto& w : watches ) w.reset(); clock_ns = 0; clock_tick = 0; }
J observe() { return J::arr(); }
static const long long G = 1000000000;
static J part( long long v, long long m ) { return v < 0 ? J::arr( { -1, 0 } ) : J::arr( { v / m, v % m } ); }
// seconds as a real number: to the microsecond below 10^4 seconds, to the second above
static J real( double v ) { return v < 10000 ? part( (long long)std::floor( v * 1e6 + 1e-4 ), 1000000 ) : J::arr( { (long long)std::floor( v + 1e-5 ), 0 } ); }
static J nano( long long v ) { return v < 0 ? J::arr( { -1, 0, 0 } ) : J::arr( { v / G, v % G / 1000, v % 1000 } ); }
static double value( const prop_node& pn ) { return std::stod( pn.get_value() ); }
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "advance" ) { clock_ns += c[ 1 ].i * G + c[ 2 ].i * 1000 + c[ 3 ].i; return ok(); }
	if ( f == "accounted" ) {
		// a clock that moves with every reading; script: [microseconds, tag] ...
		clock_tick = 0; long long now = clock_ns; clock_tick = c[ 1 ].i * 1000;
		stopwatch w; w.start_first_measure(); long long start = clock_last;
		std::map< std::string, long long > own; bool first = true; (void)now;
		for ( auto& e : c[ 2 ].a ) { long long t = e[ 0 ].i * 1000; clock_ns += t; w.add_measure( e[ 1 ].text() ); own[ e[ 1 ].text() ] += t; first = false; }
		long long total = ( first ? 0 : clock_last - start ); clock_tick = 0;
		auto pn = w.get_report(); double sum = 0; bool each = pn.size() == own.size() + 1; double internal = 0; size_t k = 0;
		for ( auto& p : pn ) {
			double v = value( p.second ); sum += v;
			if ( ++k == pn.size() ) internal = v; else each = each && own.count( p.first ) && v * 1e6 + .6 >= own[ p.first ] / 1000.0;
		}
		return ok( J::arr( { std::fabs( sum * 1e6 - total / 1000.0 ) < .6 * ( pn.size() + 1 ), each, internal >= 0, internal * 1e6 + .6 >= double( c[ 1 ].i ) * double( c[ 2 ].size() ) } ) );
	}
	int i = c[ 1 ].num() - 1;
	if ( f == "timer" ) { timers[ i ].reset( new timer ); return ok(); }
	if ( f == "reset" ) { timers[ i ]->reset(); return ok(); }
	if ( f == "copy" ) { timers[ c[ 2 ].num() - 1 ].reset( new timer( *timers[ i ] ) ); return ok(); }
	if ( f == "ns" ) return ok( nano( timers[ i ]->nanoseconds() ) );
	if ( f == "ticks" ) return ok( nano( timers[ i ]->ticks() ) );
	if ( f == "us" ) return ok( part( timers[ i ]->microseconds(), 1000000 ) );
	if ( f == "ms" ) return ok( part( timers[ i ]->milliseconds(), 1000 ) );
	if ( f == "seconds" ) return ok( real( timers[ i ]->seconds() ) );
	if ( f == "minutes" ) return ok( real( timers[ i ]->minutes() * 60 ) );
	if ( f == "hours" ) return ok( real( timers[ i ]->hours() * 3600 ) );
	if ( f == "watch" ) { watches[ i ].reset( new stopwatch ); return ok(); }
	if ( f == "first" ) { watches[ i ]->start_first_measure(); return ok(); }
	if ( f == "measure" ) { watches[ i ]->add_measure( c[ 2 ].text() ); return ok(); }
	if ( f == "report" ) {
		static int precision = 2; set_to_str_precision( precision = precision % 9 + 1 ); // the report leaves it alone
		auto pn = watches[ i ]->get_report(); J r = J::arr();
		if ( to_str_precision() != precision ) return ok( "precision changed" );
		for ( auto& p : pn ) { long long u = std::llround( value( p.second ) * 1e6 ); r.push( J::arr( { J::bytes( p.first ), part( u, 1000000 ) } ) ); }
		return ok( r );
	}
	unknown( c );
}
