#include "common.hpp"
#include "flut/string_tools.hpp"
#include "flut/system_tools.hpp"
using namespace flut;
void begin() {}
J observe() { return 0; }
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	if ( f == "fmt3" ) return ok( J::bytes( stringf( "%*d%s", c[ 2 ].num(), c[ 1 ].num(), c[ 3 ].text().c_str() ) ) );
	std::string s = c[ 1 ].text();
	auto a = [&]() { return c[ 2 ].text(); };
	auto B = []( const std::string& x ) { return ok( J::bytes( x ) ); };
	if ( f == "trim" ) return B( trim_str( s, a().c_str() ) );
	if ( f == "trimd" ) return B( trim_str( s ) );
	if ( f == "trimr" ) return B( trim_right_str( s, a().c_str() ) );
	if ( f == "trimrd" ) return B( trim_right_str( s ) );
	if ( f == "split" ) { J r = J::arr(); for ( auto& x : split_str( s, a() ) ) r.push( J::bytes( x ) ); return ok( r ); }
	if ( f == "leftof" ) return B( left_of_str( s, a() ) );
	if ( f == "rightof" ) return B( right_of_str( s, a() ) );
	if ( f == "kv" ) { auto p = make_key_value_str( s, a() ); return ok( J::arr( { J::bytes( p.first ), J::bytes( p.second ) } ) ); }
	if ( f == "kvd" ) { auto p = make_key_value_str( s ); return ok( J::arr( { J::bytes( p.first ), J::bytes( p.second ) } ) ); }
	if ( f == "left" ) return B( left_str( s, c[ 2 ].num() ) );
	if ( f == "right" ) return B( right_str( s, c[ 2 ].num() ) );
	if ( f == "mid" ) return B( c[ 3 ].num() < 0 ? mid_str( s, c[ 2 ].num() ) : mid_str( s, c[ 2 ].num(), c[ 3 ].num() ) );
	if ( f == "instr" ) return ok( c[ 3 ].num() == 0 ? in_str( s, a() ) : in_str( s, a(), c[ 3 ].num() ) );
	if ( f == "begins" ) return ok( str_begins_with( s, a() ) );
	if ( f == "ends" ) return ok( str_ends_with( s, a() ) );
	if ( f == "tidy" ) return B( tidy_identifier( s ) );
	if ( f == "ext" ) return B( get_filename_ext( s ) );
	if ( f == "noext" ) return B( get_filename_without_ext( s ) );
	if ( f == "folder" ) return B( get_filename_folder( s ) );
	if ( f == "nofolder" ) return B( get_filename_without_folder( s ) );
	if ( f == "fmt0" ) return B( stringf( s.c_str() ) );
	if ( f == "fmt1" ) return B( stringf( "%s", s.c_str() ) );
	if ( f == "fmt2" ) return B( stringf( "[%s|%d]", s.c_str(), c[ 2 ].num() ) );
	unknown( c );
}
