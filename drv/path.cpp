#include "common.hpp"
#include "flut/system/path.hpp"
#include "flut/string_tools.hpp"
using flut::path;
static path p;
void begin() { p = path(); }
static J P( const path& x ) { return J::bytes( x.str() ); }
J observe() {
	const path& q = p;
	return J::arr( { P( q ), P( q.parent_path() ), P( q.filename() ), P( q.stem() ), P( q.extension() ), q.has_filename(), q.has_parent_path(), q.empty() } );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	auto a = [&]() { return c[ 1 ].text(); };
	if ( f == "set" ) p = path( a() );
	else if ( f == "sets" ) { std::string s = a(); p = path( s ); }
	else if ( f == "setc" ) p = path( a().c_str() );
	else if ( f == "setm" ) { path q( a() ); p = std::move( q ); }
	else if ( f == "assign" ) { std::string s = a(); p = s; }
	else if ( f == "assigns" ) p = a();
	else if ( f == "clear" ) p = path();
	else if ( f == "ext" ) p.replace_extension( path( a() ) );
	else if ( f == "noext" ) p.replace_extension();
	else if ( f == "rmname" ) p.remove_filename();
	else if ( f == "name" ) p.replace_filename( path( a() ) );
	else if ( f == "noname" ) p.replace_filename();
	else if ( f == "pref" ) p.make_preferred();
	else if ( f == "join" ) p = p / path( a() );
	else if ( f == "joinp" ) { path q( a() ); path r = p / q; p = r; }
	else if ( f == "joins" ) p = p / a();
	else if ( f == "joinc" ) p = p / a().c_str();
	else if ( f == "joineq" ) p /= path( a() );
	else if ( f == "joineqs" ) p /= a();
	else if ( f == "parent" ) p = p.parent_path();
	else if ( f == "add" ) p = p + a();
	else if ( f == "pre" ) p = a() + p;
	else if ( f == "copy" ) { path q( p ); p = path( "x" ); path r; r = q; q = path( "y/z.w" ); p = r; }
	else if ( f == "eq" ) { path q( a() ); return ok( J::arr( { p == q, p != q } ) ); }
	else if ( f == "out" ) { std::ostringstream s; s << p; return ok( J::arr( { J::bytes( s.str() ), J::bytes( flut::to_str( p ) ), P( flut::from_str< path >( flut::to_str( p ) ) ) } ) ); }
	else unknown( c );
	return ok();
}
