#include "tree.hpp"
#include "files.hpp"
typedef std::string S;
static scratch tmp;
void begin() {}
J observe() { return J( 0 ); }
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	S t = c[ f == "doc" ? 2 : 1 ].text();
	std::unique_ptr< char[] > exact( new char[ t.size() + 1 ] ); memcpy( exact.get(), t.c_str(), t.size() + 1 ); // so that reading past the end is noticed
	if ( f == "doc" ) {
		J a = guarded( [&]() { return ok( show( flut::parse_prop( exact.get() ) ) ); } );
		J b = guarded( [&]() { prop_node n( exact.get() ); return ok( show( n ) ); } );
		J d = guarded( [&]() { S g = tmp( "x.prop" ); write_file( g, t ); return ok( show( flut::load_prop( flut::path( g ) ) ) ); } );
		S x, y, z; put( x, a ); put( y, b ); put( z, d );
		return x != y ? b : x != z ? d : a;
	}
	if ( f == "any" ) { J a = guarded( [&]() { show( flut::parse_prop( exact.get() ) ); return ok(); } ); return a; }
	unknown( c );
}
