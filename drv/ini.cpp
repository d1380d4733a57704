#include "tree.hpp"
#include "files.hpp"
typedef std::string S;
using flut::path;
static scratch tmp;
static S name( const J& i ) { return tmp( "f" + std::to_string( i.num() ) + ".ini" ); }
void begin() { scratch::clear( tmp.dir ); }
J observe() { J r = J::arr(); for ( int i = 1; i <= 2; ++i ) { struct stat s; r.push( stat( name( J( i ) ).c_str(), &s ) == 0 ); } return r; }
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f == "save" ) { flut::save_ini( built( c[ 2 ] ), path( name( c[ 1 ] ) ) ); return ok(); }
	if ( f == "load" ) return ok( show( flut::load_ini( path( name( c[ 1 ] ) ) ) ) );
	S g = tmp( "trip.ini" );
	if ( f == "trip" ) { flut::save_ini( built( c[ 1 ] ), path( g ) ); return ok( show( flut::load_ini( path( g ) ) ) ); }
	if ( f == "lines" ) {
		const char* e = c[ 2 ].num() == 1 ? "\n" : c[ 2 ].num() == 2 ? "\r\n" : "\n";
		S t; for ( size_t i = 0; i < c[ 1 ].size(); ++i ) { t += c[ 1 ][ i ].text(); if ( i + 1 < c[ 1 ].size() || c[ 2 ].num() != 3 ) t += e; } // 3: no newline at the end
		write_file( g, t ); return ok( show( flut::load_ini( path( g ) ) ) );
	}
	unknown( c );
}
