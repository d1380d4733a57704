#include "tree.hpp"
#include "files.hpp"
typedef std::string S;
static scratch tmp;
static S home;
static S in_quotes( const S& s ) { S r = "\""; for ( char c : s ) { if ( c == '"' || c == '\\' ) r += '\\'; r += c; } return r + "\""; }
static S simple( const S& s ) { for ( char c : s ) if ( !isalnum( (unsigned char)c ) && c != '_' ) return in_quotes( s ); return s; }
static S prop_doc( const J& t ) {
	S r; for ( auto& k : t[ 1 ].a ) { r += simple( k[ 0 ].text() ); S v = k[ 1 ][ 0 ].text(); if ( !v.empty() || k[ 1 ][ 1 ].a.empty() ) r += " = " + in_quotes( v ); if ( !k[ 1 ][ 1 ].a.empty() ) r += " {\n" + prop_doc( k[ 1 ] ) + "}"; r += "\n"; }
	return r;
}
static S xml_doc( const J& t ) { S r; for ( auto& k : t[ 1 ].a ) { S n = k[ 0 ].text(); r += "<" + n + ">" + k[ 1 ][ 0 ].text() + xml_doc( k[ 1 ] ) + "</" + n + ">"; } return r; }
static void folders( const S& name ) { for ( size_t p = name.find( '/' ); p != S::npos; p = name.find( '/', p + 1 ) ) mkdir( name.substr( 0, p ).c_str(), 0777 ); }
void begin() {}
J observe() { return J::arr(); }
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f != "load" ) unknown( c );
	char b[ 4096 ]; if ( !getcwd( b, sizeof b ) ) _exit( 99 );
	scratch::clear( tmp.dir );
	if ( chdir( tmp.dir.c_str() ) ) _exit( 99 ); // file names are given relative to this folder
	for ( auto& e : c[ 1 ].a ) { S n = e[ 0 ].text(); folders( n ); bool xml = n.size() > 4 && n.substr( n.size() - 4 ) == ".xml"; write_file( n, xml ? xml_doc( e[ 1 ] ) : prop_doc( e[ 1 ] ) ); }
	J r = guarded( [&]() { prop_node n = c[ 3 ].a.empty() ? flut::load_file_with_include( flut::path( c[ 2 ].text() ) ) : flut::load_file_with_include( flut::path( c[ 2 ].text() ), c[ 3 ].text() ); size_t u = n.count_unaccessed(); return ok( J::arr( { show( n ), u } ) ); } );
	if ( chdir( b ) ) _exit( 99 );
	return r;
}
