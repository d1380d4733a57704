#include "common.hpp"
#include "flut/string_tools.hpp"
#include "flut/char_stream.hpp"
#include "flut/filesystem.hpp"
using namespace flut;
static std::unique_ptr< char_stream > cs;
static std::string buf, delim;
static void write_file( const char* n, const std::string& s ) { FILE* f = fopen( n, "wb" ); fwrite( s.data(), 1, s.size(), f ); fclose( f ); }
void begin() { buf = ""; delim = ""; cs.reset( new char_stream( buf.c_str(), delim.c_str() ) ); }
J observe() { return J::arr( { cs->good(), cs->eof(), cs->fail() } ); }
template< typename T > J number() { T v = T( 77 ); *cs >> v; return ok( J::bytes( std::to_string( v ) ) ); }
template< typename T > J real() { T v = T( 77 ); *cs >> v; return ok( (long long)std::llround( double( v ) * 1e6 ) ); }
J call( const J& c ) {
	const std::string& f = c[ 0 ].s;
	static char name[ 64 ]; snprintf( name, 64, "cs-%d.txt", int( getpid() ) );
	if ( f == "new" ) { auto t = c[ 1 ].text(), d = c[ 2 ].text(); cs.reset(); buf = t; delim = d; buf.shrink_to_fit(); cs.reset( new char_stream( buf.c_str(), delim.c_str() ) ); return ok(); }
	if ( f == "newstr" ) { delim = c[ 2 ].text(); cs.reset( new char_stream( c[ 1 ].text(), delim.c_str() ) ); return ok(); }
	if ( f == "newfile" ) { write_file( name, c[ 1 ].text() ); delim = c[ 2 ].text(); cs.reset( new char_stream( path( name ), delim.c_str() ) ); unlink( name ); return ok(); }
	if ( f == "load" ) { write_file( name, c[ 1 ].text() ); delim = c[ 2 ].text(); cs.reset(); cs.reset( new char_stream( load_char_stream( path( name ), delim.c_str() ) ) ); unlink( name ); return ok(); }
	if ( f == "newd" ) { auto t = c[ 1 ].text(); cs.reset(); buf = t; cs.reset( new char_stream( buf.c_str() ) ); return ok(); }
	if ( f == "newstrd" ) { cs.reset( new char_stream( c[ 1 ].text() ) ); return ok(); }
	if ( f == "loadd" ) { write_file( name, c[ 1 ].text() ); cs.reset(); cs.reset( new char_stream( load_char_stream( path( name ) ) ) ); unlink( name ); return ok(); }
	if ( f == "loadec" ) { error_code ec; cs.reset(); delim = c[ 1 ].text(); cs.reset( new char_stream( load_char_stream( path( "does-not-exist.txt" ), delim.c_str(), &ec ) ) ); return ok( ec.error() ); }
	if ( f == "tokend" ) return ok( J::bytes( cs->get_token() ) );
	if ( f == "missing" ) { char_stream x( path( "does-not-exist.txt" ) ); return ok(); }
	if ( f == "token" ) return ok( J::bytes( cs->get_token( c[ 1 ].text().c_str(), c[ 2 ].text().c_str() ) ) );
	if ( f == "tokens" ) { J r = J::arr(); while ( cs->good() ) r.push( J::bytes( cs->get_token( c[ 1 ].text().c_str(), c[ 2 ].text().c_str() ) ) ); return ok( r ); }
	if ( f == "line" ) return ok( J::bytes( cs->get_line() ) );
	if ( f == "word" ) { std::string s = "?"; *cs >> s; return ok( J::bytes( s ) ); }
	if ( f == "int" ) return number< int >();
	if ( f == "uint" ) return number< unsigned >();
	if ( f == "short" ) return number< short >();
	if ( f == "ushort" ) return number< unsigned short >();
	if ( f == "long" ) return number< long >();
	if ( f == "ulong" ) return number< unsigned long >();
	if ( f == "llong" ) return number< long long >();
	if ( f == "ullong" ) return number< unsigned long long >();
	if ( f == "float" ) return real< float >();
	if ( f == "double" ) return real< double >();
	if ( f == "getc" ) return cs->good() ? ok( int( (unsigned char)cs->getc() ) ) : none();
	if ( f == "peekc" ) return ok( int( (unsigned char)cs->peekc() ) );
	unknown( c );
}
