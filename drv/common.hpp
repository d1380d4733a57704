// Shared part of all drivers: a small JSON value, the history loop and a watchdog.
// A driver defines   void begin();            - forget all objects (start of a history)
//                    J    call( const J& c ); - perform call c = [name, args...] and return its result
//                    J    observe();          - the observable state after the call
// Input : one history per line, a JSON array of calls.
// Output: one history per line, a JSON array of events {"c":call,"r":result,"s":observed state}.
#pragma once
#include <algorithm>
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <csignal>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>

struct J {
	enum K { INT, STR, ARR, OBJ } k = INT;
	long long i = 0;
	std::string s;
	std::vector< J > a;
	std::vector< std::pair< std::string, J > > o;
	J() {}
	J( int v ) : i( v ) {}
	J( long v ) : i( v ) {}
	J( long long v ) : i( v ) {}
	J( bool v ) : i( v ? 1 : 0 ) {}
	J( unsigned v ) : i( v ) {}
	J( unsigned long v ) : i( v == ~0ul ? -1 : (long long)v ) {} // no_index becomes -1
	J( const char* v ) : k( STR ), s( v ) {}
	struct bytes_t {};
	static J arr() { J j; j.k = ARR; return j; }
	static J arr( std::initializer_list< J > l ) { J j; j.k = ARR; j.a = l; return j; }
	static J str( const std::string& v ) { J j; j.k = STR; j.s = v; return j; }
	/// byte strings travel as arrays of numbers
	static J bytes( const std::string& v ) { J j; j.k = ARR; for ( unsigned char c : v ) j.a.push_back( J( int( c ) ) ); return j; }
	template< typename It > static J seq( It b, It e ) { J j; j.k = ARR; for ( ; b != e; ++b ) j.a.push_back( J( *b ) ); return j; }
	const J& operator[]( size_t n ) const { if ( k != ARR || n >= a.size() ) { fprintf( stderr, "driver: bad call\n" ); _exit( 99 ); } return a[ n ]; }
	const J& operator[]( int n ) const { return ( *this )[ size_t( n ) ]; }
	size_t size() const { return a.size(); }
	int num() const { return int( i ); }
	std::string text() const { std::string r; for ( auto& e : a ) r += char( (unsigned char)e.i ); return r; }
	void push( const J& v ) { a.push_back( v ); }
};

inline void put( std::string& out, const J& j ) {
	switch ( j.k ) {
	case J::INT: out += std::to_string( j.i ); break;
	case J::STR:
		out += '"';
		for ( char c : j.s ) { if ( c == '"' || c == '\\' ) { out += '\\'; out += c; } else if ( (unsigned char)c < 32 ) { char b[ 8 ]; snprintf( b, 8, "\\u%04x", c ); out += b; } else out += c; }
		out += '"'; break;
	case J::ARR:
		out += '[';
		for ( size_t n = 0; n < j.a.size(); ++n ) { if ( n ) out += ','; put( out, j.a[ n ] ); }
		out += ']'; break;
	case J::OBJ:
		out += '{';
		for ( size_t n = 0; n < j.o.size(); ++n ) { if ( n ) out += ','; out += '"' + j.o[ n ].first + "\":"; put( out, j.o[ n ].second ); }
		out += '}'; break;
	}
}

inline J parse_json( const char*& p ) {
	while ( isspace( (unsigned char)*p ) ) ++p;
	J j;
	if ( *p == '[' ) {
		j.k = J::ARR; ++p;
		while ( isspace( (unsigned char)*p ) ) ++p;
		if ( *p == ']' ) { ++p; return j; }
		for ( ;; ) { j.a.push_back( parse_json( p ) ); while ( isspace( (unsigned char)*p ) ) ++p; if ( *p == ',' ) ++p; else break; }
		if ( *p != ']' ) { fprintf( stderr, "driver: bad json\n" ); _exit( 99 ); }
		++p; return j;
	}
	if ( *p == '"' ) {
		j.k = J::STR; ++p;
		while ( *p && *p != '"' ) { if ( *p == '\\' ) ++p; j.s += *p++; }
		++p; return j;
	}
	if ( !strncmp( p, "true", 4 ) ) { p += 4; j.i = 1; return j; }
	if ( !strncmp( p, "false", 5 ) ) { p += 5; return j; }
	char* e; j.i = strtoll( p, &e, 10 );
	if ( e == p ) { fprintf( stderr, "driver: bad json\n" ); _exit( 99 ); }
	p = e; return j;
}

void begin();
J call( const J& c );
J observe();

/// what a call chose where the specification leaves the choice open: recorded as further arguments of the call
inline std::vector< J >& outcome() { static std::vector< J > o; return o; }
inline J ok() { return J::arr( { "ok" } ); }
inline J ok( const J& v ) { return J::arr( { "ok", v } ); }
inline J err() { return J::arr( { "err" } ); }
inline J none() { return J::arr( { "none" } ); }
/// run f; any exception is the result "err"
template< typename Fn > J guarded( Fn f ) { try { return f(); } catch ( std::exception& ) { return err(); } catch ( ... ) { return err(); } }

[[noreturn]] inline void unknown( const J& c ) { fprintf( stderr, "driver: unknown call %s\n", c[ 0 ].s.c_str() ); _exit( 99 ); }

inline void on_timeout( int ) { static const char m[] = "driver: no answer, time limit\n"; ssize_t n = write( 2, m, sizeof( m ) - 1 ); (void)n; _exit( 97 ); }

#ifndef DRIVER_CPU_LIMIT
#	define DRIVER_CPU_LIMIT 20
#endif

int main( int argc, char** argv ) {
	if ( argc < 3 ) return 99;
	std::ifstream in( argv[ 1 ] );
	FILE* out = fopen( argv[ 2 ], "w" );
	FILE* cur = argc > 3 ? fopen( argv[ 3 ], "w" ) : nullptr; // current call, for the report after a crash
	if ( !in || !out ) return 99;
	signal( SIGPROF, on_timeout );
	std::string line;
	while ( std::getline( in, line ) ) {
		struct itimerval tv = {}; tv.it_value.tv_sec = DRIVER_CPU_LIMIT; setitimer( ITIMER_PROF, &tv, nullptr );
		const char* p = line.c_str();
		J h = parse_json( p );
		std::string o = "[";
		begin();
		int n = 0;
		for ( auto& c : h.a ) {
			if ( cur ) { rewind( cur ); fprintf( cur, "%d\n", n ); fflush( cur ); }
			J ev; ev.k = J::OBJ;
			J r = guarded( [&]() { return call( c ); } );
			J s = observe();
			J cc = c; for ( auto& x : outcome() ) cc.push( x );
			outcome().clear();
			ev.o.emplace_back( "c", cc );
			ev.o.emplace_back( "r", r );
			ev.o.emplace_back( "s", s );
			if ( n++ ) o += ',';
			put( o, ev );
		}
		o += "]\n";
		fwrite( o.data(), 1, o.size(), out );
		fflush( out );
	}
	fclose( out );
	return 0;
}
