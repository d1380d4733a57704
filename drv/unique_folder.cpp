// Requests run in threads that stop before every system call that looks at or changes folders, so that the
// history decides the interleaving. Runs inside a scratch folder as an unprivileged user.
#include "common.hpp"
#include "files.hpp"
#include <condition_variable>
#include <fcntl.h>
#include <mutex>
#include <sys/syscall.h>
#include <thread>
#include "flut/filesystem.hpp"
typedef std::string S;
using flut::path;
struct worker {
	std::thread t; bool waiting = false, go = false, done = false, free_run = false; J result;
};
static std::mutex mx;
static std::condition_variable cv;
static std::unique_ptr< worker > workers[ 3 ];
static thread_local worker* self = nullptr;
static void pause_here() {
	if ( !self ) return;
	std::unique_lock< std::mutex > l( mx );
	if ( self->free_run ) return;
	self->waiting = true; cv.notify_all();
	worker* w = self;
	cv.wait( l, [w]() { return w->go || w->free_run; } );
	w->go = false; w->waiting = false;
}
extern "C" {
int mkdir( const char* p, mode_t m ) noexcept { pause_here(); return syscall( SYS_mkdirat, AT_FDCWD, p, m ); }
int mkdirat( int d, const char* p, mode_t m ) noexcept { pause_here(); return syscall( SYS_mkdirat, d, p, m ); }
int stat( const char* p, struct stat* b ) noexcept { pause_here(); return fstatat( AT_FDCWD, p, b, 0 ); }
int lstat( const char* p, struct stat* b ) noexcept { pause_here(); return fstatat( AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW ); }
int access( const char* p, int m ) noexcept { pause_here(); return syscall( SYS_faccessat, AT_FDCWD, p, m ); }
}
static void wait_for( worker& w ) { std::unique_lock< std::mutex > l( mx ); cv.wait( l, [&]() { return ( w.waiting && !w.go ) || w.done; } ); }
static void end_all() { for ( auto& w : workers ) if ( w ) { { std::lock_guard< std::mutex > l( mx ); w->free_run = true; } cv.notify_all(); w->t.join(); w.reset(); } }
static scratch* tmp = nullptr;
static void clean( const S& d ) {
	if ( DIR* p = opendir( d.c_str() ) ) {
		while ( dirent* e = readdir( p ) ) { S n = e->d_name; if ( n == "." || n == ".." ) continue; n = d + "/" + n; struct stat s; if ( lstat( n.c_str(), &s ) == 0 && S_ISDIR( s.st_mode ) ) { clean( n ); rmdir( n.c_str() ); } else unlink( n.c_str() ); }
		closedir( p );
	}
}
static void list( const S& d, std::vector< S >& r ) {
	if ( DIR* p = opendir( d.empty() ? "." : d.c_str() ) ) {
		while ( dirent* e = readdir( p ) ) { S n = e->d_name; if ( n == "." || n == ".." ) continue; n = d.empty() ? n : d + "/" + n; struct stat s; if ( lstat( n.c_str(), &s ) == 0 && S_ISDIR( s.st_mode ) ) { r.push_back( n ); list( n, r ); } }
		closedir( p );
	}
}
void begin() {
	end_all();
	if ( !tmp ) {
		tmp = new scratch;
		if ( chdir( tmp->dir.c_str() ) ) _exit( 99 );
		if ( getuid() == 0 ) { if ( chown( ".", 65534, 65534 ) || setgid( 65534 ) || setuid( 65534 ) ) _exit( 99 ); }
	}
	clean( "." );
}
J observe() { std::vector< S > v; list( "", v ); std::sort( v.begin(), v.end(), []( const S& a, const S& b ) { return std::lexicographical_compare( a.begin(), a.end(), b.begin(), b.end(), []( unsigned char x, unsigned char y ) { return x < y; } ); } ); J r = J::arr(); for ( auto& n : v ) r.push( J::bytes( n ) ); return r; }
static J run( const S& base, int max, bool def = false ) { try { path p = def ? flut::create_unique_folder( path( base ) ) : flut::create_unique_folder( path( base ), max ); return J::arr( { 1, J::bytes( p.str() ) } ); } catch ( std::exception& ) { return J::arr( { 2 } ); } }
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f == "start" ) {
		auto& w = workers[ c[ 1 ].num() - 1 ]; S base = c[ 2 ].text(); int max = c[ 3 ].num();
		if ( w ) { w->t.join(); } w.reset( new worker ); worker* x = w.get();
		w->t = std::thread( [=]() { self = x; pause_here(); J r = run( base, max ); self = nullptr; std::lock_guard< std::mutex > l( mx ); x->result = r; x->done = true; cv.notify_all(); } );
		wait_for( *w ); // it waits before its first step
		return ok();
	}
	if ( f == "step" || f == "finish" ) {
		auto& w = workers[ c[ 1 ].num() - 1 ];
		if ( !w ) return ok( J::arr( { 3 } ) );
		{ std::lock_guard< std::mutex > l( mx ); if ( f == "finish" ) w->free_run = true; else w->go = true; }
		cv.notify_all();
		if ( f == "finish" ) { std::unique_lock< std::mutex > l( mx ); cv.wait( l, [&]() { return w->done; } ); } else wait_for( *w );
		if ( !w->done ) return ok( J::arr( { 0 } ) );
		J r = w->result; w->t.join(); w.reset(); return ok( r );
	}
	if ( f == "rival" ) return ok( J::arr( { syscall( SYS_mkdirat, AT_FDCWD, c[ 1 ].text().c_str(), 0777 ) == 0 } ) );
	if ( f == "file" ) { write_file( c[ 1 ].text(), "x" ); return ok(); }
	if ( f == "request" ) return ok( run( c[ 1 ].text(), c[ 2 ].num() ) );
	if ( f == "requestdef" ) return ok( run( c[ 1 ].text(), 0, true ) );
	unknown( c );
}
