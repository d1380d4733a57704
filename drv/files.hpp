#pragma once
#include "common.hpp"
#include <sys/stat.h>
/// a scratch folder of this process below the working folder, removed at exit
struct scratch {
	std::string dir;
	scratch() { char b[ 64 ]; snprintf( b, 64, "scratch-%d", int( getpid() ) ); dir = b; mkdir( b, 0777 ); }
	~scratch() { clear( dir ); rmdir( dir.c_str() ); }
	std::string operator()( const std::string& name ) const { return dir + "/" + name; }
	static void clear( const std::string& d );
};
inline void write_file( const std::string& name, const std::string& text ) { std::ofstream f( name, std::ios::binary | std::ios::trunc ); f.write( text.data(), text.size() ); }
inline std::string read_file( const std::string& name ) { std::ifstream f( name, std::ios::binary ); std::stringstream s; s << f.rdbuf(); return s.str(); }
#include <dirent.h>
inline void scratch::clear( const std::string& d ) {
	if ( d.compare( 0, 8, "scratch-" ) != 0 ) return;
	if ( DIR* p = opendir( d.c_str() ) ) {
		while ( dirent* e = readdir( p ) ) { std::string n = e->d_name; if ( n == "." || n == ".." ) continue; n = d + "/" + n; struct stat s; if ( lstat( n.c_str(), &s ) == 0 && S_ISDIR( s.st_mode ) ) { clear( n ); rmdir( n.c_str() ); } else unlink( n.c_str() ); }
		closedir( p );
	}
}
