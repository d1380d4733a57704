#include "common.hpp"
#include "flut/math/math.hpp"
#include "flut/math/optional.hpp"
#include "flut/system/error_code.hpp"
#include "flut/interruptible.hpp"
using namespace flut;
template< typename T > struct conv { static T to( const std::string& s ) { return T( atoll( s.c_str() ) ); } static std::string from( const T& v ) { return std::to_string( v ); } static T marker() { return std::numeric_limits< T >::is_signed ? std::numeric_limits< T >::lowest() : std::numeric_limits< T >::max(); } };
template<> struct conv< std::string > { static std::string to( const std::string& s ) { return s; } static std::string from( const std::string& v ) { return v; } static std::string marker() { return ""; } };
template< typename T > struct real { static T to( const std::string& s ) { return T( atof( s.c_str() ) / 100 ); } static std::string from( const T& v ) { double r = std::nearbyint( double( v ) * 100 ); return std::fabs( double( v ) * 100 - r ) < .01 ? std::to_string( (long long)r ) : "other"; } static T marker() { return std::numeric_limits< T >::quiet_NaN(); } };
template<> struct conv< float > : real< float > {};
template<> struct conv< double > : real< double > {};
struct cell {
	virtual ~cell() {}
	virtual cell* clone() const = 0; virtual void assign( const std::string& v ) = 0; virtual void empty() = 0; virtual void marker() = 0; virtual void copy( const cell& o ) = 0;
	virtual bool read( std::istream& s ) = 0; virtual bool read( char_stream& s ) = 0; virtual J show() const = 0;
};
template< typename T > struct typed : cell {
	optional< T > v; std::string kind; int n = 0;
	typed( const std::string& k ) : kind( k ) {}
	typed( const std::string& k, const std::string& t ) : v( conv< T >::to( t ) ), kind( k ) {}
	cell* clone() const { return new typed( *this ); }
	void assign( const std::string& t ) { if ( ++n % 2 ) v = conv< T >::to( t ); else { const T x = conv< T >::to( t ); v = x; } } // from temporaries and from variables
	void empty() { v = optional< T >(); }
	void marker() { v = conv< T >::marker(); }
	void copy( const cell& o ) { v = static_cast< const typed& >( o ).v; }
	bool read( std::istream& s ) { s >> v; return !s.fail(); }
	bool read( char_stream& s ) { s >> v; return !s.fail(); }
	J show() const { bool b = v; if ( !b ) return J::arr( { kind.c_str(), 0, J::arr() } ); return J::arr( { kind.c_str(), 1, J::bytes( conv< T >::from( *v ) ) } ); }
};
template< typename... A > static cell* make( const std::string& k, A... a ) {
	if ( k == "str" ) return new typed< std::string >( k, a... ); if ( k == "int" ) return new typed< int >( k, a... ); if ( k == "size" ) return new typed< size_t >( k, a... );
	if ( k == "short" ) return new typed< short >( k, a... ); if ( k == "llong" ) return new typed< long long >( k, a... ); if ( k == "float" ) return new typed< float >( k, a... ); return new typed< double >( k, a... );
}
struct task : interruptible { mutable int calls = 0; virtual void interrupt() const override { ++calls; interruptible::interrupt(); } };
static std::vector< std::unique_ptr< cell > > opts;
static std::vector< error_code > errs;
static std::vector< std::unique_ptr< interruptible > > ints;
void begin() { opts.clear(); errs.clear(); ints.clear(); }
J observe() {
	J o = J::arr(), e = J::arr(), i = J::arr();
	for ( auto& x : opts ) o.push( x->show() );
	for ( auto& x : errs ) e.push( J::arr( { x.error(), x.ok(), x.code(), J::bytes( x.message() ) } ) );
	for ( auto& x : ints ) i.push( x->test_interrupt_flag() );
	return J::arr( { o, e, i } );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s; auto at = [&]( int k ) { return size_t( c[ k ].i - 1 ); };
	if ( f == "new" ) opts.emplace_back( make( c[ 1 ].s ) );
	else if ( f == "newval" ) opts.emplace_back( make( c[ 1 ].s, c[ 2 ].text() ) );
	else if ( f == "copyof" ) opts.emplace_back( opts[ at( 1 ) ]->clone() );
	else if ( f == "assign" ) opts[ at( 1 ) ]->assign( c[ 2 ].text() );
	else if ( f == "empty" ) opts[ at( 1 ) ]->empty();
	else if ( f == "marker" ) opts[ at( 1 ) ]->marker();
	else if ( f == "copy" ) opts[ at( 2 ) ]->copy( *opts[ at( 1 ) ] );
	else if ( f == "stream" || f == "chars" ) {
		std::string t = c[ 2 ].text(); std::istringstream s( t ); char_stream k( t.c_str() ); J r = J::arr();
		for ( auto& i : c[ 1 ].a ) r.push( f == "stream" ? opts[ size_t( i.i - 1 ) ]->read( s ) : opts[ size_t( i.i - 1 ) ]->read( k ) );
		return ok( r );
	}
	else if ( f == "code" ) { if ( c[ 2 ].size() == 0 ) { if ( c[ 1 ].i == 0 ) errs.emplace_back(); else errs.emplace_back( int( c[ 1 ].i ) ); } else errs.emplace_back( int( c[ 1 ].i ), c[ 2 ].text() ); }
	else if ( f == "success" ) errs.push_back( no_error() );
	else if ( f == "failure" ) errs.push_back( error( c[ 1 ].text() ) );
	else if ( f == "set" ) { auto& e = errs[ at( 1 ) ]; if ( &e.set( int( c[ 2 ].i ), c[ 3 ].text() ) != &e ) return ok( 0 ); }
	else if ( f == "setcode" ) errs[ at( 1 ) ].set( int( c[ 2 ].i ) );
	else if ( f == "try" ) return ok( try_set_error( c[ 1 ].i ? &errs[ at( 1 ) ] : nullptr, c[ 2 ].text() ) );
	else if ( f == "errcopy" ) errs[ at( 2 ) ] = error_code( errs[ at( 1 ) ] );
	else if ( f == "task" ) { if ( ints.size() % 2 ) ints.emplace_back( new interruptible ); else ints.emplace_back( new task ); }
	else if ( f == "interrupt" ) { const interruptible& i = *ints[ at( 1 ) ]; auto* t = dynamic_cast< const task* >( &i ); int n = t ? t->calls : 0; i.interrupt(); if ( t && t->calls != n + 1 ) return ok( 0 ); }
	else if ( f == "interruptbase" ) ints[ at( 1 ) ]->interruptible::interrupt();
	else unknown( c );
	return ok();
}
