#include "tree.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/transform.hpp"
#include "flut/math/bounds.hpp"
typedef std::string S;
using namespace flut;
using namespace flut::math;
enum class colour { red = -3, green = 0, blue = 1000 };
static std::unique_ptr< prop_node > pn;
struct obj { vec3 delta_x_; };
// the kinds in which the children were last written, so that each can be read back as that kind
static std::vector< std::pair< S, S > > kinds;
static void wrote( const S& key, const S& kind, bool push = false ) { if ( !push ) for ( auto& k : kinds ) if ( k.first == key ) { k.second = kind; return; } kinds.emplace_back( key, kind ); }
void begin() { pn.reset( new prop_node ); kinds.clear(); }
J read_as( const S& kind, const prop_node& n );
J observe() {
	J r = J::arr(); size_t i = 0;
	for ( auto it = pn->begin(); it != pn->end(); ++it, ++i ) { S kind = i < kinds.size() ? kinds[ i ].second : S( "node" ); r.push( J::arr( { J::bytes( it->first ), J::str( kind ), guarded( [&]() { return read_as( kind, it->second ); } ) } ) ); }
	return r;
}
// JSON <-> values
template< typename T, typename E = void > struct V;
template< typename T > struct V< T, typename std::enable_if< std::is_integral< T >::value >::type > {
	static T in( const J& j ) { S s = j.text(); return s[ 0 ] == '-' ? T( std::stoll( s ) ) : T( std::stoull( s ) ); }
	static J out( T v ) { return J::bytes( std::to_string( v ) ); }
};
template<> struct V< bool > { static bool in( const J& j ) { return j.num() != 0; } static J out( bool v ) { return J( v ); } };
template<> struct V< char > { static char in( const J& j ) { return char( j.num() ); } static J out( char v ) { return J( int( (unsigned char)v ) ); } };
template<> struct V< colour > { static colour in( const J& j ) { return colour( j.num() ); } static J out( colour v ) { return J( int( v ) ); } };
template<> struct V< S > { static S in( const J& j ) { return j.text(); } static J out( const S& v ) { return J::bytes( v ); } };
template<> struct V< path > { static path in( const J& j ) { return path( j.text() ); } static J out( const path& v ) { return J::bytes( v.str() ); } };
template< typename T > struct V< T, typename std::enable_if< std::is_floating_point< T >::value >::type > {
	static T in( const J& j ) { return T( j.num() ) / 64; }
	static J out( T v ) { T x = v * 64; if ( !( x >= -2e9 && x <= 2e9 ) || x != T( (long long)x ) ) return J( "not a 64th" ); return J( (long long)x ); }
};
template< typename T > struct V< vec3_<T> > {
	static vec3_<T> in( const J& j ) { return vec3_<T>( V<T>::in( j[ 0 ] ), V<T>::in( j[ 1 ] ), V<T>::in( j[ 2 ] ) ); }
	static J out( const vec3_<T>& v ) { return J::arr( { V<T>::out( v.x ), V<T>::out( v.y ), V<T>::out( v.z ) } ); }
};
template< typename T > struct V< quat_<T> > {
	static quat_<T> in( const J& j ) { return quat_<T>( V<T>::in( j[ 0 ] ), V<T>::in( j[ 1 ] ), V<T>::in( j[ 2 ] ), V<T>::in( j[ 3 ] ) ); }
	static J out( const quat_<T>& v ) { return J::arr( { V<T>::out( v.w ), V<T>::out( v.x ), V<T>::out( v.y ), V<T>::out( v.z ) } ); }
};
template< typename T > struct V< transform_<T> > {
	static transform_<T> in( const J& j ) { return transform_<T>( V< vec3_<T> >::in( j[ 0 ] ), V< quat_<T> >::in( j[ 1 ] ) ); }
	static J out( const transform_<T>& v ) { return J::arr( { V< vec3_<T> >::out( v.p ), V< quat_<T> >::out( v.q ) } ); }
};
template< typename T > struct V< std::vector<T> > {
	static std::vector<T> in( const J& j ) { std::vector<T> r; for ( auto& e : j.a ) r.push_back( V<T>::in( e ) ); return r; }
	static J out( const std::vector<T>& v ) { J r = J::arr(); for ( auto& e : v ) r.push( V<T>::out( e ) ); return r; }
};
template<> struct V< prop_node > { static prop_node in( const J& j ) { return built( j ); } static J out( const prop_node& v ) { return show( v ); } };

template< typename T > J op( const S& f, const J& c ) {
	if ( f == "set" ) { pn->set( c[ 1 ].text(), V<T>::in( c[ 3 ] ) ); wrote( c[ 1 ].text(), c[ 2 ].s ); return ok(); }
	if ( f == "assign" ) { ( *pn )[ c[ 1 ].text() ] = V<T>::in( c[ 3 ] ); wrote( c[ 1 ].text(), c[ 2 ].s ); return ok(); }
	if ( f == "push" ) { pn->push_back( c[ 1 ].text(), V<T>::in( c[ 3 ] ) ); wrote( c[ 1 ].text(), c[ 2 ].s, true ); return ok(); }
	if ( f == "get" ) return ok( V<T>::out( pn->get<T>( c[ 1 ].text() ) ) );
	if ( f == "getdef" ) return ok( V<T>::out( pn->get<T>( c[ 1 ].text(), V<T>::in( c[ 3 ] ) ) ) );
	std::vector< S > k; for ( auto& e : c[ 1 ].a ) k.push_back( e.text() );
	bool d = f == "getanydef"; if ( !d && f != "getany" ) unknown( c );
	auto get = [&]( std::initializer_list< S > l ) { return d ? ok( V<T>::out( pn->get_any<T>( l, V<T>::in( c[ 3 ] ) ) ) ) : ok( V<T>::out( pn->get_any<T>( l ) ) ); };
	switch ( k.size() ) {
	case 0: return get( {} );
	case 1: return get( { k[ 0 ] } );
	case 2: return get( { k[ 0 ], k[ 1 ] } );
	case 3: return get( { k[ 0 ], k[ 1 ], k[ 2 ] } );
	default: return get( { k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ] } );
	}
}
template< typename F > J as_kind( const S& kind, F f ) {
	if ( kind == "short" ) return f( (short*)nullptr );
	if ( kind == "int" ) return f( (int*)nullptr );
	if ( kind == "uint" ) return f( (unsigned*)nullptr );
	if ( kind == "long" ) return f( (long*)nullptr );
	if ( kind == "ulong" ) return f( (unsigned long*)nullptr );
	if ( kind == "llong" ) return f( (long long*)nullptr );
	if ( kind == "str" ) return f( (S*)nullptr );
	if ( kind == "bool" ) return f( (bool*)nullptr );
	if ( kind == "enum" ) return f( (colour*)nullptr );
	if ( kind == "char" ) return f( (char*)nullptr );
	if ( kind == "double" ) return f( (double*)nullptr );
	if ( kind == "float" ) return f( (float*)nullptr );
	if ( kind == "path" ) return f( (path*)nullptr );
	if ( kind == "vec3" ) return f( (vec3*)nullptr );
	if ( kind == "vec3f" ) return f( (vec3f*)nullptr );
	if ( kind == "quat" ) return f( (quat*)nullptr );
	if ( kind == "tf" ) return f( (math::transform*)nullptr );
	if ( kind == "vint" ) return f( (std::vector< int >*)nullptr );
	if ( kind == "vlong" ) return f( (std::vector< long >*)nullptr );
	if ( kind == "vstr" ) return f( (std::vector< S >*)nullptr );
	if ( kind == "vdouble" ) return f( (std::vector< double >*)nullptr );
	if ( kind == "vvec3" ) return f( (std::vector< vec3 >*)nullptr );
	if ( kind == "vvint" ) return f( (std::vector< std::vector< int > >*)nullptr );
	if ( kind == "node" ) return f( (prop_node*)nullptr );
	fprintf( stderr, "driver: kind %s\n", kind.c_str() ); _exit( 99 );
}
struct do_op { const S& f; const J& c; template< typename T > J operator()( T* ) { return op< T >( f, c ); } };
struct do_read { const prop_node& n; template< typename T > J operator()( T* ) { return V< T >::out( n.get< T >() ); } };
J read_as( const S& kind, const prop_node& n ) { return as_kind( kind, do_read{ n } ); }
// the macros work on named variables
#define MEMBER( NAME, VAR, TYPE, KEY, KIND ) if ( n == NAME ) { \
	if ( f == "init" ) { TYPE d = V< TYPE >::in( c[ 2 ] ); INIT_PROP( ( *pn ), VAR, d ); return ok( V< TYPE >::out( VAR ) ); } \
	if ( f == "initreq" ) { INIT_PROP_REQUIRED( ( *pn ), VAR ); return ok( V< TYPE >::out( VAR ) ); } \
	if ( f == "initnamed" ) { TYPE d = V< TYPE >::in( c[ 3 ] ); INIT_PROP_NAMED( ( *pn ), VAR, c[ 2 ].text(), d ); return ok( V< TYPE >::out( VAR ) ); } \
	if ( f == "initnamedreq" ) { INIT_PROP_NAMED_REQUIRED( ( *pn ), VAR, c[ 2 ].text() ); return ok( V< TYPE >::out( VAR ) ); } \
	if ( f == "setprop" ) { VAR = V< TYPE >::in( c[ 2 ] ); SET_PROP( ( *pn ), VAR ); wrote( KEY, KIND ); return ok(); } \
	if ( f == "setpropnamed" ) { VAR = V< TYPE >::in( c[ 3 ] ); SET_PROP_NAMED( ( *pn ), VAR, c[ 2 ].text() ); wrote( c[ 2 ].text(), KIND ); return ok(); } }
static J dy( double v, bool lo ) { if ( lo ? v == std::numeric_limits< double >::lowest() : v == std::numeric_limits< double >::max() ) return J::arr(); return J::arr( { V< double >::out( v ) } ); }
template< typename T > J elem( const J& c ) { return ok( V<T>::out( pn->get_child( c[ 1 ].text() ).get<T>( "item" + std::to_string( c[ 3 ].num() ) ) ) ); }
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f == "elem" ) {
		const S& k = c[ 2 ].s;
		return k == "vint" ? elem< int >( c ) : k == "vlong" ? elem< long >( c ) : k == "vstr" ? elem< S >( c ) : k == "vdouble" ? elem< double >( c ) : k == "vvec3" ? elem< vec3 >( c ) : elem< std::vector< int > >( c );
	}
	if ( f == "part" ) { const prop_node& n = pn->get_child( c[ 1 ].text() ); return ok( c[ 2 ].s == "vec3f" ? V< float >::out( n.get< float >( c[ 3 ].text() ) ) : V< double >::out( n.get< double >( c[ 3 ].text() ) ) ); }
	if ( f == "setlit" ) { pn->set( c[ 1 ].text(), "lit 1" ); wrote( c[ 1 ].text(), "str" ); return ok(); }
	if ( f == "copy" ) { pn.reset( new prop_node( *pn ) ); return ok(); }
	if ( f == "clear" ) { pn->clear(); kinds.clear(); return ok(); }
	if ( f == "has" ) return ok( pn->has_key( c[ 1 ].text() ) );
	if ( f == "vec3of" ) { prop_node n = built( c[ 1 ] ); return ok( V< vec3 >::out( c[ 2 ].num() ? vec3( n ) : n.get< vec3 >() ) ); }
	if ( f == "boundsof" ) {
		prop_node n = built( c[ 1 ] );
		if ( c[ 2 ].num() == 0 ) { boundsd b( n ); return ok( J::arr( { dy( b.lower, true ), dy( b.upper, false ) } ) ); }
		boundsi b( n ); auto w = []( int v, bool lo ) { if ( v == ( lo ? std::numeric_limits< int >::lowest() : std::numeric_limits< int >::max() ) ) return J::arr(); return J::arr( { J( (long long)v * 64 ) } ); };
		return ok( J::arr( { w( b.lower, true ), w( b.upper, false ) } ) );
	}
	if ( c[ 1 ].k == J::STR ) {
		const S& n = c[ 1 ].s; int alpha = -1; double beta_ = -1; S m_gamma = "?"; obj o; std::vector< int > m_eps__( 1, 7 );
		MEMBER( "alpha", alpha, int, "alpha", "int" ) MEMBER( "beta_", beta_, double, "beta", "double" ) MEMBER( "m_gamma", m_gamma, S, "gamma", "str" ) MEMBER( "o.delta_x_", o.delta_x_, vec3, "o.delta_x", "vec3" ) MEMBER( "m_eps__", m_eps__, std::vector< int >, "eps", "vint" )
		unknown( c );
	}
	return as_kind( c[ 2 ].s, do_op{ f, c } );
}
