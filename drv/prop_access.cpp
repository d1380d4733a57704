#include "tree.hpp"
#include "flut/system/log_sink.hpp"
typedef std::string S;
static prop_node root;
static std::vector< prop_node* > flat;
static std::vector< prop_node* > kids( const prop_node& n ) { std::vector< prop_node* > r; for ( auto& k : const_cast< prop_node& >( n ) ) r.push_back( &k.second ); return r; }
static std::map< const prop_node*, std::vector< prop_node* > > children;   // so that reading the marks touches nothing
static void collect( prop_node& n ) { flat.push_back( &n ); auto k = kids( n ); children[ &n ] = k; for ( auto c : k ) collect( *c ); }
static void load( const J& j ) { root = built( j ); flat.clear(); children.clear(); collect( root ); root.clear_accessed_recursively(); }
void begin() { load( J::arr( { J::arr(), J::arr() } ) ); }
J observe() { J f = J::arr(); for ( auto n : flat ) f.push( n->is_accessed() ); prop_node copy( root ); return J::arr( { f, show( copy ) } ); }
static prop_node* spot( const J& p ) { prop_node* x = &root; for ( auto& i : p.a ) { auto& k = children[ x ]; if ( size_t( i.i ) >= k.size() ) return nullptr; x = k[ i.i ]; } return x; }
static J index_of( const prop_node& n, const prop_node* c ) { auto& k = children[ &n ]; for ( size_t i = 0; i < k.size(); ++i ) if ( k[ i ] == c ) return ok( i ); return ok( 999 ); }
static J path_of( const prop_node* from, const prop_node* to ) {
	std::function< bool( const prop_node*, J& ) > go = [&]( const prop_node* n, J& r ) { if ( n == to ) return true; auto& k = children[ n ]; for ( size_t i = 0; i < k.size(); ++i ) { r.push( i ); if ( go( k[ i ], r ) ) return true; r.a.pop_back(); } return false; };
	J r = J::arr(); if ( go( &root, r ) ) return ok( r ); return ok( 999 );
}
struct capture : flut::log::sink { capture() : sink( flut::log::trace_level ) {} J lines = J::arr(); flut::log::level want; void send_log_message( flut::log::level l, const S& m ) override { if ( l == want ) lines.push( J::bytes( m ) ); else lines.push( J( 999 ) ); } };
template< typename... A > J any( const prop_node& n, const J& k, A... a ) {
	switch ( k.size() ) {
	case 0: return ok( J::bytes( n.get_any< S >( std::initializer_list< S >{}, a... ) ) );
	case 1: return ok( J::bytes( n.get_any< S >( { k[ 0 ].text() }, a... ) ) );
	case 2: return ok( J::bytes( n.get_any< S >( { k[ 0 ].text(), k[ 1 ].text() }, a... ) ) );
	default: return ok( J::bytes( n.get_any< S >( { k[ 0 ].text(), k[ 1 ].text(), k[ 2 ].text() }, a... ) ) );
	}
}
J call( const J& c ) {
	const S& f = c[ 0 ].s;
	if ( f == "load" ) { load( c[ 1 ] ); return ok(); }
	prop_node* np = spot( c[ 1 ] ); if ( !np ) return none();
	prop_node& n = *np; const prop_node& cn = n;
	S k = c.size() > 2 && c[ 2 ].k == J::ARR && ( c[ 2 ].size() == 0 || c[ 2 ][ 0 ].k == J::INT ) ? c[ 2 ].text() : S();
	flut::index_t i = c.size() > 2 && c[ 2 ].k == J::INT ? c[ 2 ].num() : 0;
	if ( f == "clear" ) { n.clear_accessed_recursively(); return ok(); }
	if ( f == "value" ) { J r = J::arr( { J::bytes( cn.get_value() ), J::bytes( cn.get< S >() ) } ); prop_node y = cn.get< prop_node >(); r.push( J::bytes( y.get_value() ) ); return ok( r ); }
	if ( f == "get" ) return ok( J::bytes( cn.get< S >( k ) ) );
	if ( f == "getdef" ) return ok( J::bytes( cn.get< S >( k, c[ 3 ].text() ) ) );
	if ( f == "any" ) return any( cn, c[ 2 ] );
	if ( f == "anydef" ) return any( cn, c[ 2 ], c[ 3 ].text() );
	if ( f == "child" ) return index_of( n, &n.get_child( k ) );
	if ( f == "cchild" ) return index_of( n, &cn.get_child( k ) );
	if ( f == "cindex" ) return index_of( n, &cn[ k ] );
	if ( f == "nth" ) return index_of( n, &n.get_child( i ) );
	if ( f == "cnth" ) return index_of( n, &cn.get_child( i ) );
	if ( f == "ith" ) return index_of( n, &n[ i ] );
	if ( f == "cith" ) return index_of( n, &cn[ i ] );
	if ( f == "key" ) return ok( J::bytes( cn.get_key( i ) ) );
	if ( f == "trychild" ) { auto p = n.try_get_child( k ); return p ? index_of( n, p ) : none(); }
	if ( f == "ctrychild" ) { auto p = cn.try_get_child( k ); return p ? index_of( n, p ) : none(); }
	if ( f == "trychilddef" ) { prop_node d; auto& p = cn.try_get_child( k, d ); return &p == &d ? none() : index_of( n, &p ); }
	if ( f == "goa" || f == "index" ) {
		prop_node copy( n ); if ( !copy.has_key( k ) ) return none();
		return index_of( n, f == "goa" ? &n.get_or_add_child( k ) : &n[ k ] );
	}
	if ( f == "getd" ) return ok( J::bytes( c[ 3 ].num() == '.' ? cn.get_delimited< S >( k ) : cn.get_delimited< S >( k, char( c[ 3 ].num() ) ) ) );
	if ( f == "tryd" ) { auto p = c[ 3 ].num() == '.' ? cn.try_get_child_delimited( k ) : cn.try_get_child_delimited( k, char( c[ 3 ].num() ) ); return p ? path_of( &n, p ) : none(); }
	if ( f == "find" ) { auto it = n.find( k ); return ok( it == n.end() ? children[ &n ].size() : size_t( index_of( n, &it->second )[ 1 ].i ) ); }
	if ( f == "cfind" ) { auto it = cn.find( k ); return ok( it == cn.end() ? children[ &n ].size() : size_t( index_of( n, &it->second )[ 1 ].i ) ); }
	if ( f == "haskey" ) return ok( cn.has_key( k ) );
	if ( f == "hasval" ) return ok( cn.has_value( k ) );
	if ( f == "iterate" ) { J r = J::arr(); for ( auto& e : n ) r.push( J::bytes( e.first ) ); return ok( r ); }
	if ( f == "citerate" ) { J r = J::arr(); for ( auto it = cn.cbegin(); it != cn.cend(); ++it ) r.push( J::bytes( it->first ) ); return ok( r ); }
	if ( f == "select" ) { int x = 0; for ( auto& e : cn.select( k ) ) ++x; return ok( x ); }
	if ( f == "selpat" ) { int x = 0; for ( auto& e : cn.select_pattern( k ) ) ++x; return ok( x ); }
	if ( f == "values" ) { J r = J::arr(); for ( auto& s : cn.get< std::vector< S > >() ) r.push( J::bytes( s ) ); return ok( r ); }
	if ( f == "quiet" ) { auto e = cn.end(); auto ce = cn.cend(); auto me = n.end(); return ok( J::arr( { cn.size(), cn.has_value(), cn.empty(), cn.size() ? ( cn.end() == ce ? int( cn.size() ) : -1 ) : 0, cn.is_accessed() } ) ); }
	if ( f == "eq" ) { prop_node* o = spot( c[ 2 ] ); if ( !o ) return none(); return ok( n == *o ); }
	if ( f == "count" ) return ok( cn.count_unaccessed() );
	if ( f == "copy" ) { prop_node y( cn ); prop_node z; z = cn; return ok( J::arr( { y.count_unaccessed(), z.count_unaccessed() } ) ); }
	if ( f == "fresh" ) {
		prop_node a, b( k ), d{ S( k ) }, e( &cn ), y( cn ), z( std::move( y ) ), g;
		g.push_back( k ); g.push_back( k, k ); g.push_back( k, cn ); g.push_back( k, prop_node( cn ) );
		J r = J::arr(); for ( auto* x : { &a, &b, &d, &e, &z, &g } ) r.push( x->count_unaccessed() );
		prop_node w; r.push( w.get_or_add_child( k ).is_accessed() ); r.push( w.is_accessed() );
		return ok( r );
	}
	if ( f == "print" ) { std::stringstream s; s << cn; return ok( J::bytes( s.str() ) ); }
	if ( f == "printat" ) { std::stringstream s; flut::to_stream( s, cn, int( c[ 2 ].num() ), int( c[ 3 ].num() ) ); return ok( J::bytes( s.str() ) ); }
	if ( f == "list" ) {
		static int rot = 0; capture cap; cap.want = flut::log::level( 1 + rot++ % 6 );
		if ( i == 0 && cap.want == flut::log::warning_level ) flut::log_unaccessed( cn ); else flut::log_unaccessed( cn, cap.want, int( i ) );
		return ok( cap.lines );
	}
	unknown( c );
}
