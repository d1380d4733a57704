#include "tree.hpp"
typedef std::string S;
static prop_node t[ 3 ];
void begin() { for ( auto& x : t ) x = prop_node(); }
J observe() { return J::arr( { show( t[ 1 ] ), show( t[ 2 ] ) } ); }
static J node( const prop_node& n ) { return ok( show( n ) ); }
template< typename V > J list( const V& v ) { J r = J::arr(); for ( auto& k : v ) r.push( J::arr( { J::bytes( k.first ), show( k.second ) } ) ); return ok( r ); }
template< typename... A > J any( const prop_node& n, const J& k, A... a ) {
	switch ( k.size() ) {
	case 0: return ok( J::bytes( n.get_any< S >( std::initializer_list< S >{}, a... ) ) );
	case 1: return ok( J::bytes( n.get_any< S >( { k[ 0 ].text() }, a... ) ) );
	case 2: return ok( J::bytes( n.get_any< S >( { k[ 0 ].text(), k[ 1 ].text() }, a... ) ) );
	default: return ok( J::bytes( n.get_any< S >( { k[ 0 ].text(), k[ 1 ].text(), k[ 2 ].text() }, a... ) ) );
	}
}
static J where( prop_node& n, prop_node& r ) { return ok( int( &r == &( n.end() - 1 )->second ? n.size() - 1 : 999 ) ); }
J call( const J& c ) {
	const S& f = c[ 0 ].s; prop_node& root = t[ c[ 1 ].num() ];
	if ( f == "load" ) { root = built( c[ 2 ] ); return ok(); }
	prop_node* np = place( root, c[ 2 ] ); if ( !np ) return none();
	prop_node& n = *np; const prop_node& cn = n;
	S k = c.size() > 3 && c[ 3 ].k == J::ARR && ( c[ 3 ].size() == 0 || c[ 3 ][ 0 ].k == J::INT ) ? c[ 3 ].text() : S();
	size_t i = c.size() > 3 && c[ 3 ].k == J::INT ? c[ 3 ].num() : 0;
	if ( f == "set" ) return node( n.set( k, c[ 4 ].text() ) );
	if ( f == "setnum" ) return node( n.set( k, c[ 4 ].num() ) );
	if ( f == "setval" ) { n.set_value( k ); return ok(); }
	if ( f == "assigns" ) { n = k; return ok(); }
	if ( f == "push" ) return where( n, n.push_back( k ) );
	if ( f == "pushv" ) return where( n, n.push_back( k, c[ 4 ].text() ) );
	if ( f == "clear" ) { n.clear(); return ok(); }
	if ( f == "erase" ) { if ( i >= n.size() ) return none(); auto it = n.erase( n.cbegin() + i ); return ok( int( it - n.begin() ) ); }
	if ( f == "setd" ) { n.set_delimited( k, c[ 4 ].text(), char( c[ 5 ].num() ) ); return ok(); }
	if ( f == "setdd" ) { n.set_delimited( k, c[ 4 ].text() ); return ok(); }
	if ( f == "goa" ) return node( n.get_or_add_child( k ) );
	if ( f == "index" ) return node( n[ k ] );
	if ( f == "reserve" ) { n.reserve( i ); return ok(); }
	if ( f == "massign" ) { n = std::move( t[ c[ 4 ].num() ] ); t[ c[ 4 ].num() ].clear(); return ok(); }
	if ( f == "msetn" ) { n.set( std::move( t[ c[ 4 ].num() ] ) ); t[ c[ 4 ].num() ].clear(); return ok(); }
	if ( f == "mpush" ) { n.push_back( k, std::move( t[ c[ 4 ].num() ] ) ); t[ c[ 4 ].num() ].clear(); return ok(); }
	if ( f == "mctor" ) { prop_node x( std::move( t[ c[ 4 ].num() ] ) ); t[ c[ 4 ].num() ].clear(); n = x; return ok(); }
	if ( f == "get" ) return ok( J::bytes( cn.get< S >( k ) ) );
	if ( f == "getdef" ) return ok( J::bytes( cn.get< S >( k, c[ 4 ].text() ) ) );
	if ( f == "any" ) return any( cn, c[ 3 ] );
	if ( f == "anydef" ) return any( cn, c[ 3 ], c[ 4 ].text() );
	if ( f == "getd" ) return ok( J::bytes( c[ 4 ].num() == '.' ? cn.get_delimited< S >( k ) : cn.get_delimited< S >( k, char( c[ 4 ].num() ) ) ) );
	if ( f == "tryd" ) { auto p = c[ 4 ].num() == 46 ? cn.try_get_child_delimited( k ) : cn.try_get_child_delimited( k, char( c[ 4 ].num() ) ); return p ? node( *p ) : none(); }
	if ( f == "child" ) return node( n.get_child( k ) );
	if ( f == "cchild" ) return node( cn.get_child( k ) );
	if ( f == "cindex" ) return node( cn[ k ] );
	if ( f == "trychild" ) { auto p = n.try_get_child( k ); return p ? node( *p ) : none(); }
	if ( f == "ctrychild" ) { auto p = cn.try_get_child( k ); return p ? node( *p ) : none(); }
	if ( f == "nth" ) return node( n.get_child( flut::index_t( i ) ) );
	if ( f == "cnth" ) return node( cn.get_child( flut::index_t( i ) ) );
	if ( f == "ith" ) return node( n[ flut::index_t( i ) ] );
	if ( f == "cith" ) return node( cn[ flut::index_t( i ) ] );
	if ( f == "key" ) return ok( J::bytes( cn.get_key( i ) ) );
	if ( f == "find" ) return ok( int( n.find( k ) - n.begin() ) );
	if ( f == "cfind" ) return ok( int( cn.find( k ) - cn.cbegin() ) );
	if ( f == "info" ) return ok( J::arr( { cn.size(), cn.has_value(), cn.empty() } ) );
	if ( f == "hasval" ) return ok( cn.has_value( k ) );
	if ( f == "haskey" ) return ok( cn.has_key( k ) );
	if ( f == "value" ) return ok( J::arr( { J::bytes( cn.get_value() ), J::bytes( cn.get< S >() ) } ) );
	if ( f == "select" ) return list( cn.select( k ) );
	if ( f == "selpat" ) return list( cn.select_pattern( k ) );
	if ( f == "values" ) { J r = J::arr(); for ( auto& s : cn.get< std::vector< S > >() ) r.push( J::bytes( s ) ); return ok( r ); }
	if ( f == "empty" ) return node( flut::empty_prop_node() );
	prop_node* op = place( t[ c[ 4 ].num() ], c[ 5 ] ); if ( !op ) return none();
	const prop_node& o = *op;
	if ( f == "assign" ) { n = o; return ok(); }
	if ( f == "setn" ) { n.set( o ); return ok(); }
	if ( f == "setk" ) { n.set( k, o ); return ok(); }
	if ( f == "pushn" ) return where( n, n.push_back( k, o ) );
	if ( f == "copyc" ) { prop_node x( o ); n = x; return ok(); }
	if ( f == "copyp" ) { prop_node x( &o ); n = x; return ok(); }
	if ( f == "merge" ) { flut::merge_prop_nodes( n, o, c[ 6 ].num() != 0 ); return ok(); }
	if ( f == "eq" ) { bool e = n == o; if ( ( n != o ) == e ) return err(); return ok( e ); }
	if ( f == "trychilddef" ) return node( cn.try_get_child( k, o ) );
	if ( f == "insert" ) {
		size_t p = c[ 6 ].num(), a = c[ 7 ].num(), b = c[ 8 ].num();
		if ( p > n.size() || b > o.size() ) return none();
		auto it = n.insert( n.begin() + p, o.begin() + a, o.begin() + b ); return ok( int( it - n.begin() ) );
	}
	unknown( c );
}
