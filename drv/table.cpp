#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/string_tools.hpp"
#include "flut/table.hpp"
typedef flut::table< int > tab_t;
static std::unique_ptr< tab_t > t;
void begin() { t.reset( new tab_t() ); }
J observe() {
	const tab_t& c = *t; J r = J::arr(), k = J::arr(), x = J::arr();
	for ( auto& l : c.row_labels() ) r.push( J::bytes( l ) );
	for ( auto& l : c.col_labels() ) k.push( J::bytes( l ) );
	for ( size_t i = 0; i < c.row_size(); ++i ) { J row = J::arr(); for ( size_t j = 0; j < c.column_size(); ++j ) row.push( c( i, j ) ); x.push( row ); }
	return J::arr( { r, k, x } );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s; const tab_t& ct = *t;
	auto N = [&]( int k ) { return size_t( c[ k ].num() ); };
	auto T = [&]( int k ) { return c[ k ].text(); };
	if ( f == "new" ) { t.reset( new tab_t( N( 1 ), N( 2 ) ) ); return ok(); }
	if ( f == "addrow" ) return ok( t->add_row( T( 1 ), c[ 2 ].num() ) );
	if ( f == "addcol" ) return ok( t->add_column( T( 1 ), c[ 2 ].num() ) );
	if ( f == "addrowd" ) return ok( t->add_row( T( 1 ) ) );
	if ( f == "addcold" ) return ok( t->add_column( T( 1 ) ) );
	auto in = [&]( int k ) { return N( k ) < t->row_size() && N( k + 1 ) < t->column_size(); }; // values given by a reference to a cell of the table itself
	if ( f == "addrowfrom" ) return in( 2 ) ? ok( t->add_row( T( 1 ), ( *t )( N( 2 ), N( 3 ) ) ) ) : none();
	if ( f == "addcolfrom" ) return in( 2 ) ? ok( t->add_column( T( 1 ), ( *t )( N( 2 ), N( 3 ) ) ) ) : none();
	if ( f == "goacolfrom" ) return in( 2 ) ? ok( t->get_or_add_column( T( 1 ), ct( N( 2 ), N( 3 ) ) ) ) : none();
	if ( f == "resizefrom" ) { if ( !in( 3 ) ) return none(); t->resize( N( 1 ), N( 2 ), ct( N( 3 ), N( 4 ) ) ); return ok(); }
	if ( f == "goarow" ) return ok( t->get_or_add_row( T( 1 ), c[ 2 ].num() ) );
	if ( f == "goacol" ) return ok( t->get_or_add_column( T( 1 ), c[ 2 ].num() ) );
	if ( f == "resize" ) { t->resize( N( 1 ), N( 2 ), c[ 3 ].num() ); return ok(); }
	if ( f == "get" ) return ok( ( *t )( N( 1 ), N( 2 ) ) );
	if ( f == "cget" ) return ok( ct( N( 1 ), N( 2 ) ) );
	if ( f == "set" ) { ( *t )( N( 1 ), N( 2 ) ) = c[ 3 ].num(); return ok(); }
	if ( f == "lcget" ) return ok( ct( T( 1 ), T( 2 ) ) );
	if ( f == "lget" ) return ok( ( *t )( T( 1 ), T( 2 ) ) );
	if ( f == "lset" ) { ( *t )( T( 1 ), T( 2 ) ) = c[ 3 ].num(); return ok(); }
	if ( f == "find" ) return ok( J::arr( { ct.row_labels().find( T( 1 ) ), ct.col_labels().find( T( 1 ) ) } ) );
	if ( f == "copy" ) { tab_t u( *t ); *t = tab_t(); tab_t v; v = u; u = tab_t(); *t = v; return ok(); }
	if ( f == "print" ) { std::ostringstream o; o << ct; return ok( J::bytes( o.str() ) ); }
	unknown( c );
}
