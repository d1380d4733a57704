#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/string_tools.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/storage.hpp"
typedef flut::storage< double > sto_t;
static std::unique_ptr< sto_t > s;
static J I( double v ) { return J( (long long)std::llround( v ) ); }
void begin() { s.reset( new sto_t() ); }
J observe() {
	const sto_t& c = *s; J l = J::arr(), fr = J::arr(); size_t k = 0;
	for ( size_t i = 0; i < c.channel_size(); ++i ) l.push( J::bytes( c.get_label( i ) ) );
	for ( size_t f = 0; f < c.frame_size(); ++f ) {
		J r = J::arr();
		for ( size_t i = 0; i < c.channel_size(); ++i, ++k ) { double x = c.at( f, i ), y = c( f, i ); r.push( x == y && k < c.data().size() && c.data()[ k ] == x ? I( x ) : J( -987654 ) ); }
		fr.push( r );
	}
	if ( c.data().size() != k ) fr.push( J::arr( { "data size", c.data().size() } ) );
	return J::arr( { l, fr, c.empty() } );
}
J call( const J& c ) {
	const std::string& f = c[ 0 ].s; const sto_t& cs = *s;
	auto N = [&]( int k ) { return size_t( c[ k ].num() ); }; auto D = [&]( int k ) { return double( c[ k ].num() ); };
	auto V = [&]( int k ) { std::vector< double > v; for ( auto& e : c[ k ].a ) v.push_back( e.num() ); return v; };
	if ( f == "new" ) { s.reset( new sto_t( N( 1 ), N( 2 ), D( 3 ) ) ); return ok(); }
	if ( f == "addch" ) return ok( s->add_channel( c[ 1 ].text(), D( 2 ) ) );
	if ( f == "addchd" ) return ok( s->add_channel( c[ 1 ].text() ) );
	if ( f == "adddata" ) return ok( s->add_channel( c[ 1 ].text(), V( 2 ) ) );
	if ( f == "addchfrom" ) return N( 2 ) < cs.frame_size() && N( 3 ) < cs.channel_size() ? ok( s->add_channel( c[ 1 ].text(), cs( N( 2 ), N( 3 ) ) ) ) : none(); // values given by references to the storage itself
	if ( f == "dataself" ) return ok( s->add_channel( c[ 1 ].text(), cs.data() ) );
	if ( f == "frameself" ) { s->add_frame( cs.data() ); return ok(); }
	if ( f == "faddch" ) return ok( s->find_or_add_channel( c[ 1 ].text(), D( 2 ) ) );
	if ( f == "find" ) return ok( cs.find_channel( c[ 1 ].text() ) );
	if ( f == "label" ) { s->set_label( N( 1 ), c[ 2 ].text() ); return ok(); }
	if ( f == "frame" ) { s->add_frame( D( 1 ) ); return ok(); }
	if ( f == "framed" ) { s->add_frame(); return ok(); }
	if ( f == "framev" ) { s->add_frame( V( 1 ) ); return ok(); }
	if ( f == "clear" ) { s->clear(); return ok(); }
	if ( f == "at" ) return ok( I( s->at( N( 1 ), N( 2 ) ) ) );
	if ( f == "cat" ) return ok( I( cs.at( N( 1 ), N( 2 ) ) ) );
	if ( f == "atset" ) { s->at( N( 1 ), N( 2 ) ) = D( 3 ); return ok(); }
	if ( f == "set" ) { if ( N( 1 ) >= s->frame_size() || N( 2 ) >= s->channel_size() ) return none(); ( *s )( N( 1 ), N( 2 ) ) = D( 3 ); return ok(); }
	bool data = cs.frame_size() > 0 && cs.channel_size() > 0;
	if ( f == "last" ) { if ( data && N( 1 ) >= s->channel_size() ) return none(); return ok( I( ( *s )[ N( 1 ) ] ) ); }
	if ( f == "clast" ) { if ( data && N( 1 ) >= s->channel_size() ) return none(); return ok( I( cs[ N( 1 ) ] ) ); }
	if ( f == "lastset" ) { if ( data && N( 1 ) >= s->channel_size() ) return none(); ( *s )[ N( 1 ) ] = D( 2 ); return ok(); }
	if ( f == "lset" ) { if ( !s->frame_size() ) return none(); ( *s )[ c[ 1 ].text() ] = D( 2 ); return ok(); }
	if ( f == "lget" ) { if ( !s->frame_size() ) return none(); return ok( I( ( *s )[ c[ 1 ].text() ] ) ); }
	if ( f == "clget" ) { if ( !s->frame_size() || cs.labels().find( c[ 1 ].text() ) == flut::no_index ) return none(); return ok( I( cs( c[ 1 ].text() ) ) ); }
	if ( f == "vec3" ) { if ( !s->frame_size() ) return none(); auto v = V( 2 ); flut::write_storage( *s, c[ 1 ].text(), flut::math::vec3_< double >( v[ 0 ], v[ 1 ], v[ 2 ] ) ); return ok(); }
	if ( f == "quat" ) { if ( !s->frame_size() ) return none(); auto v = V( 2 ); flut::math::quat_< double > q; q.w = v[ 0 ]; q.x = v[ 1 ]; q.y = v[ 2 ]; q.z = v[ 3 ]; flut::write_storage( *s, c[ 1 ].text(), q ); return ok(); }
	if ( f == "interp" ) { if ( N( 3 ) >= s->channel_size() ) return none(); return ok( I( 4 * s->get_interpolated_value( D( 1 ) + D( 2 ) / 4, N( 3 ) ) ) ); }
	if ( f == "resize" ) { s->resize( N( 1 ), N( 2 ), D( 3 ) ); return ok(); }
	if ( f == "copy" ) { sto_t t( *s ); s->clear(); sto_t u; u = t; t.clear(); *s = u; return ok(); }
	if ( f == "print" ) { std::ostringstream o; o << cs; return ok( J::bytes( o.str() ) ); }
	unknown( c );
}
