#pragma once
#include "common.hpp"
#include "flut/prop_node.hpp"
#include "flut/prop_node_tools.hpp"
using flut::prop_node;
inline J show( const prop_node& n ) { J k = J::arr(); for ( auto it = n.begin(); it != n.end(); ++it ) k.push( J::arr( { J::bytes( it->first ), show( it->second ) } ) ); return J::arr( { J::bytes( n.get_value() ), k } ); }
inline void build( prop_node& n, const J& j ) { n.set_value( j[ 0 ].text() ); for ( auto& k : j[ 1 ].a ) build( n.push_back( k[ 0 ].text() ), k[ 1 ] ); }
inline prop_node built( const J& j ) { prop_node n; build( n, j ); return n; }
inline prop_node* place( prop_node& n, const J& p ) { prop_node* x = &n; for ( auto& i : p.a ) { if ( size_t( i.i ) >= x->size() ) return nullptr; x = &( x->begin() + i.i )->second; } return x; }
