// prop_node: children by key and by index
#include "sym.h"
#include "xo/container/prop_node.h"
using namespace xo;

using model = std::vector< std::pair< string, string > >;
static size_t find( const model& m, const string& k ) { for ( size_t i = 0; i < m.size(); ++i ) if ( m[ i ].first == k ) return i; return m.size(); }
static void compare( const prop_node& pn, const model& m )
{
	bool ok = pn.size() == m.size();
	for ( size_t i = 0; ok && i < m.size(); ++i ) ok = pn.get_key( i ) == m[ i ].first && pn.get_child( i ).get_str() == m[ i ].second && &pn[ i ] == &pn.get_child( i );
	CHECK_MSG( ok, "children, in order of addition" );
	size_t n = 0; for ( auto& c : pn ) { (void)c; ++n; }
	for ( auto it = pn.rbegin(); it != pn.rend(); ++it ) { --n; ok = ok && it->first == m[ n ].first; }
	CHECK_MSG( ok && n == 0, "iteration" );
	if ( !m.empty() ) CHECK( pn.front().first == m.front().first && pn.back().second.get_str() == m.back().second );
}
static void lookup( const prop_node& pn, const model& m, const string& k )
{
	size_t i = find( m, k ); bool has = i < m.size();
	CHECK_MSG( pn.has_key( k ) == has, "has_key" );
	CHECK_MSG( pn.try_get_child( k ) == ( has ? &pn.get_child( i ) : nullptr ), "try_get_child gives the first child with the key" );
	size_t n = 0; for ( auto& c : m ) n += c.first == k;
	CHECK_MSG( pn.count_key( k ) == n, "count_key" );
	CHECK_MSG( pn.has_value( k ) == ( has && !m[ i ].second.empty() ), "has_value" );
	bool t = throws( [&] { CHECK_MSG( &pn.get_child( k ) == &pn.get_child( i ) && &pn[ k ] == &pn[ i ] && pn.get_str( k ) == m[ i ].second, "get_child gives the first child with the key" ); } );
	CHECK_MSG( t == !has, "get_child throws for unknown keys" );
	CHECK_MSG( pn.get( k, string( "dflt" ) ) == ( has ? m[ i ].second : "dflt" ), "default value for unknown keys" );
	n = 0; for ( auto& c : pn.select( k ) ) { CHECK( c.first == k ); ++n; }
	CHECK_MSG( n == pn.count_key( k ), "select gives all children with the key" );
}

//@ h_history quick(ops=3) thorough(ops=4)
HARNESS( h_history )
{
	prop_node pn; model m;
	int n = (int)sym_param( "ops", 3 );
	for ( int i = 0; i < n; ++i ) {
		string k = sym_str_n( "k", 1 ); string v = sym_str_n( "v", 1 );
		size_t at = find( m, k );
		switch ( sym_choice( 9, "op" ) ) {
		case 0: CHECK( pn.add_child( k ).empty() ); m.push_back( { k, "" } ); break;
		case 1: CHECK( pn.add_key_value( k, v ).get_str() == v ); m.push_back( { k, v } ); break;
		case 2: pn.set( k, v ); if ( at < m.size() ) m[ at ].second = v; else m.push_back( { k, v } ); break;
		case 3: pn[ k ].set_value( v ); if ( at < m.size() ) m[ at ].second = v; else m.push_back( { k, v } ); break;
		case 4: CHECK_MSG( pn.get_or_add_child( k ).get_str() == ( at < m.size() ? m[ at ].second : "" ), "get_or_add_child" ); if ( at == m.size() ) m.push_back( { k, "" } ); break;
		case 5: CHECK_MSG( pn.erase( k ) == ( at < m.size() ), "erase" ); if ( at < m.size() ) m.erase( m.begin() + (long)at ); break;
		case 6: if ( m.empty() ) break; pn.pop_back(); m.pop_back(); break;
		case 7: pn.add_value( v ); m.push_back( { "", v } ); break;
		default: pn.clear(); m.clear(); break;
		}
		compare( pn, m );
		lookup( pn, m, k );
	}
	sym_reach( m.size() > 1 ? "several" : "end" );
}

//@ h_lookup quick(n=3) thorough(n=4)
HARNESS( h_lookup )
{
	prop_node pn; model m; int n = (int)sym_param( "n", 3 );
	for ( int i = 0; i < n; ++i ) { string k = sym_str( "k", 1 ); string v = sym_str( "v", 1 ); pn.add_key_value( k, v ); m.push_back( { k, v } ); }
	string q = sym_str( "q", 2 ); string r = sym_str( "r", 1 );
	lookup( pn, m, q );
	size_t a = find( m, q ), b = find( m, r ); size_t any = a < m.size() ? a : b;
	const prop_node& c = pn;
	CHECK_MSG( c.has_any_key( { q, r } ) == ( any < m.size() ), "has_any_key" );
	CHECK_MSG( c.try_get_any_child( { q, r } ) == ( any < m.size() ? &c[ any ] : nullptr ), "try_get_any_child gives the first key that exists" );
	CHECK_MSG( throws( [&] { CHECK( &c.get_any_child( { q, r } ) == &c[ any ] ); } ) == ( any == m.size() ), "get_any_child" );
	CHECK_MSG( c.get_any( { q, r }, string( "d" ) ) == ( any < m.size() ? m[ any ].second : "d" ), "get_any" );
	size_t i = sym_choice( 6, "index" ); if ( i == 5 ) i = ~size_t( 0 );
	CHECK_MSG( throws( [&] { c.get_child( i ); } ) == ( i >= m.size() ), "index out of range" );
	auto all = c.get_all< string >( q ); size_t k = 0;
	for ( auto& x : m ) if ( x.first == q ) { CHECK_MSG( k < all.size() && all[ k ] == x.second, "get_all, in order" ); ++k; }
	CHECK( k == all.size() );
	sym_reach( any < m.size() ? "found" : "not found" );
}

//@ h_deep quick(depth=3) thorough(depth=5)
HARNESS( h_deep )
{
	// nodes at any depth: node i of level l has the key "l.i"; two nodes per level, one of which has the next level
	int depth = (int)sym_param( "depth", 3 ); prop_node pn; std::vector< std::pair< string, const prop_node* > > order; prop_node* p = &pn; int side[ 8 ];
	for ( int l = 0; l < depth; ++l ) {
		side[ l ] = sym_pick( "side", 0, 1 ); p->add_child( std::to_string( l ) + "0" ).set_value( string( "u" ) ); p->add_child( std::to_string( l ) + "1" ).set_value( string( "v" ) );
		p = &p->get_child( size_t( side[ l ] ) );
	}
	const prop_node& c = pn; CHECK_MSG( pn.count_children() == size_t( 2 * depth ), "count of all children" );
	const prop_node* q = &pn;
	for ( int l = 0; l < depth; ++l ) {
		for ( int i = 0; i < 2; ++i ) {
			const prop_node& n = q->at( i ).second; auto r = c.try_find_parent( n ); auto s = pn.try_find_parent( n );
			CHECK_MSG( r.first == q && r.second == size_t( i ) && s.first == q && s.second == size_t( i ), "parent" );
			CHECK_MSG( c.try_find_child_recursively( std::to_string( l ) + char( '0' + i ) ) == &n, "found at any depth" );
		}
		q = &q->at( side[ l ] ).second;
	}
	CHECK( !c.try_find_child_recursively( std::to_string( depth ) + "0" ) && c.try_find_parent( pn ).first == nullptr );
	prop_node d( pn ); CHECK_MSG( d == pn && !( d != pn ), "a copy is equal" );
	prop_node* e = &d; int change = sym_pick( "change", 0, depth - 1 ); for ( int l = 0; l < change; ++l ) e = &e->get_child( size_t( side[ l ] ) ); e->get_child( size_t( sym_pick( "which", 0, 1 ) ) ).set_value( string( "w" ) );
	CHECK_MSG( d != pn && !( d == pn ), "a change at any depth makes a difference" );
	// accessed flags
	pn.set_accessed_recursively( false ); CHECK_MSG( c.count_unaccessed() == size_t( 2 * depth ), "all values are unused" );
	const prop_node* f = &pn; for ( int l = 0; l < change; ++l ) f = &f->at( side[ l ] ).second; (void)f->at( 0 ).second.get_str();
	CHECK_MSG( c.count_unaccessed() == size_t( 2 * depth - 1 ) && f->at( 0 ).second.is_accessed(), "one value is used" );
	pn.set_accessed_recursively( true ); CHECK_MSG( c.count_unaccessed() == 0, "all values are used" );
	sym_reach( "end" );
}

//@ h_recursive quick()
HARNESS( h_recursive )
{
	// depth first search, parents
	string k[ 5 ]; for ( auto& x : k ) x = sym_str_n( "k", 1 );
	prop_node pn; auto& a = pn.add_child( k[ 0 ] ); a.set_value( string( "0" ) ); a.add_key_value( k[ 1 ], "1" ); a.add_key_value( k[ 2 ], "2" );
	auto& b = pn.add_child( k[ 3 ] ); b.set_value( string( "3" ) ); b.add_key_value( k[ 4 ], "4" );
	string q = sym_str_n( "q", 1 );
	auto* f = pn.try_find_child_recursively( q );
	int want = -1; for ( int i = 4; i >= 0; --i ) if ( k[ i ] == q ) want = i;
	CHECK_MSG( ( f != nullptr ) == ( want >= 0 ), "found if it is there" );
	if ( f ) CHECK_MSG( f->get_str() == string( 1, char( '0' + want ) ), "first in depth first order" );
	const prop_node& x = pn[ 1 ][ 0 ];
	auto p = pn.try_find_parent( x ); CHECK_MSG( p.first == &pn[ 1 ] && p.second == 0, "parent" );
	p = pn.try_find_parent( pn[ 0 ][ 1 ] ); CHECK_MSG( p.first == &pn[ 0 ] && p.second == 1, "parent" );
	p = pn.try_find_parent( pn[ 1 ] ); CHECK_MSG( p.first == &pn && p.second == 1, "parent" );
	prop_node other; CHECK( pn.try_find_parent( other ).first == nullptr );
	sym_reach( f ? "found" : "not found" );
}
