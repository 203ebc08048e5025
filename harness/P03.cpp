// prop_node: queries with a path of keys
#include "sym.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
using namespace xo;

static string key( const char* nm, size_t mx ) { string s = sym_str( nm, mx, 1 ); for ( char c : s ) sym_assume( ( c != '.' ) & ( c != '/' ) & ( c != '#' ) ); return s; }
static std::vector< string > parts( const string& q, char delim ) { std::vector< string > r( 1 ); for ( char c : q ) if ( c == delim ) r.emplace_back(); else r.back() += c; return r; }
// what a query should find: per level the first child with that key, or #n for the nth child
static const prop_node* step( const prop_node& pn, const string& k )
{
	for ( size_t i = 0; i < pn.size(); ++i ) if ( pn.at( i ).first == k ) return &pn.at( i ).second;
	if ( k.size() == 2 && k[ 0 ] == '#' && k[ 1 ] >= '1' && k[ 1 ] <= '9' && size_t( k[ 1 ] - '0' ) <= pn.size() ) return &pn.at( size_t( k[ 1 ] - '1' ) ).second;
	return nullptr;
}
static const prop_node* ref( const prop_node& pn, const string& q, char delim ) { const prop_node* p = &pn; for ( auto& k : parts( q, delim ) ) { p = step( *p, k ); if ( !p ) break; } return p; }

//@ h_set quick(n=3) thorough(n=4)
HARNESS( h_set )
{
	// set_query creates what is missing and changes nothing else
	char delim = sym_pick( "delim", 0, 1 ) ? '/' : '.';
	int n = (int)sym_param( "n", 3 );
	std::vector< std::pair< string, string > > done; prop_node pn;
	for ( int i = 0; i < n; ++i ) {
		int depth = sym_pick( "depth", 1, 2 ); string q;
		for ( int j = 0; j < depth; ++j ) { if ( j ) q += delim; q += key( "key", 1 ); }
		string v = sym_str_n( "v", 1 );
		prop_node& r = pn.set_query( q, v, delim );
		// a value that is set replaces all below and is created under the nodes that exist
		std::vector< std::pair< string, string > > keep;
		for ( auto& d : done ) if ( d.first != q && !( d.first.size() > q.size() && d.first.compare( 0, q.size(), q ) == 0 && d.first[ q.size() ] == delim ) ) keep.push_back( d );
		keep.push_back( { q, v } ); done = keep;
		CHECK_MSG( r.get_str() == v && pn.try_get_query( q, delim ) == &r, "set_query returns the node that was set" );
		for ( auto& d : done ) { auto* p = pn.try_get_query( d.first, delim ); CHECK_MSG( p && p->get_str() == d.second, "values set before are kept" ); }
	}
	// no duplicate keys are created
	for ( auto& c : pn ) { CHECK( pn.count_key( c.first ) == 1 ); for ( auto& d : c.second ) CHECK( c.second.count_key( d.first ) == 1 ); }
	sym_reach( done.size() > 1 ? "several" : "one" );
}

//@ h_get quick(n=3) thorough(n=5)
HARNESS( h_get )
{
	char delim = sym_pick( "delim", 0, 1 ) ? '/' : '.';
	prop_node pn; string a = key( "a", 1 ); string b = key( "b", 1 ); string c = key( "c", 1 ); string d = key( "d", 1 );
	{ prop_node g( "1" ); g.add_key_value( c, 2 ); g.add_key_value( d, 3 ); pn.add_child( a, g ); }
	{ prop_node g( "4" ); g.add_key_value( d, 5 ); pn.add_child( b, g ); }
	string q = sym_str( "q", (size_t)sym_param( "n", 3 ) );
	// indices with more than one digit or other characters are left out
	auto pt = parts( q, delim );
	for ( auto& k : pt ) if ( k.size() && k[ 0 ] == '#' ) sym_assume( k.size() == 2 && k[ 1 ] >= '0' && k[ 1 ] <= '9' );
	prop_node copy = pn;
	const prop_node* want = ref( pn, q, delim );
	const prop_node& cpn = pn;
	CHECK_MSG( cpn.try_get_query( q, delim ) == want && pn.try_get_query( q, delim ) == want, "try_get_query finds the first match on each level" );
	CHECK_MSG( pn == copy, "a query changes nothing" );
	size_t total = pn.count_children();
	prop_node& r = pn.get_or_add_query( q, delim );
	if ( want ) CHECK_MSG( &r == want && pn == copy, "get_or_add_query returns what exists" );
	else {
		CHECK_MSG( r.empty() && pn.count_children() > total, "get_or_add_query adds an empty node" );
		CHECK_MSG( pn.try_get_query( q, delim ) == &r || q.find( '#' ) != string::npos, "the new node is found by the same query" );
		CHECK_MSG( pn[ 0 ].get_str() == "1" && pn[ 0 ][ 0 ] == copy[ 0 ][ 0 ] && pn[ 1 ].get_str() == "4", "existing nodes are kept" );
	}
	sym_reach( want ? "found" : "new" );
}

//@ h_erase quick(n=3) thorough(n=5)
HARNESS( h_erase )
{
	prop_node pn; string a = key( "a", 1 ); string b = key( "b", 1 ); string c = key( "c", 1 ); string d = key( "d", 1 );
	{ prop_node g( "1" ); g.add_key_value( c, 2 ); g.add_key_value( d, 3 ); pn.add_child( a, g ); }
	{ prop_node g( "4" ); g.add_key_value( d, 5 ); pn.add_child( b, g ); }
	string q = sym_str( "q", (size_t)sym_param( "n", 3 ) ); for ( char x : q ) sym_assume( x != '#' );
	const prop_node* want = ref( pn, q, '.' );
	size_t below = want ? want->count_children() + 1 : 0, total = pn.count_children();
	string val = want ? want->get_str() : string();
	CHECK_MSG( pn.erase_query( q ) == ( want != nullptr ), "erase_query reports if there was something to erase" );
	CHECK_MSG( pn.count_children() == total - below, "only the node that was found is erased" );
	auto* left = ref( pn, q, '.' );
	CHECK_MSG( !left || left->get_str() != val, "the node is gone" );
	sym_reach( want ? "found" : "not found" );
}

//@ h_deep quick(depth=3) thorough(depth=4)
HARNESS( h_deep )
{
	// every part of a query is followed: a tree of two children per node, and queries over existing and absent keys
	int depth = (int)sym_param( "depth", 3 ), len = sym_pick( "len", 1, depth ), op = sym_pick( "op", 0, 3 ); char delim = sym_pick( "delim", 0, 1 ) ? '/' : '.';
	prop_node pn, leaf( "v0" ); for ( int i = 0; i < depth; ++i ) { prop_node n( "v" + std::to_string( i + 1 ) ); n.add_child( "a", leaf ); n.add_child( "b", leaf ); leaf = n; } pn = leaf;
	string q; int found = 0; bool all = true; const char* keys[] = { "a", "b", "c", "#2" };
	for ( int i = 0; i < len; ++i ) { int k = sym_pick( "key", 0, i + 1 < len || op != 2 ? 3 : 2 ); if ( i ) q += delim; q += keys[ k ]; if ( k == 2 ) all = false; if ( all ) ++found; }
	const prop_node copy = pn; const prop_node& cpn = pn; size_t total = pn.count_children(); const prop_node* want = ref( pn, q, delim ); size_t below = want ? want->count_children() : 0; string path = "v" + std::to_string( depth - len );
	CHECK( ( want != nullptr ) == all && ( !want || want->get_str() == path ) );
	switch ( op ) {
	case 0: CHECK_MSG( cpn.try_get_query( q, delim ) == want && pn.try_get_query( q, delim ) == want && pn == copy, "a query follows every part" ); break;
	case 1: { prop_node& r = pn.get_or_add_query( q, delim ); CHECK_MSG( pn.count_children() == total + len - found && ( !want || ( &r == want && pn == copy ) ) && ( want || r.empty() ), "only what is missing is added" ); break; }
	case 2: { CHECK_MSG( pn.erase_query( q, delim ) == ( want != nullptr ) && pn.count_children() == total - ( want ? below + 1 : 0 ) && ( want || pn == copy ), "only the addressed node is erased" ); break; }
	default: { prop_node& r = pn.set_query( q, 9, delim ); CHECK_MSG( r.get_str() == "9" && pn.count_children() == total + len - found - below, "only what is missing is added" ); break; }
	}
	sym_reach( all ? "found" : "missing" );
}

//@ h_path quick()
HARNESS( h_path )
{
	// the query that belongs to a node leads to that node
	prop_node pn; string k[ 4 ]; for ( auto& x : k ) { x = sym_str( "k", 1 ); for ( char c : x ) sym_assume( ( c != '.' ) & ( c != '/' ) & ( c != '#' ) ); } // keys may be empty
	sym_assume( k[ 0 ] != k[ 1 ] && k[ 2 ] != k[ 3 ] );
	pn.add_child( k[ 0 ] ).add_key_value( k[ 2 ], 1 ); pn[ 0 ].add_key_value( k[ 3 ], 2 ); pn.add_child( k[ 1 ] ).add_key_value( k[ 2 ], 3 );
	const prop_node* nodes[] = { &pn[ 0 ], &pn[ 1 ], &pn[ 0 ][ 0 ], &pn[ 0 ][ 1 ], &pn[ 1 ][ 0 ] };
	const prop_node* t = nodes[ sym_choice( 5, "node" ) ];
	CHECK_MSG( pn.try_get_query( make_prop_node_query( pn, *t ) ) == t, "make_prop_node_query" );
	auto f = find_query_to_node( &pn, t );
	CHECK_MSG( f.first && pn.try_get_query( f.second ) == t, "find_query_to_node" );
	auto g = find_query_to_node( &pn, t, '/' );
	CHECK_MSG( g.first && pn.try_get_query( g.second, '/' ) == t, "find_query_to_node with delimiter" );
	prop_node other; CHECK( !find_query_to_node( &pn, &other ).first );
	sym_reach( "end" );
}

//@ h_index quick() thorough(all=1)
HARNESS( h_index )
{
	// children by number, at any level of the query
	char delim = sym_pick( "delim", 0, 1 ) ? '/' : '.';
	prop_node pn; string a = key( "a", 1 ); string b = key( "b", 1 ); string c = key( "c", 1 ); string d = key( "d", 1 );
	{ prop_node g( "1" ); g.add_key_value( c, 2 ); g.add_key_value( d, 3 ); pn.add_child( a, g ); }
	{ prop_node g( "4" ); g.add_key_value( d, 5 ); pn.add_child( b, g ); }
	auto part = [&]( const char* n ) { int k = sym_pick( n, 0, 4 ); return k < 4 ? string( "#" ) + char( '0' + k ) : key( "k", 1 ); };
	string p1 = part( "first" ); string p2 = part( "second" ); string q = p1 + delim + p2;
	prop_node copy = pn; const prop_node* want = ref( pn, q, delim ); const prop_node* top = ref( pn, p1, delim );
	size_t total = pn.count_children(); const prop_node& cpn = pn;
	CHECK_MSG( cpn.try_get_query( q, delim ) == want && cpn.try_get_query( p1, delim ) == top, "try_get_query follows numbers" );
	if ( sym_pick( "erase", 0, 1 ) ) {
		// the last part is a key
		const prop_node* gone = nullptr; if ( top ) for ( size_t i = 0; i < top->size() && !gone; ++i ) if ( top->at( i ).first == p2 ) gone = &top->at( i ).second;
		CHECK_MSG( pn.erase_query( q, delim ) == ( gone != nullptr ) && pn.count_children() == total - ( gone ? 1 : 0 ), "erase_query follows numbers" );
		sym_reach( gone ? "erased" : "nothing" ); return;
	}
	prop_node& r = pn.set_query( q, "9", delim );
	if ( want ) CHECK_MSG( &r == want && pn.count_children() == total && ref( pn, q, delim )->get_str() == "9", "the existing node is set" );
	else {
		CHECK_MSG( r.get_str() == "9" && pn.count_children() == total + ( top ? 1 : 2 ), "only what is missing is added" );
		CHECK_MSG( pn[ 0 ].get_str() == "1" && pn[ 1 ].get_str() == "4" && pn[ 0 ][ 0 ] == copy[ 0 ][ 0 ], "existing nodes are kept" );
	}
	sym_reach( want ? "found" : "new" );
}
