// prop_node: tracking which values have been used
#include "sym.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
using namespace xo;

//@ h_access quick(reads=2) thorough(reads=3)
HARNESS( h_access )
{
	// values that are read are accessed, others are not
	string v[ 5 ]; for ( auto& x : v ) x = sym_str( "v", 1 );
	prop_node pn; const prop_node& c = pn;
	pn.set_value( string( v[ 0 ] ) );
	for ( int i = 0; i < 2; ++i ) { prop_node g; g.set_value( string( v[ 1 + i * 2 ] ) ); g.add_key_value( "x", v[ 2 + i * 2 ] ); pn.add_child( i ? "b" : "a", g ); }
	pn.set_accessed_recursively( false );
	bool used[ 5 ] = {};
	auto node = [&]( int i ) -> const prop_node& { return i == 0 ? c : i < 3 ? ( i == 1 ? c.get_child( 0 ) : c.get_child( 0 ).get_child( 0 ) ) : ( i == 3 ? c.get_child( 1 ) : c.get_child( 1 ).get_child( 0 ) ); };
	int n = (int)sym_param( "reads", 2 );
	for ( int r = 0; r < n; ++r ) {
		int i = sym_pick( "node", 0, 4 );
		switch ( sym_choice( 9, "how" ) ) {
		case 0: CHECK( node( i ).get_str() == v[ i ] ); used[ i ] = true; break;
		case 1: CHECK( node( i ).get<string>() == v[ i ] ); used[ i ] = true; break;
		case 2: CHECK( node( i ).peek_str() == v[ i ] ); break; // does not count
		case 3: node( i ).access(); used[ i ] = true; break;
		case 4: for ( auto& x : node( i ) ) (void)x; used[ i ] = true; break;
		case 5: (void)node( i ).has_key( "x" ); (void)node( i ).size(); (void)node( i ).has_value(); (void)node( i ).try_get_query( "x.y" ); (void)node( i ).count_children(); break; // does not count
		case 6: { string s; CHECK( c.try_get( s, "a" ) && s == v[ 1 ] ); used[ 1 ] = true; break; }
		case 7: CHECK( c.get( "b", string( "d" ) ) == v[ 3 ] ); used[ 3 ] = true; break;
		default: CHECK( *c[ "b" ].try_get<string>( "x" ) == v[ 4 ] ); used[ 4 ] = true; break;
		}
	}
	size_t count = 0;
	for ( int i = 0; i < 5; ++i ) { bool acc = used[ i ] || v[ i ].empty(); CHECK_MSG( node( i ).is_accessed() == acc, "accessed exactly when read, or without value" ); count += !acc; }
	CHECK_MSG( c.count_unaccessed() == count, "count_unaccessed" );
	// the report mentions exactly the children that have something unaccessed
	string rep = to_str_unaccessed( pn ), want;
	for ( int g = 0; g < 2; ++g ) {
		auto acc = [&]( int i ) { return used[ i ] || v[ i ].empty(); };
		int i = 1 + g * 2;
		if ( acc( i ) && acc( i + 1 ) ) continue;
		want += g ? "b" : "a"; if ( !acc( i ) ) want += " = " + v[ i ] + " *"; want += "\n";
		if ( !acc( i + 1 ) ) want += "  x = " + v[ i + 1 ] + " *\n";
	}
	CHECK_MSG( rep == want, "report of values that were not used" );
	sym_reach( count ? "unaccessed" : "all accessed" );
}

//@ h_copy quick()
HARNESS( h_copy )
{
	string v = sym_str( "v", 1 ); bool use = sym_pick( "use", 0, 1 );
	prop_node pn; pn.add_key_value( "a", v );
	pn.set_accessed_recursively( false );
	if ( use ) pn.get<string>( "a" );
	prop_node c = pn;
	CHECK_MSG( c[ "a" ].is_accessed() == ( use || v.empty() ), "copies keep the accessed state" );
	c.set_accessed_recursively( true );
	CHECK( c.count_unaccessed() == 0 && pn.at( 0 ).second.is_accessed() == ( use || v.empty() ) );
	c.set_accessed_recursively( false );
	CHECK( c.count_unaccessed() == ( v.empty() ? 0u : 1u ) );
	CHECK_MSG( c == pn, "equality does not depend on use" );
	sym_reach( "end" );
}

//@ h_unused quick(n=3)
HARNESS( h_unused )
{
	// arrays: converting to a vector uses all elements
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) );
	prop_node pn; std::vector< int > vals;
	for ( int i = 0; i < n; ++i ) { vals.push_back( sym_int( "v", 0, 9 ) ); pn.add_value( vals.back() ); }
	pn.set_accessed_recursively( false );
	CHECK( pn.count_unaccessed() == (size_t)n );
	auto r = pn.get< std::vector< int > >();
	CHECK( r == vals );
	CHECK_MSG( pn.count_unaccessed() == 0, "all elements are used" );
	sym_reach( "end" );
}
