// prop_node: typed values and conversion
#include "sym.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/container/flat_map.h"
using namespace xo;

template< typename T > static void round_trip( const T& v, const string& k )
{
	prop_node pn; pn.add_key_value( "", string( "x" ) );
	switch ( sym_choice( 5, "how" ) ) {
	case 0: pn.set( k, v ); break;
	case 1: pn.add_key_value( k, v ); break;
	case 2: pn[ k ] = v; break;
	case 3: pn.get_or_add_child( k ).set_value( v ); break;
	default: pn.add_child( k, to_prop_node( v ) ); break;
	}
	const prop_node& c = pn;
	CHECK_MSG( c.size() == 2 && c.get_key( 1 ) == k, "one child is added" );
	CHECK_MSG( c.get<T>( k ) == v, "get by key" );
	CHECK_MSG( c.get<T>( (index_t)1 ) == v, "get by index" );
	CHECK_MSG( c[ k ].template get<T>() == v && c.get<T>( k, T() ) == v, "get" );
	auto o = c.try_get<T>( k ); CHECK_MSG( o && *o == v, "try_get" );
	T t{}; CHECK_MSG( c.try_get( t, k ) && t == v, "try_get with reference" );
	CHECK_MSG( c.get_any<T>( { "none", k } ) == v && c.get_any<T>( { k, "" }, T() ) == v, "get_any" );
	auto all = c.get_all<T>( k ); CHECK_MSG( all.size() == 1 && all[ 0 ] == v, "get_all" );
	CHECK_MSG( make_prop_node( k, v ).template get<T>( k ) == v, "make_prop_node" );
}

//@ h_round_trip quick(digits=2) thorough(digits=5)
HARNESS( h_round_trip )
{
	string k = "k" + sym_str( "key", 1 );
	int lim = 1; for ( int i = 0; i < sym_param( "digits", 2 ); ++i ) lim *= 10;
	switch ( sym_choice( 5, "type" ) ) {
	case 0: round_trip( sym_int( "v", -lim, lim ), k ); break;
	case 1: round_trip( (unsigned)sym_int( "v", 0, lim ), k ); break;
	case 2: round_trip( (long long)sym_int( "v", -lim, lim ), k ); break;
	case 3: { bool b = sym_bool( "v" ); round_trip( b, k ); break; }
	default: { string s = sym_str( "v", 2 ); round_trip( s, k ); break; }
	}
	sym_reach( "end" );
}

//@ h_convert quick(n=2) thorough(n=4)
HARNESS( h_convert )
{
	// text that cannot be converted is refused, the default is only for keys that do not exist
	string s = sym_str( "s", (size_t)sym_param( "n", 2 ) );
	int v = 0; bool ok = from_str( s, v );
	prop_node pn; pn.set( "a", s ); const prop_node& c = pn;
	auto o = c[ "a" ].try_get<int>(); auto o2 = c.try_get<int>( "a" );
	CHECK_MSG( bool( o ) == ok && bool( o2 ) == ok && ( !ok || ( *o == v && *o2 == v ) ), "try_get" );
	int r = 0;
	CHECK_MSG( throws( [&] { r = c.get<int>( "a" ); } ) == !ok && ( !ok || r == v ), "get throws if the value cannot be converted" );
	CHECK_MSG( throws( [&] { r = c.get( "a", 7 ); } ) == !ok && ( !ok || r == v ), "a default does not hide wrong values" );
	CHECK( c.get( "b", 7 ) == 7 && !c.try_get<int>( "b" ) && !c.try_get( r, "b" ) && c.get_all<int>( "b" ).empty() );
	CHECK( throws( [&] { c.get<int>( "b" ); } ) && throws( [&] { c.get<int>( (index_t)1 ); } ) && throws( [&] { c.get_any<int>( { "b", "c" } ); } ) );
	CHECK( !c.try_get_any<int>( { "b", "c" } ) && c.get_any<int>( { "b", "c" }, 7 ) == 7 );
	sym_reach( ok ? "number" : "no number" );
}

//@ h_lists quick(n=3) thorough(n=4)
HARNESS( h_lists )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) );
	std::vector< int > v; std::vector< string > s; std::vector< std::vector< int > > vv; flat_map< string, int > m;
	for ( int i = 0; i < n; ++i ) {
		v.push_back( sym_int( "v", -9, 99 ) );
		s.push_back( sym_str( "s", 1 ) );
		vv.push_back( std::vector< int >( (size_t)i, v.back() ) );
		m[ string( 1, char( 'a' + ( i * 5 ) % 3 ) ) ] = v.back();
	}
	prop_node pn; pn.set( "v", v ); pn[ "s" ] = s; pn.add_key_value( "vv", vv ); pn.set( "m", m );
	const prop_node& c = pn;
	CHECK_MSG( ( n == 0 || c[ "v" ].is_array() ) && c[ "v" ].size() == (size_t)n, "a vector is an array" );
	CHECK_MSG( c.get< std::vector< int > >( "v" ) == v, "vector of numbers" );
	CHECK_MSG( c.get< std::vector< string > >( "s" ) == s, "vector of strings" );
	CHECK_MSG( c.get< std::vector< std::vector< int > > >( "vv" ) == vv, "vector of vectors" );
	auto m2 = c.get< flat_map< string, int > >( "m" );
	bool same = m2.size() == m.size(); for ( auto& e : m ) same = same && m2.contains( e.first ) && m2[ e.first ] == e.second;
	CHECK_MSG( same, "map" );
	std::array< int, 2 > a{ { -1, -2 } };
	CHECK_MSG( from_prop_node( c[ "v" ], a ) && a[ 0 ] == ( n > 0 ? v[ 0 ] : -1 ) && a[ 1 ] == ( n > 1 ? v[ 1 ] : -2 ), "array: elements that exist" );
	prop_node q; q.add_values( v.begin(), v.end() );
	CHECK_MSG( q == to_prop_node( v ), "add_values" );
	if ( n > 0 ) {
		int w = sym_pick( "wrong", 0, n - 1 );
		pn[ "v" ][ (index_t)w ].set_value( "x" );
		CHECK_MSG( !c.try_get< std::vector< int > >( "v" ) && throws( [&] { c.get< std::vector< int > >( "v" ); } ), "an element that cannot be converted is not ignored" );
	}
	sym_reach( "end" );
}

//@ h_any quick()
HARNESS( h_any )
{
	// the order of the keys that are given counts, and per key the first child
	const char* keys[] = { "a", "b", "c" };
	prop_node pn; int n = sym_pick( "n", 0, 3 ); int k[ 3 ], val[ 3 ];
	for ( int i = 0; i < n; ++i ) { k[ i ] = sym_pick( "k", 0, 2 ); val[ i ] = sym_int( "v", 0, 9 ); pn.add_key_value( keys[ k[ i ] ], val[ i ] ); }
	int a = sym_pick( "a", 0, 2 ), b = sym_pick( "b", 0, 2 ), want = -1;
	for ( int w : { a, b } ) for ( int i = 0; i < n; ++i ) if ( want < 0 && k[ i ] == w ) want = i;
	const prop_node& c = pn;
	CHECK_MSG( c.has_any_key( { keys[ a ], keys[ b ] } ) == ( want >= 0 ), "has_any_key" );
	CHECK_MSG( c.try_get_any_child( { keys[ a ], keys[ b ] } ) == ( want < 0 ? nullptr : &c.get_child( want ) ), "try_get_any_child" );
	CHECK_MSG( c.get_any( { keys[ a ], keys[ b ] }, -1 ) == ( want < 0 ? -1 : val[ want ] ), "get_any" );
	auto o = c.try_get_any<int>( { keys[ a ], keys[ b ] } );
	CHECK_MSG( bool( o ) == ( want >= 0 ) && ( want < 0 || *o == val[ want ] ), "try_get_any" );
	bool t = throws( [&] { CHECK( &c.get_any_child( { keys[ a ], keys[ b ] } ) == &c.get_child( want ) ); } );
	CHECK_MSG( t == ( want < 0 ), "get_any_child" );
	auto all = c.get_all<int>( keys[ a ] ); size_t cnt = 0; bool ok = true;
	for ( int i = 0; i < n; ++i ) if ( k[ i ] == a ) { ok = ok && cnt < all.size() && all[ cnt ] == val[ i ]; ++cnt; }
	CHECK_MSG( ok && cnt == all.size(), "get_all, in order" );
	sym_reach( want < 0 ? "none" : "found" );
}

//@ h_args quick(n=3) thorough(n=4)
HARNESS( h_args )
{
	// -key starts a child, the text behind it (if it is not a key itself) is the value, other texts are the value without key
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) );
	string args[ 5 ]; const char* argv[ 5 ] = { "prog" };
	std::vector< std::pair< string, string > > want; int open = -1;
	for ( int i = 0; i < n; ++i ) {
		args[ i ] = sym_str( "arg", 2 );
		for ( char ch : args[ i ] ) sym_assume( ch != 0 );
		argv[ i + 1 ] = args[ i ].c_str();
		if ( !args[ i ].empty() && args[ i ][ 0 ] == '-' ) { want.push_back( { args[ i ].substr( 1 ), "" } ); open = (int)want.size() - 1; }
		else if ( open >= 0 ) { want[ open ].second = args[ i ]; open = -1; }
		else {
			size_t f = 0; while ( f < want.size() && !want[ f ].first.empty() ) ++f;
			if ( f == want.size() ) want.push_back( { "", "" } );
			want[ f ].second = args[ i ];
		}
	}
	prop_node pn = prop_node_from_arg( n + 1, argv );
	bool ok = pn.peek_str() == "prog" && pn.size() == want.size();
	for ( size_t i = 0; ok && i < want.size(); ++i ) ok = pn.get_key( i ) == want[ i ].first && pn.get_child( i ).peek_str() == want[ i ].second;
	CHECK_MSG( ok, "command line arguments" );
	sym_reach( "end" );
}
