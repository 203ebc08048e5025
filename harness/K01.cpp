// flat_map and flat_set
#include "sym.h"
#include "xo/container/flat_map.h"
#include "xo/container/flat_set.h"
using namespace xo;

struct map_model { int k[ 8 ], v[ 8 ], n = 0; int find( int key ) const { for ( int i = 0; i < n; ++i ) if ( k[ i ] == key ) return i; return -1; } void erase( int i ) { k[ i ] = k[ n - 1 ]; v[ i ] = v[ n - 1 ]; --n; } };

template< typename C, typename F > static void check_order( const C& c, int n, F key )
{
	CHECK_MSG( c.size() == (size_t)n && c.empty() == ( n == 0 ) && c.end() - c.begin() == n, "size" );
	bool ok = true;
	for ( auto it = c.begin(); it != c.end() && it + 1 != c.end(); ++it ) ok = ok && key( *it ) < key( *( it + 1 ) );
	CHECK_MSG( ok, "sorted without duplicates" );
}
static void check( flat_map< int, int >& m, const map_model& w, int key )
{
	const auto& c = m;
	check_order( c, w.n, []( const std::pair< int, int >& p ) { return p.first; } );
	int i = w.find( key ); bool has = i >= 0;
	CHECK_MSG( c.contains( key ) == has && c.count( key ) == (size_t)has && ( c.find( key ) != c.end() ) == has && ( m.find( key ) != m.end() ) == has, "contains exactly the keys that were added" );
	if ( has ) CHECK_MSG( c.find( key )->second == w.v[ i ] && m.find( key )->first == key && c.at( key ) == w.v[ i ] && m.at( key ) == w.v[ i ] && c[ key ] == w.v[ i ], "the value that belongs to the key" );
	else CHECK_MSG( throws( [&] { c.at( key ); } ) && throws( [&] { m.at( key ); } ) && throws( [&] { c[ key ]; } ), "unknown keys throw" );
	int less = 0; for ( int j = 0; j < w.n; ++j ) less += w.k[ j ] < key;
	CHECK_MSG( c.lower_bound( key ) - c.begin() == less && m.lower_bound( key ) - m.begin() == less, "lower_bound" );
	CHECK_MSG( c.upper_bound( key ) - c.begin() == less + has && m.upper_bound( key ) - m.begin() == less + has, "upper_bound" );
}

//@ h_map quick(ops=3) thorough(ops=4)
HARNESS( h_map )
{
	flat_map< int, int > m; map_model w;
	int ops = (int)sym_param( "ops", 3 );
	for ( int o = 0; o < ops; ++o ) {
		int k = sym_int( "k", -100, 100 ), v = sym_int( "v", 0, 9 ), i = w.find( k );
		switch ( sym_choice( 5, "op" ) ) {
		case 0: { auto p = std::make_pair( k, v ); auto r = m.insert( p ); CHECK_MSG( r.second == ( i < 0 ) && r.first->first == k && r.first->second == ( i < 0 ? v : w.v[ i ] ), "insert does not replace" ); if ( i < 0 ) { w.k[ w.n ] = k; w.v[ w.n++ ] = v; } break; }
		case 1: { auto r = m.insert( { k, v } ); CHECK( r.second == ( i < 0 ) && r.first->first == k ); if ( i < 0 ) { w.k[ w.n ] = k; w.v[ w.n++ ] = v; } break; }
		case 2: { int& e = m[ k ]; CHECK_MSG( e == ( i < 0 ? 0 : w.v[ i ] ), "operator[] adds an empty value" ); e = v; if ( i < 0 ) { w.k[ w.n ] = k; w.v[ w.n++ ] = v; } else w.v[ i ] = v; break; }
		case 3: CHECK_MSG( m.erase( k ) == (size_t)( i >= 0 ), "erase gives the number of removed elements" ); if ( i >= 0 ) w.erase( i ); break;
		default: if ( i >= 0 ) { auto it = m.erase( m.find( k ) ); CHECK( it == m.upper_bound( k ) ); w.erase( i ); } else { flat_map< int, int > m2( m ); m2[ k ] = 1; CHECK_MSG( !m.contains( k ), "copies are independent" ); m2 = m; m2.clear(); CHECK( m2.empty() ); } break;
		}
	}
	int k = sym_int( "key", -100, 100 ); check( m, w, k );
	for ( int i = 0; i < w.n; ++i ) CHECK_MSG( m.at( w.k[ i ] ) == w.v[ i ], "all that was added" );
	if ( w.n ) CHECK( m.front().first == m.begin()->first && m.back().first == m.rbegin()->first && m.crbegin()->first == ( m.cend() - 1 )->first );
	sym_reach( w.n ? "elements" : "empty" );
}

//@ h_set quick(ops=3) thorough(ops=5)
HARNESS( h_set )
{
	flat_set< int > m; map_model w;
	int ops = (int)sym_param( "ops", 3 );
	for ( int o = 0; o < ops; ++o ) {
		int k = sym_int( "k", -100, 100 ), i = w.find( k );
		switch ( sym_choice( 4, "op" ) ) {
		case 0: { auto r = m.insert( k ); CHECK_MSG( r.second == ( i < 0 ) && *r.first == k, "insert" ); if ( i < 0 ) w.k[ w.n++ ] = k; break; }
		case 1: { int k2 = k; auto r = m.insert( std::move( k2 ) ); CHECK_MSG( r.second == ( i < 0 ) && *r.first == k, "insert" ); if ( i < 0 ) w.k[ w.n++ ] = k; break; }
		case 2: CHECK_MSG( m.erase( k ) == (size_t)( i >= 0 ), "erase gives the number of removed elements" ); if ( i >= 0 ) w.erase( i ); break;
		default: if ( i >= 0 ) { auto it = m.erase( m.find( k ) ); CHECK( it == m.upper_bound( k ) ); w.erase( i ); } break;
		}
	}
	int key = sym_int( "key", -100, 100 ); const auto& c = m; bool has = w.find( key ) >= 0;
	check_order( c, w.n, []( int p ) { return p; } );
	CHECK_MSG( c.contains( key ) == has && c.count( key ) == (size_t)has && ( c.find( key ) != c.end() ) == has && ( !has || *m.find( key ) == key ), "contains exactly the keys that were added" );
	int less = 0; for ( int j = 0; j < w.n; ++j ) less += w.k[ j ] < key;
	CHECK_MSG( c.lower_bound( key ) - c.begin() == less && m.lower_bound( key ) - m.begin() == less && c.upper_bound( key ) - c.begin() == less + has && m.upper_bound( key ) - m.begin() == less + has, "bounds" );
	for ( int i = 0; i < w.n; ++i ) CHECK_MSG( m.contains( w.k[ i ] ), "all that was added" );
	sym_reach( w.n ? "elements" : "empty" );
}

//@ h_init quick()
HARNESS( h_init )
{
	// from a list, that may contain duplicates
	int a = sym_int( "a", 0, 9 ), b = sym_int( "b", 0, 9 ), c = sym_int( "c", 0, 9 ), q = sym_int( "q", 0, 9 );
	flat_map< int, int > m{ { a, 1 }, { b, 2 }, { c, 3 } };
	flat_set< int > s{ a, b, c };
	int n = 1 + ( b != a ) + ( c != a && c != b ); bool has = q == a || q == b || q == c;
	check_order( m, n, []( const std::pair< int, int >& p ) { return p.first; } );
	check_order( s, n, []( int p ) { return p; } );
	CHECK_MSG( m.contains( q ) == has && s.contains( q ) == has, "contains" );
	if ( has ) CHECK_MSG( m.at( q ) == ( q == a ? 1 : q == b ? 2 : 3 ), "the first of equal keys" );
	CHECK( m.erase( q ) == (size_t)has && s.erase( q ) == (size_t)has && !m.contains( q ) && !s.contains( q ) );
	sym_reach( "end" );
}

//@ h_text quick()
HARNESS( h_text )
{
	static const char* names[] = { "a", "bc", "d" }; int n = sym_pick( "n", 0, 3 ); flat_map< string, int > m; flat_set< string > s; string em = "{ ", es = n == 1 ? "" : "[ "; int v[ 3 ];
	for ( int i = 0; i < n; ++i ) { v[ i ] = sym_pick( "v", -1, 10 ) * 5; em += string( names[ i ] ) + " = " + to_str( v[ i ] ) + " "; es += string( names[ i ] ) + ( n == 1 ? "" : " " ); }
	for ( int i = n; i-- > 0; ) { m[ names[ i ] ] = v[ i ]; s.insert( names[ i ] ); }
	CHECK_MSG( to_str( m ) == em + "}", "all keys and values, in order" ); CHECK_MSG( to_str( s ) == es + ( n == 1 ? "" : "]" ), "all keys, in order" );
	prop_node pn = to_prop_node( m ); CHECK_MSG( (int)pn.size() == n, "one child per key" ); for ( int i = 0; i < n; ++i ) CHECK_MSG( pn.get< int >( names[ i ] ) == v[ i ] && pn.get_key( i ) == names[ i ], "children" );
	sym_reach( "end" );
}
