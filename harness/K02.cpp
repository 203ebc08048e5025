// sorted_vector, indexed_map, indexed_set and label_vector
#include "sym.h"
#include <vector>
#include <algorithm>
#include "xo/system/assert.h"
#include "xo/string/string_cast.h"
#include "xo/container/sorted_vector.h"
#include "xo/container/indexed_map.h"
#include "xo/container/indexed_set.h"
#include "xo/container/label_vector.h"
using namespace xo;

//@ h_sorted quick(ops=3) thorough(ops=5)
HARNESS( h_sorted )
{
	int in[ 3 ]; for ( auto& i : in ) i = sym_int( "i", 0, 9 );
	std::vector< int > w; sorted_vector< int > v;
	int ops = (int)sym_param( "ops", 4 );
	if ( sym_pick( "init", 0, 1 ) ) { v = sorted_vector< int >{ in[ 0 ], in[ 1 ], in[ 2 ] }; w = { in[ 0 ], in[ 1 ], in[ 2 ] }; ops -= 2; }
	for ( int o = 0; o < ops; ++o ) {
		int e = sym_int( "e", 0, 9 );
		if ( sym_pick( "op", 0, 2 ) ) { auto it = v.insert( e ); CHECK_MSG( *it == e, "insert gives the position" ); w.push_back( e ); }
		else { auto it = v.remove( e ); CHECK_MSG( it == v.end() || *it > e || std::find( w.begin(), w.end(), e ) == w.end(), "position after what was removed" ); w.erase( std::remove( w.begin(), w.end(), e ), w.end() ); }
	}
	int q = sym_int( "q", 0, 9 );
	const auto& c = v;
	bool ok = c.size() == w.size() && c.empty() == w.empty();
	for ( size_t i = 0; ok && i + 1 < c.size(); ++i ) ok = c[ i ] <= c[ i + 1 ];
	CHECK_MSG( ok, "sorted" );
	CHECK_MSG( std::count( v.begin(), v.end(), q ) == std::count( w.begin(), w.end(), q ), "elements, including duplicates" );
	bool has = std::find( w.begin(), w.end(), q ) != w.end();
	CHECK_MSG( ( c.find( q ) != c.end() ) == has && ( v.find( q ) != v.end() ) == has && ( !has || ( *c.find( q ) == q && v.find( q ) - v.begin() == std::count_if( w.begin(), w.end(), [&]( int x ) { return x < q; } ) ) ), "find gives the first" );
	sym_reach( "end" );
}

//@ h_indexed_map quick(ops=3) thorough(ops=4)
HARNESS( h_indexed_map )
{
	indexed_map< string, int > m; std::vector< std::pair< string, int > > w;
	int ops = (int)sym_param( "ops", 3 );
	for ( int o = 0; o < ops; ++o ) {
		string k = sym_str( "k", 1 ); int v = sym_int( "v", 1, 9 );
		size_t i = 0; while ( i < w.size() && w[ i ].first != k ) ++i;
		bool has = i < w.size();
		switch ( sym_choice( 3, "op" ) ) {
		case 0: { auto r = m.insert( { k, v } ); CHECK_MSG( r.second == !has && r.first->first == k && r.first->second == v && r.first - m.begin() == (long)i, "insert replaces" ); if ( has ) w[ i ].second = v; else w.push_back( { k, v } ); break; }
		case 1: { int& e = m[ k ]; CHECK_MSG( e == ( has ? w[ i ].second : 0 ), "operator[] adds" ); e = v; if ( has ) w[ i ].second = v; else w.push_back( { k, v } ); break; }
		default: if ( has ) { m.erase( m.find( k ) ); w.erase( w.begin() + i ); } else { bool t = throws( [&] { const auto& c = m; (void)c[ k ]; } ); CHECK_MSG( t, "unknown keys throw" ); } break;
		}
	}
	const auto& c = m;
	bool ok = c.size() == w.size() && c.empty() == w.empty();
	for ( size_t i = 0; ok && i < w.size(); ++i ) ok = c[ i ].first == w[ i ].first && c[ i ].second == w[ i ].second && c[ w[ i ].first ] == w[ i ].second && c.contains( w[ i ].first ) && c.count( w[ i ].first ) == 1;
	CHECK_MSG( ok, "elements in order of insertion" );
	string q = sym_str( "q", 1 ); bool has = false; for ( auto& e : w ) has = has || e.first == q;
	CHECK_MSG( c.contains( q ) == has && ( c.find( q ) != c.end() ) == has && c.count( q ) == (size_t)has, "find" );
	sym_reach( "end" );
}

//@ h_indexed_set quick(ops=4) thorough(ops=6)
HARNESS( h_indexed_set )
{
	indexed_set< int > s; std::vector< int > w;
	int ops = (int)sym_param( "ops", 4 );
	for ( int o = 0; o < ops; ++o ) {
		int e = sym_int( "e", -5, 99 ); size_t i = 0; while ( i < w.size() && w[ i ] != e ) ++i;
		auto f = s.try_get( e );
		CHECK_MSG( bool( f ) == ( i < w.size() ) && ( !f || *f == i ), "try_get gives the index of values that were added" );
		auto idx = s.get_or_add( e ); if ( i == w.size() ) w.push_back( e );
		CHECK_MSG( idx == i, "index stays the same" );
	}
	bool ok = s.size() == w.size(); for ( size_t i = 0; ok && i < w.size(); ++i ) ok = s[ i ] == w[ i ];
	CHECK_MSG( ok, "values by index" );
	s.clear(); CHECK( s.size() == 0 && !s.try_get( w[ 0 ] ) );
	sym_reach( "end" );
}

//@ h_indexed_full quick(n=255)
HARNESS( h_indexed_full )
{
	// the index type can hold a limited number of indices; one is reserved
	indexed_set< int, uint8 > s; int n = (int)sym_param( "n", 255 );
	for ( int i = 0; i < n; ++i ) CHECK( s.get_or_add( i * 3 ) == i );
	int q = sym_int( "q", 0, 1000 ); bool has = q % 3 == 0 && q < n * 3;
	bool t = throws( [&] { CHECK( s.get_or_add( q ) * 3 == q ); } );
	CHECK_MSG( t == !has, "full" );
	CHECK_MSG( s.size() == (size_t)n && bool( s.try_get( q ) ) == has, "nothing is added when full" );
	sym_reach( t ? "full" : "existing" );
}

//@ h_labels quick(ops=3) thorough(ops=4)
HARNESS( h_labels )
{
	// labels matter through equality: names are introduced in order, every equality pattern is explored
	int used = 2; auto pick = [&]( const char* n ) { int k = sym_pick( n, 0, used ); if ( k == used ) ++used; return string( 1, char( 'a' + k ) ); };
	string l0 = "a", l1 = "b";
	std::vector< string > w; label_vector< string > v;
	switch ( sym_choice( 3, "init" ) ) {
	case 0: break;
	case 1: v = label_vector< string >{ l0, l1 }; w = { l0, l1 }; break;
	default: w = { l0, l1 }; v = label_vector< string >( w ); break;
	}
	int ops = (int)sym_param( "ops", 3 );
	for ( int o = 0; o < ops; ++o ) {
		string l = pick( "l" ); size_t i = 0; while ( i < w.size() && w[ i ] != l ) ++i;
		CHECK_MSG( v.find( l ) == ( i < w.size() ? i : no_index ), "find" );
		switch ( sym_choice( 3, "op" ) ) {
		case 0: if ( i == w.size() ) { CHECK( v.add( l ) == i ); w.push_back( l ); } break;
		case 1: CHECK_MSG( v.find_or_add( l ) == i, "find_or_add" ); if ( i == w.size() ) w.push_back( l ); break;
		default: if ( i == w.size() && !w.empty() ) { size_t idx = (size_t)sym_choice( (uint32_t)w.size(), "idx" ); CHECK( v.set( idx, l ) == idx ); w[ idx ] = l; } break;
		}
	}
	bool ok = v.size() == w.size(); for ( size_t i = 0; ok && i < w.size(); ++i ) ok = v[ i ] == w[ i ] && v.find( w[ i ] ) == i && v.find_or_throw( w[ i ] ) == i;
	CHECK_MSG( ok, "labels and their indices" );
	string q = pick( "q" ); bool has = std::find( w.begin(), w.end(), q ) != w.end();
	CHECK_MSG( ( v.find( q ) != no_index ) == has && throws( [&] { v.find_or_throw( q ); } ) == !has, "labels that were replaced or never added are not found" );
	sym_reach( "end" );
}
