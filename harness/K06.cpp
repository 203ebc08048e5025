// table with labelled rows and columns
#include "sym.h"
#include <vector>
#include <sstream>
#include "xo/container/table.h"
using namespace xo;

struct model { std::vector< string > r, c; std::vector< std::vector< int > > v; };
static void check( table< int >& t, const model& w )
{
	const auto& ct = t;
	CHECK_MSG( ct.row_size() == w.r.size() && ct.column_size() == w.c.size() && ct.empty() == ( w.r.empty() || w.c.empty() ), "number of rows and columns" );
	bool ok = true;
	for ( size_t r = 0; ok && r < w.r.size(); ++r ) for ( size_t c = 0; ok && c < w.c.size(); ++c ) ok = ct( r, c ) == w.v[ r ][ c ] && t( r, c ) == w.v[ r ][ c ];
	CHECK_MSG( ok, "values" );
	for ( size_t r = 0; ok && r < w.r.size(); ++r ) ok = w.r[ r ].empty() || ct.find_row( w.r[ r ] ) == r;
	for ( size_t c = 0; ok && c < w.c.size(); ++c ) ok = w.c[ c ].empty() || ct.find_column( w.c[ c ] ) == c;
	CHECK_MSG( ok && ct.find_row( "none" ) == no_index && ct.find_column( "none" ) == no_index, "labels" );
	for ( size_t r = 0; ok && r < w.r.size(); ++r ) for ( size_t c = 0; ok && c < w.c.size(); ++c ) {
		if ( !w.c[ c ].empty() ) ok = ct( r, w.c[ c ] ) == w.v[ r ][ c ];
		if ( ok && !w.c[ c ].empty() && !w.r[ r ].empty() ) ok = ct( w.r[ r ], w.c[ c ] ) == w.v[ r ][ c ];
	}
	CHECK_MSG( ok, "values by label" );
	if ( !w.r.empty() && !w.c.empty() ) CHECK( ct.back_row( 0 ) == w.v.back()[ 0 ] );
}

//@ h_table quick(ops=3) thorough(ops=6)
HARNESS( h_table )
{
	size_t nr = (size_t)sym_pick( "rows", 0, 1 ), nc = (size_t)sym_pick( "columns", 0, 1 );
	table< int > t( nr, nc ); model w; w.r.assign( nr, "" ); w.c.assign( nc, "" ); w.v.assign( nr, std::vector< int >( nc, 0 ) );
	int ops = (int)sym_param( "ops", 4 );
	for ( int o = 0; o < ops; ++o ) {
		int v = sym_int( "v" ); string l( 1, char( 'a' + o ) );
		switch ( sym_choice( 6, "op" ) ) {
		case 0: CHECK( t.add_row( l, v ) == w.r.size() ); w.r.push_back( l ); w.v.push_back( std::vector< int >( w.c.size(), v ) ); break;
		case 1: CHECK( t.add_column( l, v ) == w.c.size() ); w.c.push_back( l ); for ( auto& r : w.v ) r.push_back( v ); break;
		case 2: { size_t dr = (size_t)sym_pick( "dr", 0, 2 ), dc = (size_t)sym_pick( "dc", 0, 1 ); t.resize( w.r.size() + dr, w.c.size() + dc, v );
			for ( size_t i = 0; i < dc; ++i ) { w.c.push_back( "" ); for ( auto& r : w.v ) r.push_back( v ); }
			for ( size_t i = 0; i < dr; ++i ) { w.r.push_back( "" ); w.v.push_back( std::vector< int >( w.c.size(), v ) ); } break; }
		case 3: { t( l, l ) = v; w.r.push_back( l ); w.v.push_back( std::vector< int >( w.c.size(), 0 ) ); w.c.push_back( l ); for ( auto& r : w.v ) r.push_back( 0 ); w.v.back().back() = v; break; }
		case 4: if ( !w.r.empty() && !w.c.empty() && !w.r.back().empty() && !w.c.back().empty() ) { t( w.r.back(), w.c.back() ) = v; w.v.back().back() = v; } break;
		default: if ( !w.r.empty() && !w.c.empty() ) { t( 0, 0 ) = v; w.v[ 0 ][ 0 ] = v; } if ( !w.c.empty() && !w.c.back().empty() ) CHECK( t.get_or_add_column( w.c.back() ) == w.c.size() - 1 ); break;
		}
	}
	check( t, w );
	if ( !w.r.empty() ) CHECK_MSG( throws( [&] { t.resize( w.r.size() - 1, w.c.size() ); } ), "no shrinking" );
	sym_reach( "end" );
}

//@ h_text quick(rows=2,columns=2) thorough(rows=3,columns=3)
HARNESS( h_text )
{
	int nr = sym_pick( "rows", 0, (int)sym_param( "rows", 2 ) ), nc = sym_pick( "columns", 0, (int)sym_param( "columns", 2 ) );
	table< int > t; model w;
	for ( int c = 0; c < nc; ++c ) { string l = sym_str_of( "l", 1, "ab-1.#" ) + char( 'x' + c ); t.add_column( l ); w.c.push_back( l ); }
	for ( int r = 0; r < nr; ++r ) { string l = sym_str_of( "m", 1, "ab-1.#" ) + char( 'x' + r ); t.add_row( l ); w.r.push_back( l ); w.v.push_back( {} ); for ( int c = 0; c < nc; ++c ) { w.v.back().push_back( sym_int( "v", -99, 99 ) ); t( r, c ) = w.v.back().back(); } }
	std::stringstream str; str << t;
	auto q = read_table< int >( str );
	check( q, w );
	sym_reach( "end" );
}
