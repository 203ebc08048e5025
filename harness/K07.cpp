// container_tools and container_algorithms
#include "sym.h"
#include <vector>
#include <deque>
#include <list>
#include <functional>
#include "xo/container/container_tools.h"
#include "xo/container/container_algorithms.h"
using namespace xo;

static std::vector< int > ints( const char* name, int n, int lo = -3, int hi = 3 ) { std::vector< int > v; for ( int i = 0; i < n; ++i ) { int x = sym_int( name, lo, hi ); v.push_back( x ); } return v; }

//@ h_find quick(n=4) thorough(n=6)
HARNESS( h_find )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) );
	std::vector< int > v = ints( "v", n ); const auto& c = v;
	int e = sym_int( "e", -3, 3 ); int b = sym_pick( "from", 0, 2 );
	auto pred = [&]( int x ) { return x > e; };
	int first = n, firstb = -1, firstp = n, firstpb = -1; size_t num = 0, nump = 0;
	for ( int i = n - 1; i >= 0; --i ) {
		if ( v[ i ] == e ) { first = i; ++num; if ( i >= b ) firstb = i; }
		if ( v[ i ] > e ) { firstp = i; ++nump; if ( i >= b ) firstpb = i; }
	}
	CHECK_MSG( xo::find( c, e ) - c.begin() == first && xo::find( v, e ) - v.begin() == first, "find gives the first equal element or the end" );
	CHECK_MSG( xo::find_index( c, e ) == ( num ? index_t( first ) : no_index ), "find_index" );
	CHECK_MSG( xo::find_index( c, e, b ) == ( firstb >= 0 ? index_t( firstb ) : no_index ), "find_index from a position" );
	CHECK_MSG( xo::find_if( c, pred ) - c.begin() == firstp && xo::find_if( v, pred ) - v.begin() == firstp, "find_if" );
	CHECK_MSG( xo::find_index_if( c, pred ) == ( nump ? index_t( firstp ) : no_index ) && xo::find_index_if( c, pred, b ) == ( firstpb >= 0 ? index_t( firstpb ) : no_index ), "find_index_if" );
	int ee = e;
	CHECK_MSG( xo::count( c, ee ) == num && xo::count_if( c, pred ) == nump, "count" );
	CHECK_MSG( xo::contains( c, e ) == ( num > 0 ) && xo::contains_if( c, pred ) == ( nump > 0 ) && xo::any_of( c, pred ) == ( nump > 0 ) && xo::none_of( c, pred ) == ( nump == 0 ), "contains" );
	const int* r = nullptr; bool t = throws( [&] { r = &xo::find_ref_if( c, pred ); } );
	CHECK_MSG( t == ( nump == 0 ) && ( t || r == &v[ firstp ] ), "find_ref_if" );
	int* r2 = nullptr; t = throws( [&] { r2 = &xo::find_ref_if( v, pred ); } );
	CHECK_MSG( t == ( nump == 0 ) && ( t || r2 == &v[ firstp ] ), "find_ref_if gives the element itself" );
	if ( num ) CHECK_MSG( index_of( *xo::find( c, e ), v ) == index_t( first ), "index_of" );
	CHECK_MSG( back_index( c ) == ( n ? index_t( n - 1 ) : no_index ), "back_index" );
	sym_reach( "end" );
}

//@ h_copy quick(n=3) thorough(n=4)
HARNESS( h_copy )
{
	int mx = (int)sym_param( "n", 3 );
	int n = sym_pick( "n", 0, mx ); int m = sym_pick( "m", 0, mx );
	std::vector< int > v = ints( "v", n ), w = ints( "w", m );
	std::vector< int > sum; xo::for_each( v, [&]( int& x ) { sum.push_back( x ); } );
	const auto& c = v; xo::for_each( c, [&]( const int& x ) { sum.push_back( x ); } );
	bool ok = (int)sum.size() == 2 * n; for ( int i = 0; ok && i < n; ++i ) ok = sum[ i ] == v[ i ] && sum[ n + i ] == v[ i ];
	CHECK_MSG( ok, "for_each visits all in order" );
	{ // range checked copy
		std::vector< int > x = w; std::vector< char > y( m, 7 );
		bool t1 = throws( [&] { copy_container( v, x ); } ), t2 = throws( [&] { copy_cast( v, y ); } );
		ok = t1 == ( n > m ) && t2 == t1 && (int)x.size() == m;
		for ( int i = 0; ok && i < m; ++i ) ok = x[ i ] == ( i < n && !t1 ? v[ i ] : w[ i ] ) && y[ i ] == ( i < n && !t1 ? (char)v[ i ] : 7 );
		CHECK_MSG( ok, "a copy is refused when it does not fit, and changes nothing else" );
	}
	if ( n >= m ) { // copy until the output is full
		std::vector< int > x( m ); auto it = copy_to_range( v.begin(), x );
		ok = it - v.begin() == m; for ( int i = 0; ok && i < m; ++i ) ok = x[ i ] == v[ i ];
		CHECK_MSG( ok, "copy_to_range" );
		std::vector< int > z( n + 1, 9 ); auto e = xo::copy( w, z.begin() );
		ok = e - z.begin() == m; for ( int i = 0; ok && i <= n; ++i ) ok = z[ i ] == ( i < m ? w[ i ] : 9 );
		CHECK_MSG( ok, "copy" );
	}
	std::vector< int > a = v; append( a, w );
	ok = (int)a.size() == n + m; for ( int i = 0; ok && i < n + m; ++i ) ok = a[ i ] == ( i < n ? v[ i ] : w[ i - n ] );
	CHECK_MSG( ok, "append" );
	CHECK_MSG( emplace_back_get_index( a, 42 ) == index_t( n + m ) && a.back() == 42, "emplace_back_get_index" );
	sym_reach( "end" );
}

//@ h_sort quick(n=4) thorough(n=5)
HARNESS( h_sort )
{
	int n = sym_pick( "n", 1, (int)sym_param( "n", 3 ) );
	std::vector< int > v = ints( "v", n, -1000, 1000 ); const auto& c = v; const auto org = v;
	bool desc = sym_pick( "desc", 0, 1 );
	auto idx = desc ? sorted_indices( c, std::greater< int >() ) : sorted_indices( c );
	bool ok = (int)idx.size() == n; std::vector< int > seen( n, 0 );
	for ( int i = 0; ok && i < n; ++i ) { ok = idx[ i ] < (size_t)n; if ( ok ) { ++seen[ idx[ i ] ]; if ( i ) ok = desc ? c[ idx[ i - 1 ] ] >= c[ idx[ i ] ] : c[ idx[ i - 1 ] ] <= c[ idx[ i ] ]; } }
	for ( int i = 0; ok && i < n; ++i ) ok = seen[ i ] == 1;
	CHECK_MSG( ok, "sorted_indices is a permutation that sorts" );
	auto s = sorted_copy( c ); int q = sym_int( "q", -1000, 1000 );
	ok = (int)s.size() == n; for ( int i = 1; ok && i < n; ++i ) ok = s[ i - 1 ] <= s[ i ];
	CHECK_MSG( ok && xo::count( s, q ) == xo::count( c, q ), "sorted_copy" );
	if ( !desc ) {
		CHECK_MSG( min_value( c ) == s[ 0 ] && max_value( c ) == s[ n - 1 ] && *xo::min_element( c ) == s[ 0 ] && *xo::max_element( c ) == s[ n - 1 ], "extremes" );
		int want = n % 2 ? s[ n / 2 ] : ( s[ n / 2 ] + s[ n / 2 - 1 ] ) / 2;
		CHECK_MSG( median( c ) == want && c == org, "median" );
		CHECK_MSG( median_slow( c ) == want && c == org, "median_slow" );
		CHECK_MSG( median_non_const( v ) == want && xo::count( v, q ) == xo::count( org, q ), "median_non_const only reorders" );
	}
	sym_reach( "end" );
}

//@ h_stats real quick(n=4) thorough(n=6)
HARNESS( h_stats )
{
	int n = sym_pick( "n", 1, (int)sym_param( "n", 3 ) );
	std::vector< double > v( n ); for ( auto& x : v ) x = sym_real( "x" );
	double sum = 0; for ( auto x : v ) sum = sum + x;
	CHECK_MSG( sym_req( xo::accumulate( v, 0.0 ), sum ), "accumulate" );
	CHECK_MSG( sym_req( xo::accumulate( v, 1.0, []( double a, double b ) { return a - b; } ), 1.0 - sum ), "accumulate with an operator" );
	double m = average( v );
	CHECK_MSG( sym_req( m * n, sum ), "average" );
	double sq = 0; for ( auto x : v ) sq += ( x - m ) * ( x - m );
	CHECK_MSG( sym_req( average( v, 0.0, []( double a, double b ) { return a + 2 * b; } ) * n, 2 * sum ), "average with an operator" );
	auto mv = mean_var( v );
	CHECK_MSG( sym_req( mv.first, m ) && sym_req( mv.second * n, sq ), "mean and variance" );
	auto ms = mean_std( v );
	CHECK_MSG( sym_req( ms.first, m ) && ms.second >= 0 && sym_req( ms.second * ms.second * n, sq ), "mean and standard deviation" );
	sym_reach( "end" );
}

//@ h_top real quick(n=3; n=4) thorough(n=5)
HARNESS( h_top )
{
	int n = sym_pick( "n", 1, (int)sym_param( "n", 3 ) ); int k = sym_pick( "k", 1, (int)sym_param( "n", 3 ) );
	std::vector< double > v( n ); for ( auto& x : v ) x = sym_real( "x" );
	double got = top_average( v, (size_t)k );
	std::vector< double > s = v;
	for ( int i = 0; i < n; ++i ) for ( int j = i + 1; j < n; ++j ) if ( s[ j ] < s[ i ] ) std::swap( s[ i ], s[ j ] );
	if ( k > n ) k = n;
	double sum = 0; for ( int i = 0; i < k; ++i ) sum += s[ i ];
	CHECK_MSG( sym_req( got * k, sum ), "average of the lowest elements" );
	double med = median( v ), meds = median_slow( v );
	double want = n % 2 ? s[ n / 2 ] : ( s[ n / 2 ] + s[ n / 2 - 1 ] ) / 2;
	CHECK_MSG( sym_req( med, want ) && sym_req( meds, want ), "median" );
	sym_reach( "end" );
}
