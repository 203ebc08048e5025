// views, ranges and iterator wrappers
#include "sym.h"
#include <vector>
#include <list>
#include <map>
#include "xo/container/view_if.h"
#include "xo/container/zip.h"
#include "xo/utility/irange.h"
#include "xo/utility/frange.h"
#include "xo/utility/pointer_iterator.h"
#include "xo/numerical/function_tools.h"
#include "xo/container/stream_wrapper.h"
#include "xo/geometry/vec3_type.h"
#include "xo/geometry/quat_type.h"
using namespace xo;

static std::vector< int > ints( const char* name, int n, int lo = -3, int hi = 3 ) { std::vector< int > v; for ( int i = 0; i < n; ++i ) { int x = sym_int( name, lo, hi ); v.push_back( x ); } return v; }

//@ h_view quick(n=4) thorough(n=6)
HARNESS( h_view )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) );
	std::vector< int > v = ints( "v", n ); int e = sym_int( "e", -3, 3 );
	auto pred = [&]( int x ) { return x > e; };
	std::vector< int > want; for ( int x : v ) if ( x > e ) want.push_back( x );
	std::vector< int > got, got2;
	auto vw = make_view_if( v, pred );
	for ( auto& x : vw ) { CHECK_MSG( &x >= v.data() && &x < v.data() + n, "elements are not copied" ); got.push_back( x ); }
	auto it = vw.begin(); while ( it != vw.end() ) { auto prev = it++; got2.push_back( *prev ); }
	CHECK_MSG( got == want && got2 == want, "exactly the matching elements in order" );
	std::list< int > l( v.begin(), v.end() ); got.clear();
	auto lv = make_view_if( l.begin(), l.end(), pred ); for ( int x : lv ) got.push_back( x );
	CHECK_MSG( got == want, "also for iterator pairs" );
	sym_reach( "end" );
}

//@ h_zip quick(n=3) thorough(n=5)
HARNESS( h_zip )
{
	int mx = (int)sym_param( "n", 3 );
	int n = sym_pick( "n", 0, mx ); int extra = sym_pick( "extra", 0, 1 );
	std::vector< int > v = ints( "v", n ), w = ints( "w", n + extra ); auto v0 = v, w0 = w;
	int i = 0; bool ok = true;
	for ( auto [ a, b ] : zip( v, w ) ) { ok = ok && i < n && &a == &v[ i ] && &b == &w[ i ]; a = b + 1; b = -a; ++i; }
	ok = ok && i == n;
	for ( int j = 0; ok && j < n; ++j ) ok = v[ j ] == w0[ j ] + 1 && w[ j ] == -w0[ j ] - 1;
	if ( extra ) ok = ok && w[ n ] == w0[ n ];
	CHECK_MSG( ok, "pairs of references in order" );
	sym_reach( "end" );
}

template< typename T > void check_irange( int b, int len )
{
	int k = 0; bool ok = true;
	for ( T x : make_irange( T( b ), T( b + len ) ) ) { ok = ok && k < len && x == T( b + k ); ++k; if ( !ok ) break; }
	CHECK_MSG( ok && k == len, "all whole numbers from begin up to end" );
	irange< T > r( T( b ), T( b + len ) ); auto i = r.begin(); k = 0;
	while ( i != r.end() && k <= len ) { T x = i++; ok = ok && x == T( b + k ); ++k; }
	CHECK_MSG( ok && k == len && i == r.end() && r.end() - r.begin() == T( len ), "post increment and distance" );
}

//@ h_irange quick(n=4) thorough(n=8)
HARNESS( h_irange )
{
	int b = sym_int( "b", -100, 100 ); int len = sym_pick( "len", 0, (int)sym_param( "n", 4 ) );
	check_irange< int >( b, len );
	check_irange< long >( b, len );
	check_irange< unsigned >( b + 100, len );
	std::vector< char > c( len ); size_t k = 0; for ( auto x : size_range( c ) ) { CHECK_MSG( x == k, "size_range" ); ++k; }
	CHECK_MSG( k == (size_t)len, "size_range" );
	k = 0; for ( auto x : make_irange( len ) ) { CHECK_MSG( x == (int)k, "range from zero" ); ++k; }
	CHECK_MSG( k == (size_t)len, "range from zero" );
	sym_reach( "end" );
}

//@ h_irange_step quick(len=7) thorough(len=12)
HARNESS( h_irange_step )
{
	int mx = (int)sym_param( "len", 7 );
	int b = sym_int( "b", -100, 100 ); int len = sym_int( "len", 0, mx ); int s = sym_pick( "s", 1, 4 ); bool down = sym_pick( "down", 0, 1 );
	int n = ( len + s - 1 ) / s; int k = 0; bool ok = true;
	int e = down ? b - len : b + len, st = down ? -s : s;
	for ( int x : irange_step< int >( b, e, st ) ) { ok = ok && k < n && x == b + k * st; ++k; if ( !ok ) break; }
	CHECK_MSG( ok && k == n, "every step that comes before the end" );
	k = 0; auto r = make_irange( b, e, st ); auto i = r.begin();
	while ( i != r.end() && k <= n ) { int x = i++; ok = ok && x == b + k * st; ++k; }
	CHECK_MSG( ok && k == n && i == r.end(), "post increment" );
	if ( len == n * s ) CHECK_MSG( r.end() - r.begin() == n, "distance" );
	sym_reach( "end" );
}

//@ h_frange real quick(n=4) thorough(n=6)
HARNESS( h_frange )
{
	int n = sym_pick( "n", 1, (int)sym_param( "n", 4 ) ); bool by_inc = n > 1 && sym_pick( "by_inc", 0, 1 );
	double lo = sym_real( "lo" ); double len = sym_real( "len" ); sym_assume( len > 0 && len < 1000 );
	double inc = 1;
	if ( by_inc ) { double d = sym_real( "d" ); sym_assume( d > 0 && len < ( n - 0.5 ) * d && len > ( n - 1.5 ) * d ); inc = d; }
	bool bnd = sym_pick( "bounds", 0, 1 ); bounds< double > bb( lo, lo + len );
	auto r = by_inc ? bnd ? frange< double >( bb, inc ) : frange< double >( lo, lo + len, inc ) : bnd ? frange< double >( bb, n ) : frange< double >( lo, lo + len, n );
	int k = 0;
	for ( double x : r ) {
		CHECK_MSG( k < n, "number of values" );
		if ( k >= n ) return;
		CHECK_MSG( sym_req( n > 1 ? ( x - lo ) * ( n - 1 ) : x - lo, n > 1 ? k * len : 0 ), "evenly spaced, from the lower up to and including the upper bound" );
		++k;
	}
	CHECK_MSG( k == n && r.size() == (size_t)n, "number of values" );
	auto i = r.begin(); auto j = r.begin(); k = 0;
	while ( i != r.end() && k <= n ) { double x = *i; CHECK_MSG( i == j && sym_req( *j, x ), "increment" ); i++; ++k; ++j; CHECK_MSG( j == i, "increment" ); }
	CHECK_MSG( k == n, "increment" );
	auto f = []( double x ) -> double { return 2 * x + 1; };
	auto ev = evaluate_function< double >( f, r );
	bool ok = (int)ev.size() == n; k = 0; for ( double x : r ) { ok = ok && sym_req( ev[ k ], 2 * x + 1 ); ++k; }
	CHECK_MSG( ok, "a function is evaluated at every value" );
	sym_reach( "end" );
}

//@ h_pointer quick(n=4)
HARNESS( h_pointer )
{
	int n = sym_pick( "n", 1, (int)sym_param( "n", 4 ) );
	std::vector< int > v = ints( "v", n ); pointer_iterator< int > b( v.data() ), e( v.data() + n );
	int a = sym_int( "a", 0, n ); int c = sym_int( "c", 0, n );
	auto x = b + a, y = b + c;
	CHECK_MSG( y - x == c - a && ( x == y ) == ( a == c ) && ( x != y ) == ( a != c ) && ( x < y ) == ( a < c ), "positions compare like indices" );
	int k = 0; bool ok = true;
	for ( auto i = b; i != e; ++i, ++k ) ok = ok && &*i == &v[ k ];
	auto i = b; auto j = i++; ok = ok && j == b && i == b + 1; j = i--; ok = ok && i == b && j == b + 1; ++i; --i; ok = ok && i == b;
	CHECK_MSG( ok && k == n, "visits every element" );
	if ( a < n ) { *x = 77; CHECK_MSG( v[ a ] == 77, "refers to the element" ); x = b; CHECK_MSG( x == b && v[ a ] == 77, "assignment moves the iterator only" ); }
	sym_reach( "end" );
}

//@ h_stream real quick()
HARNESS( h_stream )
{
	vec3_< double > v{}, v2{}; quat_< double > q{}, q2{}; double d = sym_real( "d" ); double d2 = 0; int i = sym_pick( "i", -2, 2 ); int i2 = 0;
	v.x = sym_real( "vx" ); v.y = sym_real( "vy" ); v.z = sym_real( "vz" ); q.w = sym_real( "qw" ); q.x = sym_real( "qx" ); q.y = sym_real( "qy" ); q.z = sym_real( "qz" );
	std::vector< double > data( 9, 0.0 );
	{ output_iterator_stream< std::vector< double >::iterator > out( data.begin() ); out << v << d << q << i; CHECK_MSG( out.pos_ == data.end(), "number of values written" ); }
	bool ok = data[ 0 ] == v.x && data[ 1 ] == v.y && data[ 2 ] == v.z && data[ 3 ] == d && data[ 4 ] == q.w && data[ 5 ] == q.x && data[ 6 ] == q.y && data[ 7 ] == q.z && data[ 8 ] == i;
	CHECK_MSG( ok, "values are written in order" );
	{ input_iterator_stream< std::vector< double >::iterator > in( data.begin() ); in >> v2 >> d2 >> q2 >> i2; CHECK_MSG( in.pos_ == data.end(), "number of values read" ); }
	CHECK_MSG( v2.x == v.x && v2.y == v.y && v2.z == v.z && d2 == d && q2.w == q.w && q2.x == q.x && q2.y == q.y && q2.z == q.z && i2 == i, "what was written is read" );
	std::vector< double > p; push_back_stream< std::vector< double > > ps( p ); ps << d << i;
	CHECK_MSG( p.size() == 2 && p[ 0 ] == d && p[ 1 ] == i, "values are appended" );
	sym_reach( "end" );
}
