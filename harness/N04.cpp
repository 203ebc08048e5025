// regression and statistics of channels
#include "sym.h"
#include <vector>
#include "xo/system/assert.h"
#include "xo/numerical/regression.h"
#include "xo/utility/data_algorithms.h"
using namespace xo;
static std::vector< double > reals( const char* name, int n ) { std::vector< double > v; for ( int i = 0; i < n; ++i ) { double x = sym_real( name ); v.push_back( x ); } return v; }

//@ h_least_squares real quick(n=3) thorough(n=4)
HARNESS( h_least_squares )
{
	int n = sym_pick( "n", 2, (int)sym_param( "n", 3 ) ); auto x = reals( "x", n ), y = reals( "y", n );
	bool differ = false; for ( int i = 1; i < n; ++i ) differ = differ || x[ i ] != x[ 0 ]; sym_assume( differ );
	auto f = linear_regression( x, y ); double s0 = 0, s1 = 0;
	for ( int i = 0; i < n; ++i ) { double e = y[ i ] - f( x[ i ] ); s0 += e; s1 += e * x[ i ]; }
	CHECK_MSG( sym_req( s0, 0 ), "residuals add up to zero" );
	CHECK_MSG( sym_req( s1, 0 ), "residuals are independent of x: least squares" );
	auto g = linear_regression( x.begin(), x.end(), y.begin(), y.end() ); CHECK_MSG( sym_req( f.offset(), g.offset() ) && sym_req( f.slope(), g.slope() ), "iterators" );
	sym_reach( "end" );
}

//@ h_size quick()
HARNESS( h_size )
{
	int n = sym_pick( "n", 1, 3 ); int m = sym_pick( "m", 1, 3 ); std::vector< double > x, y; for ( int i = 0; i < n; ++i ) x.push_back( i ); for ( int i = 0; i < m; ++i ) y.push_back( i );
	if ( n != m ) { bool t = throws( [&] { linear_regression( x, y ); } ), u = throws( [&] { repeated_median_regression( x.begin(), x.end(), y.begin(), y.end() ); } ); CHECK_MSG( t && u, "different sizes are refused" ); }
	if ( n == 1 ) { bool t = throws( [&] { linear_median_regression( x, 0.0, 1.0 ); } ); CHECK_MSG( t, "one sample is refused" ); }
	sym_reach( "end" );
}

//@ h_steps real quick(n=3) thorough(n=4)
HARNESS( h_steps )
{
	int n = sym_pick( "n", 2, (int)sym_param( "n", 3 ) ); auto y = reals( "y", n ); double b = sym_real( "b" ); double s = sym_real( "s" ); sym_assume( s != 0 );
	auto f = linear_regression( y, b, s ); double s0 = 0, s1 = 0;
	for ( int i = 0; i < n; ++i ) { double e = y[ i ] - f( b + i * s ); s0 += e; s1 += e * i; }
	CHECK_MSG( sym_req( s0, 0 ) && sym_req( s1, 0 ), "least squares for regular x" );
	sym_reach( "end" );
}

//@ h_median real quick(n=3) thorough(n=4)
HARNESS( h_median )
{
	int n = sym_pick( "n", 2, (int)sym_param( "n", 3 ) ); double o = sym_real( "o" ); double k = sym_real( "k" ); double b = sym_real( "b" ); double s = sym_real( "s" ); sym_assume( s > 0 );
	std::vector< double > x, y; for ( int i = 0; i < n; ++i ) { x.push_back( b + i * s ); y.push_back( o + k * x[ i ] ); }
	auto f = linear_median_regression( y, b, s ); CHECK_MSG( sym_req( f.slope(), k ) && sym_req( f.offset(), o ), "points on a line give that line" );
	auto g = repeated_median_regression( x.begin(), x.end(), y.begin(), y.end() ); CHECK_MSG( sym_req( g.slope(), k ) && sym_req( g.offset(), o ), "points on a line give that line" );
	sym_reach( "end" );
}

//@ h_outlier real quick() thorough()
HARNESS( h_outlier )
{
	// one point out of four may be anywhere: the repeated median still is the line through the others
	double o = sym_real( "o" ); double k = sym_real( "k" ); double out = sym_real( "out" ); int at = sym_pick( "at", 0, 3 );
	std::vector< double > x, y; for ( int i = 0; i < 4; ++i ) { x.push_back( i ); y.push_back( i == at ? out : o + k * i ); }
	std::vector< double > xs( x ), ys( y ); xs.push_back( 4 ); ys.push_back( o + k * 4 );
	auto g = repeated_median_regression( xs.begin(), xs.end(), ys.begin(), ys.end() ); CHECK_MSG( sym_req( g.slope(), k ) && sym_req( g.offset(), o ), "an outlier does not change the line" );
	sym_reach( "end" );
}

//@ h_covariance real quick(n=3) thorough(n=4)
HARNESS( h_covariance )
{
	int n = sym_pick( "frames", 1, (int)sym_param( "n", 3 ) ); int m = sym_pick( "channels", 1, 2 );
	storage< double > sto; for ( int c = 0; c < m; ++c ) sto.add_channel( c ? "b" : "a" );
	std::vector< std::vector< double > > d( m ); for ( int i = 0; i < n; ++i ) { sto.add_frame(); for ( int c = 0; c < m; ++c ) { double v = sym_real( "v" ); d[ c ].push_back( v ); sto( i, c ) = v; } }
	auto mean = compute_channel_means( sto ); auto cv = compute_covariance( sto );
	for ( int c = 0; c < m; ++c ) { double s = 0; for ( double v : d[ c ] ) s += v; CHECK_MSG( sym_req( mean[ c ] * n, s ), "mean of every channel" ); }
	CHECK_MSG( (int)mean.size() == m && (int)cv.row_size() == m && (int)cv.column_size() == m, "sizes" );
	for ( int a = 0; a < m; ++a ) for ( int b = 0; b < m; ++b ) { double s = 0; for ( int i = 0; i < n; ++i ) s += ( d[ a ][ i ] - mean[ a ] ) * ( d[ b ][ i ] - mean[ b ] ); CHECK_MSG( sym_req( cv( a, b ) * n, s ), "covariance of every pair of channels" ); }
	sym_reach( "end" );
}
