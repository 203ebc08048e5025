// interpolation and piecewise functions
#include "sym.h"
#include <vector>
#include "xo/system/assert.h"
#include "xo/numerical/interpolation.h"
#include "xo/numerical/piecewise_linear_function.h"
#include "xo/numerical/piecewise_constant_function.h"
#include "xo/numerical/regular_piecewise_linear_function.h"
#include "xo/numerical/polynomial.h"
#include "xo/container/flat_map.h"
#include "xo/utility/color_gradient.h"
using namespace xo;

//@ h_lerp real quick()
HARNESS( h_lerp )
{
	double a = sym_real( "a" ); double b = sym_real( "b" ); double t = sym_real( "t" );
	CHECK_MSG( sym_req( lerp( a, b, 0.0 ), a ) && sym_req( lerp( a, b, 1.0 ), b ) && sym_req( lerp( a, b, t ), a + t * ( b - a ) ), "lerp" );
	CHECK_MSG( sym_req( lerp_precise( a, b, t ), a + t * ( b - a ) ), "lerp_precise" );
	if ( a <= b && t >= 0 && t <= 1 ) { double x = lerp( a, b, t ); CHECK_MSG( x >= a && x <= b, "between" ); }
	sym_reach( "end" );
}

// points with increasing x
static void points( int n, std::vector< double >& x, std::vector< double >& y )
{
	for ( int i = 0; i < n; ++i ) { double a = sym_real( "x" ); double b = sym_real( "y" ); sym_assume( i == 0 || x[ i - 1 ] < a ); x.push_back( a ); y.push_back( b ); }
}

//@ h_map real quick(n=3) thorough(n=4)
HARNESS( h_map )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) ); std::vector< double > x, y; points( n, x, y );
	flat_map< double, double > m; for ( int i = n - 1; i >= 0; --i ) m[ x[ i ] ] = y[ i ];
	double q = sym_real( "q" ); double r = 0; bool t = throws( [&] { r = lerp_map( m, q ); } );
	CHECK_MSG( t == ( n == 0 ), "an empty map throws" );
	if ( n ) {
		if ( q <= x[ 0 ] ) CHECK_MSG( sym_req( r, y[ 0 ] ), "first value before the first point" );
		else if ( q >= x[ n - 1 ] ) CHECK_MSG( sym_req( r, y[ n - 1 ] ), "last value after the last point" );
		else for ( int i = 0; i + 1 < n; ++i ) if ( x[ i ] <= q && q <= x[ i + 1 ] ) CHECK_MSG( sym_req( ( r - y[ i ] ) * ( x[ i + 1 ] - x[ i ] ), ( q - x[ i ] ) * ( y[ i + 1 ] - y[ i ] ) ), "on the line between the neighbours" );
	}
	sym_reach( "end" );
}

//@ h_vec real quick(n=3) thorough(n=4)
HARNESS( h_vec )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) ); std::vector< double > v; for ( int i = 0; i < n; ++i ) { double a = sym_real( "v" ); v.push_back( a ); }
	double q = sym_real( "q" ); sym_assume( q > -2 && q < n + 1 ); double r = 0; bool t = throws( [&] { r = lerp_vec( v, q ); } );
	CHECK_MSG( t == ( n == 0 ), "an empty range throws" );
	if ( n ) {
		if ( q <= 0 ) CHECK_MSG( sym_req( r, v[ 0 ] ), "first value" ); else if ( q >= n - 1 ) CHECK_MSG( sym_req( r, v[ n - 1 ] ), "last value" );
		else for ( int i = 0; i + 1 < n; ++i ) if ( i <= q && q <= i + 1 ) CHECK_MSG( sym_req( r, v[ i ] + ( q - i ) * ( v[ i + 1 ] - v[ i ] ) ), "on the line between the neighbours" );
	}
	sym_reach( "end" );
}

//@ h_linear real quick(n=3) thorough(n=4)
HARNESS( h_linear )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) ); std::vector< double > x, y; points( n, x, y );
	piecewise_linear_function< double > f; bool rev = sym_pick( "rev", 0, 1 ); for ( int i = 0; i < n; ++i ) { int k = rev ? n - 1 - i : i; f.insert_point( x[ k ], y[ k ] ); }
	double q = sym_real( "q" ); double r = 0; bool t = throws( [&] { r = f( q ); } );
	CHECK_MSG( t == ( n < 2 ) && f.size() == (size_t)n, "two points are needed" );
	if ( n >= 2 ) for ( int i = 0; i + 1 < n; ++i ) if ( ( i == 0 || x[ i ] <= q ) && ( i + 2 == n || q <= x[ i + 1 ] ) )
		CHECK_MSG( sym_req( ( r - y[ i ] ) * ( x[ i + 1 ] - x[ i ] ), ( q - x[ i ] ) * ( y[ i + 1 ] - y[ i ] ) ), "on the line through the nearest points, also outside of them" );
	for ( int i = 0; i < n; ++i ) { CHECK_MSG( f.point( i ).first == x[ i ] && f.point( i ).second == y[ i ], "points" ); if ( n >= 2 ) CHECK_MSG( sym_req( f( x[ i ] ), y[ i ] ), "goes through the points" ); }
	if ( n ) { double z = sym_real( "z" ); f.insert_point( x[ 0 ], z ); CHECK_MSG( f.size() == (size_t)n && f.point( 0 ).second == z, "a point with the same x is replaced" ); }
	sym_reach( "end" );
}

//@ h_constant real quick(n=3) thorough(n=4)
HARNESS( h_constant )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) ); std::vector< double > x, y; points( n, x, y );
	piecewise_constant_function< double > f; bool rev = sym_pick( "rev", 0, 1 ); for ( int i = 0; i < n; ++i ) { int k = rev ? n - 1 - i : i; f.insert_point( x[ k ], y[ k ] ); }
	double q = sym_real( "q" ); double r = 0; bool t = throws( [&] { r = f( q ); } );
	CHECK_MSG( t == ( n == 0 ) && f.size() == (size_t)n, "a point is needed" );
	if ( n ) { int k = 0; for ( int i = 1; i < n; ++i ) if ( x[ i ] <= q ) k = i; CHECK_MSG( r == y[ k ], "value of the last point that is not after x, or of the first point" ); }
	for ( int i = 0; i < n; ++i ) CHECK_MSG( f.point( i ).first == x[ i ] && f.point( i ).second == y[ i ] && f( x[ i ] ) == y[ i ], "points" );
	sym_reach( "end" );
}

//@ h_regular real quick()
HARNESS( h_regular )
{
	double l = sym_real( "l" ); double d = sym_real( "d" ); sym_assume( d > 0 );
	double y[ 4 ]; for ( auto& v : y ) v = sym_real( "y" );
	int calls = 0; bool even = true; regular_piecewise_linear_function< double, 4 > f( l, l + 3 * d, [&]( double x ) { even = even && sym_req( x, l + calls * d ); return y[ calls++ & 3 ]; } );
	CHECK_MSG( calls == 4 && even, "sampled at regular intervals from the first to the last x" );
	double q = sym_real( "q" ); sym_assume( q > l - d && q < l + 4 * d ); double r = f( q );
	int i = q < l + d ? 0 : q < l + 2 * d ? 1 : 2;
	CHECK_MSG( sym_req( ( r - y[ i ] ) * d, ( q - l - i * d ) * ( y[ i + 1 ] - y[ i ] ) ), "on the line through the nearest samples, also outside of them" );
	sym_reach( "end" );
}

//@ h_polynomial real quick()
HARNESS( h_polynomial )
{
	double a = sym_real( "a" ); double b = sym_real( "b" ); double c = sym_real( "c" ); double d = sym_real( "d" ); double x = sym_real( "x" );
	cubic_function< double > f( a, b, c, d ); CHECK_MSG( sym_req( f( x ), a + b * x + c * x * x + d * x * x * x ), "value" );
	CHECK_MSG( f.offset() == a && f.slope() == b && f[ 2 ] == c && f[ 3 ] == d, "coefficients" );
	cubic_function< double > g( f ), z; CHECK_MSG( z( x ) == 0, "zero by default" ); z = g; CHECK_MSG( sym_req( z( x ), f( x ) ), "copies" );
	z[ 3 ] = 0; z.slope() = c; z.offset() = d; CHECK_MSG( sym_req( z( x ), d + c * x + c * x * x ), "coefficients can be changed" );
	linear_function< double > h( a, b ); if ( b != 0 ) CHECK_MSG( sym_req( h( intersect_y( h, c ) ), c ), "intersection" );
	sym_reach( "end" );
}

//@ h_gradient real quick()
HARNESS( h_gradient )
{
	double x0 = sym_real( "x0" ); double x1 = sym_real( "x1" ); double q = sym_real( "q" ); sym_assume( x0 < x1 );
	float r0 = (float)sym_real( "r0" ); float r1 = (float)sym_real( "r1" ); float a0 = (float)sym_real( "a0" ); float a1 = (float)sym_real( "a1" );
	color_gradient g{ { (float)x1, color( r1, 0.5f, 0.25f, a1 ) }, { (float)x0, color( r0, 0.75f, 0.25f, a0 ) } };
	color c = g( (float)q ); double t = q <= x0 ? 0 : q >= x1 ? 1 : ( q - x0 ) / ( x1 - x0 );
	CHECK_MSG( sym_req( c.r, r0 + t * ( r1 - r0 ) ) && sym_req( c.g, 0.75 - 0.25 * t ) && sym_req( c.b, 0.25 ) && sym_req( c.a, a0 + t * ( a1 - a0 ) ), "every channel is interpolated" );
	sym_reach( "end" );
}
