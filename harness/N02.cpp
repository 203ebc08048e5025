// scalar functions
#include "sym.h"
#include "xo/numerical/math.h"
#include "xo/numerical/compare.h"
#include "xo/numerical/functions.h"
#include "xo/numerical/constants.h"
using namespace xo;

//@ h_int quick()
HARNESS( h_int )
{
	int a = sym_int( "a" ); int b = sym_int( "b" ); int c = sym_int( "c" );
	int mn = xo::min( a, b ), mx = xo::max( a, b );
	CHECK_MSG( mn <= a && mn <= b && ( mn == a || mn == b ) && mx >= a && mx >= b && ( mx == a || mx == b ), "min and max" );
	int m3 = xo::min( a, b, c ), x3 = xo::max( a, b, c );
	CHECK_MSG( m3 <= a && m3 <= b && m3 <= c && ( m3 == a || m3 == b || m3 == c ) && x3 >= a && x3 >= b && x3 >= c && ( x3 == a || x3 == b || x3 == c ), "min and max of three" );
	if ( a != constants< int >::lowest() ) CHECK_MSG( xo::abs( a ) == ( a < 0 ? -a : a ), "abs" );
	CHECK_MSG( sign( a ) == ( a >= 0 ? 1 : -1 ) && signum( a ) == ( a > 0 ? 1 : a < 0 ? -1 : 0 ), "sign" );
	CHECK_MSG( same_sign( a, b ) == ( ( a > 0 && b > 0 ) || ( a < 0 && b < 0 ) || ( a == 0 && b == 0 ) ), "same_sign" );
	CHECK_MSG( is_even( a ) == ( a % 2 == 0 ) && is_odd( a ) == !is_even( a ), "odd and even" );
	int x = a; set_if_smaller( x, b ); CHECK_MSG( x == mn, "set_if_smaller" ); x = a; set_if_bigger( x, b ); CHECK_MSG( x == mx, "set_if_bigger" );
	x = a; bool d = set_if_different( x, b ); CHECK_MSG( d == ( a != b ) && x == b, "set_if_different" );
	unsigned u = (unsigned)a; bool p2 = false; for ( int i = 0; i < 32; ++i ) p2 |= u == 1u << i; CHECK_MSG( is_power_of_two( u ) == p2, "is_power_of_two" );
	sym_reach( "end" );
}

//@ h_digits quick(max=5000) thorough(max=100000)
HARNESS( h_digits )
{
	size_t v = sym< size_t >( "v" ); sym_assume( v <= (size_t)sym_param( "max", 5000 ) ); size_t base = (size_t)( sym_pick( "base", 0, 3 ) * 4 + 2 ); if ( base == 14 ) base = 16;
	size_t d = count_digits( v, base ); size_t lo = 1; for ( size_t i = 1; i < d; ++i ) lo *= base;
	CHECK_MSG( d >= 1 && ( d == 1 || v >= lo ) && v < lo * base, "number of digits" );
	sym_reach( "end" );
}

//@ h_gcd quick(max=12) thorough(max=30)
HARNESS( h_gcd )
{
	int mx = (int)sym_param( "max", 30 ); unsigned a = (unsigned)sym_int( "a", 0, mx ); unsigned b = (unsigned)sym_int( "b", 0, mx ); sym_assume( a || b );
	unsigned g = greatest_common_divisor( a, b ); unsigned q = (unsigned)sym_int( "q", 1, mx );
	CHECK_MSG( g > 0, "positive" ); if ( !g ) return;
	CHECK_MSG( a % g == 0 && b % g == 0, "divides both" );
	if ( a % q == 0 && b % q == 0 ) CHECK_MSG( g % q == 0, "is divided by every other common divisor" );
	sym_reach( "end" );
}

//@ h_bytes quick()
HARNESS( h_bytes )
{
	unsigned v = sym< unsigned >( "v" );
	unsigned r = get_byte( v, 0 ) | get_byte( v, 8 ) << 8 | get_byte( v, 16 ) << 16 | get_byte( v, 24 ) << 24; CHECK_MSG( r == v && get_byte( v, 8 ) < 256, "bytes of a number" );
	int i = sym_pick( "i", 0, 255 ); CHECK_MSG( float_to_byte( i / 255.0f ) == (unsigned)i && float_to_byte( i / 255.0 ) == (unsigned)i, "a byte survives conversion to floating point and back" );
	CHECK_MSG( float_to_byte( 1.0f + i ) == 255 && float_to_byte( -0.0f - i ) == 0, "values out of range are clamped" );
	sym_reach( "end" );
}

//@ h_real real quick()
HARNESS( h_real )
{
	double a = sym_real( "a" ); double b = sym_real( "b" );
	CHECK_MSG( sym_req( squared( a ), a * a ) && sym_req( cubed( a ), a * a * a ), "powers" );
	CHECK_MSG( power< 0 >( a ) == 1 && sym_req( power< 1 >( a ), a ) && sym_req( power< 4 >( a ), a * a * a * a ), "powers" );
	if ( a != 0 ) CHECK_MSG( sym_req( power< -2 >( a ) * a * a, 1 ) && sym_req( inv( a ) * a, 1 ), "inverse" );
	CHECK_MSG( sym_req( 2 * midpoint( a, b ), a + b ), "midpoint" );
	double s = signed_sqrt( a ); CHECK_MSG( sym_req( s * xo::abs( s ), a ) && ( s < 0 ) == ( a < 0 ), "signed_sqrt" );
	if ( a > 0 ) { double i = invsqrt( a ); CHECK_MSG( i > 0 && sym_req( i * i * a, 1 ), "invsqrt" ); }
	CHECK_MSG( signum( a ) == ( a > 0 ? 1 : a < 0 ? -1 : 0 ) && sign( a ) == ( a >= 0 ? 1 : -1 ) && sym_req( sign( a ) * xo::abs( a ), a ), "sign" );
	CHECK_MSG( equal( a, a ) && less_than_or_equal( a, b ) == !greater_than_not_equal( a, b ) && greater_than_or_equal( a, b ) == !less_than_not_equal( a, b ), "approximate comparison" );
	if ( a < b ) CHECK_MSG( less_than_or_equal( a, b ) && !greater_than_not_equal( a, b ), "approximate comparison" );
	double e = sym_real( "e" ); sym_assume( e >= 0 ); CHECK_MSG( equal( a, b, e ) == ( xo::abs( a - b ) <= xo::abs( a ) * e ), "equal within a relative difference" );
	sym_reach( "end" );
}

//@ h_round real quick(max=3) thorough(max=6)
HARNESS( h_round )
{
	double v = sym_real( "v" ); int m = (int)sym_param( "max", 3 ); sym_assume( v > -m && v < m );
	int r = round_cast< int >( v ); CHECK_MSG( r - v <= 0.5 && v - r <= 0.5, "nearest whole number" );
	CHECK_MSG( is_whole( v ) == ( v == r ), "is_whole" );
	double d = round_decimals( v, 1 ); CHECK_MSG( d - v <= 0.05 && v - d <= 0.05 && is_whole( d * 10 ), "nearest decimal" );
	sym_reach( "end" );
}

//@ h_wave real quick(max=3) thorough(max=6)
HARNESS( h_wave )
{
	double v = sym_real( "v" ); int m = (int)sym_param( "max", 3 ); sym_assume( v > -m && v < m );
	double t = triangle_wave( v ); int k = 0; while ( v - 2 * k >= 1 ) ++k; while ( v - 2 * k < -1 ) --k;
	CHECK_MSG( sym_req( t, xo::abs( v - 2 * k ) ), "triangle wave: distance to the nearest even number" );
	int p = 0; while ( v - 2 * p >= 2 ) ++p; while ( v - 2 * p < 0 ) --p; CHECK_MSG( square_wave( v ) == ( v - 2 * p < 1 ? 1 : 0 ), "square wave" );
	double l = sym_real( "l" ); double u = l + 1; double w = triangle_wave( l + v, l, u );
	CHECK_MSG( sym_req( w - l, t ), "triangle wave between bounds" );
	sym_reach( "end" );
}

//@ h_functions real quick()
HARNESS( h_functions )
{
	double x = sym_real( "x" ); sym_assume( x >= 0 && x <= 1 );
	double j = minimum_jerk( x ); CHECK_MSG( minimum_jerk( 0.0 ) == 0 && minimum_jerk( 1.0 ) == 1 && j >= 0 && j <= 1, "from zero to one" );
	CHECK_MSG( sym_req( j + minimum_jerk( 1 - x ), 1 ), "symmetric" );
	double a = fast_acos( x ), pi = constants< double >::pi();
	CHECK_MSG( a > -0.001 && a < pi / 2 + 0.001 && sym_req( fast_acos( -x ) + a, pi ), "arc cosine" );
	double d = a - pi / 2 + x + x * x * x / 6; // first terms of the series, exact enough for small x
	if ( x < 0.5 ) CHECK_MSG( d < 0.07 && d > -0.07, "close to the arc cosine" );
	sym_reach( "end" );
}

//@ h_jerk_monotone real quick()
HARNESS( h_jerk_monotone )
{
	double x = sym_real( "x" ); double y = sym_real( "y" ); sym_assume( 0 <= x && x < y && y <= 1 );
	CHECK_MSG( minimum_jerk( x ) < minimum_jerk( y ), "increasing" );
	sym_reach( "end" );
}

template< typename T > static void constants_of( T h )
{
	using c = constants< T >; using n = num< T >; CHECK_MSG( c::pi() == n::pi && c::half_pi() == n::half_pi && c::two_pi() == n::two_pi && c::e() == n::e && c::epsilon() == n::epsilon && c::ample_epsilon() == n::ample_epsilon && c::max() == n::max && c::min() == n::smallest && c::lowest() == n::lowest && n::highest == n::max && c::infinity() == n::infinity && c::sentinel() == n::sentinel() && c::is_signed() == n::is_signed, "both kinds of constants agree" );
	CHECK_MSG( c::pi() == T( 3.14159265358979323846 ) && c::two_pi() == 2 * c::pi() && 2 * c::half_pi() == c::pi() && c::e() == T( 2.7182818284590452354 ), "pi and e" );
	CHECK_MSG( 1 + c::epsilon() > 1 && T( 1 + c::epsilon() / 2 ) == 1 && c::ample_epsilon() == 8 * c::epsilon(), "epsilon" );
	if ( !( h == h ) ) { CHECK_MSG( !( c::NaN() == h ) && !( c::NaN() == c::NaN() ), "not a number" ); return; }
	CHECK_MSG( h <= c::infinity() && h >= -c::infinity() && ( h <= c::max() || h == c::infinity() ) && ( h >= c::lowest() || h == -c::infinity() ) && c::max() < c::infinity() && c::lowest() == -c::max() && c::sentinel() == c::lowest(), "all numbers are in between" );
}
//@ h_constants quick()
HARNESS( h_constants )
{
	double h = sym_real( "h" ); constants_of< double >( h ); constants_of< float >( (float)h );
	int i = sym_int( "i" ); CHECK_MSG( i <= constantsi::max() && i >= constantsi::min() && i >= constantsi::sentinel() && constantsi::lowest() == constantsi::min() && constantsi::sentinel() == num< int >::sentinel() && i <= num< int >::highest, "integers" );
	unsigned u = sym< unsigned >( "u" ); CHECK_MSG( u <= constants< unsigned >::sentinel() && u >= constants< unsigned >::lowest() && constants< unsigned >::sentinel() == num< unsigned >::sentinel(), "unsigned" ); sym_reach( "end" );
}
