// bounds, clamping, bounded values, wrapping
#include "sym.h"
#include "xo/numerical/math.h"
#include "xo/numerical/bounds.h"
#include "xo/numerical/bounded.h"
#include "xo/string/string_cast.h"
using namespace xo;

//@ h_clamp real quick()
HARNESS( h_clamp )
{
	double v = sym_real( "v" ); double l = sym_real( "l" ); double u = sym_real( "u" ); sym_assume( l <= u );
	bounds< double > b( l, u ); bool in = l <= v && v <= u; double want = v < l ? l : v > u ? u : v;
	double x = v; double& r = b.clamp( x ); CHECK_MSG( &r == &x && x == want && b.clamped( v ) == want && xo::clamped( v, l, u ) == want, "clamped to the nearest value within the bounds" );
	CHECK_MSG( b.is_within( v ) == in && is_between( v, l, u ) == in && b.is_within( want ), "is_within" );
	double g = b.get_violation( v ); auto c = b.check( v );
	CHECK_MSG( sym_req( v - g, want ) && ( g == 0 ) == in && c.first == in && c.second == g, "the violation is the distance to the bounds" );
	CHECK_MSG( sym_req( b.length(), u - l ) && sym_req( 2 * b.center(), l + u ) && b.is_within( b.center() ), "length and center" );
	auto n = -b; CHECK_MSG( n.lower == -u && n.upper == -l && n.is_within( -v ) == in, "inverted bounds" );
	CHECK_MSG( b.is_null() == ( l == 0 && u == 0 ), "is_null" );
	double w = sym_real( "w" ); auto e = b; e.extend( w );
	CHECK_MSG( e.is_within( v ) == ( e.lower <= v && v <= e.upper ) && e.is_within( w ) && e.is_within( l ) && e.is_within( u ) && ( e.lower == l || e.lower == w ) && ( e.upper == u || e.upper == w ), "extended to the given value, and no further" );
	double w2 = sym_real( "w2" ); sym_assume( w <= w2 ); auto f = b; f.extend( bounds< double >( w, w2 ) );
	CHECK_MSG( f.is_within( w ) && f.is_within( w2 ) && f.is_within( l ) && f.is_within( u ) && ( f.lower == l || f.lower == w ) && ( f.upper == u || f.upper == w2 ), "extended to the given bounds" );
	CHECK_MSG( bounds< double >::positive().is_within( v ) == ( v >= 0 && v <= num< double >::max ) && bounds< double >::negative().is_within( v ) == ( v <= 0 && v >= num< double >::lowest ), "positive and negative bounds" );
	bounds< float > bf( b ); CHECK_MSG( sym_req( bf.lower, l ) && sym_req( bf.upper, u ), "conversion" );
	sym_reach( "end" );
}

//@ h_clamp_bits quick()
HARNESS( h_clamp_bits )
{
	int v = sym_int( "v" ); int l = sym_int( "l" ); int u = sym_int( "u" ); sym_assume( l <= u );
	int x = v; xo::clamp( x, l, u ); CHECK_MSG( x >= l && x <= u && ( x == v || v < l || v > u ) && ( v >= l || x == l ) && ( v <= u || x == u ), "integers" );
	bounds< int > b( l, u ); CHECK_MSG( b.is_within( v ) == ( x == v ) && b.clamped( v ) == x, "integers" );
	double a = sym_real( "a" ); double y = xo::clamped( a, -1.0, 2.5 ); // any double, including infinities and not a number
	CHECK_MSG( a == a ? y >= -1.0 && y <= 2.5 && ( y == a || a < -1 || a > 2.5 ) : y != y, "any floating point number" );
	sym_reach( "end" );
}

//@ h_soft real quick()
HARNESS( h_soft )
{
	double v = sym_real( "v" ); double l = sym_real( "l" ); double u = sym_real( "u" ); double bd = sym_real( "bd" );
	sym_assume( l < u && bd > 0 && bd <= 0.5 );
	double r = bd * ( u - l ); double x = soft_clamped( v, l, u, bd );
	CHECK_MSG( x >= l && x <= u, "within the bounds" );
	if ( v >= l + r && v <= u - r ) CHECK_MSG( x == v, "unchanged away from the bounds" );
	else CHECK_MSG( v < l + r ? x >= v && x <= l + r : x <= v && x >= u - r, "moved away from the bounds" );
	double y = v; CHECK_MSG( sym_req( xo::soft_clamp( y, l, u, bd ), x ) && sym_req( y, x ), "in place" );
	bounds< double > b( l, u ); double z = v; b.soft_clamp( z, bd ); CHECK_MSG( sym_req( z, x ) && sym_req( b.soft_clamped( v, bd ), x ), "bounds" );
	sym_reach( "end" );
}

//@ h_soft_monotone real quick()
HARNESS( h_soft_monotone )
{
	double v = sym_real( "v" ); double w = sym_real( "w" ); double bd = sym_real( "bd" ); sym_assume( bd > 0 && bd <= 0.5 && v < w );
	CHECK_MSG( soft_clamped( v, 0.0, 1.0, bd ) < soft_clamped( w, 0.0, 1.0, bd ), "strictly increasing" );
	sym_reach( "end" );
}

//@ h_smooth real quick()
HARNESS( h_smooth )
{
	double v = sym_real( "v" ); double mn = sym_real( "min" ); double lb = sym_real( "lb" ); double ub = sym_real( "ub" ); double mx = sym_real( "max" );
	sym_assume( mn < lb && lb <= ub && ub < mx );
	double x = smooth_clamped( v, mn, mx, lb, ub );
	CHECK_MSG( x > mn && x < mx, "within the bounds" );
	if ( v >= lb && v <= ub ) CHECK_MSG( x == v, "unchanged away from the bounds" ); else CHECK_MSG( v < lb ? x >= v && x < lb : x <= v && x > ub, "moved away from the bounds" );
	sym_reach( "end" );
}

//@ h_bounded quick()
HARNESS( h_bounded )
{
	using B = bounded< int, -5, 12 >;
	int v = sym_int( "v" ); int w = sym_int( "w" ); bool okv = v >= -5 && v <= 12, okw = w >= -5 && w <= 12;
	bool t = throws( [&] { B b( v ); CHECK_MSG( (const int&)b == v, "value" ); } ); CHECK_MSG( t == !okv, "values out of bounds are refused" );
	B a( 3 ); t = throws( [&] { B& r = ( a = w ); CHECK_MSG( &r == &a, "assignment gives the value itself" ); } );
	CHECK_MSG( t == !okw && (const int&)a == ( okw ? w : 3 ), "assignment out of bounds is refused and changes nothing" );
	B c( 1 ); B& rc = ( c = a ); CHECK_MSG( (const int&)c == (const int&)a && &rc == &c, "copies" );
	t = throws( [&] { c.set( v ).set( w ); } ); CHECK_MSG( t == !( okv && okw ), "set can be chained" );
	sym_reach( "end" );
}

//@ h_wrap real quick()
HARNESS( h_wrap )
{
	double l = sym_real( "l" ); double u = sym_real( "u" ); double v = sym_real( "v" );
	sym_assume( l < u && v - l < 2 * ( u - l ) && v - l > -2 * ( u - l ) );
	double x = v; double& r = wrap( x, l, u ); CHECK_MSG( &r == &x && x >= l && x <= u, "within the range" );
	double k = x - v; int cong = 0; for ( int i = -3; i <= 3; ++i ) cong |= sym_req( k, i * ( u - l ) );
	CHECK_MSG( cong, "differs by whole periods" );
	if ( v >= l && v < u ) CHECK_MSG( sym_req( x, v ), "values in the range are kept" );
	CHECK_MSG( sym_req( wrapped( v, l, u ), x ), "wrapped" );
	sym_reach( "end" );
}

//@ h_mod real quick()
HARNESS( h_mod )
{
	double p = sym_real( "p" ); double v = sym_real( "v" ); sym_assume( p > 0 && v < 3 * p && v > -3 * p );
	double m = pos_mod( v, p ); CHECK_MSG( m >= 0 && m < p, "positive modulo" );
	int cong = 0; for ( int i = -3; i <= 3; ++i ) cong |= sym_req( m - v, i * p );
	CHECK_MSG( cong, "positive modulo differs by whole periods" );
	sym_reach( "end" );
}

//@ h_text quick()
HARNESS( h_text )
{
	int l = sym_int( "l", -99, 99 ); int u = sym_int( "u", -99, 99 ); bounds< int > b( l, u ), c;
	CHECK_MSG( from_str( to_str( b ), c ) && c.lower == l && c.upper == u, "bounds are restored from text" );
	prop_node pn; pn.set_value( to_str( b ) ); bounds< int > d; CHECK_MSG( from_prop_node( pn, d ) && d.lower == l && d.upper == u, "bounds are restored from a node with text" );
	prop_node pm; bool swap = sym_pick( "swap", 0, 1 ), alt = sym_pick( "alt", 0, 1 ); const char* mn = alt ? "lower" : "min"; const char* mx = alt ? "upper" : "max";
	if ( swap ) { pm.set( mx, u ); pm.set( mn, l ); } else { pm.set( mn, l ); pm.set( mx, u ); }
	bounds< int > e; CHECK_MSG( from_prop_node( pm, e ) && e.lower == l && e.upper == u, "bounds are read from named children in any order" );
	prop_node pa; pa.add_value( l ); pa.add_value( u ); bounds< int > f; CHECK_MSG( from_prop_node( pa, f ) && f.lower == l && f.upper == u, "bounds are read from two values" );
	bounds< int > g( 7, 7 ); CHECK_MSG( from_str( to_str( l ), g ) && g.lower == l && g.upper == l, "a single number is both bounds" );
	CHECK_MSG( !from_str( "x", g ) && !from_prop_node( prop_node(), g ), "other text is refused" );
	sym_reach( "end" );
}
