// averages, filters, delays
#include "sym.h"
#include <vector>
#include "xo/system/assert.h"
#include "xo/numerical/average.h"
#include "xo/numerical/delta.h"
#include "xo/numerical/filter.h"
#include "xo/numerical/filter_1st_order.h"
#include "xo/numerical/delayer.h"
using namespace xo;

//@ h_average real quick(n=3) thorough(n=5)
HARNESS( h_average )
{
	averaged a; CHECK_MSG( a.empty() && a.get() == 0, "empty" ); double sv = 0, sw = 0;
	for ( int i = 0, n = sym_pick( "n", 1, (int)sym_param( "n", 3 ) ); i < n; ++i ) { double v = sym_real( "v" ); double w = 1; if ( sym_pick( "weighted", 0, 1 ) ) { w = sym_real( "w" ); sym_assume( w > 0 ); a.add( v, w ); } else a.add( v ); sv += v * w; sw += w; CHECK_MSG( !a.empty() && sym_req( a.get() * sw, sv ), "weighted average" ); }
	a.reset(); CHECK_MSG( a.empty() && a.get() == 0, "reset" );
	sym_reach( "end" );
}

//@ h_delta real quick(n=3) thorough(n=6)
HARNESS( h_delta )
{
	double p = sym_real( "init" ); delta< double > d( p ), z; double first = sym_real( "first" ); CHECK_MSG( sym_req( z( first ), first ), "zero by default" );
	for ( int i = 0, n = (int)sym_param( "n", 3 ); i < n; ++i ) { double v = sym_real( "v" ); CHECK_MSG( sym_req( d( v ), v - p ), "difference with the previous value" ); p = v; }
	sym_reach( "end" );
}

//@ h_iir real quick(n=4) thorough(n=6)
HARNESS( h_iir )
{
	iir_filter< double, 3 > f; double b0 = sym_real( "b0" ); double a[ 3 ], b[ 3 ]; for ( int i = 0; i < 3; ++i ) { a[ i ] = sym_real( "a" ); b[ i ] = sym_real( "b" ); f.a_[ i ] = a[ i ]; f.b_[ i ] = b[ i ]; } f.b0_ = b0;
	std::vector< double > x, y;
	for ( int k = 0, n = (int)sym_param( "n", 4 ); k < n; ++k ) {
		double v = sym_real( "x" ); x.push_back( v ); double r = f( v ); double w = b0 * v;
		for ( int i = 0; i < 3; ++i ) if ( k - 1 - i >= 0 ) w += b[ i ] * x[ k - 1 - i ] + a[ i ] * y[ k - 1 - i ];
		y.push_back( r ); CHECK_MSG( sym_req( r, w ) && f() == r, "difference equation" ); CHECK_MSG( sym_req( f.velocity(), r - ( k ? y[ k - 1 ] : 0 ) ), "velocity" );
	}
	sym_reach( "end" );
}

//@ h_butterworth real quick()
HARNESS( h_butterworth )
{
	double c = sym_real( "c" ); sym_assume( c > 0 && c < 0.5 );
	double t = std::tan( constants< double >::pi() * c ); sym_assume( t > 0 ); // the tangent is positive below a quarter turn
	auto f = make_lowpass_butterworth_2nd_order( c );
	CHECK_MSG( sym_req( f.b0_ + f.b_[ 0 ] + f.b_[ 1 ], 1 - f.a_[ 0 ] - f.a_[ 1 ] ), "a constant passes unchanged" );
	CHECK_MSG( sym_req( f.b0_ - f.b_[ 0 ] + f.b_[ 1 ], 0 ), "an alternating signal is removed" );
	CHECK_MSG( f.a_[ 1 ] > -1 && f.a_[ 1 ] < 1 && f.a_[ 0 ] + f.a_[ 1 ] < 1 && f.a_[ 1 ] - f.a_[ 0 ] < 1, "stable" );
	double v = sym_real( "v" ); f.x_ = { v, v }; f.y_ = { v, v }; CHECK_MSG( sym_req( f( v ), v ), "a constant passes unchanged" );
	sym_reach( "end" );
}

//@ h_first_order real quick(n=3) thorough(n=4)
HARNESS( h_first_order )
{
	double rate = sym_real( "rate" ); double v0 = sym_real( "v0" ); sym_assume( rate > 0 );
	filter_1st_order< double, double > f( rate, v0 ), g( rate, v0 ); double cf = v0, cg = v0;
	for ( int i = 0, n = (int)sym_param( "n", 3 ); i < n; ++i ) {
		double v = sym_real( "v" ); double dt = sym_real( "dt" ); sym_assume( dt > 0 && rate * dt < 1 );
		double y = f( v, dt ), z = g.update_fast( v, dt );
		CHECK_MSG( f.value() == y && g.value() == z && f.rate() == rate, "the value is kept" );
		if ( cf != v ) CHECK_MSG( cf < v ? y > cf && y < v : y < cf && y > v, "moves towards the input without reaching it" ); else CHECK_MSG( sym_req( y, v ), "stays at the input" );
		CHECK_MSG( sym_req( z, cg + dt * rate * ( v - cg ) ), "first order approximation" );
		CHECK_MSG( cg < v ? z > cg && z < v : z <= cg && z >= v, "moves towards the input" );
		cf = y; cg = z;
	}
	f.set_value( v0 ); f.set_rate( 1 ); CHECK_MSG( f.value() == v0 && f.rate() == 1, "set" );
	sym_reach( "end" );
}

//@ h_delay real quick(n=5) thorough(n=8)
HARNESS( h_delay )
{
	// steps that divide the window: a signal that changes linearly is delayed exactly, and any signal stays within its limits
	double init = sym_real( "init" ); double slope = sym_real( "slope" ); int k = sym_pick( "k", 1, 2 ); int n = (int)sym_param( "n", 5 );
	float dt = 1.0f / k; delayer< double, 3 > d( 2.0f, init ); CHECK_MSG( d() == init, "initial value" );
	double lo = init, hi = init; bool ramp = sym_pick( "ramp", 0, 1 );
	for ( int i = 1; i <= n; ++i ) {
		double v = ramp ? init + slope * i * dt : sym_real( "v" );
		if ( v < lo ) lo = v; if ( v > hi ) hi = v;
		double y = d( v, dt );
		CHECK_MSG( y >= lo && y <= hi && y == d(), "between what was seen before" );
		double w = i <= 2 * k ? init : init + slope * ( i - 2 * k ) * dt; if ( ramp ) CHECK_MSG( sym_req( y, w ), "the signal of the given time ago" );
	}
	sym_reach( "end" );
}

//@ h_delay_constant real quick(n=4) thorough(n=7)
HARNESS( h_delay_constant )
{
	double v = sym_real( "v" ); delayer< double, 4 > d( 3.0f, v ); smooth_delayer< double, 3 > s( 2.5f, v ); smooth_delayer< double, 2 > z( 1.5f, 0.0 );
	bool three = sym_pick( "three", 0, 1 ); float dt = three ? 0.75f : 0.5f;
	for ( int i = 0, n = (int)sym_param( "n", 4 ); i < n; ++i ) { double a = d( v, dt ), b = s( v, dt ), c = z( v, dt ); CHECK_MSG( sym_req( a, v ), "a constant stays the same" ); CHECK_MSG( sym_req( b, v ), "a constant stays the same" ); CHECK_MSG( v >= 0 ? c >= 0 && c <= v : c <= 0 && c >= v, "between what was seen before" ); if ( ( i + 1 ) * dt >= 3 ) CHECK_MSG( sym_req( c, v ), "the delay is limited" ); }
	sym_reach( "end" );
}
