// circular_deque and circular_buffer
#include "sym.h"
#include <vector>
#include "xo/container/circular_deque.h"
#include "xo/container/circular_buffer.h"
using namespace xo;

struct seq { int v[ 16 ]; int n = 0; void push_front( int x ) { for ( int i = n; i > 0; --i ) v[ i ] = v[ i - 1 ]; v[ 0 ] = x; ++n; } void pop_front() { for ( int i = 0; i + 1 < n; ++i ) v[ i ] = v[ i + 1 ]; --n; } };

static void check( circular_deque< int >& d, const seq& w )
{
	const auto& c = d;
	CHECK_MSG( c.size() == (size_t)w.n && c.empty() == ( w.n == 0 ) && c.capacity() >= c.size() && c.full() == ( c.size() == c.capacity() ), "size" );
	bool ok = true;
	for ( int i = 0; i < w.n; ++i ) ok = ok && c[ i ] == w.v[ i ] && d[ i ] == w.v[ i ];
	CHECK_MSG( ok, "elements in order" );
	if ( w.n ) CHECK_MSG( c.front() == w.v[ 0 ] && d.front() == w.v[ 0 ] && c.back() == w.v[ w.n - 1 ] && d.back() == w.v[ w.n - 1 ], "front and back" );
	int i = 0; for ( auto& e : c ) { ok = ok && i < w.n && e == w.v[ i ]; ++i; }
	CHECK_MSG( ok && i == w.n, "iteration" );
	i = 0; for ( auto it = d.begin(); it != d.end(); it++ ) { ok = ok && i < w.n && *it == w.v[ i ]; ++i; }
	CHECK_MSG( ok && i == w.n && d.end() - d.begin() == (size_t)w.n && c.end() - c.begin() == (size_t)w.n, "iteration" );
	for ( i = 0; i < w.n; ++i ) ok = ok && *( d.begin() + i ) == w.v[ i ] && *( d.end() - ( i + 1 ) ) == w.v[ w.n - 1 - i ] && *( c.begin() + i ) == w.v[ i ] && ( d.begin() + i ).operator->() == &d[ i ];
	CHECK_MSG( ok, "iterators move by any distance" );
}

//@ h_deque quick(ops=5) thorough(ops=7)
HARNESS( h_deque )
{
	circular_deque< int > d( (size_t)sym_pick( "capacity", 0, 3 ) ); seq w;
	int ops = (int)sym_param( "ops", 5 );
	for ( int o = 0; o < ops; ++o ) {
		int v = sym_int( "v" );
		switch ( sym_choice( 5, "op" ) ) {
		case 0: d.push_back( v ); w.v[ w.n++ ] = v; break;
		case 1: d.push_front( v ); w.push_front( v ); break;
		case 2: if ( w.n ) { d.pop_back(); --w.n; } else { sym_assume( 0 ); } break;
		case 3: if ( w.n ) { d.pop_front(); w.pop_front(); } else { sym_assume( 0 ); } break;
		default: d.reserve( d.size() + 1 ); CHECK_MSG( d.capacity() > d.size(), "reserve" ); break;
		}
	}
	check( d, w );
	circular_deque< int > c( d ); if ( w.n ) { c.front() = ~w.v[ 0 ]; CHECK_MSG( d.front() == w.v[ 0 ], "copies are independent" ); }
	c.clear(); CHECK( c.empty() );
	sym_reach( w.n ? "elements" : "empty" );
}

//@ h_self quick(ops=4) thorough(ops=6)
HARNESS( h_self )
{
	// an element of the deque itself is added
	circular_deque< int > d( 2 ); seq w;
	d.push_back( 1 ); w.v[ w.n++ ] = 1;
	int ops = (int)sym_param( "ops", 4 );
	for ( int o = 0; o < ops; ++o )
		switch ( sym_choice( 4, "op" ) ) {
		case 0: d.push_back( d.front() ); w.v[ w.n ] = w.v[ 0 ]; ++w.n; break;
		case 1: d.push_front( d.back() ); w.push_front( w.v[ w.n - 1 ] ); break;
		case 2: d.push_back( 10 + o ); w.v[ w.n++ ] = 10 + o; break;
		default: if ( w.n > 1 ) { d.pop_front(); w.pop_front(); } break;
		}
	check( d, w );
	sym_reach( "end" );
}

//@ h_buffer quick(frames=3,ops=6) thorough(frames=4,ops=10)
HARNESS( h_buffer )
{
	// a buffer of n frames gives values with a delay of at most n - 1 frames
	int n = sym_pick( "frames", 1, (int)sym_param( "frames", 3 ) ), c = sym_pick( "channels", 1, 2 ), ops = sym_pick( "ops", 0, (int)sym_param( "ops", 6 ) );
	circular_buffer< int > b;
	if ( sym_pick( "how", 0, 1 ) ) b.resize( n, c );
	else { for ( int i = 0; i < n; ++i ) CHECK( b.add_frame() == (size_t)i ); for ( int i = 0; i < c; ++i ) CHECK( b.add_channel() == (size_t)i ); }
	CHECK( b.capacity() == (size_t)n && b.empty() );
	int hist[ 16 ][ 2 ];
	for ( int o = 0; o <= ops; ++o ) {
		if ( o > 0 ) b.advance();
		for ( int ch = 0; ch < c; ++ch ) {
			hist[ o ][ ch ] = sym_int( "v" );
			if ( ch ) b.set( ch, hist[ o ][ ch ] ); else b.back( ch ) = hist[ o ][ ch ];
		}
		int first = o < n - 1 ? 0 : o - ( n - 1 );
		for ( int ch = 0; ch < c; ++ch ) CHECK_MSG( b.back( ch ) == hist[ o ][ ch ] && b.front( ch ) == hist[ first ][ ch ] && b.get( ch ) == hist[ first ][ ch ], "oldest and newest values" );
		CHECK_MSG( b.empty() == ( o == 0 || n == 1 ), "empty" );
	}
	if ( n > 1 ) { CHECK_MSG( ops == 0 || throws( [&] { b.resize( n + 1, c ); } ), "no resize in use" ); b.clear_back( 7 ); CHECK( b.back( c - 1 ) == 7 && ( ops == 0 || b.front( c - 1 ) == hist[ ops < n - 1 ? 0 : ops - ( n - 1 ) ][ c - 1 ] ) ); }
	b.reset(); CHECK( b.empty() && b.back( 0 ) == 0 && b.front( c - 1 ) == 0 );
	sym_reach( "end" );
}
