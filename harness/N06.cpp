// random numbers from an engine of which every number is symbolic
#include "sym.h"
#include "xo/numerical/random.h"
#include <vector>
#ifndef SYM_NATIVE // only used by std::generate_canonical, to find how many bits an engine gives: log( 256 ) / log( 2 )
extern "C" long double logl( long double x ) { int n = 0; while ( x > 1 ) { x = x / 2; ++n; } return n; }
#endif

static std::vector< unsigned > g_drawn; static unsigned g_seed = 0; static size_t g_limit = 99; static const unsigned* g_picks; static int g_npicks;
struct engine
{
	using result_type = unsigned;
	engine( unsigned s ) { g_seed = s; } void seed( unsigned s ) { g_seed = s; }
	static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xffu; }
	unsigned operator()() { if ( g_drawn.size() == g_limit ) sym_assume( false ); unsigned v = g_picks ? g_picks[ sym_pick( "drawn", 0, g_npicks - 1 ) ] : (unsigned)sym_int( "drawn", 0, 255 ); g_drawn.push_back( v ); return v; }
};
using generator = xo::random_number_generator_< engine >;

// any whole number of the range, including both ends, and all equally often (the engine gives 256 numbers)
//@ h_int quick(n=3,a=3) thorough(n=9,a=5)
HARNESS( h_int )
{
	static const int from[] = { 0, -1, 1000, (int)0x80000000u, 0x7ffffff0 }; g_limit = 2; generator g; CHECK_MSG( g_seed == 123, "default seed" ); int a = from[ sym_pick( "min", 0, (int)sym_param( "a", 3 ) - 1 ) ], n = sym_pick( "range", 0, (int)sym_param( "n", 3 ) ), b = a + n;
	int v = sym_pick( "bounds", 0, 1 ) ? g.uniform_int( xo::bounds<int>( a, b ) ) : g.uniform_int( a, b ); // at most one number is rejected
	CHECK_MSG( v >= a && v <= b, "within the range, including its ends" ); int w = sym_pick( "wanted", 0, n ); if ( v - a == w ) sym_reach( w == 0 ? "lower" : w == n ? "upper" : "between" );
	unsigned s = sym<unsigned>( "seed" ); g.seed( s ); CHECK_MSG( g_seed == s, "seed" );
}

// whole numbers that need more than 32 bits
//@ h_wide quick(n=2) thorough(n=5)
HARNESS( h_wide )
{
	static const long long from[] = { 5000000000ll, -5000000000ll, ( 1ll << 53 ) + 1, (long long)( 1ull << 63 ), 0x7fffffffll }; g_limit = 2; generator g; long long a = from[ sym_pick( "min", 0, 4 ) ]; int n = sym_pick( "range", 0, (int)sym_param( "n", 2 ) ); long long b = a + n;
	long long v = sym_pick( "bounds", 0, 1 ) ? g.uniform_int( xo::bounds<long long>( a, b ) ) : g.uniform_int( a, b );
	CHECK_MSG( v >= a && v <= b, "within the range, including its ends" ); int w = sym_pick( "wanted", 0, n ); if ( v - a == w ) sym_reach( w == 0 ? "lower" : "upper" );
}

// any real number of the range
//@ h_real real quick(picks=2) thorough(picks=3)
HARNESS( h_real )
{
	static const unsigned p[] = { 0, 255, 77 }; g_picks = p; g_npicks = (int)sym_param( "picks", 2 ); generator g; double a = sym_real( "min" ), b = sym_real( "max" ); sym_assume( ( a <= b ) & ( a >= -8 ) & ( b <= 8 ) ); double v = sym_pick( "bounds", 0, 1 ) ? g.uniform( xo::bounds<double>( a, b ) ) : g.uniform( a, b );
	CHECK_MSG( v >= a && ( v < b || a == b ), "within the range" ); if ( a < b ) sym_reach( v < ( a + b ) / 2 ? "lower half" : "upper half" ); else sym_reach( "one" );
}

//@ h_vec3 real quick() thorough()
HARNESS( h_vec3 )
{
	static const unsigned p[] = { 0, 255 }; g_picks = p; g_npicks = 2; generator g; float a = (float)sym_real( "min" ), b = (float)sym_real( "max" ); sym_assume( ( a <= b ) & ( a >= -8 ) & ( b <= 8 ) ); auto v = g.uniform_vec3( a, b );
	CHECK_MSG( v.x >= a && v.x <= b && v.y >= a && v.y <= b && v.z >= a && v.z <= b, "every element is within the range" ); CHECK_MSG( g_drawn.size() == 9, "every element is drawn" );
	if ( a < b && v.x > v.y && v.y > v.z ) sym_reach( "different" );
}

// the generators of the library: the same seed gives the same numbers
//@ h_seed quick() thorough()
template< typename G > static void same_seed( unsigned s )
{
	G a( s ), b( s ), c, d; c.uniform_int( 1, 3 ); c.seed( s ); int diff = 0;
	for ( int i = 0; i < 3; ++i ) { int x = a.uniform_int( 0, 1 << 20 ), y = b.uniform_int( 0, 1 << 20 ), z = c.uniform_int( 0, 1 << 20 ), w = d.uniform_int( 0, 1 << 20 ); CHECK_MSG( x == y && x == z && x >= 0 && x <= 1 << 20, "the same numbers" ); diff += x != w; }
	CHECK_MSG( ( diff == 0 ) == ( s == 123 ), "another seed gives others" );
}
HARNESS( h_seed )
{
	static const unsigned seeds[] = { 1, 2, 122, 123, 124, 4321, 1000000 }; unsigned s = seeds[ sym_pick( "seed", 0, 6 ) ];
	switch ( sym_pick( "engine", 0, 1 ) ) { case 0: same_seed< xo::random_number_generator_fast >( s ); break; case 1: same_seed< xo::random_number_generator_default_gcc >( s ); break; }
	sym_reach( "end" );
}
