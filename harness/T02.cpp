// timers, stopwatches and the profiler, with a clock that advances by arbitrary steps
#include "sym.h"
#include "xo/time/timer.h"
#include "xo/time/stopwatch.h"
#include "xo/system/profiler.h"
#include "xo/container/prop_node.h"
#include <vector>
using xo::timer; using xo::stopwatch; using xo::prop_node; using xo::scoped_timer_starter; using xo::profiler;
using ll = long long;

static ll g_clock = 1000000;
extern "C" ll test_clock_now() asm( "_ZNSt6chrono3_V212system_clock3nowEv" );
extern "C" ll test_clock_now() { return g_clock; }
static ll advance( const char* name ) { ll d = sym<unsigned char>( name ); g_clock += d; return d; }

// a timer has a time, and runs or not
//@ h_timer quick(n=4) thorough(n=6)
HARNESS( h_timer )
{
	bool run = sym_pick( "start", 0, 1 ); timer t( run ); ll acc = 0; int n = (int)sym_param( "n", 3 );
	CHECK_MSG( t().nanoseconds() == 0, "starts at zero" );
	for ( int i = 0; i < n; ++i ) {
		ll d = advance( "d" ); sym_assume( d > 0 ); if ( run ) acc += d;
		switch ( sym_pick( "operation", 0, 3 ) ) {
		case 0: { xo::time r = t.pause(); run = false; CHECK_MSG( r.nanoseconds() == acc, "pause gives the time" ); break; }
		case 1: t.resume(); run = true; break;
		case 2: { xo::time r = t.restart(); CHECK_MSG( r.nanoseconds() == acc, "restart gives the time" ); acc = 0; run = true; break; }
		case 3: { ll s = sym<unsigned char>( "s" ); t.set( xo::time( s ) ); acc = s; break; }
		}
		CHECK_MSG( t().nanoseconds() == acc, "time after the operation" );
		if ( run ) CHECK_MSG( t.tick_count() == acc, "ticks of a running timer" );
		CHECK_MSG( t.is_running() == run && t.is_paused() == !run, "running" );
	}
	ll d = advance( "d" ); if ( run ) acc += d;
	CHECK_MSG( t().nanoseconds() == acc, "a running timer follows the clock, a paused timer does not" );
	sym_reach( run ? "running" : "paused" );
}

//@ h_scoped quick() thorough()
HARNESS( h_scoped )
{
	timer t( false ); ll acc = 0; int n = sym_pick( "n", 1, 3 );
	for ( int i = 0; i < n; ++i ) {
		advance( "outside" );
		{ scoped_timer_starter s( t ); ll d = advance( "inside" ); sym_assume( d > 0 ); acc += d; CHECK_MSG( t().nanoseconds() == acc, "running inside" ); }
		CHECK_MSG( t.is_paused() && t().nanoseconds() == acc, "time inside is added" );
	}
	sym_reach( "end" );
}

//@ h_stopwatch quick(n=3) thorough(n=4)
HARNESS( h_stopwatch )
{
	const char* names[] = { "a", "b", "c", "d" }; stopwatch w; ll sum[ 4 ] = {}; size_t cnt = 0; int rounds = (int)sym_param( "n", 2 );
	for ( int r = 0; r < rounds; ++r ) {
		if ( r ) { advance( "pause" ); w.restart(); }
		size_t k = (size_t)sym_pick( "splits", 0, 3 );
		for ( size_t i = 0; i < k; ++i ) { ll d = advance( "d" ); sym_assume( d > 0 ); sum[ i ] += d; w.split( names[ i ] ); }
		cnt = k > cnt ? k : cnt;
	}
	CHECK_MSG( w.size() == cnt && w.split_times().size() == cnt && w.split_names().size() == cnt, "number of splits" );
	for ( size_t i = 0; i < cnt; ++i ) CHECK_MSG( w.split_times()[ i ].nanoseconds() == sum[ i ] && w.split_names()[ i ] == names[ i ], "a split has the sum of its times over all rounds" );
	advance( "x" ); w.clear(); CHECK_MSG( w.size() == 0, "clear" );
	ll d = advance( "d" ); w.split( "z" ); CHECK_MSG( w.size() == 1 && w.split_times()[ 0 ].nanoseconds() == d && w.split_names()[ 0 ] == "z", "first split after clear" );
	sym_reach( "end" );
}

//@ h_report quick() thorough()
HARNESS( h_report )
{
	stopwatch w; int k = sym_pick( "splits", 0, 3 ); ll total = 0; const char* names[] = { "a", "b", "c" }; ll ds[ 3 ];
	for ( int i = 0; i < k; ++i ) { ds[ i ] = ( 1ll + sym_pick( "d", 0, 2 ) ) * 250000000; g_clock += ds[ i ]; total += ds[ i ]; w.split( names[ i ] ); }
	std::string third = xo::to_str( 1.0 / 3 ); prop_node pn = w.get_report(); prop_node pn2 = w.get_report( 3 ); CHECK_MSG( xo::to_str( 1.0 / 3 ) == third, "precision is restored" );
	CHECK_MSG( pn.size() == size_t( k ) + 1 && pn2.size() == pn.size(), "one item per split, and the total" );
	for ( int i = 0; i < k; ++i ) { double v = pn.get_child( size_t( i ) ).get< double >(), u = pn2.get_child( size_t( i ) ).get< double >(); CHECK_MSG( v * 1e9 == ds[ i ] && u == v, "time of a split, in seconds" ); CHECK_MSG( pn.get_key( size_t( i ) ) == names[ i ] && pn2.get_key( size_t( i ) ) == names[ i ], "name of a split" ); }
	CHECK_MSG( pn.get_key( size_t( k ) ) == "TOTAL" && pn.get_child( size_t( k ) ).get< double >() * 1e9 == total && pn2.get< double >( "TOTAL" ) * 1e9 == total, "total" );
	sym_reach( "end" );
}

static void tick( ll ms ) { g_clock += ms * 1000000; }
static long field( const std::string& s, int i ) { // i-th number in the text
	size_t p = 0; long v = 0; for ( int k = 0; k <= i; ++k ) { while ( p < s.size() && !( s[ p ] >= '0' && s[ p ] <= '9' ) ) ++p; v = 0; while ( p < s.size() && s[ p ] >= '0' && s[ p ] <= '9' ) v = v * 10 + ( s[ p++ ] - '0' ); }
	return v;
}
static std::string sect( const prop_node& pn, const char* name ) { return pn.get_child( name ).get< std::string >(); }

// sections are nested, time and number of calls of every section in its own place are reported
//@ h_profiler insts(40000000) quick() thorough()
HARNESS( h_profiler )
{
	profiler p; CHECK_MSG( !p.enabled(), "off" ); p.start( "main" ); CHECK_MSG( p.enabled(), "on" );
	CHECK_MSG( throws( [&] { p.start(); } ), "a profiler that runs is not started" );
	const char *A = "a", *B = "b", *C = "c"; int n = sym_pick( "calls", 1, 2 ), m = sym_pick( "inner", 0, 2 ), d = sym_pick( "d", 1, 3 ); long a = 0, ab = 0, c = 0, cb = 0;
	tick( 4 );
	for ( int i = 0; i < n; ++i ) {
		xo::scoped_profiler_section s( A, p ); tick( d ); a += d;
		for ( int j = 0; j < m; ++j ) { xo::scoped_profiler_section t( B, p ); tick( 2 ); a += 2; ab += 2; }
		tick( 1 ); ++a;
	}
	{ xo::scoped_profiler_section s( C, p ); tick( 3 ); c += 3; { xo::scoped_profiler_section t( B, p ); tick( 1 ); ++c; ++cb; } }
	long total = 4 + a + c;
	prop_node r = p.report( 0 );
	CHECK_MSG( !p.enabled() && r.size() == 1 && r.get_key( 0 ) == "main", "report ends profiling" );
	const prop_node& root = r.get_child( "main" ); std::string s = root.get< std::string >();
	CHECK_MSG( field( s, 0 ) == total, "total time" );
	CHECK_MSG( root.size() == 2 && root.get_key( 0 ) == ( a >= c ? "a" : "c" ), "sections in order of time" );
	s = sect( root, "a" ); CHECK_MSG( field( s, 0 ) == a, "time of a section" ); CHECK_MSG( field( s, 5 ) == n, "number of calls" );
	s = sect( root, "c" ); CHECK_MSG( field( s, 0 ) == c, "time of a section" ); CHECK_MSG( field( s, 5 ) == 1, "number of calls" );
	const prop_node &pa = root.get_child( "a" ), &pc = root.get_child( "c" );
	CHECK_MSG( pa.size() == ( m > 0 ) && pc.size() == 1, "sections within sections" );
	if ( m ) { s = sect( pa, "b" ); CHECK_MSG( field( s, 0 ) == ab && field( s, 5 ) == n * m, "a section within another" ); }
	s = sect( pc, "b" ); CHECK_MSG( field( s, 0 ) == cb && field( s, 5 ) == 1, "the same name within another section" );
	sym_reach( "end" );
}

// any sequence of sections that start and end: what is reported are the sections of each place, whatever the names
//@ h_nested insts(200000000) quick(n=6) thorough(n=8)
HARNESS( h_nested )
{
	static const char* names[] = { "a", "b" }; profiler p; p.start( "main" ); struct place { int parent, name; long ms, calls; std::vector< int > in; }; std::vector< place > w( 1, place{ -1, 0, 0, 0, {} } ); std::vector< xo::scoped_profiler_section* > open; int at = 0, n = (int)sym_param( "n", 4 );
	for ( int i = 0; i < n; ++i ) {
		int act = sym_pick( "action", 0, open.empty() ? 1 : 2 );
		if ( act == 2 ) { delete open.back(); open.pop_back(); at = w[ at ].parent; }
		else { int to = -1; for ( int k : w[ at ].in ) if ( w[ k ].name == act ) to = k; if ( to < 0 ) { to = (int)w.size(); w[ at ].in.push_back( to ); w.push_back( place{ at, act, 0, 0, {} } ); } at = to; ++w[ at ].calls; open.push_back( new xo::scoped_profiler_section( names[ act ], p ) ); }
		long d = 1l << i; tick( d ); for ( int k = at; k >= 0; k = w[ k ].parent ) w[ k ].ms += d; // every step takes a time of its own
	}
	while ( !open.empty() ) { delete open.back(); open.pop_back(); }
	prop_node r = p.report( 0 ); std::vector< const prop_node* > node( w.size() ); node[ 0 ] = &r.get_child( "main" );
	for ( size_t i = 0; i < w.size(); ++i ) {
		if ( i ) { const prop_node& up = *node[ w[ i ].parent ]; const char* name = names[ w[ i ].name ]; CHECK_MSG( up.count_key( name ) == 1, "a section in its place" ); node[ i ] = &up.get_child( name ); }
		CHECK_MSG( node[ i ]->size() == w[ i ].in.size(), "sections within a section" ); std::string s = node[ i ]->get< std::string >(); CHECK_MSG( field( s, 0 ) == w[ i ].ms, "time of a section" ); if ( i ) CHECK_MSG( field( s, 5 ) == w[ i ].calls, "number of calls" );
	}
	sym_reach( "end" );
}

// share of the total, average time of a call
//@ h_average insts(40000000) quick() thorough()
HARNESS( h_average )
{
	profiler p; p.start( "main" ); const char *A = "a", *B = "b"; int n = sym_pick( "calls", 1, 3 ), in = sym_pick( "inner", 0, 2 ); ll d = 100 * sym_pick( "d", 1, 2 ), a = 0, b = 0; // microseconds
	for ( int i = 0; i < n; ++i ) { xo::scoped_profiler_section s( A, p ); g_clock += d * 1000; a += d; if ( in ) { xo::scoped_profiler_section t( B, p ); g_clock += in * 50000; b += in * 50; } }
	ll total = 8000; g_clock += ( total - a - b ) * 1000; prop_node r = p.report( 0 ); const prop_node& root = r.get_child( "main" ), &pa = root.get_child( "a" );
	// "ms total, % total, ( % own ), calls, ns own per call"
	std::string s = pa.get< std::string >(); ll h = ( a + b ) * 10000 / total, o = a * 10000 / total; CHECK_MSG( field( s, 1 ) * 100 + field( s, 2 ) == h || field( s, 1 ) * 100 + field( s, 2 ) == h + 1, "share of the total" ); CHECK_MSG( field( s, 3 ) * 100 + field( s, 4 ) == o || field( s, 3 ) * 100 + field( s, 4 ) == o + 1, "share without sections within" );
	CHECK_MSG( field( s, 5 ) == n && field( s, 6 ) == a * 1000 / n, "average time of a call, without sections within" );
	if ( in ) { s = sect( pa, "b" ); CHECK_MSG( field( s, 5 ) == n && field( s, 6 ) == in * 50000, "average time of a call" ); }
	p.start(); CHECK_MSG( p.enabled(), "started again" ); prop_node again = p.report( 0 ); CHECK_MSG( again.size() == 1 && again.get_child( size_t( 0 ) ).size() == 0, "only what was measured since" );
	sym_reach( "end" );
}
// what takes a smaller part than asked is not expanded; levels by share
//@ h_expand insts(40000000) quick() thorough()
HARNESS( h_expand )
{
	profiler p; p.start( "main" ); const char *A = "a", *B = "b"; int d = sym_pick( "d", 1, 12 ), min = sym_pick( "minimum", 0, 30 ); { xo::scoped_profiler_section s( A, p ); { xo::scoped_profiler_section t( B, p ); tick( d ); } } tick( 50 - d ); bool tag = sym_pick( "tag", 0, 1 );
	prop_node r = p.report( min, tag ); int perc = 2 * d; std::string k = tag ? "@5main" : "main"; CHECK_MSG( r.size() == 1 && r.get_key( 0 ) == k && r.get_child( k ).size() == 1, "root" ); const prop_node& pa = r.get_child( k ).get_child( size_t( 0 ) ); CHECK_MSG( r.get_child( k ).get_key( 0 ) == ( tag ? "@2a" : "a" ), "a section with nothing of its own" );
	CHECK_MSG( pa.size() == ( perc >= min ), "expanded if it takes the minimum part" ); if ( pa.size() ) CHECK_MSG( pa.get_key( 0 ) == ( !tag ? "b" : perc < 5 ? "@3b" : perc < 15 ? "@4b" : "@5b" ), "level" );
	sym_reach( pa.size() ? "expanded" : "not" );
}
