// log messages reach exactly the sinks that accept them
#include "sym.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/system/error_code.h"
#include "xo/filesystem/filesystem.h"
#include <sstream>
#include <iostream>
#include <fstream>
#include <memory>
#include <vector>
#include <cstdarg>
using std::string; using std::vector; using xo::log::level; using xo::log::sink; using xo::log::sink_mode;

static long long g_clock = 3723000000000ll; // 01:02:03
extern "C" long long test_clock_now() asm( "_ZNSt6chrono3_V212system_clock3nowEv" );
extern "C" long long test_clock_now() { return g_clock; }
static unsigned long g_thread = 1;
extern "C" unsigned long test_self() asm( "pthread_self" );
extern "C" __attribute__((noinline)) unsigned long test_self() { return g_thread; }

struct record { level l; string s; };
struct test_sink : sink
{
	test_sink( level l, sink_mode m = sink_mode::all_threads ) : sink( l, {}, m ) {}
	void hande_log_message( level l, const string& s ) override { got.push_back( { l, s } ); }
	void flush() override { ++flushed; }
	vector<record> got; int flushed = 0;
};
static level any_level( const char* n ) { return (level)sym_int( n, 0, 7 ); }
static level msg_level( const char* n ) { return (level)sym_int( n, 1, 6 ); }
static void say( level l, const string& s ) {
	switch ( l ) { case level::trace: xo::log::trace( s ); break; case level::debug: xo::log::debug( s ); break; case level::info: xo::log::info( s ); break; case level::warning: xo::log::warning( s ); break; case level::error: xo::log::error( s ); break; default: xo::log::critical( s ); }
}
static void sayf( level l, const char* f, int a, const char* b ) {
	switch ( l ) { case level::trace: xo::log::tracef( f, a, b ); break; case level::debug: xo::log::debugf( f, a, b ); break; case level::info: xo::log::infof( f, a, b ); break; case level::warning: xo::log::warningf( f, a, b ); break; case level::error: xo::log::errorf( f, a, b ); break; default: xo::log::criticalf( f, a, b ); }
}

// sinks come and go and change their level; messages go to those that are there and accept the level
//@ h_history quick(n=3) thorough(n=4)
HARNESS( h_history )
{
	std::unique_ptr<test_sink> s[ 2 ]; bool exists[ 2 ] = { false, false }, added[ 2 ] = { false, false }; level lv[ 2 ] = { level::never, level::never }; int n = (int)sym_param( "n", 3 );
	for ( int i = 0; i < n; ++i ) {
		int k = sym_pick( "sink", 0, 1 );
		if ( !exists[ k ] ) { lv[ k ] = any_level( "level" ); s[ k ].reset( new test_sink( lv[ k ] ) ); exists[ k ] = added[ k ] = true; }
		else switch ( sym_pick( "operation", 0, 3 ) ) {
		case 0: lv[ k ] = any_level( "level" ); s[ k ]->set_log_level( lv[ k ] ); break;
		case 1: xo::log::remove_sink( s[ k ].get() ); added[ k ] = false; break;
		case 2: xo::log::add_sink( s[ k ].get() ); added[ k ] = true; break;
		case 3: s[ k ].reset(); exists[ k ] = added[ k ] = false; break;
		}
	}
	level l = msg_level( "message level" ); bool want[ 2 ], any = false;
	for ( int k = 0; k < 2; ++k ) { want[ k ] = added[ k ] && l >= lv[ k ]; any |= want[ k ]; if ( exists[ k ] ) CHECK_MSG( s[ k ]->get_log_level() == lv[ k ] && s[ k ]->test_log_level( l ) == ( l >= lv[ k ] ), "level of the sink" ); }
	CHECK_MSG( xo::log::test_log_level( l ) == any, "a level is enabled when one of the sinks accepts it" );
	say( l, "text" );
	for ( int k = 0; k < 2; ++k ) if ( exists[ k ] ) {
		CHECK_MSG( s[ k ]->got.size() == ( want[ k ] ? 1u : 0u ), "once to the sinks that accept the level, not to others" );
		if ( want[ k ] ) CHECK_MSG( s[ k ]->got[ 0 ].l == l && s[ k ]->got[ 0 ].s == "text", "level and text" );
		if ( added[ k ] ) CHECK_MSG( ( s[ k ]->flushed > 0 ) == ( l >= level::error ), "errors are flushed" ); else CHECK_MSG( s[ k ]->flushed == 0, "removed sinks are not flushed" );
	}
	sym_reach( any ? "logged" : "ignored" );
}

// all ways to log give the level and the text of all arguments
//@ h_ways quick(n=2) thorough(n=3)
HARNESS( h_ways )
{
	level sl = any_level( "sink level" ), l = msg_level( "level" ); test_sink s( sl ); string t = sym_str( "text", (size_t)sym_param( "n", 2 ) ); int v = sym_int( "v", -9, 99 ); bool on = l >= sl; string want;
	for ( char c : t ) sym_assume( c != 0 );
	switch ( sym_pick( "way", 0, 6 ) ) {
	case 0: say( l, t ); want = t; break;
	case 1: sayf( l, "%d:%s|", v, t.c_str() ); want = std::to_string( v ) + ":" + t + "|"; break;
	case 2: xo::log::message( l, "a=", v, " ", t ); want = "a=" + std::to_string( v ) + " " + t; break;
	case 5: { string u( (size_t)sym_pick( "size", 1022, 1025 ), 'y' ); xo::log::messagef( l, "%s", u.c_str() ); want = u; break; }
	case 3: xo::log::messagef( l, "%s,%d", t.c_str(), v ); want = t + "," + std::to_string( v ); break;
	case 4: xo::log::log_string( l, t ); want = t; break;
	default: { auto f = []( level x, const char* fm, ... ) { va_list a; va_start( a, fm ); xo::log::log_vstring( x, fm, a ); va_end( a ); }; f( l, "%s%%", t.c_str() ); want = t + "%"; }
	}
	CHECK_MSG( s.got.size() == ( on ? 1u : 0u ), "once, if the level is accepted" ); if ( on ) CHECK_MSG( s.got[ 0 ].l == l && s.got[ 0 ].s == want, "text of all arguments" );
	if ( on ) CHECK_MSG( ( s.flushed > 0 ) == ( l >= level::error ), "flushed when it is an error" );
	sym_reach( on ? "logged" : "ignored" );
}

// long messages are complete
//@ h_long insts(80000000) quick() thorough()
HARNESS( h_long )
{
	int n = sym_pick( "n", 1021, 1026 ); test_sink s( level::info ); string t( (size_t)n, 'x' ); t[ 0 ] = sym<char>( "c" ); sym_assume( t[ 0 ] != 0 ); bool f = sym_bool( "formatted" );
	if ( f ) xo::log::infof( "%s", t.c_str() ); else xo::log::info( t );
	CHECK_MSG( s.got.size() == 1 && s.got[ 0 ].s == t, "text" ); sym_reach( "end" );
}

// a sink for one thread only gets messages of that thread
//@ h_thread quick() thorough()
HARNESS( h_thread )
{
	unsigned a = 1 + sym<unsigned char>( "thread of the sink" ), b = 1 + sym<unsigned char>( "thread of the message" ), c = 1 + sym<unsigned char>( "other" );
	level l = any_level( "sink level" ), m = msg_level( "level" ); g_thread = a; bool one = sym_bool( "current thread" );
	test_sink s( l, one ? sink_mode::current_thread : sink_mode::all_threads ); int change = sym_pick( "change", 0, 2 );
	if ( change ) { g_thread = c; one = change == 1; s.set_sink_mode( one ? sink_mode::current_thread : sink_mode::all_threads ); a = c; }
	g_thread = b; bool want = m >= l && ( !one || a == b );
	CHECK_MSG( s.test_log_level( m ) == want && xo::log::test_log_level( m ) == want, "accepted" );
	say( m, "x" ); CHECK_MSG( s.got.size() == ( want ? 1u : 0u ), "only from the thread of the sink" );
	sym_reach( want ? "logged" : "ignored" );
}

// streams and files get one line per message, after the time
//@ h_stream quick(n=2) thorough(n=3)
HARNESS( h_stream )
{
	string t = sym_str( "text", (size_t)sym_param( "n", 2 ) ), u = sym_str( "second", 1 ); level l = any_level( "sink level" ), m = msg_level( "level" ); int kind = sym_pick( "kind", 0, 2 ); string got, want;
	for ( auto* x : { &t, &u } ) if ( m >= l ) want += "01:02:03 " + *x + "\n";
	if ( kind == 0 ) { std::ostringstream os; { xo::log::stream_sink s( os, l ); say( m, t ); say( m, u ); } say( m, "after" ); got = os.str(); }
	else { xo::path p( kind == 1 ? "log.txt" : "d/e/log.txt" ); { xo::log::file_sink s( p, l ); say( m, t ); say( m, u ); CHECK_MSG( s.file_stream().good(), "file is open" ); } say( m, "after" ); got = xo::load_string( p ); }
	CHECK_MSG( got == want, "every message is a line after the time" );
	sym_reach( m >= l ? "logged" : "ignored" );
}

// the console gets every line of a message after the prefix
//@ h_console quick(n=3) thorough(n=5)
HARNESS( h_console )
{
	string t = sym_str_of( "text", (size_t)sym_pick( "length", 0, (int)sym_param( "n", 3 ) ), "a%\n\r" ); level m = msg_level( "level" ); bool time = sym_bool( "time" ), lev = sym_bool( "show level" );
	std::stringbuf b; auto* old = std::cout.rdbuf( &b ); string want, line; const char* names[] = { "", "TRC", "DBG", "INF", "WRN", "ERR", "CRT" };
	string prefix; if ( time ) prefix += "01:02:03 "; if ( lev ) prefix += string( names[ (int)m ] ) + " ";
	for ( char c : t + "\n" ) if ( c == '\n' || c == '\r' ) { if ( !line.empty() ) want += prefix + line + "\n"; line.clear(); } else line += c;
	{ xo::log::console_sink s( level::trace ); s.format().set<xo::log::format::show_time>( time ); s.format().set<xo::log::format::show_level>( lev ); say( m, t ); }
	std::cout.rdbuf( old ); CHECK_MSG( b.str() == want, "lines" );
	sym_reach( want.empty() ? "empty" : "lines" );
}

// an error is logged, and set if there is an error code, thrown otherwise
//@ h_error quick(n=3) thorough(n=4)
HARNESS( h_error )
{
	string t = sym_str( "text", (size_t)sym_param( "n", 3 ) ); for ( char c : t ) sym_assume( c != 0 ); test_sink s( level::error ); xo::error_code ec; bool have = sym_bool( "error code" ), tr = sym_bool( "try" ), thrown = false; string what;
	CHECK_MSG( ec.good() && !ec.bad() && ec.code() == 0, "good at first" );
	try { if ( tr ) { bool r = xo::try_set_error( have ? &ec : nullptr, t ); CHECK_MSG( r == have, "whether it was set" ); } else xo::set_error_or_throw( have ? &ec : nullptr, t ); } catch ( std::exception& e ) { thrown = true; what = e.what(); }
	CHECK_MSG( s.got.size() == 1 && s.got[ 0 ].l == level::error && s.got[ 0 ].s == t, "logged" );
	CHECK_MSG( thrown == ( !have && !tr ), "thrown when there is no error code" ); if ( thrown ) CHECK_MSG( what == t, "message of the exception" );
	CHECK_MSG( ec.bad() == have && ec.good() == !have && ec.message() == ( have ? t : "" ), "error code" );
	int code = sym_int( "code" ); ec.set( code, t ); CHECK_MSG( ec.code() == code && ec.bad() == ( code != 0 ) && ec.message() == t, "set" );
	sym_reach( thrown ? "thrown" : "set" );
}
