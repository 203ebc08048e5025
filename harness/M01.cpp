// two threads: the second one runs at any point where the first acquires or releases a lock, or calls back
#include "sym.h"
#include "xo/utility/memoize.h"
#include "xo/utility/file_resource_cache.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/filesystem/filesystem.h"
#include <pthread.h>
#include <functional>
#include <memory>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <vector>
using std::string; using std::vector; using xo::log::level;

// ---- threads and locks
static int g_thread = 0; static bool g_ran = true; static std::function<void()>* g_other = nullptr; static bool g_blocked = false;
struct lock_state { void* m; int readers[ 2 ]; int writer; };
static lock_state g_locks[ 16 ]; static int g_nlocks = 0;
static lock_state& lock_of( void* m ) { for ( int i = 0; i < g_nlocks; ++i ) if ( g_locks[ i ].m == m ) return g_locks[ i ]; sym_assume( g_nlocks < 16 ); g_locks[ g_nlocks ] = { m, { 0, 0 }, -1 }; return g_locks[ g_nlocks++ ]; }
// the second thread may run here, until it is done
static void point()
{
	if ( g_thread || g_ran || !g_other ) return;
	if ( !sym_pick( "switch", 0, 1 ) ) return;
	g_ran = true; g_thread = 1; ( *g_other )(); g_thread = 0;
}
static int acquire( void* m, bool excl )
{
	point(); lock_state& l = lock_of( m ); int me = g_thread, other = 1 - me;
	CHECK_MSG( l.writer != me && l.readers[ me ] == 0, "a thread does not wait for a lock that it has" );
	bool blocked = l.writer == other || ( excl && l.readers[ other ] );
	sym_assume( !blocked ); // the second thread would wait here: it does not run to its end in this schedule
	if ( excl ) l.writer = me; else ++l.readers[ me ]; return 0;
}
static int release( void* m )
{
	lock_state& l = lock_of( m ); int me = g_thread; CHECK_MSG( l.writer == me || l.readers[ me ] > 0, "only a lock that is held is released" );
	if ( l.writer == me ) l.writer = -1; else --l.readers[ me ];
	point(); return 0;
}
static bool holds( bool excl ) { for ( int i = 0; i < g_nlocks; ++i ) if ( g_locks[ i ].writer == g_thread || ( !excl && g_locks[ i ].readers[ g_thread ] ) ) return true; return false; }
static void threads_begin( std::function<void()>& second ) { g_other = &second; g_ran = false; }
// runs the second thread if it did not run yet
static void threads_end() { if ( !g_ran ) { g_ran = true; g_thread = 1; ( *g_other )(); g_thread = 0; } g_other = nullptr; for ( int i = 0; i < g_nlocks; ++i ) CHECK_MSG( g_locks[ i ].writer == -1 && !g_locks[ i ].readers[ 0 ] && !g_locks[ i ].readers[ 1 ], "all locks are released" ); }
extern "C" {
	__attribute__((noinline)) int pthread_rwlock_rdlock( pthread_rwlock_t* m ) noexcept { return acquire( m, false ); }
	__attribute__((noinline)) int pthread_rwlock_wrlock( pthread_rwlock_t* m ) noexcept { return acquire( m, true ); }
	__attribute__((noinline)) int pthread_rwlock_unlock( pthread_rwlock_t* m ) noexcept { return release( m ); }
	__attribute__((noinline)) int pthread_mutex_lock( pthread_mutex_t* m ) noexcept { return g_other ? acquire( m, true ) : 0; }
	__attribute__((noinline)) int pthread_mutex_unlock( pthread_mutex_t* m ) noexcept { return g_other ? release( m ) : 0; }
}
extern "C" unsigned long test_self() asm( "pthread_self" );
extern "C" __attribute__((noinline)) unsigned long test_self() { return 1ul + (unsigned long)g_thread; }

//@ h_memoize quick(a=2,b=1) thorough(a=2,b=2)
HARNESS( h_memoize )
{
	int na = (int)sym_param( "a", 2 ), nb = (int)sym_param( "b", 1 ), x[ 4 ], calls[ 2 ] = {}, active = 0, result[ 4 ] = {}, bad = sym_pick( "throws for", -1, 1 ), secret = sym_int( "secret" ); bool thrown[ 4 ] = {};
	for ( int i = 0; i < na + nb; ++i ) x[ i ] = sym_pick( "x", 0, 1 ); const int* ref[ 4 ] = {};
	{
		xo::memoize_thread_safe< int( int ) > f( [&]( int v ) { CHECK_MSG( active == 0, "one call at a time" ); ++active; ++calls[ v ]; int n = secret ^ v; point(); --active; if ( v == bad ) throw std::runtime_error( "x" ); return n; } );
		auto call = [&]( int i ) { try { ref[ i ] = &f( x[ i ] ); result[ i ] = *ref[ i ]; } catch ( std::exception& ) { thrown[ i ] = true; } };
		std::function<void()> second = [&] { for ( int i = na; i < na + nb; ++i ) call( i ); size_t s = f.size(); CHECK_MSG( s <= 2, "size" ); };
		threads_begin( second ); for ( int i = 0; i < na; ++i ) call( i ); threads_end();
		int asked[ 2 ] = {}; for ( int i = 0; i < na + nb; ++i ) ++asked[ x[ i ] ];
		for ( int v = 0; v < 2; ++v ) CHECK_MSG( calls[ v ] == ( v == bad ? asked[ v ] : asked[ v ] ? 1 : 0 ), "every argument is calculated once, whichever thread is first" );
		for ( int i = 0; i < na + nb; ++i ) { CHECK_MSG( thrown[ i ] == ( x[ i ] == bad ), "exceptions reach the caller" ); if ( !thrown[ i ] ) CHECK_MSG( result[ i ] == ( secret ^ x[ i ] ) && *ref[ i ] == result[ i ], "result, that stays where it is" ); }
		CHECK_MSG( f.size() == size_t( ( asked[ 0 ] && bad != 0 ) + ( asked[ 1 ] && bad != 1 ) ), "size" );
	}
	sym_reach( "end" );
}

// ---- cache of files
struct file { int k; friend bool operator<( const file& a, const file& b ) { return a.k < b.k; } };
static int g_text[ 2 ]; static long g_ftime[ 2 ], g_now = 1000;
static bool file_exists( const file& ) { return true; }
static std::time_t last_write_time( const file& f ) { return g_ftime[ f.k ]; }
static string to_str( const file& ) { return "f"; }
extern "C" long test_time( long* ) asm( "time" );
extern "C" __attribute__((noinline)) long test_time( long* p ) { if ( p ) *p = g_now; return g_now; }

//@ h_cache quick(n=1) thorough(n=2)
HARNESS( h_cache )
{
	int n = (int)sym_param( "n", 1 ), made[ 2 ] = {}, active = 0, copying = 0; g_text[ 0 ] = sym_int( "text a" ); g_text[ 1 ] = sym_int( "text b" );
	bool broken = false; int fail = sym_pick( "fails", 0, 1 );
	xo::file_resource_cache< int, file > c( [&]( const file& f ) { CHECK_MSG( active == 0 && copying == 0, "nothing is made while something is made or copied" ); ++active; int v = g_text[ f.k ]; point(); --active; if ( broken ) throw std::runtime_error( "x" ); ++made[ f.k ]; return new int( v ); },
		[&]( const int& v ) { CHECK_MSG( active == 0, "nothing is copied while something is made" ); ++copying; point(); --copying; return new int( v ); } );
	bool before = sym_pick( "cached before", 0, 1 ), changed = before && sym_pick( "changed", 0, 1 ); if ( before ) { auto r = c( file{ 0 } ); CHECK_MSG( *r == g_text[ 0 ], "first" ); g_now += 10; }
	if ( changed ) { g_text[ 0 ] = sym_int( "new text" ); ++g_ftime[ 0 ]; broken = fail; } int m0 = made[ 0 ]; int ta[ 2 ], tb[ 2 ]; bool xa[ 2 ] = {}, xb[ 2 ] = {}; int old = g_text[ 0 ]; (void)old;
	int fa[ 2 ], fb[ 2 ]; for ( int i = 0; i < n; ++i ) { fa[ i ] = sym_pick( "file of first", 0, 1 ); fb[ i ] = sym_pick( "file of second", 0, 1 ); } if ( broken ) for ( int i = 0; i < n; ++i ) sym_assume( fa[ i ] == 0 && fb[ i ] == 0 );
	auto get = [&]( int f, int& t, bool& x ) { try { t = *c( file{ f } ); } catch ( std::exception& ) { x = true; } };
	std::function<void()> second = [&] { for ( int i = 0; i < n; ++i ) get( fb[ i ], tb[ i ], xb[ i ] ); };
	threads_begin( second ); for ( int i = 0; i < n; ++i ) get( fa[ i ], ta[ i ], xa[ i ] ); threads_end();
	bool useda = false, usedb = false; for ( int i = 0; i < n; ++i ) { useda |= fa[ i ] == 0 || fb[ i ] == 0; usedb |= fa[ i ] == 1 || fb[ i ] == 1; }
	if ( !broken ) {
		for ( int i = 0; i < n; ++i ) CHECK_MSG( !xa[ i ] && !xb[ i ] && ta[ i ] == g_text[ fa[ i ] ] && tb[ i ] == g_text[ fb[ i ] ], "both threads get the content of the file" );
		CHECK_MSG( made[ 0 ] - m0 == ( useda && ( !before || changed ) ? 1 : 0 ) && made[ 1 ] == usedb, "made once, whichever thread is first" );
	}
	else CHECK_MSG( xa[ 0 ] || xb[ 0 ], "failure is reported" );
	sym_reach( broken ? "broken" : "good" );
}

// ---- log
struct test_sink : xo::log::sink
{
	test_sink( level l ) : sink( l, {} ) {}
	~test_sink() { xo::log::remove_sink( this ); }
	void hande_log_message( level l, const string& s ) override { CHECK_MSG( alive == 1, "no messages to a sink that was removed" ); point(); got.push_back( s ); }
	void flush() override { CHECK_MSG( alive == 1, "no messages to a sink that was removed" ); ++flushed; }
	vector<string> got; int flushed = 0; int alive = 1;
};
static bool has( const vector<string>& v, const string& s ) { int n = 0; for ( auto& x : v ) n += x == s; CHECK_MSG( n <= 1, "once" ); return n == 1; }

//@ h_log quick() thorough()
HARNESS( h_log )
{
	level la = (level)sym_int( "level of the message", 1, 6 ), lb = (level)sym_int( "level of the other", 1, 6 ), ls = (level)sym_int( "level", 1, 6 ); test_sink s( ls ); std::unique_ptr< test_sink > t( new test_sink( level::info ) ), u;
	int op = sym_pick( "other thread", 0, 5 ); level nl = (level)sym_int( "new level", 1, 6 ); bool late = false;
	std::function<void()> second = [&] { switch ( op ) {
		case 0: xo::log::message( lb, "b" ); break;
		case 1: t.reset(); break;
		case 2: xo::log::remove_sink( t.get() ); t->alive = 0; break;
		case 3: u.reset( new test_sink( level::trace ) ); break;
		case 4: s.set_log_level( nl ); break;
		case 5: xo::log::flush(); late = xo::log::test_log_level( level::critical ); CHECK_MSG( late, "a sink accepts critical messages" ); break;
		} };
	threads_begin( second ); xo::log::message( la, "a" ); threads_end();
	bool a = has( s.got, "a" ); if ( op != 4 ) CHECK_MSG( a == ( la >= ls ), "a sink that accepts the level gets the message" ); else { if ( la >= ls && la >= nl ) CHECK_MSG( a, "accepted by both levels" ); if ( la < ls && la < nl ) CHECK_MSG( !a, "accepted by none" ); }
	if ( op == 0 ) { CHECK_MSG( has( s.got, "b" ) == ( lb >= ls ) && s.got.size() == size_t( a ) + ( lb >= ls ), "the other message" ); CHECK_MSG( has( t->got, "a" ) == ( la >= level::info ) && has( t->got, "b" ) == ( lb >= level::info ), "the other sink" ); }
	if ( op > 2 ) CHECK_MSG( has( t->got, "a" ) == ( la >= level::info ), "the other sink" );
	xo::log::critical( "end" ); CHECK_MSG( s.got.back() == "end", "afterwards" ); if ( u ) CHECK_MSG( u->got.back() == "end", "a sink that was added gets what follows" ); if ( op == 2 ) CHECK_MSG( t->got.empty() || t->got.back() != "end", "a sink that was removed does not" );
	t.reset(); u.reset(); sym_reach( "end" );
}

// a stream of which every write is a point where the other thread can run
struct slow_buf : std::streambuf
{
	string s; bool gone = false;
	std::streamsize xsputn( const char* c, std::streamsize n ) override { CHECK_MSG( !gone, "not written after it was released" ); point(); s.append( c, (size_t)n ); return n; }
	int_type overflow( int_type c ) override { CHECK_MSG( !gone, "not written after it was released" ); point(); s += (char)c; return c; }
};
static long long g_clock = 3723000000000ll; // 01:02:03
extern "C" long long test_clock_now() asm( "_ZNSt6chrono3_V212system_clock3nowEv" );
extern "C" long long test_clock_now() { return g_clock; }

// lines of two threads are not mixed
//@ h_lines quick(n=1) thorough(n=2)
HARNESS( h_lines )
{
	string a = sym_str_of( "first", (size_t)sym_param( "n", 1 ), "ab" ), b = sym_str_of( "second", (size_t)sym_param( "n", 1 ), "cd" ); bool console = sym_pick( "console", 0, 1 ), two = sym_pick( "two lines", 0, 1 ) && console; slow_buf buf;
	string m = two ? a + "\n" + a : a, ta = console ? two ? a + "\n" + a + "\n" : a + "\n" : "01:02:03 " + a + "\n", tb = ( console ? "" : "01:02:03 " ) + b + "\n";
	std::streambuf* old = nullptr;
	{
		std::ostream os( &buf ); std::unique_ptr< xo::log::sink > s; if ( console ) { old = std::cout.rdbuf( &buf ); s.reset( new xo::log::console_sink( level::info ) ); s->format().set<xo::log::format::show_time>( false ); s->format().set<xo::log::format::show_level>( false ); } else s.reset( new xo::log::stream_sink( os, level::info ) );
		std::function<void()> second = [&] { xo::log::info( b ); };
		threads_begin( second ); xo::log::info( m ); threads_end();
		s.reset(); if ( old ) std::cout.rdbuf( old );
	}
	CHECK_MSG( buf.s == ta + tb || buf.s == tb + ta, "lines are written as a whole, one after the other" );
	sym_reach( buf.s == ta + tb ? "first" : "second" );
}

// a sink is released while the other thread logs
//@ h_release quick() thorough()
HARNESS( h_release )
{
	slow_buf buf; std::ostream os( &buf ); int kind = sym_pick( "kind", 0, 1 ); std::unique_ptr< xo::log::sink > s; xo::path p( "log.txt" );
	if ( kind == 0 ) s.reset( new xo::log::stream_sink( os, level::info ) ); else s.reset( new xo::log::file_sink( p, level::info ) );
	std::function<void()> second = [&] { xo::log::info( "b" ); };
	threads_begin( second ); s.reset(); threads_end(); string t = kind ? xo::load_string( p ) : buf.s;
	CHECK_MSG( t.empty() || t == "01:02:03 b\n", "written before it was released, or not at all" );
	sym_reach( t.empty() ? "not" : "written" );
}

// a sink is made while the other thread logs
//@ h_construct quick() thorough()
HARNESS( h_construct )
{
	slow_buf buf; std::ostream os( &buf ); int kind = sym_pick( "kind", 0, 2 ); std::unique_ptr< xo::log::sink > s; xo::path p( "log.txt" ); level l = (level)sym_int( "level", 3, 6 ); std::streambuf* old = nullptr;
	std::function<void()> second = [&] { xo::log::message( l, "b" ); };
	threads_begin( second ); if ( kind == 0 ) s.reset( new xo::log::stream_sink( os, level::info ) ); else if ( kind == 1 ) s.reset( new xo::log::file_sink( p, level::info ) ); else { old = std::cout.rdbuf( &buf ); s.reset( new xo::log::console_sink( level::info ) ); s->format().set<xo::log::format::show_time>( true ); } 
	bool before = g_ran; threads_end(); CHECK_MSG( s->get_log_level() == level::info, "level" ); s.reset(); if ( old ) std::cout.rdbuf( old ); string t = kind == 1 ? xo::load_string( p ) : buf.s, want = "01:02:03 b\n";
	CHECK_MSG( kind == 2 || t == want || ( before && t.empty() ), "written after it was made, or not at all" ); CHECK_MSG( kind != 2 || ( before && t.empty() ) || t.substr( t.size() - 2 ) == "b\n", "written after it was made, or not at all" );
	sym_reach( t.empty() ? "not" : "written" );
}
