// test cases: every failure and every exception is counted and reported, and nothing else
#include "sym.h"
#include "xo/system/test_case.h"
#include "xo/system/log_sink.h"
#include "xo/system/log.h"
#include <stdexcept>
#include <vector>
#include <thread>
#include <system_error>
#ifndef SYM_NATIVE // one thread: no other can be started, so that std::async runs a test when its result is wanted
namespace std { void thread::_M_start_thread( _State_ptr, void (*)() ) { throw std::system_error( std::make_error_code( std::errc::resource_unavailable_try_again ) ); } }
#include <future>
namespace std { __thread void* __once_callable; __thread void ( *__once_call )(); extern "C" void __once_proxy() { __once_call(); } __future_base::_Result_base::_Result_base() = default; __future_base::_Result_base::~_Result_base() = default; thread::_State::~_State() = default; }
extern "C" int pthread_once( pthread_once_t* o, void ( *f )() ) { if ( *o == 0 ) { *o = 2; f(); } return 0; }
extern "C" int64_t fake_clock() asm( "_ZNSt6chrono3_V212system_clock3nowEv" ); extern "C" int64_t fake_clock() { static int64_t t = 0; return t += 1000000; }
#endif
using std::string; using namespace xo::test; using xo::log::level;

struct test_sink : xo::log::sink { test_sink() : sink( level::info, {} ) {} void hande_log_message( level l, const string& s ) override { if ( l >= level::error ) { ++errors; text += s + "\n"; } else if ( s.find( "PASSED" ) == 0 ) ++passed; } int errors = 0, passed = 0; string text; };
struct plan { int checks; bool ok[ 3 ]; int end; bool threw() const { return end == 1 || end == 3; } }; // end: 0 returns, 1 throws, 2 throws within a check, 3 throws without a message
static plan any_plan( int n ) { plan p; p.checks = sym_pick( "checks", 0, n ); for ( int i = 0; i < 3; ++i ) p.ok[ i ] = i < p.checks ? sym_bool( "ok" ) : true; p.end = sym_pick( "end", 0, 2 ); return p; }
static bool thrower() { throw std::runtime_error( "in a check" ); }
static void play( const plan& p, test_case& XO_ACTIVE_TEST_CASE )
{
	for ( int i = 0; i < p.checks; ++i ) if ( i & 1 ) { XO_CHECK_MESSAGE( p.ok[ i ], "message" ); } else { XO_CHECK( p.ok[ i ] ); }
	if ( p.end == 2 ) { XO_CHECK( thrower() ); }
	if ( p.end == 1 ) throw std::runtime_error( "outside" ); if ( p.end == 3 ) throw std::runtime_error( "" );
}
static int failures( const plan& p ) { int n = p.end == 2; for ( int i = 0; i < p.checks; ++i ) n += !p.ok[ i ]; return n; }

//@ h_case quick(n=3) thorough(n=3)
HARNESS( h_case )
{
	plan p = any_plan( (int)sym_param( "n", 3 ) ); test_sink s; test_case t( "name", [&]( test_case& c ) { play( p, c ); } ); const test_result& r = t.run(); int f = failures( p ), n = p.checks + ( p.end == 2 );
	CHECK_MSG( r.checks_ == n && r.failed_ == f && r.passed_ == n - f, "number of checks, passed and failed" );
	CHECK_MSG( r.success() == ( f == 0 && !p.threw() ) && r.error_ == ( p.end == 1 ? "outside" : "" ), "success only without failures and exceptions" );
	CHECK_MSG( ( s.errors > 0 ) == !r.success() && s.passed == ( r.success() && n > 0 ), "failures are logged" ); if ( p.end == 2 ) CHECK_MSG( s.text.find( "in a check" ) != string::npos, "message of the exception" ); if ( p.end == 1 ) CHECK_MSG( s.text.find( "outside" ) != string::npos, "message of the exception" );
	if ( p.checks > 0 && !p.ok[ 0 ] ) CHECK_MSG( s.text.find( "p.ok[ i ]" ) != string::npos, "the text of the check" );
	CHECK_MSG( t.name() == "name", "name" ); sym_reach( r.success() ? "passed" : "failed" );
}

//@ h_empty known(test-exception-without-message) quick() thorough()
HARNESS( h_empty )
{
	plan p; p.checks = sym_pick( "checks", 0, 1 ); p.ok[ 0 ] = true; p.end = 3; test_case t( "name", [&]( test_case& c ) { play( p, c ); } ); CHECK_MSG( !t.run().success(), "a test case that ends with an exception without message is not a success" );
	sym_reach( "end" );
}

//@ h_check quick() thorough()
HARNESS( h_check )
{
	test_sink s; test_case t( "name", []( test_case& ) {} ); bool ok = sym_bool( "ok" ); string m = sym_str( "message", 2 ); bool r = t.check( ok, m ); CHECK_MSG( r == ok && s.errors == !ok, "result" ); if ( !ok ) CHECK_MSG( s.text.find( "name (" + m + ")" ) != string::npos, "name and message" );
	const test_result& x = t.run(); CHECK_MSG( x.checks_ == 1 && x.failed_ == !ok && x.success() == ok, "counted" ); sym_reach( ok ? "ok" : "failed" );
}

// the number of tests that failed, of all tests that were added
//@ h_all quick(n=1) thorough(n=2)
HARNESS( h_all )
{
	plan p[ 3 ]; int k = sym_pick( "tests", 0, 3 ), ran[ 3 ] = {}, failed = 0; test_sink s; 
	for ( int i = 0; i < k; ++i ) { p[ i ] = any_plan( (int)sym_param( "n", 1 ) ); failed += failures( p[ i ] ) > 0 || p[ i ].threw(); size_t idx = add_test_case( "t" + std::to_string( i ), [&, i]( test_case& c ) { ++ran[ i ]; play( p[ i ], c ); } ); CHECK_MSG( idx == size_t( i ) + 1, "added" ); }
	int r = sym_pick( "async", 0, 1 ) ? run_tests_async() : run_tests(); CHECK_MSG( r == failed, "number of tests that failed" ); for ( int i = 0; i < k; ++i ) CHECK_MSG( ran[ i ] == 1, "every test runs once" ); CHECK_MSG( ( s.errors > 0 ) == ( failed > 0 ), "reported" );
	sym_reach( failed ? "failed" : "passed" );
}

//@ h_sum quick() thorough()
HARNESS( h_sum )
{
	auto any = [&]( test_result& r ) { r.checks_ = sym_int( "checks", 0, 1000 ); r.passed_ = sym_int( "passed", 0, 1000 ); r.failed_ = sym_int( "failed", 0, 1000 ); r.error_ = sym_str( "error", 1 ); }; test_result a, b; any( a ); any( b ); test_result c = a; test_result* x = &( c += b );
	CHECK_MSG( x == &c && c.checks_ == a.checks_ + b.checks_ && c.passed_ == a.passed_ + b.passed_ && c.failed_ == a.failed_ + b.failed_, "summed" ); CHECK_MSG( c.success() == ( a.success() && b.success() ), "success only if both are" );
	sym_reach( c.success() ? "success" : "failure" );
}
