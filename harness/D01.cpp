// debugging aids: assertions, variables in the log, timed scopes, debug data
#include "sym.h"
#include "xo/system/assert.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/system/benchmark_tools.h"
#include "xo/string/string_tools.h"
#include <vector>
#include <functional>
#include <sstream>
// the definitions of debug_storage.cpp, with names of their own
#include "xo/system/debug_storage.h"
#include "xo/container/storage.h"
#define g_debug_storage_writer test_debug_storage_writer
#define set_debug_output test_set_debug_output
#define write_debug test_write_debug
#include "xo/system/debug_storage.cpp"
#include "xo/filesystem/filesystem.h"
using std::string; using std::vector; using xo::log::level;
static long long g_clock = 3723000000000ll;
extern "C" long long test_clock_now() asm( "_ZNSt6chrono3_V212system_clock3nowEv" );
extern "C" long long test_clock_now() { return g_clock; }

struct test_sink : xo::log::sink { test_sink( level l ) : sink( l, {} ) {} void hande_log_message( level l, const string& s ) override { lev.push_back( l ); got.push_back( s ); } vector< level > lev; vector< string > got; };
static string message( const std::function< void() >& f ) { try { f(); } catch ( std::runtime_error& e ) { return e.what(); } return "-"; }

//@ h_assert quick() thorough()
HARNESS( h_assert )
{
	int v = sym_int( "v" ); int lo = sym_int( "lo" ); int hi = sym_int( "hi" ); string m = sym_str( "message", 2 ); for ( char x : m ) sym_assume( x != 0 ); bool in = v >= lo && v <= hi;
	string a = message( [&]() { xo_range_assert( v, lo, hi ); } ); CHECK_MSG( ( a == "-" ) == in && ( in || a.find( "v" ) != string::npos ), "a value outside of the range is an error" );
	string b = message( [&]() { xo_assert( v == lo ); } ); CHECK_MSG( ( b == "-" ) == ( v == lo ) && ( v == lo || b.find( "v == lo" ) != string::npos ), "a condition that is false is an error, with its text" );
	string c = message( [&]() { xo_assert_msg( v == hi, m ); } ); CHECK_MSG( ( c == "-" ) == ( v == hi ) && ( v == hi || ( c.find( "v == hi" ) != string::npos && c.find( "(" + m + ")" ) != string::npos ) ), "and its message" );
	string d = message( [&]() { xo_error_if( v < hi, m ); } ); CHECK_MSG( d == ( v < hi ? m : "-" ), "error if" );
	string e = message( [&]() { xo_error( m ); } ); CHECK_MSG( e == m, "error" ); string f = message( [&]() { XO_NOT_IMPLEMENTED; } ); CHECK_MSG( f.find( "not implemented" ) != string::npos, "not implemented" );
	sym_reach( in ? "inside" : "outside" );
}

//@ h_variables quick() thorough()
HARNESS( h_variables )
{
	level l = (level)sym_pick( "level", 0, 7 ); test_sink s( l ); int a = sym_pick( "a", -1, 11 ); int calls = 0; string b = "text"; auto call = [&]() { ++calls; }; string as = std::to_string( a );
	int k = sym_pick( "case", 0, 6 ); string w; bool deb = l <= level::debug; size_t n = deb; int c = a / 2; string cs = std::to_string( c );
	switch ( k ) {
	case 0: xo_logvar( a ); w = "a=" + as; break;
	case 1: xo_logvar2( a, b ); w = "a=" + as + "\tb=text"; break;
	case 2: xo_logvar3( a, b, c ); w = "a=" + as + "\tb=text\tc=" + cs; break;
	case 3: xo_logvar4( b, a, c, a ); w = "b=text\ta=" + as + "\tc=" + cs + "\ta=" + as; break;
	case 4: xo_logvar5( a, a, b, c, c ); w = "a=" + as + "\ta=" + as + "\tb=text\tc=" + cs + "\tc=" + cs; break;
	case 5: xo_log_if_different( a, c ); w = "a=" + as + "\tc=" + cs; n = deb && a != c; break;
	case 6: { xo_trace_call( call() ); n = l <= level::trace ? 2 : 0; CHECK_MSG( calls == 1, "called once" ); if ( n ) CHECK_MSG( s.got.size() == 2 && s.got[ 0 ] == "--> call()" && s.got[ 1 ] == "<-- call()" && s.lev[ 0 ] == level::trace, "before and after the call" ); break; }
	}
	CHECK_MSG( s.got.size() == n, "logged if there is a sink for it" ); if ( k < 6 && n ) CHECK_MSG( s.got[ 0 ] == w && s.lev[ 0 ] == level::debug, "names and values" );
	CHECK_MSG( xo_varstr( a ) == "a=" + as && xo_varstr( b ) == "b=text", "name and value" );
	sym_reach( n ? "logged" : "not logged" );
}

static void timed( long long t ) { XO_FUNCTION_TIMER; g_clock += t; }
//@ h_timed quick() thorough()
HARNESS( h_timed )
{
	static const long long t[] = { 0, 1000000, 10000, 1500000, 2250000, 123450000000 }; static const char* w[] = { "0.00ms", "1.00ms", "0.01ms", "1.50ms", "2.25ms", "123450.00ms" }; int k = sym_pick( "time", 0, 5 ); level l = (level)sym_pick( "level", 1, 6 );
	test_sink s( level::trace ); { xo::scope_timer x( "name", l ); g_clock += t[ k ]; CHECK_MSG( s.got.empty(), "at the end of the scope" ); } CHECK_MSG( s.got.size() == 1 && s.lev[ 0 ] == l && s.got[ 0 ] == string( "name took " ) + w[ k ], "time of the scope" );
	timed( t[ k ] ); CHECK_MSG( s.got.size() == 2 && s.lev[ 1 ] == level::info && s.got[ 1 ] == string( "timed took " ) + w[ k ], "time of a function" );
	sym_reach( "end" );
}

// values are collected in rows: a new row starts when a label comes again
//@ h_data quick(n=4) thorough(n=6)
HARNESS( h_data )
{
	static const char* names[] = { "a", "b", "c" }; int n = sym_pick( "n", 0, (int)sym_param( "n", 4 ) ); vector< string > labels; vector< vector< string > > rows; bool other = sym_pick( "file", 0, 1 );
	{
		xo::auto_storage_writer< float, string > w( "first.txt" ); if ( other ) w.filename_ = "second.txt";
		for ( int i = 0; i < n; ++i ) {
			size_t l = (size_t)sym_pick( "label", 0, 2 ); int v = sym_pick( "value", 0, 1 ) * 7 + i; w.write( names[ l ], float( v ) ); size_t c = 0; while ( c < labels.size() && labels[ c ] != names[ l ] ) ++c;
			if ( c == labels.size() ) labels.push_back( names[ l ] ); if ( rows.empty() || ( c < rows.back().size() && !rows.back()[ c ].empty() ) ) rows.push_back( {} ); if ( rows.back().size() <= c ) rows.back().resize( c + 1 ); rows.back()[ c ] = std::to_string( v );
		}
		CHECK_MSG( !xo::file_exists( "first.txt" ) && !xo::file_exists( "second.txt" ), "written at the end" );
	}
	string f = other ? "second.txt" : "first.txt"; CHECK_MSG( xo::file_exists( f ) == ( n > 0 ) && !xo::file_exists( other ? "first.txt" : "second.txt" ), "a file is written if there is data" );
	if ( n ) {
		vector< vector< string > > got; std::istringstream str( xo::load_string( f ) ); string line; while ( std::getline( str, line ) ) { got.emplace_back(); std::istringstream ls( line ); string t; while ( ls >> t ) got.back().push_back( t ); }
		CHECK_MSG( got.size() == rows.size() + 1 && got[ 0 ] == labels, "labels and rows" );
		for ( size_t r = 0; r < rows.size(); ++r ) { CHECK_MSG( got[ r + 1 ].size() == labels.size(), "a value for every label" ); for ( size_t c = 0; c < rows[ r ].size(); ++c ) if ( !rows[ r ][ c ].empty() ) CHECK_MSG( got[ r + 1 ][ c ] == rows[ r ][ c ], "the value" ); }
	}
	sym_reach( n ? "data" : "no data" );
}
