// cache of resources that are made from files
#include "sym.h"
#include "xo/utility/file_resource_cache.h"
#include <string>
#include <memory>
#include <stdexcept>
#include <ctime>
using std::string;

// two files, of which the content, the time of the last change and the existence can change
struct file { int k; friend bool operator<( const file& a, const file& b ) { return a.k < b.k; } };
struct content { int text = 0; long time = 0; bool exists = false, broken = false; };
static content g_files[ 2 ]; static long g_now = 1000; static int g_made = 0, g_alive = 0;
static bool file_exists( const file& f ) { return g_files[ f.k ].exists; }
static std::time_t last_write_time( const file& f ) { if ( !g_files[ f.k ].exists ) throw std::runtime_error( "no such file" ); return g_files[ f.k ].time; }
static string to_str( const file& f ) { return f.k ? "b" : "a"; }
extern "C" long test_time( long* ) asm( "time" );
extern "C" __attribute__((noinline)) long test_time( long* p ) { if ( p ) *p = g_now; return g_now; }

struct resource
{
	explicit resource( const file& f ) : text( g_files[ f.k ].text ), copies( 0 ) { ++g_made; if ( g_files[ f.k ].broken ) throw std::runtime_error( "broken" ); ++g_alive; }
	resource( const resource& o ) : text( o.text ), copies( o.copies + 1 ) { ++g_alive; }
	~resource() { --g_alive; }
	int text, copies;
};
struct cached { bool have = false; int text = 0; long time = 0, checked = 0; };

//@ h_history quick(n=5) thorough(n=6)
HARNESS( h_history )
{
	int n = (int)sym_param( "n", 5 ); cached m[ 2 ]; g_files[ 0 ] = { 7, 100, true, false }; g_files[ 1 ] = { 8, 100, true, false };
	{
		xo::file_resource_cache< resource, file > c; std::unique_ptr< resource > held;
		for ( int i = 0; i < n; ++i ) {
			int op = sym_pick( "operation", 0, 5 ), k = i + 1 == n ? sym_pick( "file", 0, 1 ) : op == 0 ? sym_pick( "file", 0, 1 ) : 0; content& f = g_files[ k ]; cached& w = m[ k ]; if ( i + 1 == n ) op = 0;
			switch ( op ) {
			case 1: f.text = 10 + i; f.time += 1 + (long)( sym<unsigned char>( "t" ) & 7 ); break;
			case 2: f.text = 20 + i; f.time -= 1; break; // replaced by an older file
			case 3: g_now += (long)( sym<unsigned char>( "d" ) & 7 ); break;
			case 4: f.exists = !f.exists; break;
			case 5: f.broken = !f.broken; break;
			default: {
				bool thrown = false, make = false; if ( !w.have ) { thrown = !f.exists; make = f.exists; } else if ( g_now - w.checked > 3 ) { w.checked = g_now; thrown = !f.exists; make = f.exists && f.time != w.time; }
				if ( make && f.broken ) thrown = true; else if ( make ) w = { true, f.text, f.time, g_now };
				int made = g_made; std::unique_ptr< resource > r; bool t = throws( [&] { r = c( file{ k } ); } );
				CHECK_MSG( t == thrown, "refused when the file is not there or can not be read" );
				CHECK_MSG( g_made - made == ( make ? 1 : 0 ), "made when it is not there yet, or when the file has changed and that was checked more than three seconds ago" );
				if ( !t ) { CHECK_MSG( r && r->text == w.text && r->copies == 1, "a copy of what was made from the file" ); r->text = 99; held = std::move( r ); }
			} }
		}
		sym_reach( held ? "read" : "refused" );
	}
	CHECK_MSG( g_alive == 0, "all is released" );
}

//@ h_functions quick() thorough()
HARNESS( h_functions )
{
	g_files[ 0 ] = { sym_int( "text" ), 100, true, false }; int a = sym_int( "a" ), made = 0, cloned = 0;
	xo::file_resource_cache< int, file > c( [&]( const file& f ) { ++made; return new int( g_files[ f.k ].text ^ a ); }, [&]( const int& v ) { ++cloned; return new int( v + 1u ); } ); int n = sym_pick( "n", 1, 3 );
	for ( int i = 0; i < n; ++i ) { auto r = c( file{ 0 } ); CHECK_MSG( *r == int( unsigned( g_files[ 0 ].text ^ a ) + 1u ), "made and copied with the given functions" ); }
	CHECK_MSG( made == 1 && cloned == n, "made once, copied every time" ); CHECK_MSG( throws( [&] { c( file{ 1 } ); } ), "a file that is not there" );
	sym_reach( "end" );
}
