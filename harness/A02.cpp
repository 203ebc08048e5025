// stop tokens, interruption, casts of unique pointers, names, output of functions
#include "sym.h"
#include "xo/thread/stop_token.h"
#include "xo/thread/interruptible.h"
#include "xo/utility/pointer_types.h"
#include "xo/system/system_tools.h"
#include "xo/system/type_class.h"
#include "xo/container/vector_type.h"
#include "xo/system/debug_storage.h"
#include "xo/filesystem/filesystem.h"
#include "xo/string/dictionary.h"
#include <fstream>
#include <vector>
using std::string; using std::vector;

// a token tells that a stop was requested from the source from which it was made, or from a copy of that
//@ h_stop quick(n=4) thorough(n=5)
HARNESS( h_stop )
{
	xo::stop_source s[ 2 ]; int src[ 2 ] = { 0, 1 }; bool stopped[ 2 ] = {}; xo::stop_token t[ 2 ]; int of[ 2 ] = { -1, -1 }; int n = (int)sym_param( "n", 4 );
	for ( int i = 0; i < n; ++i ) {
		int k = sym_pick( "k", 0, 1 ), j = 1 - k;
		switch ( sym_pick( "operation", 0, 3 ) ) {
		case 0: CHECK_MSG( s[ k ].request_stop(), "requested" ); stopped[ src[ k ] ] = true; break;
		case 1: t[ k ] = s[ k ].get_token(); of[ k ] = src[ k ]; break;
		case 2: t[ k ] = t[ j ]; of[ k ] = of[ j ]; break;
		case 3: s[ k ] = s[ j ]; src[ k ] = src[ j ]; break;
		}
	}
	for ( int k = 0; k < 2; ++k ) {
		CHECK_MSG( s[ k ].stop_requested() == stopped[ src[ k ] ] && s[ k ].stop_possible(), "source" );
		CHECK_MSG( t[ k ].stop_requested() == ( of[ k ] >= 0 && stopped[ of[ k ] ] ) && t[ k ].stop_possible() == ( of[ k ] >= 0 ), "token" );
	}
	xo::stop_token late; { xo::stop_source q; late = q.get_token(); bool r = sym_bool( "request" ); if ( r ) q.request_stop(); CHECK_MSG( late.stop_requested() == r, "token" ); stopped[ 0 ] = r; } CHECK_MSG( late.stop_requested() == stopped[ 0 ], "a token outlives its source" );
	sym_reach( "end" );
}

//@ h_interrupt quick() thorough()
HARNESS( h_interrupt )
{
	xo::interruptible a, b; bool x = sym_bool( "interrupt" ); CHECK_MSG( !a.test_interrupt_flag(), "not interrupted" ); if ( x ) a.interrupt(); CHECK_MSG( a.test_interrupt_flag() == x && a.test_interrupt_flag() == x && !b.test_interrupt_flag(), "interrupted" ); sym_reach( "end" );
}

static int g_alive = 0;
struct base { base() { ++g_alive; } base( const base& ) = delete; virtual ~base() { --g_alive; } int v = 0; }; struct left : base {}; struct right : base {}; struct far_left : left {};
//@ h_cast quick() thorough()
HARNESS( h_cast )
{
	{
		int kind = sym_pick( "kind", 0, 4 ); xo::u_ptr< base > p; if ( kind == 1 ) p.reset( new base ); if ( kind == 2 ) p.reset( new left ); if ( kind == 3 ) p.reset( new right ); if ( kind == 4 ) p.reset( new far_left ); base* q = p.get(); if ( q ) q->v = sym_int( "v" ); int v = q ? q->v : 0; bool ok = kind == 2 || kind == 4;
		if ( sym_pick( "try", 0, 1 ) ) { auto l = xo::try_dynamic_unique_cast< left >( p ); CHECK_MSG( bool( l ) == ok && l.get() == ( ok ? q : nullptr ) && p.get() == ( ok ? nullptr : q ), "moved to the result, or kept" ); CHECK_MSG( g_alive == ( kind > 0 ), "one owner" ); if ( ok ) CHECK_MSG( l->v == v, "value" ); }
		else { auto l = xo::dynamic_unique_cast< left >( std::move( p ) ); CHECK_MSG( bool( l ) == ok && l.get() == ( ok ? q : nullptr ), "moved to the result" ); if ( ok ) CHECK_MSG( !p && l->v == v, "value" ); }
		sym_reach( ok ? "cast" : "refused" );
	}
	CHECK_MSG( g_alive == 0, "released once" );
}

// the last part of a name without underscores around it
//@ h_tidy quick(n=5) thorough(n=7)
HARNESS( h_tidy )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 5 ) ); string s = sym_str_of( "id", (size_t)n, "_a.:" ), w = s; size_t p = w.find_last_of( ".:" ); if ( p != string::npos ) w = w.substr( p + 1 ); while ( !w.empty() && w[ 0 ] == '_' ) w.erase( 0, 1 ); while ( !w.empty() && w.back() == '_' ) w.pop_back();
	CHECK_MSG( xo::tidy_identifier( s ) == w, "identifier" ); string t = xo::tidy_identifier( s ); CHECK_MSG( xo::tidy_identifier( t ) == t, "tidy names are kept" ); sym_reach( w.empty() ? "empty" : "name" );
}

enum some_enum { some_value };
//@ h_class quick() thorough()
HARNESS( h_class )
{
	using namespace xo; CHECK_MSG( get_type_class<void>() == void_type_class && get_type_class<bool>() == boolean_type_class && get_type_class<int>() == integral_type_class && get_type_class<unsigned char>() == integral_type_class && get_type_class<long long>() == integral_type_class && get_type_class<float>() == floating_point_type_class && get_type_class<double>() == floating_point_type_class && get_type_class<some_enum>() == enum_type_class && get_type_class<std::string>() == string_type_class && get_type_class<base>() == unknown_type_class, "class of a type" );
	sym_reach( "end" );
}

//@ h_dictionary quick() thorough()
HARNESS( h_dictionary )
{
	string a = sym_str( "a", 1 ), b = sym_str( "b", 1 ), q = sym_str( "q", 1 ); int x = sym_int( "x" ), y = sym_int( "y" ), z = sym_int( "z" ), d = sym_int( "default" ); auto m = xo::make_dictionary< int >( { { x, a }, { y, b } } );
	bool found = q == a || q == b; int want = q == a ? x : y, got = 0; CHECK_MSG( throws( [&] { got = m( q ); } ) == !found && ( !found || got == want ), "element of a name" ); CHECK_MSG( m( q, d ) == ( found ? want : d ), "element or default" );
	string n; bool has = z == x || z == y; CHECK_MSG( throws( [&] { n = m( z ); } ) == !has && ( !has || n == ( z == x ? a : b ) ), "name of an element" );
	int l = 0; bool t = throws( [&] { l = xo::lookup< int >( q, { { "", x }, { "a", y } } ); } ); bool in = q.empty() || q == "a"; CHECK_MSG( t == !in && ( t || l == ( q.empty() ? x : y ) ), "looked up" );
	sym_reach( found ? "found" : "absent" );
}

static int calls; static double square( double x ) { ++calls; return x * x; }

// values of a function in a file
//@ h_write quick(n=3) thorough(n=5)
HARNESS( h_write )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) ), lo = sym_pick( "min", -1, 1 ), dir = sym_pick( "directory", 0, 2 ); const char* names[] = { "f.txt", "d/f.txt", "d/e/f.txt" }; double step = sym_pick( "interval", 0, 1 ) ? 0.25 : 2; calls = 0;
	xo::write_function< double >( xo::path( names[ dir ] ), lo, lo + n * step, &square, step ); string want; for ( int i = 0; i <= n; ++i ) { char t[ 64 ]; double x = lo + i * step; snprintf( t, sizeof t, "%g\t%g\n", x, x * x ); want += t; }
	CHECK_MSG( calls == n + 1 && xo::load_string( names[ dir ] ) == want, "every argument and value, including both ends" ); sym_reach( "end" );
}

namespace outer { struct first {}; template< typename T > struct second {}; namespace inner { struct third_ {}; struct x {}; } template< typename T, typename U > struct pair2 { struct in {}; }; }
//@ h_type_name quick(n=3) thorough(n=5)
HARNESS( h_type_name )
{
	CHECK_MSG( xo::get_clean_type_name< outer::first >() == "first" && xo::get_clean_type_name< outer::inner::third_ >() == "third_" && xo::get_clean_type_name< outer::inner::x >() == "x", "names without scope" );
	string q = xo::get_clean_type_name< outer::second< int > >(); CHECK_MSG( q == "second", "names without template arguments" ); q = xo::get_clean_type_name< outer::second< double > >(); CHECK_MSG( q == "second", "names without template arguments" );
	q = xo::get_clean_type_name< outer::pair2< float, bool > >(); CHECK_MSG( q == "pair2", "names without template arguments" );
	q = xo::get_clean_type_name< outer::second< outer::second< int > > >(); CHECK_MSG( q == "second", "names without template arguments" ); q = xo::get_clean_type_name< outer::second< outer::first > >(); CHECK_MSG( q == "second", "names without template arguments" ); q = xo::get_clean_type_name< outer::pair2< outer::second< int >, outer::first > >(); CHECK_MSG( q == "pair2", "names without template arguments" );
	CHECK_MSG( xo::get_clean_type_name< int >() == "int" && xo::get_clean_type_name< double >() == "double", "names of numbers" );
	int n = (int)sym_param( "n", 3 ), parts = sym_pick( "scopes", 0, 2 ); string m, last; // any identifiers in any scope, with and without template arguments
	for ( int i = 0; i <= parts; ++i ) { int k = sym_pick( "length", 1, n ); last = sym_str_of( "name", (size_t)k, "aZ_" ); m += std::to_string( k ) + last; }
	if ( sym_pick( "template", 0, 1 ) ) { m += "IN1x1yEE"; m = "N" + m + "E"; if ( parts == 0 ) m = m.substr( 1, m.size() - 2 ); } else if ( parts ) m = "N" + m + "E";
	CHECK_MSG( xo::tidy_type_name( m ) == last, "the name alone" ); sym_reach( "end" );
}
