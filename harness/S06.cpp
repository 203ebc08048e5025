// Pattern matching and name lookup tables
#include "sym.h"
#include "xo/string/pattern_matcher.h"
#include "xo/string/dictionary.h"
using namespace xo;

static bool glob( const char* p, const char* s )
{
	if ( !*p ) return !*s;
	if ( *p == '*' ) { for ( ;; ++s ) { if ( glob( p + 1, s ) ) return true; if ( !*s ) return false; } }
	if ( !*s ) return false;
	return ( *p == '?' || *p == *s ) && glob( p + 1, s + 1 );
}
static string text( const char* n, size_t m ) { string s = sym_str( n, m ); for ( char c : s ) sym_assume( ( c != 0 ) & ( c != '[' ) & ( c > 0 ) ); return s; }

//@ h_match quick(s=3,p=3) thorough(s=4,p=4)
HARNESS( h_match )
{
	string s = text( "s", (size_t)sym_param( "s", 3 ) ), p = text( "p", (size_t)sym_param( "p", 3 ) );
	CHECK_MSG( pattern_match( s, p ) == glob( p.c_str(), s.c_str() ), "glob semantics of * and ?" );
	sym_reach( "end" );
}

//@ h_multi quick(s=2,p=4) thorough(s=3,p=5)
HARNESS( h_multi )
{
	// a matcher accepts exactly what one of its patterns accepts
	string s = text( "s", (size_t)sym_param( "s", 2 ) ), p = text( "p", (size_t)sym_param( "p", 3 ) );
	pattern_matcher pm( p );
	bool ref = false; size_t n = 0; string cur, join;
	auto flush = [&] { if ( cur.empty() ) return; ++n; if ( !ref ) ref = glob( cur.c_str(), s.c_str() ); if ( n > 1 ) join += ';'; join += cur; cur.clear(); };
	for ( char c : p ) { if ( c == ';' ) flush(); else cur += c; }
	flush();
	CHECK_MSG( pm.match( s ) == ref && pm( s ) == ref, "match iff one of the patterns matches" );
	CHECK( pm.empty() == ( n == 0 ) && pm.patterns().size() == n );
	CHECK_MSG( pm.str() == join && to_str( pm ) == join, "patterns are joined by ;" );
	pattern_matcher p2( p.c_str() ), p3;
	CHECK( p2.str() == join && p2.match( s ) == ref );
	CHECK( p3.empty() && !p3.match( s ) );
	prop_node pn( p ); pattern_matcher p4; CHECK( from_prop_node( pn, p4 ) && p4.str() == join );
	bool w = false; for ( char c : p ) w = w | ( c == '*' ) | ( c == '?' );
	CHECK( is_pattern( p ) == w );
	sym_reach( ref ? "matched" : "end" );
}

//@ h_dictionary quick()
HARNESS( h_dictionary )
{
	string a = sym_str( "a", 2 ), b = sym_str( "b", 2 ), q = sym_str( "q", 2 );
	int x = sym_int( "x" ), y = sym_int( "y" ), z = sym_int( "z" ), def = sym_int( "def" );
	dictionary<int> d{ { x, a }, { y, b } };
	int r = 0; bool thr = throws( [&] { r = d( q ); } );
	CHECK_MSG( thr == ( q != a && q != b ), "unknown names are reported" );
	if ( !thr ) CHECK_MSG( r == ( q == a ? x : y ), "lookup by name gives the first element with that name" );
	CHECK_MSG( d( q, def ) == ( q == a ? x : q == b ? y : def ), "lookup with default" );
	string n; thr = throws( [&] { n = d( z ); } );
	CHECK_MSG( thr == ( z != x && z != y ), "unknown elements are reported" );
	if ( !thr ) CHECK_MSG( n == ( z == x ? a : b ), "lookup of a name" );
	bool t2 = throws( [&] { r = lookup<int>( q, { { "u", x }, { "vw", y } } ); } );
	CHECK( t2 == ( q != "u" && q != "vw" ) );
	if ( !t2 ) CHECK( r == ( q == "u" ? x : y ) );
	sym_reach( "end" );
}
