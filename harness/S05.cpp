// Conversion between values and text
#include "sym.h"
#include "xo/string/string_tools.h"
#include "xo/string/string_cast.h"
#include <climits>
using namespace xo;

template< typename T > void round_trip( T v )
{
	string s = to_str( v );
	// canonical decimal text
	CHECK( !s.empty() );
	size_t b = v < 0 ? 1 : 0;
	CHECK( !b || s[ 0 ] == '-' );
	CHECK( s.size() > b );
	CHECK_MSG( s.size() == b + 1 || s[ b ] != '0', "no leading zero" );
	for ( size_t i = b; i < s.size(); ++i ) CHECK_MSG( s[ i ] >= '0' && s[ i ] <= '9', "digits only" );
	T w = T( 77 );
	CHECK_MSG( from_str( s, w ), "the text of a value converts back" );
	CHECK_MSG( w == v, "the value survives conversion to text and back" );
}
template< typename T > void anchors( T lo, T hi, int r )
{
	// windows of values around the ends of the range, zero and a power of ten
	int o = sym_int( "o", -r, r );
	T v;
	switch ( sym_choice( 4, "anchor" ) ) {
	case 0: v = T( T( 0 ) + T( o ) ); break;
	case 1: sym_assume( o >= 0 ); v = T( lo + T( o ) ); break;
	case 2: sym_assume( o >= 0 ); v = T( hi - T( o ) ); break;
	default: v = T( T( 100000 ) + T( o ) ); break;
	}
	if ( lo == 0 ) sym_assume( v <= hi && !( v > hi - T( r ) && o < 0 && v > T( 200000 ) ) );
	round_trip( v );
	sym_reach( "end" );
}
//@ h_int quick(r=300) thorough(r=3000)
HARNESS( h_int ) { anchors<int>( INT_MIN, INT_MAX, (int)sym_param( "r", 300 ) ); }
//@ h_uint quick(r=300) thorough(r=3000)
HARNESS( h_uint ) { anchors<unsigned>( 0, UINT_MAX, (int)sym_param( "r", 300 ) ); }
//@ h_long quick(r=9) thorough(r=99)
HARNESS( h_long ) { anchors<long>( LONG_MIN, LONG_MAX, (int)sym_param( "r", 9 ) ); }
//@ h_ulong quick(r=9) thorough(r=99)
HARNESS( h_ulong ) { anchors<unsigned long>( 0, ULONG_MAX, (int)sym_param( "r", 9 ) ); }
//@ h_llong quick(r=9) thorough(r=99)
HARNESS( h_llong ) { anchors<long long>( LLONG_MIN, LLONG_MAX, (int)sym_param( "r", 9 ) ); }
//@ h_ullong quick(r=9) thorough(r=99)
HARNESS( h_ullong ) { anchors<unsigned long long>( 0, ULLONG_MAX, (int)sym_param( "r", 9 ) ); }

static bool ws( char c ) { return ( c == ' ' ) | ( ( c >= 9 ) & ( c <= 13 ) ); }
//@ h_parse_int quick(n=4) thorough(n=5)
HARNESS( h_parse_int )
{
	// arbitrary text: accepted exactly when it starts with a number (after white space), and the value is that number
	string s = sym_str( "s", (size_t)sym_param( "n", 4 ) );
	for ( char c : s ) sym_assume( c != 0 );
	size_t i = 0; while ( i < s.size() && ws( s[ i ] ) ) ++i;
	bool neg = false; if ( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) neg = s[ i++ ] == '-';
	size_t st = i; long ref = 0;
	while ( i < s.size() && s[ i ] >= '0' && s[ i ] <= '9' ) ref = ref * 10 + ( s[ i++ ] - '0' );
	bool ok = i > st; if ( neg ) ref = -ref;
	int a = 5; CHECK_MSG( from_str( s, a ) == ok, "int accepted" ); if ( ok ) CHECK_MSG( a == ref, "int value" );
	long b = 5; CHECK_MSG( from_str( s, b ) == ok, "long accepted" ); if ( ok ) CHECK_MSG( b == ref, "long value" );
	long long c = 5; CHECK_MSG( from_str( s, c ) == ok, "long long accepted" ); if ( ok ) CHECK_MSG( c == ref, "long long value" );
	if ( !neg ) {
		unsigned d = 5; CHECK_MSG( from_str( s, d ) == ok, "unsigned accepted" ); if ( ok ) CHECK_MSG( d == (unsigned)ref, "unsigned value" );
		unsigned long e = 5; CHECK_MSG( from_str( s, e ) == ok, "unsigned long accepted" ); if ( ok ) CHECK_MSG( e == (unsigned long)ref, "unsigned long value" );
		unsigned long long f = 5; CHECK_MSG( from_str( s, f ) == ok, "unsigned long long accepted" ); if ( ok ) CHECK_MSG( f == (unsigned long long)ref, "unsigned long long value" );
	}
	sym_reach( ok ? "number" : "end" );
}

//@ h_bool quick()
HARNESS( h_bool )
{
	string s = sym_str( "s", 5 );
	for ( char c : s ) sym_assume( c != 0 );
	bool init = sym_bool( "init" ), v = init;
	bool t = s == "1" || s == "true" || s == "yes", f = s == "0" || s == "false" || s == "no";
	bool ok = from_str( s, v );
	CHECK_MSG( ok == ( t || f ), "booleans are accepted exactly in their documented spellings" );
	CHECK_MSG( v == ( ok ? t : init ), "boolean value; rejected text leaves the value alone" );
	bool b = sym_bool( "b" ), w = !b;
	CHECK( from_str( to_str( b ), w ) && w == b );
	sym_reach( ok ? "accepted" : "end" );
}

//@ h_text quick()
HARNESS( h_text )
{
	string s = sym_str( "s", 4 ), t = "x";
	CHECK( to_str( s ) == s && from_str( s, t ) && t == s );
	for ( char c : s ) sym_assume( c != 0 );
	CHECK( to_str( s.c_str() ) == s );
	const char* cs = "y"; CHECK_MSG( from_str( s, cs ) && string( cs ) == s, "text of the string" );
	string p = "[ "; for ( int i = 0; i < 3; ++i ) { p += to_str( s ); p += ' '; } p += "]";
	CHECK( to_str( vector<string>{ s, s, s } ) == p );
	CHECK( to_str( vector<string>() ) == "[ ]" );
	sym_reach( "end" );
}
