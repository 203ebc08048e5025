// Substrings, searching and prefix / suffix tests of string_tools
#include "sym.h"
#include "xo/string/string_tools.h"
using namespace xo;

static bool at( const string& s, size_t p, const string& f ) { if ( p > s.size() || f.size() > s.size() - p ) return false; bool r = true; for ( size_t i = 0; i < f.size(); ++i ) r = r & ( s[ p + i ] == f[ i ] ); return r; }
static const size_t npos = string::npos;

//@ h_sub quick(n=5) thorough(n=8)
HARNESS( h_sub )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 5 ) );
	int sz = (int)s.size();
	int n = sym_int( "n" );
	sym_assume( n > -2147483647 );
	size_t want = n >= 0 ? ( n < sz ? (size_t)n : s.size() ) : ( -n < sz ? (size_t)( sz + n ) : 0 );
	string l = left_str( s, n );
	CHECK_MSG( l.size() == want && at( s, 0, l ), "left_str: left n characters, or all but the right -n" );
	if ( n >= -sz && n <= sz ) {
		string r = right_str( s, n );
		CHECK_MSG( r.size() == ( n >= 0 ? (size_t)n : (size_t)( sz + n ) ), "right_str length" );
		CHECK_MSG( at( s, s.size() - r.size(), r ), "right_str is the end of the text" );
		CHECK_MSG( n < 0 || left_str( s, sz - n ) + r == s, "left and right parts recombine" );
		sym_reach( "right" );
	}
	size_t p = (size_t)sym_pick( "p", 0, sz ); size_t m = sym<size_t>( "m" );
	string d = mid_str( s, p, m );
	CHECK_MSG( d.size() == ( m < s.size() - p ? m : s.size() - p ) && at( s, p, d ), "mid_str" );
	CHECK_MSG( mid_str( s, p ) == s.substr( p ), "mid_str to the end" );
	sym_reach( "end" );
}

//@ h_find quick(n=6) thorough(n=8)
HARNESS( h_find )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 5 ) );
	string f = sym_str( "f", 2, 1 );
	size_t from = (size_t)sym_pick( "from", 0, 3 );
	size_t first = npos, found = 0, nth[ 4 ] = { 0, npos, npos, npos };
	for ( size_t i = 0; i + f.size() <= s.size(); ++i ) if ( at( s, i, f ) ) { if ( i >= from && first == npos ) first = i; if ( ++found <= 3 ) nth[ found ] = i; }
	CHECK_MSG( in_str( s, f, from ) == first, "in_str finds the first occurrence at or after pos" );
	CHECK_MSG( str_contains( s, f ) == ( found > 0 ), "str_contains" );
	CHECK_MSG( str_contains( s, f[ 0 ] ) == ( in_str( s, string( 1, f[ 0 ] ) ) != npos ), "str_contains of a character" );
	for ( size_t k = 1; k <= 3; ++k ) CHECK_MSG( find_nth_str( s, f, k ) == nth[ k ], "find_nth_str finds the nth occurrence" );
	sym_reach( found > 1 ? "several" : "end" );
}

//@ h_begins quick(n=5) thorough(n=7)
HARNESS( h_begins )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 4 ) );
	string f = sym_str( "f", 3 );
	size_t p = sym<size_t>( "p" );
	char c = sym<char>( "c" );
	CHECK_MSG( str_begins_with( s, f ) == at( s, 0, f ), "str_begins_with" );
	CHECK_MSG( str_ends_with( s, f ) == ( f.size() <= s.size() && at( s, s.size() - f.size(), f ) ), "str_ends_with" );
	sym_assume( p <= s.size() );
	CHECK_MSG( str_begins_with( s, f, p ) == ( p < s.size() && at( s, p, f ) ), "str_begins_with at a position" );
	CHECK_MSG( str_begins_with( s, c ) == ( s.size() > 0 && s[ 0 ] == c ), "str_begins_with a character" );
	CHECK_MSG( str_ends_with( s, c ) == ( s.size() > 0 && s[ s.size() - 1 ] == c ), "str_ends_with a character" );
	sym_reach( "end" );
}

//@ h_equals quick()
HARNESS( h_equals )
{
	string s = sym_str( "s", 4 );
	for ( char c : s ) sym_assume( c != 0 );
	bool ref = s == "ab" || s == "" || s == "yes";
	CHECK( str_equals_any_of( s, { "ab", "", "yes" } ) == ref );
	CHECK( !str_equals_any_of( s, {} ) );
	sym_reach( "end" );
}
