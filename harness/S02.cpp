// Splitting, trimming and key/value extraction of string_tools, against naive references
#include "sym.h"
#include "xo/string/string_tools.h"
using namespace xo;

static bool in_set( char c, const char* set ) { bool r = false; for ( ; *set; ++set ) r = r | ( c == *set ); return r; }
static string text( size_t maxn ) { string s = sym_str( "s", maxn ); for ( char c : s ) sym_assume( c != 0 ); return s; }
static const char* const ws = " \t\r\n\f\v";

//@ h_trim quick(n=7) thorough(n=9)
HARNESS( h_trim )
{
	string s = text( (size_t)sym_param( "n", 5 ) );
	const char* set = sym_choice( 2, "set" ) ? ws : "_x";
	size_t b = 0, e = s.size();
	while ( b < e && in_set( s[ b ], set ) ) ++b;
	size_t el = e;
	while ( el > b && in_set( s[ el - 1 ], set ) ) --el;
	string s0 = s;
	CHECK_MSG( trim_str( s, set ) == s.substr( b, el - b ), "trim_str removes exactly the leading and trailing characters of the set" );
	CHECK_MSG( trim_left_str( s, set ) == s.substr( b ), "trim_left_str" );
	size_t er = e;
	while ( er > 0 && in_set( s[ er - 1 ], set ) ) --er;
	CHECK_MSG( trim_right_str( s, set ) == s.substr( 0, er ), "trim_right_str" );
	if ( set == ws ) CHECK_MSG( trim_str( s ) == trim_str( s, set ) && trim_left_str( s ) == trim_left_str( s, set ) && trim_right_str( s ) == trim_right_str( s, set ), "default set is white space" );
	sym_reach( "end" );
}

//@ h_split quick(n=7) thorough(n=10)
HARNESS( h_split )
{
	string s = text( (size_t)sym_param( "n", 5 ) );
	string sep = sym_choice( 2, "sep" ) ? ",;" : "/";
	vector<string> ref; string cur;
	for ( char c : s ) { if ( in_set( c, sep.c_str() ) ) { if ( !cur.empty() ) ref.push_back( cur ); cur.clear(); } else cur.push_back( c ); }
	if ( !cur.empty() ) ref.push_back( cur );
	auto v = split_str( s, sep );
	CHECK_MSG( v.size() == ref.size(), "split_str yields every maximal run without separators" );
	for ( size_t i = 0; i < ref.size(); ++i ) CHECK_MSG( v[ i ] == ref[ i ], "split_str part" );
	auto w = split_str( string_view( s ), sep );
	CHECK_MSG( w.size() == ref.size(), "split_str of a view" );
	for ( size_t i = 0; i < ref.size(); ++i ) CHECK_MSG( string( w[ i ] ) == ref[ i ], "split_str of a view, part" );
	sym_reach( v.size() > 1 ? "several" : "end" );
}

//@ h_split_at quick(n=7) thorough(n=10)
HARNESS( h_split_at )
{
	string s = text( (size_t)sym_param( "n", 5 ) );
	string sep = sym_choice( 2, "sep" ) ? ":=" : ".";
	size_t f = s.size(), l = s.size();
	for ( size_t i = 0; i < s.size(); ++i ) if ( in_set( s[ i ], sep.c_str() ) ) { if ( f == s.size() ) f = i; l = i; }
	auto a = split_str_at_first( s, sep ); auto b = split_str_at_last( s, sep );
	if ( f == s.size() ) {
		CHECK_MSG( a.first == s && a.second.empty(), "split_str_at_first without separator" );
		CHECK_MSG( b.first == s && b.second.empty(), "split_str_at_last without separator" );
	}
	else {
		CHECK_MSG( a.first == s.substr( 0, f ) && a.second == s.substr( f + 1 ), "split_str_at_first" );
		CHECK_MSG( b.first == s.substr( 0, l ) && b.second == s.substr( l + 1 ), "split_str_at_last" );
	}
	sym_reach( f == s.size() ? "none" : "end" );
}

//@ h_key_value quick(n=7) thorough(n=9)
HARNESS( h_key_value )
{
	string s = text( (size_t)sym_param( "n", 5 ) );
	bool dflt = sym_choice( 2, "sep" ) == 0;
	string sep = dflt ? "=" : ":=";
	size_t f = s.size();
	for ( size_t i = 0; i < s.size(); ++i ) if ( f == s.size() && in_set( s[ i ], sep.c_str() ) ) f = i;
	auto kv = dflt ? make_key_value_str( s ) : make_key_value_str( s, sep );
	if ( f == s.size() ) CHECK_MSG( kv.first == s && kv.second.empty(), "no separator: the whole text is the key" );
	else {
		size_t b = 0, e = f; while ( b < e && in_set( s[ b ], ws ) ) ++b; while ( e > b && in_set( s[ e - 1 ], ws ) ) --e;
		CHECK_MSG( kv.first == s.substr( b, e - b ), "key is the trimmed text before the first separator" );
		b = f + 1, e = s.size(); while ( b < e && in_set( s[ b ], ws ) ) ++b; while ( e > b && in_set( s[ e - 1 ], ws ) ) --e;
		CHECK_MSG( kv.second == s.substr( b, e - b ), "value is the trimmed text after the first separator" );
	}
	sym_reach( f == s.size() ? "none" : "end" );
}
