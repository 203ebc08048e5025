// Quoting, unquoting and escape sequences of string_tools
#include "sym.h"
#include "xo/string/string_tools.h"
#include "xo/system/error_code.h"
using namespace xo;

static string text( const char* name, size_t maxn )
{
	string s = sym_str( name, maxn );
	for ( char c : s ) sym_assume( c != 0 ); // text without NUL
	return s;
}

//@ h_quoted quick(n=4) thorough(n=5)
HARNESS( h_quoted )
{
	string s = text( "s", (size_t)sym_param( "n", 3 ) );
	string q = quoted( s );
	// well formed: quotes at both ends, every quote inside is escaped, no control characters
	CHECK( q.size() >= 2 && q.front() == '"' && q.back() == '"' );
	bool esc = false;
	for ( size_t i = 1; i + 1 < q.size(); ++i ) {
		CHECK_MSG( (unsigned char)q[ i ] >= 32, "control character in quoted text" );
		if ( esc ) esc = false;
		else if ( q[ i ] == '\\' ) esc = true;
		else CHECK_MSG( q[ i ] != '"', "unescaped quote inside quoted text" );
	}
	CHECK_MSG( !esc, "closing quote is escaped" );
	string u = try_unquoted( q );
	CHECK( u == s );
	sym_reach( "end" );
}

//@ h_try_quoted quick(n=3) thorough(n=4)
HARNESS( h_try_quoted )
{
	string s = text( "s", (size_t)sym_param( "n", 3 ) );
	const char* special = sym_choice( 2, "special" ) ? "{}#" : "";
	string q = try_quoted( s, special );
	bool need = s.empty();
	for ( char c : s ) need = need | ( (unsigned char)c < 33 ) | ( c == '"' );
	for ( char c : s ) for ( const char* p = special; *p; ++p ) need = need | ( c == *p );
	CHECK( needs_quotes( s, special ) == need );
	if ( !need ) CHECK_MSG( q == s, "text that needs no quotes is left alone" );
	else CHECK_MSG( q == quoted( s ), "text that needs quotes is quoted" );
	CHECK_MSG( try_unquoted( q ) == s, "try_unquoted( try_quoted( s ) ) == s" );
	sym_reach( "end" );
}

//@ h_unquote_any quick(n=6) thorough(n=8)
HARNESS( h_unquote_any )
{
	// arbitrary text, also malformed: stays inside the text and returns
	string s = text( "s", (size_t)sym_param( "n", 4 ) );
	string u = try_unquoted( s );
	CHECK_MSG( u.size() <= s.size(), "unquoting does not invent text" );
	if ( s.size() < 2 || s.front() != '"' || s.back() != '"' ) CHECK_MSG( u == s, "text without quotes is unchanged" );
	for ( char c : u ) CHECK_MSG( c != 0, "no NUL appears" );
	sym_reach( "end" );
}

//@ h_escape quick()
HARNESS( h_escape )
{
	char c = sym<char>( "c" );
	sym_assume( c != 0 );
	string e = encode_char( c );
	int len = -1;
	char d = decode_char( e.c_str(), e.size(), &len );
	CHECK_MSG( d == c, "decode_char( encode_char( c ) ) == c" );
	CHECK_MSG( len == (int)e.size(), "decode_char consumes exactly the encoded text" );
	sym_reach( "end" );
}

//@ h_decode_any quick()
HARNESS( h_decode_any )
{
	// the decoder always makes progress and never consumes more than the buffer
	size_t n = 1 + sym_choice( 5, "n" );
	char* b = new char[ n ]; // exactly n bytes: reading beyond is an error
	sym_bytes( b, n, "b" );
	int len = -1;
	char d = decode_char( b, n, &len );
	CHECK_MSG( len >= 1, "decode_char makes progress" );
	if ( n > 1 ) CHECK_MSG( len <= (int)n, "decode_char stays within the buffer" );
	if ( b[ 0 ] != '\\' ) CHECK( d == b[ 0 ] && len == 1 );
	delete[] b;
	sym_reach( "end" );
}
