// char_stream: navigation, characters, lines and numbers
#include "sym.h"
#include "xo/serialization/char_stream.h"
using namespace xo;

static string text( const char* nm, size_t n ) { string s = sym_str( nm, n ); for ( char c : s ) sym_assume( c != 0 ); return s; }

//@ h_seek quick(n=5) thorough(n=7)
HARNESS( h_seek )
{
	string s = text( "s", (size_t)sym_param( "n", 5 ) );
	string f = sym_str( "f", 2, 1 ); for ( char c : f ) sym_assume( c != 0 );
	size_t skip = (size_t)sym_pick( "skip", 0, 2 ); sym_assume( skip <= s.size() );
	int past = sym_pick( "past", 0, 1 );
	char_stream str( s.c_str() );
	for ( size_t i = 0; i < skip; ++i ) { CHECK( str.peekc() == s[ i ] ); CHECK( str.getc() == s[ i ] ); }
	size_t p = s.find( f, skip );
	bool ok = past ? str.seek_past( f ) : str.seek( f );
	CHECK_MSG( ok == ( p != string::npos ), "seek finds the text if it is there" );
	if ( ok ) {
		size_t at = past ? p + f.size() : p;
		CHECK_MSG( str.fail() == false && str.eof() == ( at == s.size() ), "flags after seek" );
		size_t lines = 1; for ( size_t i = 0; i < at; ++i ) if ( s[ i ] == '\n' ) ++lines;
		CHECK_MSG( str.line_number() == lines, "line number counts the lines before the position" );
		CHECK_MSG( str.getc() == ( at < s.size() ? s[ at ] : 0 ), "position after seek" );
		sym_reach( "found" );
	}
	else {
		CHECK_MSG( str.fail() && !str.good(), "fail flag" );
		CHECK_MSG( str.get_token().empty(), "no tokens after failure" );
		sym_reach( "not found" );
	}
}

//@ h_try_get quick(n=4) thorough(n=6)
HARNESS( h_try_get )
{
	string s = text( "s", (size_t)sym_param( "n", 4 ) );
	string f = sym_str( "f", 3 ); for ( char c : f ) sym_assume( c != 0 );
	char c = sym<char>( "c" );
	char_stream str( s.c_str() );
	bool ok = str.try_get( f );
	bool want = f.size() <= s.size(); for ( size_t i = 0; want && i < f.size(); ++i ) want = s[ i ] == f[ i ];
	CHECK_MSG( ok == want, "try_get of a text" );
	size_t at = ok ? f.size() : 0;
	bool okc = str.try_get( c );
	CHECK_MSG( okc == ( at < s.size() && s[ at ] == c ), "try_get of a character" );
	at += okc;
	string rest; while ( str.good() ) { char x = str.getc(); if ( str.good() ) rest += x; }
	CHECK_MSG( rest == s.substr( at ), "only consumes what matches" );
	sym_reach( ok ? "match" : "none" );
}

//@ h_line quick(n=5) thorough(n=7)
HARNESS( h_line )
{
	string s = text( "s", (size_t)sym_param( "n", 5 ) );
	char_stream str( s.c_str(), "\r\n" );
	size_t p = s.find_first_of( "\r\n" );
	string l = str.get_line();
	CHECK_MSG( l == s.substr( 0, p ), "get_line reads up to the end of the line" );
	CHECK( !str.fail() );
	if ( p != string::npos ) CHECK_MSG( str.peekc() == s[ p ], "end of line is left in the stream" );
	else CHECK( str.peekc() == 0 && str.eof() );
	CHECK( str.line_number() == 1 );
	sym_reach( p == string::npos ? "last" : "line" );
}

template< typename T > static void number( bool is_signed )
{
	// optional sign, digits, something that is not a digit
	int lead = sym_pick( "lead", 0, 1 ); int n = sym_pick( "digits", 0, (int)sym_param( "n", 3 ) );
	string s( (size_t)lead, ' ' );
	int neg = sym_pick( "neg", 0, is_signed ? 1 : 0 );
	if ( neg ) s += '-';
	long long want = 0;
	for ( int i = 0; i < n; ++i ) { char c = sym<char>( "digit" ); sym_assume( c >= '0' && c <= '9' ); s += c; want = want * 10 + ( c - '0' ); }
	if ( neg ) want = -want;
	char tail = sym<char>( "tail" ); sym_assume( ( tail < '0' ) | ( tail > '9' ) );
	if ( n == 0 ) sym_assume( ( tail != '-' ) & ( tail != '+' ) & ( tail != ' ' ) & ( ( tail < 9 ) | ( tail > 13 ) ) );
	size_t at = s.size();
	if ( tail ) s += tail;
	char_stream str( s.c_str() );
	T v = T( 77 ); str >> v;
	if ( n > 0 ) {
		CHECK_MSG( !str.fail(), "number is accepted" );
		CHECK_MSG( v == T( want ), "value of the number" );
		CHECK_MSG( str.peekc() == ( at < s.size() ? s[ at ] : 0 ), "stops after the last digit" );
	}
	else CHECK_MSG( str.fail(), "text without digits is not a number" );
	sym_reach( n > 0 ? "number" : "fail" );
}

//@ h_numbers quick(n=3) thorough(n=5)
HARNESS( h_numbers )
{
	switch ( sym_pick( "type", 0, 5 ) ) {
	case 0: number< int >( true ); break;
	case 1: number< long >( true ); break;
	case 2: number< unsigned int >( false ); break;
	case 3: number< unsigned long long >( false ); break;
	case 4: number< short >( true ); break;
	default: number< long long >( true ); break;
	}
}

//@ h_optional quick(n=3) thorough(n=4)
HARNESS( h_optional )
{
	// a list of numbers, separated by commas, read into optionals until the end
	int k = sym_pick( "count", 0, 3 ); int v[ 3 ];
	string s;
	for ( int i = 0; i < k; ++i ) { v[ i ] = sym_int( "v", 0, 99 ); s += char( '0' + v[ i ] / 10 ); s += char( '0' + v[ i ] % 10 ); s += ','; }
	char_stream str( s.c_str(), ", " );
	for ( int i = 0; i < k; ++i ) { optional< int > o; str >> o; CHECK_MSG( o && *o == v[ i ], "numbers are read in order" ); CHECK( str.good() ); }
	optional< int > o( 5 ); str >> o;
	CHECK_MSG( !o && str.fail(), "nothing after the last number" );
	sym_reach( "end" );
}
