// char_stream: splitting text in tokens
#include "sym.h"
#include "xo/serialization/char_stream.h"
using namespace xo;

static bool in( const char* set, char c ) { bool r = false; for ( ; *set; ++set ) r |= *set == c; return r; }

// straightforward tokenizer, used as reference
struct ref_tokens
{
	const string& s; const char* delims; const char* quotes; std::vector< string > ops; size_t p = 0; bool quoted = false;
	size_t op_len( size_t at ) const { size_t best = 0; for ( auto& o : ops ) if ( o.size() > best && s.compare( at, o.size(), o ) == 0 ) best = o.size(); return best; }
	bool skip() { while ( p < s.size() && in( delims, s[ p ] ) ) ++p; return p < s.size(); }
	string next() {
		string t; quoted = false;
		while ( p < s.size() && !in( delims, s[ p ] ) ) {
			if ( in( quotes, s[ p ] ) ) {
				char q = s[ p++ ]; quoted = true;
				while ( p < s.size() && s[ p ] != q ) {
					if ( s[ p ] == '\\' && p + 1 < s.size() ) { char e = s[ p + 1 ]; t += e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : e; p += 2; }
					else t += s[ p++ ];
				}
				if ( p < s.size() ) ++p;
			}
			else if ( size_t n = op_len( p ) ) {
				if ( t.empty() && !quoted ) { t = s.substr( p, n ); p += n; }
				return t;
			}
			else t += s[ p++ ];
		}
		return t;
	}
};

//@ h_tokens quick(n=4; n=5,min=5) thorough(n=5; n=6,min=6)
HARNESS( h_tokens )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 4 ), (size_t)sym_param( "min", 0 ) );
	for ( size_t i = 0; i < s.size(); ++i ) {
		sym_assume( s[ i ] != 0 );
		// escape sequences are subject of another property
		if ( i + 1 < s.size() ) sym_assume( ( s[ i ] != '\\' ) | in( "\\\"nrt", s[ i + 1 ] ) );
	}
	std::vector< string > ops = { "=", "{", "==" };
	char_stream str( s.c_str(), " \n", "\"'", ops );
	ref_tokens ref{ s, " \n", "\"'", ops };
	size_t count = 0;
	while ( ref.skip() ) {
		CHECK_MSG( str.good(), "stream is good while there is text left" );
		string t = str.get_token();
		CHECK_MSG( t == ref.next(), "token" );
		if ( ++count > s.size() ) break;
	}
	CHECK_MSG( count <= s.size(), "every token consumes text" );
	string t = str.get_token();
	CHECK_MSG( t.empty() && str.eof() && !str.good() && !str.fail(), "end of the stream is detected" );
	CHECK_MSG( str.get_token().empty() && str.get_line().empty() && str.getc() == 0 && str.peekc() == 0, "nothing after the end" );
	sym_reach( count > 1 ? "several" : count ? "one" : "none" );
}

//@ h_bytes quick(n=5) thorough(n=6)
HARNESS( h_bytes )
{
	// arbitrary bytes, including zeros and incomplete escapes: always ends, never reads outside the text
	string s = sym_str( "s", (size_t)sym_param( "n", 5 ) );
	size_t n = s.size();
	char_stream str( std::move( s ), " \n", "\"", { "=", "==" } );
	size_t count = 0, len = 0;
	while ( str.good() && count <= n + 1 ) { len += str.get_token().size(); ++count; }
	CHECK_MSG( count <= n + 1, "number of tokens is bounded by the length of the text" );
	CHECK_MSG( len <= n, "tokens are not longer than the text" );
	CHECK_MSG( str.eof() && str.line_number() <= n + 1, "ends at the end of the text" );
	sym_reach( "end" );
}

//@ h_plain quick(n=3) thorough(n=4)
HARNESS( h_plain )
{
	// words separated by whitespace, default settings, via >> and get_token
	size_t k = (size_t)sym_pick( "words", 0, 3 );
	std::vector< string > w; string s;
	for ( size_t i = 0; i < k; ++i ) {
		w.push_back( sym_str( "w", (size_t)sym_param( "n", 3 ), 1 ) );
		for ( char c : w[ i ] ) sym_assume( ( (unsigned char)c > 32 ) & ( c != '"' ) );
		char sep = sym<char>( "sep" ); sym_assume( in( " \t\r\n", sep ) );
		s += w[ i ] + sep;
	}
	char_stream str( s.c_str() ); CHECK_MSG( !str.token_quoted() && !str.fail() && !str.eof(), "nothing is read yet" );
	for ( size_t i = 0; i < k; ++i ) {
		string t;
		if ( i == 1 ) str >> t; else t = str.get_token();
		CHECK_MSG( t == w[ i ], "words are read in order" );
		CHECK( str.good() && !str.token_quoted() );
	}
	CHECK( str.get_token().empty() && str.eof() );
	sym_reach( k ? "words" : "none" );
}

//@ h_settings quick(n=3) thorough(n=4)
HARNESS( h_settings )
{
	// delimiters, quotation characters and operators given afterwards are those given when constructed
	static const char* delims[] = { " \t\r\n", ",", ";a" }; static const char* quotes[] = { "\"", "'", "" };
	string s = sym_str( "s", (size_t)sym_param( "n", 3 ), 1 ); for ( char c : s ) sym_assume( in( " ,;a'\"=", c ) );
	const char* d = delims[ sym_pick( "delimiters", 0, 2 ) ]; const char* q = quotes[ sym_pick( "quotes", 0, 2 ) ]; std::vector< string > ops; if ( sym_pick( "operators", 0, 1 ) ) ops = { "=", "==" };
	char_stream a( s.c_str(), d, q, ops ), b( s.c_str() ); b.set_quotation_chars( q ); b.set_delimiter_chars( d ); b.set_operators( ops );
	for ( int i = 0; i < 4; ++i ) { string x = a.get_token(); string y = b.get_token(); CHECK_MSG( x == y && a.token_quoted() == b.token_quoted() && a.good() == b.good() && a.eof() == b.eof(), "the same tokens" ); }
	sym_reach( "end" );
}
