// Replacing, case conversion and joining of string_tools
#include "sym.h"
#include "xo/string/string_tools.h"
#include "xo/string/stack_string.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/angle.h"
using namespace xo;

//@ h_replace quick(n=6,r=2) thorough(n=8,r=3)
HARNESS( h_replace )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 5 ) );
	string f = sym_str( "f", 2, 1 ), r = sym_str( "r", (size_t)sym_param( "r", 2 ) );
	string ref;
	for ( size_t i = 0; i < s.size(); ) {
		bool m = i + f.size() <= s.size(); for ( size_t k = 0; k < f.size() && m; ++k ) m = m & ( s[ i + k ] == f[ k ] );
		if ( m ) { ref += r; i += f.size(); } else ref += s[ i++ ];
	}
	const string cs = s;
	CHECK_MSG( replace_str( cs, f, r ) == ref, "every occurrence is replaced once, left to right" );
	CHECK_MSG( cs == s, "the source is unchanged" );
	CHECK_MSG( replace_str( string( s ), f, r ) == ref, "replacing in a temporary" );
	replace_str( s, f, r );
	CHECK_MSG( s == ref, "replacing in place" );
	sym_reach( "end" );
}

//@ h_chars quick(n=5) thorough(n=7)
HARNESS( h_chars )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 4 ) );
	char a = sym<char>( "a" ), b = sym<char>( "b" );
	string t = s; replace_char( t, a, b );
	string u = replace_char( string( s ), a, b );
	CHECK( t.size() == s.size() && u == t );
	for ( size_t i = 0; i < s.size(); ++i ) CHECK_MSG( t[ i ] == ( s[ i ] == a ? b : s[ i ] ), "replace_char" );
	string lo = to_lower( s ), up = to_upper( s );
	CHECK( lo.size() == s.size() && up.size() == s.size() );
	for ( size_t i = 0; i < s.size(); ++i ) {
		char c = s[ i ];
		CHECK_MSG( lo[ i ] == ( c >= 'A' && c <= 'Z' ? char( c + 32 ) : c ), "to_lower" );
		CHECK_MSG( up[ i ] == ( c >= 'a' && c <= 'z' ? char( c - 32 ) : c ), "to_upper" );
	}
	sym_reach( "end" );
}

//@ h_join quick(n=2) thorough(n=3)
HARNESS( h_join )
{
	size_t n = (size_t)sym_param( "n", 2 );
	string a = sym_str( "a", n ), b = sym_str( "b", n ), c = sym_str( "c", n ), d = sym_str( "d", 2 );
	string ref = a;
	if ( !b.empty() ) { if ( !ref.empty() ) ref += d; ref += b; }
	if ( !c.empty() ) { if ( !ref.empty() ) ref += d; ref += c; }
	CHECK_MSG( concat_str( { a, b, c }, d ) == ref, "concat_str of a list skips empty parts" );
	CHECK_MSG( concat_str( std::vector<string>{ a, b, c }, d ) == ref, "concat_str of a container skips empty parts" );
	char ch = sym<char>( "ch" );
	CHECK_MSG( concat_str( a, b, ch ) == ( a.empty() ? b : b.empty() ? a : a + ch + b ), "concat_str of two strings" );
	string s = a; append_str( s, b, d );
	bool ends = d.size() <= a.size() && a.compare( a.size() - d.size(), d.size(), d ) == 0;
	CHECK_MSG( s == ( a.empty() || ends ? a + b : a + d + b ), "append_str adds the delimiter only when needed" );
	sym_reach( "end" );
}

//@ h_stack quick(k=4) thorough(k=6)
HARNESS( h_stack )
{
	// push and pop in any order: the text is the concatenation of what is pushed
	stack_string st; vector<string> ref;
	auto all = [&] { string s; for ( auto& x : ref ) s += x; return s; };
	switch ( sym_choice( 3, "set" ) ) { case 1: st.set( "ab" ); ref = { "ab" }; break; case 2: st.push_back( "x" ); st.set( "" ); break; default: break; }
	int k = (int)sym_param( "k", 4 );
	for ( int i = 0; i < k; ++i ) {
		if ( sym_choice( 2, "op" ) && !ref.empty() ) { st.pop_back(); ref.pop_back(); }
		else { string s = sym_str( "s", 2 ); st.push_back( s ); ref.push_back( s ); }
		CHECK( st.str() == all() );
	}
	sym_reach( "end" );
}

//@ h_copy quick(n=5) thorough(n=8)
HARNESS( h_copy )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 5 ) );
	size_t cap = sym_choice( 8, "cap" );
	char* b = new char[ cap ? cap : 1 ];
	size_t n = copy_str( s, b, cap );
	if ( cap == 0 ) CHECK_MSG( n == 0, "no room: nothing copied" );
	else {
		CHECK_MSG( n == ( s.size() < cap - 1 ? s.size() : cap - 1 ), "copy_str copies as much as fits" );
		for ( size_t i = 0; i < n; ++i ) CHECK( b[ i ] == s[ i ] );
		CHECK_MSG( b[ n ] == 0, "copy_str terminates the buffer" );
	}
	delete[] b;
	sym_reach( "end" );
}

//@ h_format quick()
HARNESS( h_format )
{
	// all of the text, whatever its length
	string s( 200 + sym_choice( 3, "len" ) * 50, 'x' );
	int w = sym_pick( "w", -1, 3 ) * 100;
	int v = sym_int( "v", -99, 99 );
	string r = stringf( "%*d:%s", w, v, s.c_str() );
	string want = to_str( v ); size_t a = (size_t)( w < 0 ? -w : w ); string pad( a > want.size() ? a - want.size() : 0, 32 ); want = w < 0 ? want + pad : pad + want; CHECK_MSG( r == want + ":" + s, "complete" );
	string u( (size_t)sym_pick( "size", 254, 257 ), 'y' ); CHECK_MSG( stringf( "%s", u.c_str() ) == u, "complete" );
	string t = stringf( "%d", v );
	int back = 0; bool neg = t[ 0 ] == '-'; for ( size_t i = neg; i < t.size(); ++i ) back = back * 10 + ( t[ i ] - '0' );
	CHECK( ( neg ? -back : back ) == v );
	sym_reach( "end" );
}

// letters with accents (Latin-1) become plain letters, everything else stays
//@ h_special quick(n=2) thorough(n=3)
HARNESS( h_special )
{
	string s = sym_str_n( "s", (size_t)sym_param( "n", 2 ) ), w; 
	for ( unsigned char c : s ) {
		const char* r = c == 0xc0 || c == 0xc1 ? "A" : c == 0xc4 ? "Ae" : c == 0xd9 || c == 0xdb || c == 0xdc ? "U" : c == 0xe0 || c == 0xe1 ? "a" : c == 0xe4 ? "ae" : c == 0xe7 ? "c" : c >= 0xe8 && c <= 0xeb ? "e" : c == 0xef ? "i" : c == 0xf1 ? "n" : c == 0xf3 || c == 0xf6 ? "o" : c == 0xf9 || c == 0xfb ? "u" : c == 0xfc ? "ue" : nullptr;
		if ( r ) w += r; else w += (char)c;
	}
	replace_special_chars( s ); CHECK_MSG( s == w, "letters with accents become plain letters, everything else stays" ); sym_reach( "end" );
}

//@ h_vectors quick() thorough()
HARNESS( h_vectors )
{
	static const double v[] = { 0, -1.5, 12.25, 1234.125 }; static const char* w[] = { "0.000", "-1.500", "12.250", "1234.125" }; static const char* d[] = { "0.00", "-1.50", "12.25", "1234.12" };
	int a = sym_pick( "a", 0, 3 ); int b = sym_pick( "b", 0, 3 ); int c = sym_pick( "c", 0, 3 ); auto wide = [&]( const char* t ) { string s = t; return s.size() < 7 ? string( 7 - s.size(), ' ' ) + s : s; };
	CHECK_MSG( vec3_str( vec3d( v[ a ], v[ b ], v[ c ] ) ) == string( w[ a ] ) + " " + w[ b ] + " " + w[ c ], "vector" );
	CHECK_MSG( vec3_str( vec3f( v[ a ], v[ b ], v[ c ] ) ) == string( w[ a ] ) + " " + w[ b ] + " " + w[ c ], "vector" );
	CHECK_MSG( quat_str( quatd( v[ b ], v[ a ], v[ c ], v[ 1 ] ) ) == wide( w[ b ] ) + "\t" + wide( w[ a ] ) + "\t" + wide( w[ c ] ) + "\t" + wide( w[ 1 ] ), "quaternion" );
	CHECK_MSG( vec3deg_str( vec3_< degreed >( degreed( v[ a ] ), degreed( v[ b ] ), degreed( v[ c ] ) ) ) == wide( d[ a ] ) + "\t" + wide( d[ b ] ) + "\t" + wide( d[ c ] ), "angles" );
	sym_reach( "end" );
}
