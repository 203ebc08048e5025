// Meaning of ZML text: layout, comments, quotes, references and macros
#include "sym.h"
#include "xo/container/prop_node.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/system/error_code.h"
using namespace xo;

static bool word_char( char c ) { return ( c >= 'a' && c <= 'z' ) | ( c >= '0' && c <= '9' ) | ( c == '_' ) | ( c == '.' ) | ( c == '-' ); }
static string word( const char* nm, size_t mx ) { string s = sym_str( nm, mx, 1 ); for ( char c : s ) sym_assume( word_char( c ) ); return s; }
static prop_node leaf( const string& v ) { prop_node pn; pn.set_value( string( v ) ); return pn; }
static bool same( const string& s, const prop_node& want ) { try { return parse_zml( s.c_str() ) == want; } catch ( std::exception& ) { return false; } }
static bool fails( const string& s )
{
	error_code ec; bool threw = false;
	try { parse_zml( s.c_str() ); } catch ( std::exception& ) { threw = true; }
	parse_zml( s.c_str(), &ec );
	return threw && ec.bad();
}

// something between two tokens that has no meaning
static string gap( const char* nm )
{
	switch ( sym_pick( nm, 0, 5 ) ) {
	case 0: return " ";
	case 1: return "\r\n\t";
	case 2: return string( "\n#" ) + sym_str_of( "comment", 2, "a{]\"'=$@ /*" ) + "\n";
	case 3: return string( " // " ) + sym_str_of( "comment", 2, "a}[\"'=$@ #" ) + "\n";
	case 4: return string( " /* " ) + sym_str_of( "comment", 2, "a}[\"=#\n *" ) + " */ ";
	default: return " \v ";
	}
}

//@ h_layout quick(count=2) thorough(count=3)
HARNESS( h_layout )
{
	// insert gaps at one to three places in a fixed document
	const char* tok[] = { "a", "=", "1", "b", "{", "c", "=", "x", "d", "[", "u", "v", "]", "}", "e", "=", "'q r'" };
	int n = 17; int count = (int)sym_param( "count", 2 );
	prop_node d; d.add_child( "", leaf( "u" ) ); d.add_child( "", leaf( "v" ) );
	prop_node b; b.add_child( "c", leaf( "x" ) ); b.add_child( "d", d );
	prop_node want; want.add_child( "a", leaf( "1" ) ); want.add_child( "b", b ); want.add_child( "e", leaf( "q r" ) );
	int first = sym_pick( "first", 0, n );
	string g1 = gap( "gap1" ); string g2 = count > 1 ? gap( "gap2" ) : string( " " ); string g3 = count > 2 ? gap( "gap3" ) : string( " " );
	string s;
	for ( int i = 0; i <= n; ++i ) {
		s += i == first ? g1 : i == first + 1 ? g2 : i == first + 2 ? g3 : string( i ? " " : "" );
		if ( i < n ) s += tok[ i ];
	}
	CHECK_MSG( same( s, want ), "whitespace and comments do not change the tree" );
	sym_reach( "end" );
}

//@ h_forms quick(n=2) thorough(n=3)
HARNESS( h_forms )
{
	// different ways to write the same thing
	size_t n = (size_t)sym_param( "n", 2 );
	string l = word( "l", n ); string v = word( "v", n );
	prop_node want; want.add_child( l, leaf( v ) );
	string q = sym_pick( "quote", 0, 1 ) ? "\"" : "'";
	CHECK( same( l + " = " + v, want ) );
	CHECK( same( l + "=" + v, want ) );
	CHECK( same( l + ": " + v, want ) );
	CHECK( same( q + l + q + "=" + q + v + q, want ) );
	prop_node grp; prop_node g = leaf( "" ); g.add_child( l, leaf( v ) ); grp.add_child( "g", g );
	CHECK( same( "g { " + l + " = " + v + " }", grp ) );
	CHECK( same( "g = {" + l + "=" + v + "}", grp ) );
	CHECK( same( "g: {" + l + ": " + v + "}", grp ) );
	prop_node arr; prop_node a; a.add_child( "", leaf( l ) ); a.add_child( "", leaf( v ) ); arr.add_child( "g", a );
	CHECK( same( "g [ " + l + " " + v + " ]", arr ) );
	CHECK( same( "g = [" + l + "\n" + q + v + q + "]", arr ) );
	prop_node both; prop_node gv = leaf( v ); gv.add_child( l, leaf( v ) ); both.add_child( "g", gv );
	CHECK( same( "g = " + v + " {" + l + "=" + v + "}", both ) );
	prop_node dup; dup.add_child( l, leaf( v ) ); dup.add_child( l, leaf( l ) );
	CHECK_MSG( same( l + "=" + v + "\n" + l + "=" + l, dup ), "duplicate labels are kept, in order" );
	sym_reach( "end" );
}

//@ h_quotes quick(n=3) thorough(n=4)
HARNESS( h_quotes )
{
	// text between quotes is taken literally, except escapes and macros
	string v = sym_str( "v", (size_t)sym_param( "n", 3 ) );
	char q = sym_pick( "quote", 0, 1 ) ? '"' : '\'';
	for ( char c : v ) sym_assume( ( c != 0 ) & ( c != '\\' ) & ( c != '$' ) & ( c != '@' ) & ( c != q ) );
	prop_node want; want.add_child( "a", leaf( v ) ); want.add_child( "b", leaf( "1" ) );
	string s = string( "a = " ) + q + v + q + " b=1";
	CHECK_MSG( same( s, want ), "text between quotes" );
	prop_node arr; prop_node e; e.add_child( "", leaf( v ) ); e.add_child( "", leaf( "x" ) ); arr.add_child( "a", e );
	CHECK_MSG( same( string( "a [" ) + q + v + q + " x]", arr ), "text between quotes in an array" );
	sym_reach( "end" );
}

//@ h_macros quick(n=1) thorough(n=2)
HARNESS( h_macros )
{
	size_t n = (size_t)sym_param( "n", 1 );
	string m = word( "m", n ); string v = word( "v", n ); string w = word( "w", n );
	prop_node want; want.add_child( "a", leaf( v ) );
	CHECK_MSG( same( "$" + m + " = " + v + " a = $" + m, want ), "macro as a value" );
	prop_node inl; inl.add_child( "a", leaf( w + v + w + v ) );
	CHECK_MSG( same( "$" + m + " = " + v + " a = " + w + "\"${" + m + "}\"" + w + "'${" + m + "}'", inl ), "macro inside a value" );
	prop_node grp; prop_node g = leaf( "" ); g.add_child( "x", leaf( v ) ); grp.add_child( "a", g );
	CHECK_MSG( same( "$" + m + " { x = " + v + " } a = $" + m, grp ), "macro with children" );
	prop_node last; last.add_child( "a", leaf( w ) );
	CHECK_MSG( same( "$" + m + " = " + v + " $" + m + " = " + w + " a = $" + m, last ), "last definition is used" );
	// scope
	prop_node sc; prop_node h = leaf( "" ); h.add_child( "y", leaf( w ) ); sc.add_child( "g", h ); sc.add_child( "a", leaf( v ) );
	CHECK_MSG( same( "$" + m + "=" + v + " g { $" + m + "=" + w + " y=$" + m + " } a=$" + m, sc ), "macro is limited to its scope" );
	CHECK_MSG( fails( "g { $" + m + "=" + w + " y=1 } a=$" + m ), "macro is not known after its scope" );
	if ( m != w ) { CHECK_MSG( fails( "$" + m + "=1 a=$" + w ), "undefined macro is an error" ); CHECK_MSG( fails( "$" + m + "=1 a=\"x${" + w + "}\"" ), "undefined inline macro is an error" ); }
	CHECK_MSG( fails( "$" + m + "=1 a=\"x${" + m ), "incomplete inline macro is an error" );
	// nested definitions
	prop_node nst; nst.add_child( "a", g );
	CHECK_MSG( same( "$Z { $" + m + "=" + v + " $Q=1 $R=2 x=$" + m + " } a=$Z", nst ), "macro defined inside a macro" );
	sym_reach( m == w ? "same" : "different" );
}

//@ h_inline quick(n=2) thorough(n=3)
HARNESS( h_inline )
{
	// the text that replaces an inline macro, and the text around it, is taken as it is
	size_t n = (size_t)sym_param( "n", 2 );
	auto text = [&]( const char* nm ) { int k = sym_pick( nm, 0, (int)n ); return sym_str_of( nm, (size_t)k, "${}x" ); };
	string v = text( "v" ); string p = text( "p" ); string q = text( "q" );
	for ( auto* s : { &v, &p, &q } ) sym_assume( s->find( "${" ) == string::npos );
	sym_assume( ( p.empty() || p[ 0 ] != '$' ) && ( v.empty() || v[ 0 ] != '$' || v.size() == 1 ) );
	prop_node want; want.add_child( "a", leaf( p + v + q ) );
	CHECK_MSG( same( "$m=\"" + v + "\" a=\"" + p + "${m}" + q + "\"", want ), "inline macro" );
	prop_node two; two.add_child( "a", leaf( p + v + v + q + "1" ) );
	CHECK_MSG( same( "$m=\"" + v + "\" $k=1 a=\"" + p + "${m}${m}" + q + "${k}\"", two ), "several inline macros" );
	sym_reach( "end" );
}

//@ h_references quick(n=1) thorough(n=2)
HARNESS( h_references )
{
	size_t n = (size_t)sym_param( "n", 1 );
	string l = word( "l", n ); string v = word( "v", n );
	for ( char c : l ) sym_assume( c != '.' );
	for ( char c : v ) sym_assume( c != '.' );
	sym_assume( l != "b" );
	prop_node want; prop_node g = leaf( "" ); g.add_child( l, leaf( v ) ); want.add_child( l, g ); want.add_child( "b", leaf( v ) );
	CHECK_MSG( same( l + " { " + l + "=" + v + " } b = @" + l + "." + l, want ), "reference to an earlier value" );
	prop_node grp; grp.add_child( l, g ); grp.add_child( "b", g );
	CHECK_MSG( same( l + " { " + l + "=" + v + " } b = @" + l, grp ), "reference to an earlier group" );
	CHECK_MSG( fails( "b = @" + l ), "reference to something that is not there" );
	prop_node kept; kept.add_child( l, leaf( v ) ); kept.add_child( "b", leaf( v ) ); kept.add_child( "b", leaf( v ) );
	CHECK_MSG( same( l + "=" + v + " b = @" + l + " b = @" + l, kept ), "what is referred to is kept" );
	sym_reach( "end" );
}

//@ h_errors quick(n=2) thorough(n=3)
HARNESS( h_errors )
{
	size_t n = (size_t)sym_param( "n", 2 );
	string l = word( "l", n ); string v = word( "v", n );
	CHECK_MSG( fails( l + " { x = " + v ), "missing }" );
	CHECK_MSG( fails( l + " [ " + v ), "missing ]" );
	CHECK_MSG( fails( l + " " + v ), "missing =" );
	CHECK_MSG( fails( "{ " + l + " = " + v + " }" ), "group without label" );
	CHECK_MSG( fails( l + "=" + v + " /* " + l ), "comment without end" );
	CHECK_MSG( fails( l ), "label without value" );
	// line number in the message
	int lines = sym_pick( "lines", 0, 3 );
	error_code ec; parse_zml( ( string( (size_t)lines, '\n' ) + l + " ?" ).c_str(), &ec );
	CHECK_MSG( ec.message().find( "line " + to_str( lines + 1 ) + ":" ) != string::npos, "line number of the error" );
	sym_reach( "end" );
}
