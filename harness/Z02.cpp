// The ZML parser handles any text: it stays inside the text, ends, and either gives a tree or reports an error
#include "sym.h"
#include "xo/container/prop_node.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/system/error_code.h"
#include <sstream>
using namespace xo;

static void parse_both( const string& s )
{
	error_code ec;
	prop_node pn, pn2; bool threw = false, threw2 = false;
	try { pn = parse_zml( s.c_str(), &ec ); } catch ( std::exception& ) { threw = true; }
	try { pn2 = parse_zml( s.c_str() ); } catch ( std::exception& ) { threw2 = true; }
	CHECK_MSG( threw2 == ( threw || ec.bad() ), "errors are either thrown, or stored in the error code when there is one" );
	if ( !threw2 ) CHECK_MSG( pn == pn2, "same tree" );
	if ( ec.bad() ) CHECK_MSG( !ec.message().empty(), "errors have a message" );
	sym_reach( threw2 ? "error" : "ok" );
}

//@ h_bytes quick(n=3) thorough(n=4)
HARNESS( h_bytes )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 4 ) );
	for ( char c : s ) sym_assume( c != '<' ); // no includes
	parse_both( s );
}

//@ h_stream quick(n=3) thorough(n=4)
HARNESS( h_stream )
{
	// text with zeros, read from a stream
	string s = sym_str( "s", (size_t)sym_param( "n", 3 ) );
	for ( char c : s ) sym_assume( c != '<' );
	prop_node pn; error_code ec; bool threw = false;
	std::istringstream is( s );
	prop_node_serializer_zml z( pn, &ec );
	try { z.read_stream( is ); } catch ( std::exception& ) { threw = true; }
	CHECK_MSG( !threw || pn.empty(), "no tree after an exception" );
	CHECK_MSG( pn.count_children() <= s.size(), "tree is not larger than the text" );
	sym_reach( ec.bad() ? "error" : "ok" );
}

//@ h_syntax quick(n=5) thorough(n=6)
HARNESS( h_syntax )
{
	// structural characters only
	size_t n = (size_t)sym_param( "n", 6 );
	string s = sym_str_of( "s", n, "{}[]= a\"" );
	parse_both( s );
}

//@ h_macro quick(n=5) thorough(n=6)
HARNESS( h_macro )
{
	size_t n = (size_t)sym_param( "n", 5 );
	string s = sym_str_of( "s", n, "${}a= @" );
	parse_both( "$a { b = 1 " + s );
}

//@ h_comment quick(n=5) thorough(n=7)
HARNESS( h_comment )
{
	size_t n = (size_t)sym_param( "n", 6 );
	string s = sym_str_of( "s", n, "/*#\na " );
	parse_both( "a = 1 " + s );
}
