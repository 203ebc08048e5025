// XML files
#include "sym.h"
#include "xo/container/prop_node.h"
#include "xo/serialization/prop_node_serializer_xml.h"
#include <sstream>
using namespace xo;

static prop_node leaf( const string& v ) { prop_node pn; pn.set_value( string( v ) ); return pn; }
static string name( const char* nm, size_t mx ) { string s = sym_str( nm, mx, 1 ); for ( char c : s ) sym_assume( ( ( c >= 'a' ) & ( c <= 'z' ) ) | ( c == '_' ) | ( ( c >= 'A' ) & ( c <= 'Z' ) ) ); return s; }
// text that does not start with space (space at the start of a value is not significant)
static string value( const char* nm, size_t mx, size_t mn = 0 )
{
	string s = sym_str( nm, mx, mn ); for ( char c : s ) sym_assume( c != 0 );
	if ( !s.empty() ) { char c = s[ 0 ]; sym_assume( ( c != ' ' ) & ( ( c < 9 ) | ( c > 13 ) ) ); }
	return s;
}
static string write( const prop_node& pn ) { std::ostringstream os; prop_node_serializer_xml( pn ).write_stream( os ); return os.str(); }
static prop_node read( const string& s ) { prop_node pn; std::istringstream is( s ); prop_node_serializer_xml z( pn ); z.read_stream( is ); return pn; }

//@ h_value quick(n=4) thorough(n=5)
HARNESS( h_value )
{
	prop_node pn; pn.add_child( name( "l", 1 ), leaf( value( "v", (size_t)sym_param( "n", 3 ) ) ) );
	CHECK_MSG( read( write( pn ) ) == pn, "name and value survive writing and reading" );
	sym_reach( "end" );
}

//@ h_tree quick(n=1) thorough(n=2)
HARNESS( h_tree )
{
	size_t n = (size_t)sym_param( "n", 1 );
	string l1 = name( "l1", n ); string v1 = value( "v1", n, 1 ); string l2 = name( "l2", n ); string v2 = value( "v2", n, 1 );
	prop_node g; g.add_child( l1, leaf( v1 ) ); g.add_child( l2, leaf( v2 ) ); g.add_child( l2, leaf( v1 ) );
	int depth = sym_pick( "depth", 0, 2 );
	for ( int i = 0; i < depth; ++i ) { prop_node p; p.add_child( "x", leaf( v1 ) ); p.add_child( l1, g ); p.add_child( "y", leaf( v2 ) ); g = p; }
	prop_node pn; pn.add_child( l2, g );
	CHECK_MSG( read( write( pn ) ) == pn, "the tree survives writing and reading" );
	sym_reach( "end" );
}

//@ h_attributes quick(n=2) thorough(n=3)
HARNESS( h_attributes )
{
	size_t n = (size_t)sym_param( "n", 2 );
	string v = value( "v", n ); string w = value( "w", n ); string u = value( "u", 1 );
	for ( char c : u ) sym_assume( ( c != '\'' ) & ( c != '&' ) );
	for ( char c : v ) sym_assume( ( c != '"' ) & ( c != '&' ) );
	for ( char c : w ) sym_assume( ( c != '<' ) & ( c != '&' ) );
	prop_node want; prop_node g; g.add_child( "a", leaf( v ) ); g.add_child( "u", leaf( u ) ); g.add_child( "b", leaf( w ) ); want.add_child( "r", g );
	CHECK_MSG( read( "<!-- c --><r a=\"" + v + "\" u='" + u + "'><b>" + w + "</b><!-- d --></r>" ) == want, "attributes and elements become children" );
	sym_reach( "end" );
}
