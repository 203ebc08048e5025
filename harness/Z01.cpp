// Writing a tree as ZML and reading it back gives an identical tree
#include "sym.h"
#include "xo/container/prop_node.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include <sstream>
using namespace xo;

// any text without zeros, except references and macros, which are resolved when reading
static string value( const char* nm, size_t mx, size_t mn = 0 )
{
	string s = sym_str( nm, mx, mn );
	for ( char c : s ) sym_assume( ( c != '$' ) & ( c != 0 ) );
	if ( !s.empty() ) sym_assume( s[ 0 ] != '@' );
	return s;
}
// a label starts with a visible ASCII character
static string label( const char* nm, size_t mx )
{
	string s = sym_str( nm, mx, 1 );
	for ( char c : s ) sym_assume( c != 0 );
	sym_assume( ( s[ 0 ] > 32 ) & ( s[ 0 ] < 127 ) & ( s[ 0 ] != '$' ) );
	return s;
}
static void round_trip( const prop_node& pn, int concise )
{
	std::ostringstream os;
	if ( concise ) prop_node_serializer_zml_concise( pn ).write_stream( os ); else prop_node_serializer_zml( pn ).write_stream( os );
	string text = os.str();
	prop_node back; bool ok = true;
	try { back = parse_zml( text.c_str() ); } catch ( ... ) { ok = false; }
	CHECK_MSG( ok, "written text can be read" );
	CHECK_MSG( back == pn, "tree is identical after writing and reading" );
	std::istringstream is( text ); prop_node again;
	prop_node_serializer_zml rd( again ); rd.read_stream( is );
	CHECK_MSG( again == pn, "tree is identical when read from a stream" );
}
static prop_node leaf( const string& v ) { prop_node pn; pn.set_value( string( v ) ); return pn; }

//@ h_value quick(n=3) thorough(n=4)
HARNESS( h_value )
{
	int concise = sym_pick( "concise", 0, 1 );
	prop_node pn; pn.add_child( "k", leaf( value( "v", (size_t)sym_param( "n", 2 ) ) ) ); pn.add_child( "l", leaf( "x" ) );
	round_trip( pn, concise );
	sym_reach( concise ? "concise" : "normal" );
}

//@ h_label quick(n=3) thorough(n=4)
HARNESS( h_label )
{
	int concise = sym_pick( "concise", 0, 1 );
	int group = sym_pick( "group", 0, 1 );
	prop_node pn; prop_node c = leaf( group ? "" : "v" ); if ( group ) c.add_child( "x", leaf( "y" ) );
	pn.add_child( label( "l", (size_t)sym_param( "n", 2 ) ), c );
	round_trip( pn, concise );
	sym_reach( concise ? "concise" : "normal" );
}

//@ h_pairs quick(n=1) thorough(n=2)
HARNESS( h_pairs )
{
	int concise = sym_pick( "concise", 0, 1 );
	size_t n = (size_t)sym_param( "n", 1 );
	prop_node pn;
	string l1 = label( "l1", 1 ); string v1 = value( "v1", n ); string l2 = label( "l2", 1 ); string v2 = value( "v2", n );
	pn.add_child( l1, leaf( v1 ) ); pn.add_child( l2, leaf( v2 ) );
	round_trip( pn, concise );
	sym_reach( concise ? "concise" : "normal" );
}

//@ h_nested quick(n=1) thorough(n=2)
HARNESS( h_nested )
{
	// groups that have a value and children, in several levels
	int concise = sym_pick( "concise", 0, 1 );
	int deep = sym_pick( "deep", 0, 2 );
	size_t n = (size_t)sym_param( "n", 1 );
	string v1 = value( "v1", n ); string v2 = value( "v2", n );
	prop_node c = leaf( v1 ); c.add_child( "x", leaf( v2 ) ); c.add_child( "y", leaf( "" ) );
	for ( int i = 0; i < deep; ++i ) { prop_node p = leaf( i ? v1 : string() ); p.add_child( "g", c ); p.add_child( "h", leaf( v2 ) ); c = p; }
	prop_node pn; pn.add_child( "first", leaf( "1" ) ); pn.add_child( "second", c ); pn.add_child( "first", leaf( "2" ) );
	round_trip( pn, concise );
	sym_reach( concise ? "concise" : "normal" );
}

//@ h_array quick(n=1) thorough(n=2)
HARNESS( h_array )
{
	// arrays of values, of groups and of arrays; short ones are written on one line
	int concise = sym_pick( "concise", 0, 1 );
	int kind = sym_pick( "kind", 0, 2 );
	int count = sym_pick( "count", 0, 1 ) ? 7 : 2;
	size_t n = (size_t)sym_param( "n", 1 );
	string v1 = value( "v1", n ); string v2 = value( "v2", n );
	prop_node a;
	for ( int i = 0; i < count; ++i ) {
		prop_node e = leaf( kind == 0 ? ( i & 1 ? v2 : v1 ) : string() );
		if ( kind == 1 ) { e.add_child( "x", leaf( v1 ) ); e.add_child( "y", leaf( v2 ) ); }
		if ( kind == 2 ) { e.add_child( "", leaf( v1 ) ); e.add_child( "", leaf( v2 ) ); }
		a.add_child( "", e );
	}
	prop_node pn; pn.add_child( "a", a ); pn.add_child( "b", leaf( v2 ) );
	round_trip( pn, concise );
	sym_reach( concise ? "concise" : "normal" );
}

//@ h_long quick() thorough()
HARNESS( h_long )
{
	// text around the length at which a group no longer fits on one line
	int len = sym_pick( "len", 0, 12 );
	string v = value( "v", 1, 1 );
	prop_node g; g.add_child( "x", leaf( string( size_t( 30 + len ), 'a' ) + v ) ); g.add_child( "y", leaf( string( 30, 'b' ) ) );
	prop_node pn; pn.add_child( "group", g ); pn.add_child( "last", leaf( v ) );
	round_trip( pn, 0 );
	sym_reach( "end" );
}
