// ini files
#include "sym.h"
#include "xo/container/prop_node.h"
#include "xo/serialization/prop_node_serializer_ini.h"
#include "xo/system/error_code.h"
#include <sstream>
using namespace xo;

static prop_node leaf( const string& v ) { prop_node pn; pn.set_value( string( v ) ); return pn; }
// keys and values as ini files can represent them: one line, no space at the ends; keys without '=' that are no comment or group
static string item( const char* nm, size_t mx, size_t mn, bool key )
{
	string s = sym_str( nm, mx, mn );
	for ( char c : s ) sym_assume( ( c != 0 ) & ( c != '\n' ) & ( c != '\r' ) & ( !key | ( c != '=' ) ) );
	auto sp = []( char c ) { return ( c == ' ' ) | ( ( c >= 9 ) & ( c <= 13 ) ); };
	if ( !s.empty() ) { sym_assume( !sp( s[ 0 ] ) & !sp( s[ s.size() - 1 ] ) ); if ( key ) sym_assume( ( s[ 0 ] != ';' ) & ( s[ 0 ] != '[' ) ); }
	return s;
}
static string write( const prop_node& pn ) { std::ostringstream os; prop_node_serializer_ini( pn ).write_stream( os ); return os.str(); }
static prop_node read( const string& s ) { prop_node pn; std::istringstream is( s ); prop_node_serializer_ini z( pn ); z.read_stream( is ); return pn; }

//@ h_round_trip quick(n=2) thorough(n=3)
HARNESS( h_round_trip )
{
	size_t n = (size_t)sym_param( "n", 1 );
	string k1 = item( "k1", n, 1, true ); string v1 = item( "v1", n + 1, 1, false );
	string k2 = item( "k2", n, 1, true ); string v2 = item( "v2", n, 0, false );
	string g1 = item( "g1", n, 1, true );
	sym_assume( k1 != k2 );
	// order: 0 main item first, 1 main item between groups, 2 main item last
	int order = sym_pick( "order", 0, 2 );
	prop_node a; a.add_child( k1, leaf( v1 ) ); a.add_child( k2, leaf( v2 ) );
	prop_node b; b.add_child( k2, leaf( v1 ) );
	prop_node pn, want;
	want.add_child( k1, leaf( v1 ) ); want.add_child( g1, a ); want.add_child( "other", b );
	if ( order == 0 ) pn.add_child( k1, leaf( v1 ) );
	pn.add_child( g1, a );
	if ( order == 1 ) pn.add_child( k1, leaf( v1 ) );
	pn.add_child( "other", b );
	if ( order == 2 ) pn.add_child( k1, leaf( v1 ) );
	CHECK_MSG( read( write( pn ) ) == want, "groups, keys and values survive writing and reading" );
	sym_reach( "end" );
}

//@ h_values quick(n=4) thorough(n=6)
HARNESS( h_values )
{
	string k = item( "k", (size_t)sym_param( "n", 3 ), 1, true ); string v = item( "v", (size_t)sym_param( "n", 3 ), 1, false );
	prop_node pn; pn.add_child( k, leaf( v ) );
	CHECK_MSG( read( write( pn ) ) == pn, "key and value survive writing and reading" );
	string pad = sym_pick( "pad", 0, 1 ) ? " " : "\t";
	CHECK_MSG( read( ";" + v + "\n\n" + k + pad + "=" + pad + v + pad ) == pn, "comments, empty lines and space around the = are ignored" );
	prop_node last; last.add_child( k, leaf( v ) );
	CHECK_MSG( read( k + "=old\n" + k + "=" + v + "\n" ) == last, "the last value of a key counts" );
	sym_reach( "end" );
}

//@ h_bytes quick(n=5) thorough(n=7)
HARNESS( h_bytes )
{
	// arbitrary text is read or refused
	string s = sym_str( "s", (size_t)sym_param( "n", 4 ) );
	prop_node pn; bool ok = true;
	try { pn = read( s ); } catch ( std::exception& ) { ok = false; }
	if ( ok ) CHECK_MSG( pn.count_layers() <= 2 && pn.count_children() <= s.size(), "at most two layers" );
	bool eq = false, comment = !s.empty() && s[ 0 ] == ';', nl = false;
	for ( char c : s ) { eq |= c == '='; nl |= ( c == '\n' ) | ( c == 0 ); }
	if ( !nl && !s.empty() && !comment && !eq && s[ 0 ] != '[' ) CHECK_MSG( !ok, "a line without = is an error" );
	sym_reach( ok ? "ok" : "error" );
}

//@ h_long quick()
HARNESS( h_long )
{
	// lines around the maximum length
	int len = 1019 + sym_pick( "len", 0, 8 );
	char c = sym<char>( "c" ); sym_assume( ( c > 32 ) & ( c != '=' ) );
	string v( (size_t)len, c );
	error_code ec; prop_node pn; std::istringstream is( "k=" + v + "\n" );
	prop_node_serializer_ini z( pn, &ec ); z.read_stream( is );
	if ( ec.good() ) CHECK_MSG( pn.get<string>( "k" ) == v, "long values are read completely" );
	else CHECK_MSG( len + 2 >= 1023, "only lines that are too long are refused" );
	sym_reach( ec.good() ? "ok" : "too long" );
}
