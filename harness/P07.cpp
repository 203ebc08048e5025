// trees as text: printing, logging and reporting
#include "sym.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/system/log_sink.h"
#include <sstream>
#include <vector>
using xo::prop_node; using std::string; using xo::log::level;

struct record { level l; string s; };
struct test_sink : xo::log::sink { test_sink() : sink( level::trace, {} ) {} void hande_log_message( level l, const string& s ) override { got.push_back( { l, s } ); } std::vector<record> got; };

// a tree of up to n nodes, of which the structure is explored and the values are symbolic
static void build( prop_node& pn, int& n, int depth, bool array )
{
	static const char* keys[] = { "a", "bcd", "" };
	while ( n > 0 && sym_pick( "child", 0, 1 ) ) { --n; auto& c = pn.add_child( array ? "" : keys[ sym_pick( "key", 0, 2 ) ] ); string v = sym_str( "value", 1 ); c.set_value( string( v ) ); if ( depth < 2 ) build( c, n, depth + 1, sym_pick( "array", 0, 1 ) ); }
}
// without marking any node as accessed
static const prop_node& child( const prop_node& pn, size_t i ) { return pn.at( i ).second; }
static string spaces( size_t n ) { return string( n, ' ' ); }
static size_t width( const prop_node& pn, size_t depth ) { size_t w = 0; for ( size_t i = 0; i < pn.size(); ++i ) { size_t a = 2 * depth + pn.at( i ).first.size(), b = width( child( pn, i ), depth + 1 ); w = a > w ? a : w; w = b > w ? b : w; } return w; }
static void lines( const prop_node& pn, size_t depth, size_t w, std::vector<string>& out )
{
	for ( size_t i = 0; i < pn.size(); ++i ) {
		const prop_node& c = child( pn, i ); string s = spaces( 2 * depth ) + pn.at( i ).first; if ( !c.peek_str().empty() || c.size() == 0 ) s += spaces( w - s.size() ) + " = " + c.peek_str(); out.push_back( s ); lines( c, depth + 1, w, out );
	}
}
static string one( const prop_node& pn )
{
	string s = pn.peek_str(); if ( !pn.size() ) return s; bool arr = true; for ( size_t i = 0; i < pn.size(); ++i ) arr &= pn.at( i ).first.empty(); if ( !s.empty() ) s += " "; s += arr ? "[" : "{";
	for ( size_t i = 0; i < pn.size(); ++i ) s += ( arr ? " " : " " + pn.at( i ).first + " = " ) + one( child( pn, i ) ); return s + ( arr ? " ]" : " }" );
}
static void unused( const prop_node& pn, size_t depth, string& s ) { for ( size_t i = 0; i < pn.size(); ++i ) { const prop_node& c = child( pn, i ); if ( c.count_unaccessed() ) { s += spaces( 2 * depth ) + pn.at( i ).first; if ( !c.is_accessed() ) s += " = " + c.peek_str() + " *"; s += "\n"; } unused( c, depth + 1, s ); } }
static void mark( const prop_node& pn ) { for ( size_t i = 0; i < pn.size(); ++i ) { if ( sym_pick( "use", 0, 1 ) ) child( pn, i ).access(); mark( child( pn, i ) ); } }

// every child is a line, with its value in a column
//@ h_lines quick(n=3) thorough(n=4)
HARNESS( h_lines )
{
	prop_node pn; int n = (int)sym_param( "n", 3 ); build( pn, n, 0, false ); pn.set_accessed_recursively( false ); std::vector<string> w; size_t col = width( pn, 0 ); lines( pn, 0, col, w ); string want; for ( auto& s : w ) want += s + "\n"; size_t u = pn.count_unaccessed();
	CHECK_MSG( to_str( pn ) == want, "printed" ); CHECK_MSG( xo::prop_node_align_width( pn ) == col, "column" );
	test_sink s; xo::log_prop_node( pn ); CHECK_MSG( s.got.size() == w.size(), "every child is logged" ); for ( size_t i = 0; i < w.size(); ++i ) CHECK_MSG( s.got[ i ].s == w[ i ] && s.got[ i ].l == level::info, "logged" );
	CHECK_MSG( xo::make_str_from_prop_node( pn ) == one( pn ), "as one line" );
	CHECK_MSG( to_str( pn ) == want && pn.count_unaccessed() <= u, "printing changes nothing" );
	sym_reach( w.empty() ? "empty" : "lines" );
}

// keys that start with a level are logged at that level
//@ h_levels quick() thorough()
HARNESS( h_levels )
{
	int l = sym_int( "level", 1, 6 ); string v = sym_str( "value", 1 ), k = string( "@" ) + char( '0' + l ) + "key"; prop_node pn; pn.add_child( k ).set_value( string( v ) ); pn.add_child( "other key" ).add_child( k ); test_sink s; xo::log_prop_node( pn );
	CHECK_MSG( s.got.size() == 3 && s.got[ 0 ].l == level( l ) && s.got[ 1 ].l == level::info && s.got[ 2 ].l == level( l ), "level" ); CHECK_MSG( s.got[ 0 ].s == "key" + spaces( 6 ) + " = " + v && s.got[ 1 ].s == "other key" && s.got[ 2 ].s == "  key" + spaces( 4 ) + " = ", "text" ); sym_reach( "end" );
}

// what was not used is reported, at the given level, and reporting does not count as use
//@ h_unused quick(n=3) thorough(n=4)
HARNESS( h_unused )
{
	prop_node pn; int n = (int)sym_param( "n", 3 ); build( pn, n, 0, false ); pn.set_accessed_recursively( false ); mark( pn ); string want; unused( pn, 0, want ); size_t u = pn.count_unaccessed();
	int l = sym_int( "level", 1, 6 ); bool log_first = sym_pick( "log first", 0, 1 );
	for ( int i = 0; i < 2; ++i ) {
		if ( ( i == 0 ) == log_first ) { test_sink s; xo::log_unaccessed( pn, level( l ) ); string t; for ( auto& r : s.got ) { CHECK_MSG( r.l == level( l ), "level" ); t += r.s + "\n"; } CHECK_MSG( t == want, "logged" ); }
		else CHECK_MSG( xo::to_str_unaccessed( pn ) == want, "reported" );
		CHECK_MSG( pn.count_unaccessed() == u, "reporting is no use" );
	}
	sym_reach( want.empty() ? "all used" : "not used" );
}
