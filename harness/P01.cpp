// prop_node: equality, copying and assignment
#include "sym.h"
#include "xo/container/prop_node.h"
using namespace xo;

struct tree { string v; std::vector< std::pair< string, tree > > c; };
static bool same( const tree& a, const tree& b ) { bool r = a.v == b.v && a.c.size() == b.c.size(); for ( size_t i = 0; r && i < a.c.size(); ++i ) r = a.c[ i ].first == b.c[ i ].first && same( a.c[ i ].second, b.c[ i ].second ); return r; }
static prop_node make( const tree& t ) { prop_node pn; pn.set_value( string( t.v ) ); for ( auto& c : t.c ) pn.add_child( c.first, make( c.second ) ); return pn; }
static bool is( const prop_node& pn, const tree& t )
{
	if ( pn.peek_str() != t.v || pn.size() != t.c.size() ) return false;
	for ( size_t i = 0; i < t.c.size(); ++i ) if ( pn.at( i ).first != t.c[ i ].first || !is( pn.at( i ).second, t.c[ i ].second ) ) return false;
	return true;
}
static tree any( int depth, int width )
{
	tree t; t.v = sym_str( "v", 1 );
	int n = depth ? sym_pick( "children", 0, width ) : 0;
	for ( int i = 0; i < n; ++i ) { string k = sym_str( "k", 1 ); tree c = any( depth - 1, width - 1 ); t.c.push_back( { k, c } ); }
	return t;
}
static size_t layers( const tree& t ) { size_t d = 0; for ( auto& c : t.c ) { size_t l = layers( c.second ) + 1; if ( l > d ) d = l; } return d; }
static size_t total( const tree& t ) { size_t n = t.c.size(); for ( auto& c : t.c ) n += total( c.second ); return n; }

//@ h_equal quick(depth=1,width=2; depth=2,width=1) thorough(depth=2,width=2)
HARNESS( h_equal )
{
	int d = (int)sym_param( "depth", 1 ), w = (int)sym_param( "width", 2 );
	tree a = any( d, w ); tree b = any( d, w );
	prop_node p = make( a ), q = make( b );
	CHECK_MSG( is( p, a ) && is( q, b ), "children are stored in order" );
	CHECK_MSG( ( p == q ) == same( a, b ), "equal exactly when values, keys and children are" );
	CHECK_MSG( ( p != q ) == !same( a, b ), "!=" );
	CHECK_MSG( ( q == p ) == ( p == q ) && p == p, "symmetric and reflexive" );
	CHECK_MSG( p.empty() == ( a.v.empty() && a.c.empty() ) && p.has_value() == !a.v.empty() && p.size() == a.c.size(), "empty, has_value, size" );
	CHECK_MSG( p.count_layers() == layers( a ) && p.count_children() == total( a ), "count_layers, count_children" );
	bool arr = true; for ( auto& c : a.c ) arr = arr && c.first.empty();
	CHECK_MSG( p.is_array() == arr, "an array has no keys" );
	sym_reach( same( a, b ) ? "equal" : "different" );
}

//@ h_copy quick(depth=2,width=2) thorough(depth=2,width=3)
HARNESS( h_copy )
{
	int d = (int)sym_param( "depth", 2 ), w = (int)sym_param( "width", 2 );
	tree a = any( d, w ); prop_node p = make( a );
	prop_node q( p ), r, s;
	r = p; s.set( p );
	CHECK_MSG( q == p && r == p && s == p, "copies are equal" );
	// change the copies, the original must stay the same
	string v = sym_str( "new", 1, 1 );
	q.set_value( "x" + v ); q.add_child( v );
	if ( r.size() ) { r.at( 0 ).second.set_value( "x" + v ); r.at( 0 ).first += "y"; }
	s.clear();
	CHECK_MSG( is( p, a ), "changing a copy does not change the original" );
	CHECK_MSG( q != p && s.empty() && ( a.c.empty() || r != p ), "the copy has changed" );
	prop_node m( std::move( p ) );
	CHECK_MSG( is( m, a ), "moving keeps the tree" );
	r = std::move( m );
	CHECK_MSG( is( r, a ), "move assignment keeps the tree" );
	r = *&r;
	CHECK_MSG( is( r, a ), "self assignment" );
	sym_reach( a.c.empty() ? "leaf" : "tree" );
}

//@ h_value quick(n=2) thorough(n=4)
HARNESS( h_value )
{
	string v = sym_str( "v", (size_t)sym_param( "n", 2 ) ); string k = sym_str( "k", 1 );
	prop_node a( v ), b, c( string( v ).c_str() ), d = prop_node{ { k, prop_node( v ) }, { "b", a } };
	b.set_value( v );
	CHECK( a == b && a.get_str() == v && a.peek_str() == v && a.size() == 0 );
	CHECK( c.get_str() == v.substr( 0, v.find( '\0' ) ) );
	CHECK( d.size() == 2 && d.get_key( 0 ) == k && d.get_child( 0 ) == a && d[ 1 ] == b && !d.has_value() );
	d.set_value( v );
	CHECK_MSG( d.get_str() == v && d.size() == 2, "setting a value keeps the children" );
	d = v;
	CHECK_MSG( d == a, "assignment of a value removes the children" );
	d.add_children( 3, k, v );
	CHECK( d.size() == 3 && d.get_key( 2 ) == k && d.get_child( 2 ) == a && d.count_key( k ) == 3 );
	d.clear();
	CHECK( d.empty() && d == prop_node() );
	sym_reach( "end" );
}
