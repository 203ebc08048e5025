// prop_node: merge, append and insert
#include "sym.h"
#include "xo/container/prop_node.h"
using namespace xo;

struct tree { string v; std::vector< std::pair< string, tree > > c; };
static prop_node make( const tree& t ) { prop_node pn; pn.set_value( string( t.v ) ); for ( auto& c : t.c ) pn.add_child( c.first, make( c.second ) ); return pn; }
static tree any( int depth, int width )
{
	tree t; t.v = sym_str( "v", 1 );
	int n = depth ? sym_pick( "children", 0, width ) : 0;
	for ( int i = 0; i < n; ++i ) { string k = sym_str_n( "k", 1 ); tree c = any( depth - 1, width ); t.c.push_back( { k, c } ); }
	return t;
}
static void merge( tree& a, const tree& b, bool overwrite )
{
	if ( overwrite ) a.v = b.v;
	for ( auto& o : b.c ) {
		size_t i = 0; while ( i < a.c.size() && a.c[ i ].first != o.first ) ++i;
		if ( i < a.c.size() ) merge( a.c[ i ].second, o.second, overwrite ); else a.c.push_back( o );
	}
}

//@ h_merge quick(depth=1,width=2; depth=2,width=1; depth=3,width=1) thorough(depth=2,width=1; depth=1,width=3)
HARNESS( h_merge )
{
	int d = (int)sym_param( "depth", 1 ), w = (int)sym_param( "width", 2 );
	bool over = sym_pick( "overwrite", 0, 1 );
	tree a = any( d, w ); tree b = any( d, w );
	prop_node p = make( a ), q = make( b ), q0 = q;
	if ( over || sym_pick( "explicit", 0, 1 ) ) p.merge( q, over ); else p.merge( q );
	tree m = a; merge( m, b, over );
	CHECK_MSG( p == make( m ), "existing children are merged, others are added; values change only when overwriting" );
	CHECK_MSG( q == q0, "the source of a merge is unchanged" );
	prop_node again = p; again.merge( q, over );
	CHECK_MSG( again == p, "merging twice changes nothing" );
	sym_reach( over ? "overwrite" : "keep" );
}

//@ h_append quick(width=2) thorough(width=3)
HARNESS( h_append )
{
	int w = (int)sym_param( "width", 2 );
	tree a = any( 1, w ); tree b = any( 1, w );
	prop_node p = make( a ), q = make( b );
	tree m = a; for ( auto& c : b.c ) m.c.push_back( c );
	prop_node r = p; auto it = r.append( q );
	CHECK_MSG( r == make( m ) && q == make( b ), "append adds copies of the children at the end" );
	CHECK_MSG( it - r.begin() == (long)a.c.size(), "append returns the first new child" );
	prop_node s = p; s.append( std::move( q ) );
	CHECK_MSG( s == make( m ), "append of a temporary" );
	prop_node src = make( b );
	size_t at = (size_t)sym_pick( "at", 0, (int)a.c.size() );
	prop_node t = p; auto ti = t.insert( t.begin() + (long)at, src.cbegin(), src.cend() );
	tree n = a; n.c.insert( n.c.begin() + (long)at, b.c.begin(), b.c.end() );
	CHECK_MSG( t == make( n ), "insert puts the children at the position" );
	CHECK( ti - t.begin() == (long)at );
	if ( at < a.c.size() ) {
		prop_node e = p; e.erase( e.cbegin() + (long)at );
		tree x = a; x.c.erase( x.c.begin() + (long)at );
		CHECK_MSG( e == make( x ), "erase removes one child" );
	}
	sym_reach( "end" );
}
