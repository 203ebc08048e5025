// typed indices, spans, proxies, arithmetic value types, pair math, overload, cloning
#include "sym.h"
#include "xo/system/assert.h"
#include "xo/xo_types.h"
#include "xo/utility/index.h"
#include "xo/container/prop_node.h"
#include "xo/utility/proxy.h"
#include "xo/utility/arithmetic.h"
#include "xo/utility/pair_math.h"
#include "xo/utility/overload.h"
#include "xo/utility/variant_cast.h"
#include "xo/utility/memory_tools.h"
#include <vector>
#include <variant>
using namespace xo;

struct tag {}; struct tag2 {};

template< typename I > void check_index()
{
	using idx = index_class< tag, I >;
	I none = I( ~I( 0 ) );
	I a = sym< I >( "a" ); I b = sym< I >( "b" );
	idx x( a ), y( b );
	CHECK_MSG( !idx() && idx().value() == none, "no index by default" );
	CHECK_MSG( bool( x ) == ( a != none ) && x.value() == a, "valid unless it is the reserved value" );
	CHECK_MSG( ( x < y ) == ( a < b ) && ( x <= y ) == ( a <= b ) && ( x > y ) == ( a > b ) && ( x >= y ) == ( a >= b ) && ( x == y ) == ( a == b ) && ( x != y ) == ( a != b ), "ordered like their values" );
	idx c( x ); CHECK_MSG( c == x && x.value() == a, "copy" );
	idx m( std::move( x ) ); CHECK_MSG( m.value() == a && !x, "a moved index is reset" );
	c = std::move( y ); CHECK_MSG( c.value() == b && !y, "a moved index is reset" );
	idx p( a ); auto q = p++; CHECK_MSG( q.value() == a && p.value() == I( a + 1 ), "post increment" ); ++p; CHECK_MSG( p.value() == I( a + 2 ), "increment" );
	if ( b <= none - a ) CHECK_MSG( ( idx( a ) + b ).value() == I( a + b ), "offset" );
	if ( b <= a ) CHECK_MSG( ( idx( a ) - b ).value() == I( a - b ), "offset" );
	index_class< tag2, I > t2( m ); CHECK_MSG( t2.value() == a, "conversion keeps the value" );
	m.reset(); CHECK_MSG( !m, "reset" );
}

//@ h_index quick()
HARNESS( h_index )
{
	if ( sym_pick( "wide", 0, 1 ) ) check_index< uint32 >(); else check_index< unsigned char >();
	using idx = index_class< tag >;
	size_t s = sym< size_t >( "s" ); int i = sym_int( "i" );
	CHECK_MSG( idx( s ).value() == ( s < 0xffffffffull ? uint32( s ) : 0xffffffffu ), "an index that does not fit is no index" );
	CHECK_MSG( bool( idx( i ) ) == ( i >= 0 ) && ( i < 0 || idx( i ).value() == uint32( i ) ), "a negative index is no index" );
	sym_reach( "end" );
}

//@ h_span quick(n=4) thorough(n=6)
HARNESS( h_span )
{
	using idx = index_class< tag >; using span = index_span< tag >;
	uint32 b = sym< uint32 >( "b" ); uint32 n = (uint32)sym_pick( "n", 0, (int)sym_param( "n", 4 ) ); sym_assume( b < 0xfffffff0u );
	span sp( idx( b ), idx( b + n ) );
	CHECK_MSG( sp.size() == n && sp.empty() == ( n == 0 ), "size" );
	uint32 k = 0; for ( auto i = sp.begin(); i != sp.end() && k <= n; ++i, ++k ) CHECK_MSG( i.value() == b + k, "all indices in order" );
	CHECK_MSG( k == n, "all indices in order" );
	std::vector< int > v( n, 0 ); const auto& c = v;
	CHECK_MSG( idx::end( v ).value() == n && idx::zero().value() == 0 && idx::zero().iter( v ) == v.begin() && idx::end( c ).iter( c ) == c.end() && ( n == 0 || idx::back( v ).value() == n - 1 ), "indices of a container" );
	sym_reach( "end" );
}

static indexed_set< string, uint32 > g_names;
namespace xo { template<> struct proxy_data< string, uint32 > {
	static const string& get_value( uint32 i ) { return g_names[ i ]; }
	static uint32 get_index( const string& s ) { return g_names.get_or_add( s ); }
}; }

static indexed_set< int, uint32 > g_ints;
namespace xo { template<> struct proxy_data< int, uint32 > {
	static const int& get_value( uint32 i ) { return g_ints[ i ]; }
	static uint32 get_index( const int& s ) { return g_ints.get_or_add( s ); }
}; }

//@ h_proxy_tree quick()
HARNESS( h_proxy_tree )
{
	g_ints = indexed_set< int, uint32 >(); int a = sym_int( "a", -99, 99 ); int b = sym_int( "b", -9, 9 ); proxy< int > p( a ), q( b ); prop_node pn = to_prop_node( p ); int x = 0; CHECK_MSG( from_prop_node( pn, x ) && x == a, "stored by value" );
	CHECK_MSG( from_prop_node( pn, q ) && q == p && q.get() == a, "restored" ); string t = sym_str( "t", 1 ); prop_node bad; bad.set_value( string( t ) ); int y = 0; bool ok = from_prop_node( bad, y ); CHECK_MSG( from_prop_node( bad, q ) == ok && q.get() == ( ok ? y : a ), "restored if the value can be" ); sym_reach( ok ? "value" : "refused" );
}

//@ h_proxy quick(n=3) thorough(n=4)
HARNESS( h_proxy )
{
	g_names = indexed_set< string, uint32 >();
	int n = (int)sym_param( "n", 3 ); std::vector< string > s; std::vector< proxy< string > > p;
	for ( int i = 0; i < n; ++i ) { s.push_back( sym_str( "s", 1 ) ); p.push_back( proxy< string >( s.back() ) ); }
	for ( int i = 0; i < n; ++i ) {
		CHECK_MSG( p[ i ].get() == s[ i ] && (const string&)p[ i ] == s[ i ], "a proxy gives the value it was made from" );
		for ( int j = 0; j < i; ++j ) CHECK_MSG( ( p[ i ] == p[ j ] ) == ( s[ i ] == s[ j ] ) && ( p[ i ] != p[ j ] ) == ( s[ i ] != s[ j ] ) && ( p[ i ].index() == p[ j ].index() ) == ( s[ i ] == s[ j ] ), "proxies are equal if their values are" );
	}
	CHECK_MSG( proxy< string >().get().empty(), "default value" );
	int a = sym_pick( "a", 0, n - 1 ), b = ( a + 1 ) % n; p[ a ] = s[ b ]; CHECK_MSG( p[ a ] == p[ b ] && p[ a ].get() == s[ b ], "assignment of a value" );
	p[ a ].set( s[ a ] ); CHECK_MSG( p[ a ].get() == s[ a ] && p[ b ].get() == s[ b ], "set" );
	sym_reach( "end" );
}

struct val : arithmetic< double, val > { using arithmetic::arithmetic; };
//@ h_arithmetic real quick()
HARNESS( h_arithmetic )
{
	double a = sym_real( "a" ); double b = sym_real( "b" ); double s = sym_real( "s" ); sym_assume( s != 0 );
	val x( a ), y( b );
	CHECK_MSG( sym_req( ( x + y ).value, a + b ) && sym_req( ( x - y ).value, a - b ) && sym_req( ( -x ).value, -a ) && sym_req( ( x * y ).value, a * b ), "sum, difference, product and negation" );
	CHECK_MSG( sym_req( ( x * s ).value, a * s ) && sym_req( ( s * x ).value, a * s ) && sym_req( ( x / s ).value * s, a ), "scaling" );
	{ val z( s ); CHECK_MSG( sym_req( ( a / z ).value * s, a ), "division by a value" ); }
	val z = x; z += y; CHECK_MSG( sym_req( z.value, a + b ), "+=" ); z -= x; CHECK_MSG( sym_req( z.value, b ), "-=" ); z *= s; CHECK_MSG( sym_req( z.value, b * s ), "*=" ); z /= s; CHECK_MSG( sym_req( z.value, b ), "/=" );
	val& r = ( z += x ); CHECK_MSG( &r == &z, "gives itself" );
	CHECK_MSG( ( x > y ) == ( a > b ) && ( x < y ) == ( a < b ) && ( x >= y ) == ( a >= b ) && ( x <= y ) == ( a <= b ) && ( x == y ) == ( a == b ) && ( x != y ) == ( a != b ), "comparison" );
	CHECK_MSG( xo::abs( x ).value >= 0 && ( sym_req( xo::abs( x ).value, a ) || sym_req( xo::abs( x ).value, -a ) ) && val().value == 0, "absolute value" );
	xo::pair< double, double > p{ a, b }, q{ s, 1 }; auto u = p + q, d = p - q;
	CHECK_MSG( sym_req( u.first, a + s ) && sym_req( u.second, b + 1 ) && sym_req( d.first, a - s ) && sym_req( d.second, b - 1 ), "pairs are added per element" );
	p += q; CHECK_MSG( sym_req( p.first, a + s ) && sym_req( p.second, b + 1 ), "pairs are added per element" ); p -= q; p -= q; CHECK_MSG( sym_req( p.first, a - s ) && sym_req( p.second, b - 1 ), "pairs are subtracted per element" );
	sym_reach( "end" );
}

//@ h_variant quick()
HARNESS( h_variant )
{
	int i = sym_int( "i" ); std::string s = sym_str( "s", 1 );
	std::variant< int, std::string > v; bool t = sym_pick( "text", 0, 1 ); if ( t ) v = s; else v = i;
	auto f = overload( [&]( const std::string& x ) { return x == s ? 1 : 0; }, [&]( int x ) { return x == i ? 2 : 0; } );
	CHECK_MSG( std::visit( f, v ) == ( t ? 1 : 2 ), "the matching function is called" );
	auto w = variant_cast< std::variant< bool*, std::string, int > >( v );
	CHECK_MSG( w.index() == ( t ? 1 : 2 ) && ( t ? std::get< 1 >( w ) == s : std::get< 2 >( w ) == i ), "the value is kept when the variant is converted" );
	auto p = std::make_unique< int >( i ); auto q = clone( p ); CHECK_MSG( *q == i && q.get() != p.get(), "a clone is a copy" );
	std::vector< std::unique_ptr< int > > vp; vp.push_back( std::move( p ) ); vp.push_back( std::make_unique< int >( 3 ) );
	auto vq = clone( vp ); CHECK_MSG( vq.size() == 2 && *vq[ 0 ] == i && *vq[ 1 ] == 3 && vq[ 0 ] != vp[ 0 ], "a clone is a copy" );
	int* np = sym_pick( "null", 0, 1 ) ? nullptr : q.get(); int* got = nullptr; bool th = throws( [&] { got = &dereference_or_throw( np, "null" ); } );
	CHECK_MSG( th == !np && got == np, "dereference_or_throw" );
	sym_reach( "end" );
}
