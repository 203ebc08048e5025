// vectors and matrices
#include "sym.h"
#include <vector>
#include <sstream>
#include "xo/system/assert.h"
#include "xo/geometry/vec.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/vec4.h"
#include "xo/geometry/scale3.h"
#include "xo/geometry/dynvec.h"
#include "xo/geometry/dynmat.h"
using namespace xo;
static vec3d v3( const char* n ) { double x = sym_real( n ); double y = sym_real( n ); double z = sym_real( n ); return vec3d( x, y, z ); }
static vec4d v4( const char* n ) { double x = sym_real( n ); double y = sym_real( n ); double z = sym_real( n ); double w = sym_real( n ); return vec4d( x, y, z, w ); }
static bool eq( const vec3d& v, double x, double y, double z ) { int r = sym_req( v.x, x ); r &= sym_req( v.y, y ); r &= sym_req( v.z, z ); return r; }
static bool eq( const vec3d& a, const vec3d& b ) { return eq( a, b.x, b.y, b.z ); }
static bool eq( const vec4d& v, double x, double y, double z, double w ) { int r = sym_req( v.x, x ); r &= sym_req( v.y, y ); r &= sym_req( v.z, z ); r &= sym_req( v.w, w ); return r; }

//@ h_vec3 real quick()
HARNESS( h_vec3 )
{
	vec3d a = v3( "a" ), b = v3( "b" ); double s = sym_real( "s" ); int n = sym_pick( "n", 1, 4 );
	CHECK_MSG( eq( a + b, a.x + b.x, a.y + b.y, a.z + b.z ) && eq( a - b, a.x - b.x, a.y - b.y, a.z - b.z ) && eq( -a, -a.x, -a.y, -a.z ), "sum, difference, negation" );
	vec3d c = a; vec3d& r = ( c += b ); CHECK_MSG( &r == &c && eq( c, a + b ), "+=" ); vec3d& r2 = ( c -= a ); CHECK_MSG( &r2 == &c && eq( c, b ), "-=" );
	CHECK_MSG( eq( s * a, s * a.x, s * a.y, s * a.z ) && eq( a * s, s * a ), "scaling" ); c = a; c *= s; CHECK_MSG( eq( c, s * a ), "scaling" );
	CHECK_MSG( eq( ( a / size_t( n ) ) * n, a ), "division by a count" ); c = a; c /= size_t( n ); CHECK_MSG( eq( c, a / size_t( n ) ), "division by a count" );
	if ( s != 0 ) { CHECK_MSG( eq( ( a / s ) * s, a ), "division" ); c = a; c /= s; CHECK_MSG( eq( c, a / s ), "division" ); }
	CHECK_MSG( eq( multiply( a, b ), a.x * b.x, a.y * b.y, a.z * b.z ) && eq( scaled( a, b ), multiply( a, b ) ), "multiplication of elements" );
	c = a; c *= b; CHECK_MSG( eq( c, multiply( a, b ) ), "multiplication of elements" ); c = a; CHECK_MSG( &scale( c, b ) == &c && eq( c, multiply( a, b ) ), "multiplication of elements" );
	if ( b.x != 0 && b.y != 0 && b.z != 0 ) { vec3d d = a / b; CHECK_MSG( eq( multiply( d, b ), a ), "division of elements" ); c = a; c /= b; CHECK_MSG( eq( c, d ), "division of elements" ); CHECK_MSG( eq( multiply( s / b, b ), s, s, s ), "inverse of elements" ); }
	sym_reach( "end" );
}

//@ h_products real quick()
HARNESS( h_products )
{
	vec3d a = v3( "a" ), b = v3( "b" ), c = v3( "c" );
	CHECK_MSG( sym_req( dot_product( a, b ), a.x * b.x + a.y * b.y + a.z * b.z ), "dot product" );
	vec3d x = cross_product( a, b );
	CHECK_MSG( eq( x, a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x ) && sym_req( dot_product( x, a ), 0 ) && sym_req( dot_product( x, b ), 0 ), "the cross product is perpendicular" );
	CHECK_MSG( eq( cross_product( vec3d::unit_x(), vec3d::unit_y() ), vec3d::unit_z() ) && eq( cross_product( b, a ), -x ), "the cross product is right handed" );
	CHECK_MSG( sym_req( squared_length( a ), dot_product( a, a ) ) && sym_req( squared_length( x ), squared_length( a ) * squared_length( b ) - squared( dot_product( a, b ) ) ), "squared length" );
	double l = length( a ); CHECK_MSG( l >= 0 && sym_req( l * l, squared_length( a ) ), "length" );
	double d = distance( a, b ); CHECK_MSG( d >= 0 && sym_req( d * d, squared_distance( a, b ) ) && sym_req( squared_distance( a, b ), squared( a.x - b.x ) + squared( a.y - b.y ) + squared( a.z - b.z ) ), "distance" );
	CHECK_MSG( sym_req( manhattan_length( a ), ( a.x < 0 ? -a.x : a.x ) + ( a.y < 0 ? -a.y : a.y ) + ( a.z < 0 ? -a.z : a.z ) ), "Manhattan length" );
	vec3d m = xo::abs( a ); CHECK_MSG( m.x >= 0 && m.y >= 0 && m.z >= 0 && sym_req( m.x * m.x, a.x * a.x ) && sym_req( m.y * m.y, a.y * a.y ) && sym_req( m.z * m.z, a.z * a.z ), "absolute value" );
	sym_reach( "end" );
}

//@ h_normalize real quick()
HARNESS( h_normalize )
{
	vec3d a = v3( "a" ), b = v3( "b" ); sym_assume( squared_length( a ) > 0.01 );
	vec3d n = a; double l = normalize( n );
	CHECK_MSG( l > 0 && sym_req( l * l, squared_length( a ) ) && eq( n * l, a ), "normalizing keeps the direction and gives the length" );
	CHECK_MSG( sym_req( squared_length( n ), 1 ), "the result has length one" );
	CHECK_MSG( eq( normalized( a ), n ), "normalized" ); auto dl = direction_length( a ); CHECK_MSG( eq( dl.first, n ) && sym_req( dl.second, l ), "direction and length" );
	vec3d z; CHECK_MSG( normalize( z ) == 0 && z.is_null(), "a null vector stays a null vector" );
	vec3d p = projection( b, a );
	CHECK_MSG( eq( cross_product( p, a ), 0, 0, 0 ), "a projection is parallel to the vector" ); CHECK_MSG( sym_req( dot_product( b - p, a ), 0 ), "the remainder is perpendicular" );
	CHECK_MSG( eq( projected_xy( a ), a.x, a.y, 0 ) && eq( projected_xz( a ), a.x, 0, a.z ) && eq( projected_yz( a ), 0, a.y, a.z ), "projection on planes" );
	sym_reach( "end" );
}

//@ h_access real quick()
HARNESS( h_access )
{
	vec3d a = v3( "a" ), b = v3( "b" ); double lo = sym_real( "lo" ); double hi = sym_real( "hi" ); sym_assume( lo <= hi );
	CHECK_MSG( a[ 0 ] == a.x && a[ 1 ] == a.y && a[ 2 ] == a.z && a.size() == 3 && a.end() - a.begin() == 3 && *a.begin() == a.x, "elements" );
	bool same = a.x == b.x && a.y == b.y && a.z == b.z; CHECK_MSG( ( a == b ) == same && ( a != b ) == !same, "comparison" );
	CHECK_MSG( a.is_null() == ( a.x == 0 && a.y == 0 && a.z == 0 ) && xo::equal( a, a ), "is_null" );
	vec3d c = a; vec3d& r = clamp( c, lo, hi );
	for ( int i = 0; i < 3; ++i ) CHECK_MSG( c[ i ] == ( a[ i ] < lo ? lo : a[ i ] > hi ? hi : a[ i ] ), "clamp" );
	CHECK_MSG( &r == &c, "clamp" );
	CHECK_MSG( eq( vec3d::zero(), 0, 0, 0 ) && eq( vec3d::one(), 1, 1, 1 ) && eq( vec3d::unit_x(), 1, 0, 0 ) && eq( vec3d::unit_y(), 0, 1, 0 ) && eq( vec3d::unit_z(), 0, 0, 1 ) && eq( vec3d::diagonal( lo ), lo, lo, lo ), "constants" );
	CHECK_MSG( eq( vec3d::neg_unit_x(), -1, 0, 0 ) && eq( vec3d::neg_unit_y(), 0, -1, 0 ) && eq( vec3d::neg_unit_z(), 0, 0, -1 ), "constants" );
	for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) CHECK_MSG( vec3d::axis( i )[ j ] == ( i == j ), "axis" );
	c.set( b.x, b.y, b.z ); CHECK_MSG( eq( c, b ), "set" ); c.clear(); CHECK_MSG( c.is_null(), "clear" ); vec3f f( a ); CHECK_MSG( sym_req( f.x, a.x ) && sym_req( f.y, a.y ) && sym_req( f.z, a.z ), "conversion" );
	sym_reach( "end" );
}

//@ h_vec4 real quick()
HARNESS( h_vec4 )
{
	vec4d a = v4( "a" ), b = v4( "b" ); double s = sym_real( "s" ); sym_assume( s != 0 );
	CHECK_MSG( eq( a + b, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ) && eq( a - b, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w ) && eq( -a, -a.x, -a.y, -a.z, -a.w ), "sum, difference, negation" );
	vec4d c = a; c += b; CHECK_MSG( eq( c, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ), "+=" ); c -= a; CHECK_MSG( eq( c, b.x, b.y, b.z, b.w ), "-=" );
	CHECK_MSG( eq( s * a, s * a.x, s * a.y, s * a.z, s * a.w ) && eq( a * s, s * a.x, s * a.y, s * a.z, s * a.w ), "scaling" ); c = a; c *= s; CHECK_MSG( eq( c, s * a.x, s * a.y, s * a.z, s * a.w ), "scaling" );
	c /= s; CHECK_MSG( eq( c, a.x, a.y, a.z, a.w ), "division" ); CHECK_MSG( eq( ( a / s ) * s, a.x, a.y, a.z, a.w ), "division" );
	double l = a.length(); CHECK_MSG( l >= 0 && sym_req( l * l, a.squared_length() ) && sym_req( a.squared_length(), a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w ), "length" );
	CHECK_MSG( a[ 0 ] == a.x && a[ 1 ] == a.y && a[ 2 ] == a.z && a[ 3 ] == a.w && a.is_null() == ( a.x == 0 && a.y == 0 && a.z == 0 && a.w == 0 ), "elements" );
	CHECK_MSG( eq( vec4d::zero(), 0, 0, 0, 0 ) && eq( vec4d::unit_x(), 1, 0, 0, 0 ) && eq( vec4d::unit_y(), 0, 1, 0, 0 ) && eq( vec4d::unit_z(), 0, 0, 1, 0 ) && eq( vec4d::unit_w(), 0, 0, 0, 1 ), "constants" );
	sym_reach( "end" );
}

//@ h_scale3 real quick()
HARNESS( h_scale3 )
{
	vec3d v = v3( "v" ), x = v3( "s" ), y = v3( "t" ); sym_assume( x.x != 0 && x.y != 0 && x.z != 0 ); scale3d s( x.x, x.y, x.z ), t( y.x, y.y, y.z );
	CHECK_MSG( eq( s * v, multiply( x, v ) ) && eq( v * s, multiply( x, v ) ) && eq( s * t, multiply( x, y ) ) && eq( ( s * t ) * v, s * ( t * v ) ), "scaling" );
	vec3d c = v; c *= s; CHECK_MSG( eq( c, multiply( x, v ) ), "scaling" ); c /= s; CHECK_MSG( eq( c, v ), "division" ); CHECK_MSG( eq( ( v / s ) * s, v ), "division" );
	scale3d u = t; u *= s; CHECK_MSG( eq( u, multiply( x, y ) ), "scaling" ); u /= s; CHECK_MSG( eq( u, y ) && eq( ( t / s ) * s, y ), "division" );
	CHECK_MSG( scale3d().is_one() && eq( scale3d(), 1, 1, 1 ) && eq( scale3d( x.x ), x.x, x.x, x.x ) && s.is_one() == ( x.x == 1 && x.y == 1 && x.z == 1 ), "is_one" ); u.reset(); CHECK_MSG( u.is_one(), "reset" );
	sym_reach( "end" );
}

//@ h_dynvec real quick(n=3) thorough(n=5)
HARNESS( h_dynvec )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) ); dynvecd a( n ), b( n, 0.0 ); for ( int i = 0; i < n; ++i ) { a[ i ] = sym_real( "a" ); b[ i ] = sym_real( "b" ); }
	double s = sym_real( "s" ); sym_assume( s != 0 ); dynvecd p = a + b, m = a - b, g = -a, x = a * s, y = s * a, z = a / s, c = a, d = a, e = a, f = a;
	c += b; d -= b; e *= s; f /= s; double dot = 0, sq = 0, dist = 0; bool same = true, null = true;
	CHECK_MSG( a.size() == (size_t)n && p.size() == (size_t)n && a.empty() == ( n == 0 ), "size" );
	for ( int i = 0; i < n; ++i ) {
		CHECK_MSG( sym_req( p[ i ], a[ i ] + b[ i ] ) && sym_req( m[ i ], a[ i ] - b[ i ] ) && sym_req( g[ i ], -a[ i ] ) && sym_req( x[ i ], s * a[ i ] ) && sym_req( y[ i ], x[ i ] ) && sym_req( z[ i ] * s, a[ i ] ), "element wise operations" );
		CHECK_MSG( sym_req( c[ i ], p[ i ] ) && sym_req( d[ i ], m[ i ] ) && sym_req( e[ i ], x[ i ] ) && sym_req( f[ i ], z[ i ] ), "element wise assignment" );
		dot += a[ i ] * b[ i ]; sq += a[ i ] * a[ i ]; dist += ( a[ i ] - b[ i ] ) * ( a[ i ] - b[ i ] ); same = same && a[ i ] == b[ i ]; null = null && a[ i ] == 0;
	}
	CHECK_MSG( sym_req( dot_product( a, b ), dot ) && sym_req( a.squared_length(), sq ), "dot product and squared length" );
	CHECK_MSG( ( a == b ) == same && ( a != b ) == !same && a.is_null() == null, "comparison" );
	double l = a.length(); CHECK_MSG( l >= 0 && sym_req( l * l, sq ), "length" ); double q = distance( a, b ); CHECK_MSG( q >= 0 && sym_req( q * q, dist ), "distance" );
	if ( sq > 0.01 ) { dynvecd u = normalized( a ); for ( int i = 0; i < n; ++i ) CHECK_MSG( sym_req( u[ i ] * l, a[ i ] ), "normalized" ); }
	dynvecd w( n + 1 ); bool t = throws( [&] { w + a; } ), t2 = throws( [&] { w -= a; } ), t3 = throws( [&] { dot_product( w, a ); } ), t4 = throws( [&] { (void)( w == a ); } ); CHECK_MSG( t && t2 && t3 && t4, "different sizes are refused" );
	sym_reach( "end" );
}

//@ h_dynmat real quick(n=2) thorough(n=3)
HARNESS( h_dynmat )
{
	int mx = (int)sym_param( "n", 2 ); int c = sym_pick( "cols", 1, mx ), r = sym_pick( "rows", 1, mx ), c2 = sym_pick( "cols", 1, mx ), r2 = sym_pick( "rows", 1, mx );
	double init = sym_real( "init" ); dynmat< double > m( c, r, init ); const auto& cm = m; CHECK_MSG( m.cols() == (size_t)c && m.rows() == (size_t)r && !m.empty(), "size" );
	std::vector< double > d; for ( int i = 0; i < c; ++i ) for ( int j = 0; j < r; ++j ) { CHECK_MSG( cm( i, j ) == init, "initial value" ); m( i, j ) = sym_real( "m" ); d.push_back( cm( i, j ) ); }
	for ( int i = 0; i < c; ++i ) for ( int j = 0; j < r; ++j ) CHECK_MSG( cm( i, j ) == d[ i * r + j ], "every element has its own place" );
	dynvecd v( c ); for ( int i = 0; i < c; ++i ) v[ i ] = sym_real( "v" );
	dynvecd x = m * v; CHECK_MSG( x.size() == (size_t)r, "size of the product" );
	for ( int j = 0; j < r; ++j ) { double s = 0; for ( int i = 0; i < c; ++i ) s += d[ i * r + j ] * v[ i ]; CHECK_MSG( sym_req( x[ j ], s ), "product of matrix and vector" ); }
	bool t = throws( [&] { m * dynvecd( c + 1 ); } ); CHECK_MSG( t, "a vector of the wrong size is refused" );
	m.resize( c2, r2 ); CHECK_MSG( m.cols() == (size_t)c2 && m.rows() == (size_t)r2 && m.end() - m.begin() == c2 * r2 && m.cend() - m.cbegin() == c2 * r2, "size after resize" );
	for ( int i = 0; i < c2; ++i ) for ( int j = 0; j < r2; ++j ) CHECK_MSG( cm( i, j ) == ( i < c && j < r ? d[ i * r + j ] : 0 ), "elements stay at their place, others are zero" );
	m.clear(); CHECK_MSG( m.empty() && m.cols() == 0 && m.rows() == 0, "clear" );
	sym_reach( "end" );
}

//@ h_text quick()
HARNESS( h_text )
{
	int x = sym_int( "x", -99, 99 ); int y = sym_int( "y", -9, 9 ); int z = sym_int( "z", 0, 9 ); vec3_< int > v( x, y, z ), w, u, a, g, k;
	prop_node pn; pn.set_value( to_str( v ) ); CHECK_MSG( from_prop_node( pn, w ) && w == v, "restored from text" );
	CHECK_MSG( from_prop_node( to_prop_node( v ), u ) && u == v, "restored from a group" );
	prop_node pa; pa.add_value( x ); pa.add_value( y ); pa.add_value( z ); CHECK_MSG( from_prop_node( pa, a ) && a == v, "read from an array" );
	prop_node pg; pg.set( "z", z ); pg.set( "x", x ); pg.set( "y", y ); CHECK_MSG( from_prop_node( pg, g ) && g == v, "read from a group in any order" );
	prop_node two; two.set_value( to_str( x ) + " " + to_str( y ) ); CHECK_MSG( !from_prop_node( two, k ) && !from_prop_node( prop_node(), k ), "other text is refused" );
	scale3_< int > s; CHECK_MSG( from_prop_node( pa, s ) && s == v, "scale from an array" ); CHECK_MSG( from_prop_node( pg, s ) && s == v, "scale from a group" );
	prop_node one; one.set_value( x ); CHECK_MSG( from_prop_node( one, s ) && s.x == x && s.y == x && s.z == x, "uniform scale" ); CHECK_MSG( !from_prop_node( prop_node(), s ), "other text is refused" );
	sym_reach( "end" );
}

//@ h_stream quick()
HARNESS( h_stream )
{
	int n = sym_pick( "n", 0, 3 ); dynvec< int > v( (size_t)n ), w( (size_t)n ); string want; for ( int i = 0; i < n; ++i ) { v[ i ] = sym_int( "v", -9, 9 ); want += ( i ? " " : "" ) + to_str( v[ i ] ); }
	std::ostringstream o; o << v; CHECK_MSG( o.str() == want, "elements with a space between" ); std::istringstream i( o.str() ); i >> w; CHECK_MSG( w == v, "read as written" ); sym_reach( "end" );
}

//@ h_nan quick()
HARNESS( h_nan )
{
	double x = sym_real( "x" ); double y = sym_real( "y" ); double z = sym_real( "z" ); double w = sym_real( "w" ); bool n = std::isnan( x ) || std::isnan( y ) || std::isnan( z );
	CHECK_MSG( vec3d( x, y, z ).is_nan() == n && vec3f( x, y, z ).is_nan() == n, "a vector is not a number if one of its elements is not" ); CHECK_MSG( quatd( w, x, y, z ).is_nan() == ( n || std::isnan( w ) ), "quaternion" );
	CHECK_MSG( vec3d( x, y, z ).is_null() == ( x == 0 && y == 0 && z == 0 ), "null vector" ); sym_reach( n ? "nan" : "numbers" );
}
