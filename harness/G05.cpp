// lines, segments, paths and curves
#include "sym.h"
#include <cstring>
#include <vector>
#include "xo/geometry/line.h"
#include "xo/geometry/segment.h"
#include "xo/geometry/path_alg.h"
#include "xo/geometry/vec3.h"
#include "xo/system/assert.h"
#include <algorithm>
#include "xo/geometry/catmull_rom.h"
#include "xo/shape/shape_tools.h"
using namespace xo;
// with the parameter cases, directions are picked from a few: queries over real numbers are then easy
static const double dirs[][ 3 ] = { { 1, 2, -2 }, { 0, 3, 4 }, { -2, 0, 1 }, { 2, 1, 0.5 } };
static vec3d v3( const char* n ) { if ( sym_param( "cases", 0 ) && strchr( "adeb", n[ 0 ] ) && !n[ 1 ] ) { int k = sym_pick( n, 0, 3 ); return vec3d( dirs[ k ][ 0 ], dirs[ k ][ 1 ], dirs[ k ][ 2 ] ); } double x = sym_real( n ); double y = sym_real( n ); double z = sym_real( n ); return vec3d( x, y, z ); }
static vec3f v3f( const char* n ) { float x = (float)sym_real( n ); float y = (float)sym_real( n ); float z = (float)sym_real( n ); return vec3f( x, y, z ); }
template< typename V > static bool eq( const V& a, const V& b ) { int r = sym_req( a.x, b.x ); r &= sym_req( a.y, b.y ); r &= sym_req( a.z, b.z ); return r; }

//@ h_lines real quick(cases=0; cases=1)
HARNESS( h_lines )
{
	vec3d p = v3( "p" ), d = v3( "d" ), r = v3( "r" ), e = v3( "e" ); double a = dot_product( d, d ), b = dot_product( d, e ), c = dot_product( e, e ); sym_assume( a * c - b * b > 0.001 );
	auto [ x, y ] = closest_points( lined( p, d ), lined( r, e ) );
	CHECK_MSG( eq( cross_product( x - p, d ), vec3d() ), "the first point is on the first line" );
	CHECK_MSG( eq( cross_product( y - r, e ), vec3d() ), "the second point is on the second line" );
	CHECK_MSG( sym_req( dot_product( x - y, d ), 0 ) && sym_req( dot_product( x - y, e ), 0 ), "the connection is perpendicular to both lines" );
	sym_reach( "end" );
}

//@ h_parallel real quick(cases=0; cases=1)
HARNESS( h_parallel )
{
	vec3d p = v3( "p" ), d = v3( "d" ), r = v3( "r" ); double k = sym_real( "k" ); sym_assume( squared_length( d ) > 0.001 && ( k > 0.1 || k < -0.1 ) ); vec3d e = k * d;
	auto [ x, y ] = closest_points( lined( p, d ), lined( r, e ) );
	CHECK_MSG( eq( cross_product( x - p, d ), vec3d() ) && eq( cross_product( y - r, d ), vec3d() ), "the points are on the lines" );
	CHECK_MSG( sym_req( dot_product( x - y, d ), 0 ), "the connection is perpendicular to both lines" );
	double t = distance( lined( p, d ), lined( r, e ) ); CHECK_MSG( t >= 0 && sym_req( t * t, squared_distance( x, y ) ), "distance" );
	sym_reach( "end" );
}

//@ h_segment real quick(cases=0; cases=1)
HARNESS( h_segment )
{
	vec3d p = v3( "p" ), a = v3( "a" ), b = v3( "b" ); vec3d v = b - a; double c1 = dot_product( p - a, v ), c2 = squared_length( v );
	double d = distance( p, segmentd( a, b ) );
	if ( c1 <= 0 ) CHECK_MSG( sym_req( d * d, squared_distance( p, a ) ), "distance to the begin" );
	else if ( c1 >= c2 ) CHECK_MSG( sym_req( d * d, squared_distance( p, b ) ), "distance to the end" );
	else CHECK_MSG( sym_req( d * d * c2, squared_distance( p, a ) * c2 - c1 * c1 ), "distance to the line" );
	sym_reach( "end" );
}

//@ h_plane real quick(cases=0; cases=1)
HARNESS( h_plane )
{
	vec3d o = v3( "o" ), d = v3( "d" ), p = v3( "p" ); vec3f n = v3f( "n" ); int k = sym_pick( "k", 0, 2 );
	quatd q = k == 0 ? quatd() : k == 1 ? quatd( 0.5, 0.5, -0.5, 0.5 ) : quatd( 0, 0, 1, 0 ); vec3d w = q * vec3d( n ); double s = dot_product( w, d ); sym_assume( s > 0.001 || s < -0.001 );
	vec3d x = intersection( lined( o, d ), plane( n ), transformd( p, q ) );
	CHECK_MSG( sym_req( dot_product( x - p, w ), 0 ), "the point is in the plane" );
	CHECK_MSG( eq( cross_product( x - o, d ), vec3d() ), "the point is on the line" );
	sym_reach( "end" );
}

// points on a line along x, so that all lengths are differences
static std::vector< vec3d > path_x( int n, double* pos )
{
	std::vector< vec3d > v; double x = sym_real( "x" ); pos[ 0 ] = 0;
	for ( int i = 0; i < n; ++i ) { if ( i ) { double s = sym_real( "step" ); sym_assume( s > 0.1 && s < 10 ); pos[ i ] = pos[ i - 1 ] + s; } v.push_back( vec3d( x + pos[ i ], 3, -1 ) ); }
	return v;
}

//@ h_path real quick(n=4) thorough(n=6)
HARNESS( h_path )
{
	int n = sym_pick( "n", 1, sym_param( "n", 4 ) ); double pos[ 8 ]; auto v = path_x( n, pos );
	CHECK_MSG( sym_req( path_length( v ), pos[ n - 1 ] ), "the length is the sum of the lengths of the segments" );
	if ( n >= 2 ) {
		double l = sym_real( "l" ); auto w = v; index_t i = insert_path_point( w, l );
		bool inside = l > 0 && l < pos[ n - 1 ];
		if ( l <= 0 ) CHECK_MSG( i == 0 && w == v, "nothing is inserted before the begin" );
		else if ( !inside ) CHECK_MSG( i == (index_t)v.size() - 1 && w == v, "nothing is inserted after the end" );
		else {
			CHECK_MSG( i > 0 || w == v, "index" );
			if ( w.size() == v.size() ) { double g = v[ i ].x - v[ 0 ].x - l; CHECK_MSG( w == v && g < 0.02 && g > -0.02, "an existing point is used only if it is close" ); }
			else {
				CHECK_MSG( w.size() == v.size() + 1 && i >= 1 && i <= (index_t)v.size() - 1, "one point is inserted" );
				CHECK_MSG( eq( w[ i ], vec3d( v[ 0 ].x + l, 3, -1 ) ), "the new point is at the given length" );
				auto u = w; u.erase( u.begin() + i ); CHECK_MSG( u == v, "other points are kept" );
			}
		}
		CHECK_MSG( sym_req( path_length( w ), pos[ n - 1 ] ), "the length is kept" );
	}
	sym_reach( "end" );
}

//@ h_segment_curve real quick()
HARNESS( h_segment_curve )
{
	vec3d p[ 4 ]; for ( auto& x : p ) x = v3( "p" ); double t = sym_real( "t" );
	catmull_rom_segment< vec3d > c( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] );
	CHECK_MSG( eq( c( 0.0 ), p[ 1 ] ) && eq( c( 1.0 ), p[ 2 ] ), "the curve goes through the inner points" );
	vec3d m1 = 0.5 * ( p[ 2 ] - p[ 0 ] ), m2 = 0.5 * ( p[ 3 ] - p[ 1 ] ); // Hermite form with these tangents
	double t2 = t * t, t3 = t2 * t; vec3d h = ( 2 * t3 - 3 * t2 + 1 ) * p[ 1 ] + ( t3 - 2 * t2 + t ) * m1 + ( 3 * t2 - 2 * t3 ) * p[ 2 ] + ( t3 - t2 ) * m2;
	CHECK_MSG( eq( c( t ), h ), "the tangents are half the difference of the neighbours" );
	catmull_rom_segment< double > d( p[ 0 ].x, p[ 1 ].x, p[ 2 ].x, p[ 3 ].x ); CHECK_MSG( sym_req( d( t ), h.x ), "one dimension" );
	sym_reach( "end" );
}

//@ h_alpha real quick()
HARNESS( h_alpha )
{
	// points on a line, other than the begin and end: any; alpha 0, 0.5 and 1
	float x[ 4 ]; x[ 0 ] = (float)sym_real( "x" ); for ( int i = 1; i < 4; ++i ) { float s = (float)sym_real( "s" ); sym_assume( s > 0.1f ); x[ i ] = x[ i - 1 ] + s; }
	float t = (float)sym_real( "t" ); int k = sym_pick( "alpha", 0, 2 ); vec3f p[ 4 ]; for ( int i = 0; i < 4; ++i ) p[ i ] = vec3f( x[ i ], 2, -1 );
	catmull_rom_segment_alpha< vec3f > c( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ], k == 0 ? 0.0f : k == 1 ? 0.5f : 1.0f );
	CHECK_MSG( eq( c( 0.0f ), p[ 1 ] ) && eq( c( 1.0f ), p[ 2 ] ), "the curve goes through the inner points" );
	if ( k == 0 ) { catmull_rom_segment< vec3f > u( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] ); CHECK_MSG( eq( c( t ), u( t ) ), "alpha 0 is the uniform curve" ); }
	if ( k == 2 ) { vec3f y = c( t ); CHECK_MSG( eq( y, p[ 1 ] + t * ( p[ 2 ] - p[ 1 ] ) ), "points on a line with chordal parameters give linear motion" ); }
	sym_reach( "end" );
}

//@ h_curve real quick(n=6) thorough(n=8)
HARNESS( h_curve )
{
	int n = sym_pick( "n", 4, sym_param( "n", 6 ) ); std::vector< double > p, ts; for ( int i = 0; i < n; ++i ) { double v = sym_real( "p" ); p.push_back( v ); }
	double s = sym_real( "t0" ); for ( int i = 0; i < n - 2; ++i ) { ts.push_back( s ); double d = sym_real( "dt" ); sym_assume( d > 0.01 ); s += d; }
	catmull_rom< double, double > c( p, ts ); 
	for ( int i = 0; i < n - 2; ++i ) CHECK_MSG( sym_req( c( ts[ i ] ), p[ i + 1 ] ), "the curve is at each point at its time" );
	double t = sym_real( "t" ); sym_assume( t >= ts.front() && t <= ts.back() ); int k = 0; while ( k < n - 4 && t > ts[ k + 1 ] ) ++k;
	catmull_rom_segment< double > e( p[ k ], p[ k + 1 ], p[ k + 2 ], p[ k + 3 ] ); CHECK_MSG( sym_req( c( t ), e( ( t - ts[ k ] ) / ( ts[ k + 1 ] - ts[ k ] ) ) ), "in between it follows the segment" );
	sym_reach( "end" );
}

//@ h_length real quick()
HARNESS( h_length )
{
	vec3d a = v3( "a" ), b = v3( "b" ); int n = sym_pick( "steps", 1, 4 ); float t1 = (float)sym_real( "t1" ); sym_assume( t1 >= 0 );
	auto f = [&]( float t ) { return a + double( t ) * b; };
	double l = compute_spline_length( f, 0.0f, t1, n ); CHECK_MSG( l >= 0 && sym_req( l * l, t1 * t1 * squared_length( b ) ), "the length of straight motion" );
	sym_reach( "end" );
}

//@ h_curve_length real quick(n=4) thorough(n=6)
HARNESS( h_curve_length )
{
	// the length of the polygon through the points at equal steps from t0 to t1
	float t0 = (float)sym_real( "t0" ), t1 = (float)sym_real( "t1" ); sym_assume( t0 > -10 && t0 < 10 && t1 > -10 && t1 < 10 ); double a = sym_real( "a" ), b = sym_real( "b" ), c = sym_real( "c" ); int n = sym_pick( "steps", 1, (int)sym_param( "n", 4 ) );
	auto f = [&]( float t ) { return vec3d( a + b * t + c * t * t, 1, 2 ); }; double l = compute_spline_length( f, t0, t1, n ), w = 0;
	for ( int i = 0; i < n; ++i ) { double d = f( t0 + ( t1 - t0 ) * ( i + 1 ) / n ).x - f( t0 + ( t1 - t0 ) * i / n ).x; w += d < 0 ? -d : d; }
	CHECK_MSG( sym_req( l, w ), "the length of the polygon" );
	sym_reach( "end" );
}
