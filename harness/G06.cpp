// shapes
#include "sym.h"
#include "xo/shape/shape.h"
#include "xo/shape/shape_tools.h"
#include "xo/container/prop_node_tools.h"
using namespace xo;
static vec3f v3f( const char* n ) { float x = (float)sym_real( n ); float y = (float)sym_real( n ); float z = (float)sym_real( n ); return vec3f( x, y, z ); }
static bool eq( const vec3f& a, const vec3f& b ) { int r = sym_req( a.x, b.x ); r &= sym_req( a.y, b.y ); r &= sym_req( a.z, b.z ); return r; }
static double dim( const char* n ) { double d = sym_real( n ); sym_assume( d > 0.001 && d < 1000 ); return d; }
static bool near( double a, double b, double scale ) { double d = a - b, e = 1e-5 * scale; int r = d <= e; r &= d >= -e; return r; } // fractions such as 4/3 are rounded constants
// kinds: sphere, box, cylinder, capsule, cone
static shape make( int k, float a, float b, float c ) { if ( k == 0 ) return sphere( a ); if ( k == 1 ) return box( a, b, c ); if ( k == 2 ) return cylinder( a, b ); if ( k == 3 ) return capsule( a, b ); return cone( a, b ); }
static const double pi = constantsf::pi();

//@ h_volume real quick()
HARNESS( h_volume )
{
	double r = dim( "r" ); double h = dim( "h" ); double d = dim( "d" ); CHECK_MSG( pi > 3.14159 && pi < 3.1416, "pi" );
	CHECK_MSG( near( 3 * volume( sphere( r ) ), 4 * pi * r * r * r, r * r * r ), "sphere" );
	CHECK_MSG( sym_req( volume( box( r, h, d ) ), 8 * r * h * d ) && sym_req( volume( make_box( r, h, d ) ), r * h * d ), "box" );
	CHECK_MSG( sym_req( volume( cylinder( r, h ) ), pi * r * r * h ), "cylinder" );
	CHECK_MSG( near( 3 * volume( capsule( r, h ) ), pi * r * r * ( 4 * r + 3 * h ), r * r * r ), "capsule" );
	CHECK_MSG( sym_req( 3 * volume( cone( r, h ) ), pi * r * r * h ), "cone" );
	CHECK_MSG( volume( plane( vec3f::unit_x() ) ) == 0, "plane" );
	int k = sym_pick( "kind", 0, 4 ); shape s = make( k, r, h, d ); float v = k == 0 ? volume( sphere( r ) ) : k == 1 ? volume( box( r, h, d ) ) : k == 2 ? volume( cylinder( r, h ) ) : k == 3 ? volume( capsule( r, h ) ) : volume( cone( r, h ) );
	CHECK_MSG( volume( s ) == v, "a shape has the volume of its kind" );
	sym_reach( "end" );
}

//@ h_dim real quick()
HARNESS( h_dim )
{
	double r = dim( "r" ); double h = dim( "h" ); double d = dim( "d" );
	CHECK_MSG( eq( dim( shape( sphere( r ) ) ), vec3f( 2 * r, 2 * r, 2 * r ) ), "sphere" );
	CHECK_MSG( eq( dim( shape( box( r, h, d ) ) ), vec3f( 2 * r, 2 * h, 2 * d ) ) && eq( dim( make_box( r, h, d ) ), vec3f( r, h, d ) ), "box" );
	CHECK_MSG( eq( dim( shape( cylinder( r, h ) ) ), vec3f( 2 * r, h, 2 * r ) ) && eq( dim( shape( cone( r, h ) ) ), vec3f( 2 * r, h, 2 * r ) ), "cylinder and cone" );
	shape s; CHECK_MSG( !is_valid( s ) && is_valid( shape( sphere( r ) ) ) && is_valid( shape( box() ) ), "only a shape that was never set is not valid" );
	sym_reach( "end" );
}

//@ h_scale real quick()
HARNESS( h_scale )
{
	double r = dim( "r" ); double h = dim( "h" ); double d = dim( "d" ); double f = dim( "f" ); int k = sym_pick( "kind", 0, 4 );
	shape s = make( k, r, h, d ), t = scaled( s, (float)f ); shape u = s; scale( u, float( f ) );
	CHECK_MSG( t.index() == s.index() && near( volume( t ), f * f * f * volume( s ), f * f * f * r * r * ( r + h ) ) && volume( u ) == volume( t ), "uniform scaling" );
	CHECK_MSG( eq( dim( t ), float( f ) * dim( s ) ), "dimensions" );
	double x = dim( "sx" ); double y = dim( "sy" ); double z = dim( "sz" ); shape w = scaled( s, vec3f( x, y, z ) );
	if ( k == 0 ) { double n = std::get< sphere >( w ).radius_; CHECK_MSG( sym_req( n * n * n, r * r * r * x * y * z ), "a sphere keeps the scaled volume" ); }
	if ( k == 1 ) CHECK_MSG( eq( dim( w ), vec3f( 2 * r * x, 2 * h * y, 2 * d * z ) ), "a box is scaled in each direction" );
	if ( k >= 2 ) { double n = dim( w ).x / 2; double m = k == 2 ? std::get< cylinder >( w ).height_ : k == 3 ? std::get< capsule >( w ).height_ : std::get< cone >( w ).height_; CHECK_MSG( n > 0 && sym_req( n * n, r * r * x * z ) && sym_req( m, h * y ), "the height and the cross section are scaled" ); }
	sym_reach( "end" );
}

//@ h_inertia real quick()
HARNESS( h_inertia )
{
	double r = dim( "r" ); double h = dim( "h" ); double d = dim( "d" ); double q = dim( "q" );
	vec3f s = inertia( shape( sphere( r ) ), q ); double ms = volume( sphere( r ) ) * q; CHECK_MSG( near( 5 * s.x, 2 * ms * r * r, ms * r * r ) && s.y == s.x && s.z == s.x, "sphere" );
	vec3f b = inertia( shape( box( r, h, d ) ), q ); double mb = volume( box( r, h, d ) ) * q; CHECK_MSG( sym_req( 3 * b.x, mb * ( h * h + d * d ) ) && sym_req( 3 * b.y, mb * ( r * r + d * d ) ) && sym_req( 3 * b.z, mb * ( r * r + h * h ) ), "box" );
	vec3f c = inertia( shape( cylinder( r, h ) ), q ); double mc = volume( cylinder( r, h ) ) * q; CHECK_MSG( sym_req( 12 * c.x, mc * ( 3 * r * r + h * h ) ) && sym_req( 2 * c.y, mc * r * r ) && c.z == c.x, "cylinder" );
	CHECK_MSG( inertia( shape( plane() ), q ).is_null(), "plane" );
	sym_reach( "end" );
}

//@ h_capsule_inertia real quick()
HARNESS( h_capsule_inertia )
{
	// cylinder, plus two hemispheres with centre of mass 3/8 r from their base
	double r = dim( "r" ); double h = dim( "h" ); double q = dim( "q" ); vec3f s = inertia( capsule( r, h ), q );
	double mc = pi * r * r * h * q; double m3 = 2 * pi * r * r * r * q; // three times the mass of a hemisphere
	double y = mc * r * r / 2 + 2 * m3 * 2 * r * r / 15; 
	double o = h / 2 + 3 * r / 8, x = mc * ( 3 * r * r + h * h ) / 12 + 2 * m3 / 3 * ( 2 * r * r / 5 - 9 * r * r / 64 + o * o );
	CHECK_MSG( near( s.y, y, y ), "around the axis" ); CHECK_MSG( near( s.x, x, x ) && s.z == s.x, "across the axis" );
	sym_reach( "end" );
}

//@ h_aabb real quick()
HARNESS( h_aabb )
{
	vec3f p = v3f( "p" ); sym_assume( squared_length( p ) < 1e6f ); float a = (float)dim( "a" ); float b = (float)dim( "b" ); float c = (float)dim( "c" ); int k = sym_pick( "q", 0, 5 ); quatf q;
	if ( k == 1 ) q = quatf( 0.5f, 0.5f, -0.5f, 0.5f ); else if ( k == 2 ) q = quatf( 0, 0, 1, 0 );
	else if ( k >= 3 ) { float co = (float)sym_real( "co" ); float si = (float)sym_real( "si" ); sym_assume( sym_req( co * co + si * si, 1 ) ); q = quatf( co, k == 3 ? si : 0, k == 4 ? si : 0, k == 5 ? si : 0 ); }
	transformf t( p, q );
	aabbf s = aabb( shape( sphere( a ) ), t ); CHECK_MSG( eq( s.lower_bounds, p - vec3f( a, a, a ) ) && eq( s.upper_bounds, p + vec3f( a, a, a ) ), "sphere" );
	aabbf bb = aabb( shape( box( a, b, c ) ), t ); vec3f lo = bb.lower_bounds, hi = bb.upper_bounds;
	vec3f ux = q * vec3f::unit_x(), uy = q * vec3f::unit_y(), uz = q * vec3f::unit_z();
	for ( int i = 0; i < 3; ++i ) {
		float x = std::abs( ux[ i ] ) * a, y = std::abs( uy[ i ] ) * b, z = std::abs( uz[ i ] ) * c;
		CHECK_MSG( sym_req( lo[ i ], p[ i ] - x - y - z ) && sym_req( hi[ i ], p[ i ] + x + y + z ), "the bounds of a rotated box are exactly the range of its points" );
	}
	auto cp = center_positions( capsule( a, b ), t ); CHECK_MSG( eq( cp.second - cp.first, b * uy ), "the centers of a capsule's caps are its height apart, along its axis" );
	sym_reach( "end" );
}

//@ h_bounds_of_points real quick()
HARNESS( h_bounds_of_points )
{
	int k = sym_pick( "axis", 0, 2 ); vec3f a( 1, 2, 3 ), b( -1, 2, 4 ), c( 0, 7, 1 );
	a[ k ] = (float)sym_real( "a" ); b[ k ] = (float)sym_real( "b" ); c[ k ] = (float)sym_real( "c" ); sym_assume( a[ k ] > -1e6f && a[ k ] < 1e6f );
	aabbf x; x += a; CHECK_MSG( eq( x.lower_bounds, a ) && eq( x.upper_bounds, a ), "one point" );
	x += b; aabbf y( c ); y += x; aabbf z( c, c ); x += c;
	for ( int i = 0; i < 3; ++i ) {
		float l = a[ i ] < b[ i ] ? a[ i ] : b[ i ]; l = l < c[ i ] ? l : c[ i ]; float u = a[ i ] > b[ i ] ? a[ i ] : b[ i ]; u = u > c[ i ] ? u : c[ i ];
		CHECK_MSG( x.lower_bounds[ i ] == l && x.upper_bounds[ i ] == u, "smallest and largest" );
		CHECK_MSG( y.lower_bounds[ i ] == l && y.upper_bounds[ i ] == u && z.lower_bounds[ i ] == c[ i ] && z.upper_bounds[ i ] == c[ i ], "combined bounds" );
	}
	sym_reach( "end" );
}

//@ h_surface real quick()
HARNESS( h_surface )
{
	vec3f d = v3f( "d" ); sym_assume( sym_req( squared_length( d ), 1 ) ); float r = (float)dim( "r" ); float h = (float)dim( "h" ); int k = sym_pick( "kind", 0, 3 );
	sym_assume( ( d.x > 0.001f || d.x < -0.001f ) ); sym_assume( ( d.y > 0.001f || d.y < -0.001f ) ); sym_assume( ( d.z > 0.001f || d.z < -0.001f ) ); // no division by zero
	if ( k == 0 ) { vec3f x = intersection_from_center( shape( sphere( r ) ), d ); CHECK_MSG( sym_req( squared_length( x ), r * r ), "on the sphere" ); }
	if ( k == 1 ) { float c = (float)dim( "c" ); float t = distance_from_center( box( r, h, c ), d ); float ax = t * std::abs( d.x ), ay = t * std::abs( d.y ), az = t * std::abs( d.z );
		int in = ax <= r; in &= ay <= h; in &= az <= c; int on = sym_req( ax, r ); on |= sym_req( ay, h ); on |= sym_req( az, c ); CHECK_MSG( t > 0 && on, "on a side of the box" ); CHECK_MSG( in || ( ax <= r + 1e-3f && ay <= h + 1e-3f && az <= c + 1e-3f ), "not outside of the box" ); }
	if ( k == 2 ) { float t = distance_from_center( cylinder( r, h ), d ); float y = t * std::abs( d.y ), q = t * t * ( d.x * d.x + d.z * d.z ); CHECK_MSG( t > 0 && ( sym_req( y, h / 2 ) | sym_req( q, r * r ) ), "on the cylinder" ); CHECK_MSG( y <= h / 2 + 1e-4f && q <= r * r + 1e-4f, "not outside of the cylinder" ); }
	if ( k == 3 ) { float t = distance_from_center( capsule( r, h ), d ); float y = t * std::abs( d.y ), q = t * t * ( d.x * d.x + d.z * d.z ), o = y - h / 2; CHECK_MSG( t > 0, "positive" ); if ( y <= h / 2 ) CHECK_MSG( sym_req( q, r * r ), "on the side of the capsule" ); else CHECK_MSG( sym_req( q + o * o, r * r ), "on the cap of the capsule" ); }
	sym_reach( "end" );
}

//@ h_node quick()
HARNESS( h_node )
{
	static const float vals[] = { 0.5f, 3.0f, 0.25f }; int k = sym_pick( "kind", 0, 5 ); float a = vals[ sym_pick( "a", 0, 2 ) ]; float b = vals[ sym_pick( "b", 0, 2 ) ]; float c = vals[ sym_pick( "c", 0, 1 ) ];
	shape s = k == 5 ? shape( plane( vec3f( a, b, c ) ) ) : make( k, a, b, c ); prop_node pn = to_prop_node( s ); shape t = cone( 9, 9 );
	CHECK_MSG( from_prop_node( pn, t ) && t.index() == s.index(), "the kind is restored" );
	if ( k == 0 ) CHECK_MSG( std::get< sphere >( t ).radius_ == a, "sphere" );
	if ( k == 1 ) CHECK_MSG( std::get< box >( t ).half_dim_ == vec3f( a, b, c ), "box" );
	if ( k == 2 ) CHECK_MSG( std::get< cylinder >( t ).radius_ == a && std::get< cylinder >( t ).height_ == b, "cylinder" );
	if ( k == 3 ) { CHECK_MSG( std::get< capsule >( t ).radius_ == a && std::get< capsule >( t ).height_ == b, "capsule" ); prop_node l; l.set( "type", "capsule" ); l.set( "radius", a ); l.set( "total_length", b + 2 * a ); CHECK_MSG( from_prop_node( l, t ) && std::get< capsule >( t ).radius_ == a && std::get< capsule >( t ).height_ == b, "capsule by total length" ); }
	if ( k == 4 ) CHECK_MSG( std::get< cone >( t ).radius_ == a && std::get< cone >( t ).height_ == b, "cone" );
	if ( k == 5 ) CHECK_MSG( std::get< plane >( t ).normal_ == vec3f( a, b, c ), "plane" );
	static const char* names[] = { "sphere", "box", "cylinder", "capsule", "cone", "plane" }; string n = names[ k ]; CHECK_MSG( pn.get< string >( "type" ) == n && to_str( s ).substr( 0, n.size() + 1 ) == n + "(", "name" );
	prop_node u; u.set( "type", n + "s" ); CHECK_MSG( !from_prop_node( u, t ), "an unknown kind is refused" );
	sym_reach( "end" );
}
