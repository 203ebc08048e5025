// angles and Euler angles
#include "sym.h"
#include "xo/system/assert.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/angle.h"
#include "xo/container/prop_node.h"
using namespace xo;
static bool eq( const vec3d& a, const vec3d& b ) { int r = sym_req( a.x, b.x ); r &= sym_req( a.y, b.y ); r &= sym_req( a.z, b.z ); return r; }
static bool eq( const quatd& a, const quatd& b ) { int r = sym_req( a.w, b.w ); r &= sym_req( a.x, b.x ); r &= sym_req( a.y, b.y ); r &= sym_req( a.z, b.z ); return r; }
static bool near( double a, double b ) { double d = a - b; int r = d <= 1e-9; r &= d >= -1e-9; return r; } // the conversion constants are rounded
static quatd mul( const quatd& a, const quatd& b ) { return quatd( a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w ); }
static const euler_order orders[] = { euler_order::xyz, euler_order::xzy, euler_order::yxz, euler_order::yzx, euler_order::zxy, euler_order::zyx };
static const char* names[] = { "xyz", "xzy", "yxz", "yzx", "zxy", "zyx" };
static quatd part( int axis, double c, double s ) { return quatd( c, axis == 0 ? s : 0, axis == 1 ? s : 0, axis == 2 ? s : 0 ); }

//@ h_units real quick()
HARNESS( h_units )
{
	double a = sym_real( "a" ); double b = sym_real( "b" ); double s = sym_real( "s" ); sym_assume( a > -1000 && a < 1000 );
	degreed d( a ); radiand r( a ); const double pi = 3.14159265358979323846;
	CHECK_MSG( d.deg_value() == a && r.rad_value() == a && d.value == a && double( d ) == a && double( r ) == a, "the value in its own unit" );
	CHECK_MSG( near( d.rad_value() * 180, a * pi ) && near( r.deg_value() * pi, a * 180 ), "conversion to the other unit" );
	radiand dr( d ); degreed rd( r ), dd( dr ); CHECK_MSG( near( dr.value * 180, a * pi ) && near( rd.value * pi, a * 180 ) && near( dd.value, a ), "conversion of an angle" );
	CHECK_MSG( near( rad_to_deg( a ) * pi, a * 180 ) && near( deg_to_rad( a ) * 180, a * pi ), "conversion of a value" );
	radiand x( b ); CHECK_MSG( ( r + x ).value == a + b && ( r - x ).value == a - b && ( -r ).value == -a && ( r * s ).value == a * s && ( s * r ).value == s * a, "arithmetic" );
	radiand t = r; CHECK_MSG( &( t += x ) == &t && t.value == a + b, "+=" ); t = r; t -= x; CHECK_MSG( t.value == a - b, "-=" ); t = r; t *= s; CHECK_MSG( t.value == a * s, "*=" );
	if ( s != 0 ) { t = r; t /= s; CHECK_MSG( sym_req( t.value * s, a ) && sym_req( ( r / s ).value * s, a ), "division" ); }
	CHECK_MSG( ( r < x ) == ( a < b ) && ( r <= x ) == ( a <= b ) && ( r > x ) == ( a > b ) && ( r >= x ) == ( a >= b ) && ( r == x ) == ( a == b ) && ( r != x ) == ( a != b ), "comparison" );
	CHECK_MSG( sym_req( abs( r ).value, a < 0 ? -a : a ) && degreed().value == 0 && radiand().value == 0, "absolute value, default" );
	CHECK_MSG( sym_req( xo::sin( r ), std::sin( a ) ) && sym_req( xo::cos( r ), std::cos( a ) ) && sym_req( xo::sin( d ), std::sin( d.rad_value() ) ) && sym_req( xo::cos( d ), std::cos( d.rad_value() ) ), "sine and cosine use radians" );
	vec3degd v{ degreed{ a }, degreed{ b }, degreed{ s } }; vec3radd w( v ); CHECK_MSG( eq( value( v ), vec3d( a, b, s ) ) && w.x.value == v.x.rad_value() && w.y.value == v.y.rad_value() && w.z.value == v.z.rad_value(), "vectors of angles" );
	CHECK_MSG( ( 3_degd ).value == 3 && ( 2.5_degd ).value == 2.5 && ( 3_radd ).value == 3 && ( 2.5_radd ).value == 2.5 && ( 4_degf ).value == 4 && ( 4_radf ).value == 4 && ( 1.5_degf ).value == 1.5f && ( 1.5_radf ).value == 1.5f, "literals" );
	sym_reach( "end" );
}

//@ h_polar real quick()
HARNESS( h_polar )
{
	double r = sym_real( "r" ); double i = sym_real( "i" ); double a = sym_real( "a" );
	vec3d v = vec3_from_polar( r, radiand( i ), radiand( a ) );
	CHECK_MSG( sym_req( squared_length( v ), r * r ), "the radius is the length" );
	CHECK_MSG( sym_req( v.y, r * std::cos( i ) ), "the inclination is the angle to the y axis" );
	CHECK_MSG( sym_req( v.x * std::cos( a ), v.z * std::sin( a ) ), "the azimuth is the angle in the zx plane" );
	sym_reach( "end" );
}

//@ h_from_euler real quick()
HARNESS( h_from_euler )
{
	double a[ 3 ]; a[ 0 ] = sym_real( "x" ); a[ 1 ] = sym_real( "y" ); a[ 2 ] = sym_real( "z" ); int o = sym_pick( "order", 0, 5 ); int deg = sym_pick( "deg", 0, 1 );
	quatd p[ 3 ], q;
	for ( int i = 0; i < 3; ++i ) { double h = 0.5 * ( deg ? degreed( a[ i ] ).rad_value() : a[ i ] ); p[ i ] = part( i, std::cos( h ), std::sin( h ) ); }
	if ( deg ) q = quat_from_euler( vec3degd( degreed( a[ 0 ] ), degreed( a[ 1 ] ), degreed( a[ 2 ] ) ), orders[ o ] );
	else q = quat_from_euler( radiand( a[ 0 ] ), radiand( a[ 1 ] ), radiand( a[ 2 ] ), orders[ o ] );
	quatd e = mul( mul( p[ names[ o ][ 0 ] - 'x' ], p[ names[ o ][ 1 ] - 'x' ] ), p[ names[ o ][ 2 ] - 'x' ] );
	CHECK_MSG( eq( q, e ), "rotations around the axes in the order of the name" );
	CHECK_MSG( sym_req( squared_length( q ), 1 ), "normalized" );
	CHECK_MSG( to_str( orders[ o ] ) == names[ o ], "name" );
	if ( o == 0 && !deg ) CHECK_MSG( eq( quat_from_euler( vec3radd( radiand( a[ 0 ] ), radiand( a[ 1 ] ), radiand( a[ 2 ] ) ) ), e ), "the default order is xyz" );
	sym_reach( "end" );
}

//@ h_to_euler real quick(n=3) thorough(n=5)
HARNESS( h_to_euler )
{
	// a rotation of which one of the angles is arbitrary and the others are one of n angles with rational sine and cosine
	// the rotation matrix of angles a, b, c around the axes i, j, k (in this order of multiplication); sg is the sign of the permutation
	int o = sym_pick( "order", 0, 5 ); int i = names[ o ][ 0 ] - 'x', j = names[ o ][ 1 ] - 'x', k = names[ o ][ 2 ] - 'x'; double sg = ( j - i + 3 ) % 3 == 1 ? 1 : -1;
	int f = sym_pick( "free", 0, 2 ); quatd p[ 3 ];
	for ( int n = 0; n < 3; ++n ) {
		double c = sym_real( "c" ); double s = sym_real( "s" ); sym_assume( sym_req( c * c + s * s, 1 ) );
		if ( n != f ) { int t = sym_pick( "angle", 0, sym_param( "n", 3 ) - 1 ); const double C[] = { 3, 12, 15, -4, -5 }, S[] = { 4, -5, 8, 3, 12 }, H[] = { 5, 13, 17, 5, 13 }; sym_assume( sym_req( H[ t ] * c, C[ t ] ) ); sym_assume( sym_req( H[ t ] * s, S[ t ] ) ); }
		p[ n ] = part( names[ o ][ n ] - 'x', c, s );
	}
	quatd q = mul( mul( p[ 0 ], p[ 1 ] ), p[ 2 ] ); double w = q.w, v[ 3 ] = { q.x, q.y, q.z };
	auto R = [&]( int r, int c ) { return r == c ? w * w + v[ r ] * v[ r ] - v[ ( r + 1 ) % 3 ] * v[ ( r + 1 ) % 3 ] - v[ ( r + 2 ) % 3 ] * v[ ( r + 2 ) % 3 ] : ( c - r + 3 ) % 3 == 1 ? 2 * ( v[ r ] * v[ c ] - w * v[ 3 - r - c ] ) : 2 * ( v[ r ] * v[ c ] + w * v[ 3 - r - c ] ); };
	double m = R( i, k ); sym_assume( m > -0.999 && m < 0.999 ); // not at the singularity
	vec3radd e = euler_from_quat( q, orders[ o ] ); double a = e[ i ].value, b = e[ j ].value, c = e[ k ].value;
	double cb = std::cos( b ), sb = std::sin( b ); CHECK_MSG( cb > 0, "the middle angle is at most 90 degrees" );
	CHECK_MSG( sym_req( sg * sb, R( i, k ) ), "middle angle" );
	double ca = std::cos( a ), sa = std::sin( a ), cc = std::cos( c ), sc = std::sin( c );
	CHECK_MSG( sym_req( cb * cc, R( i, i ) ) && sym_req( -sg * cb * sc, R( i, j ) ), "last angle" );
	CHECK_MSG( sym_req( ca * cb, R( k, k ) ) && sym_req( -sg * sa * cb, R( j, k ) ), "first angle" );
	if ( o == 0 ) { vec3radd d = euler_from_quat( q ); CHECK_MSG( d.x.value == e.x.value && d.y.value == e.y.value && d.z.value == e.z.value, "the default order is xyz" ); }
	sym_reach( "end" );
}

//@ h_single_axis real quick()
HARNESS( h_single_axis )
{
	// for a rotation around one axis, pitch, yaw and roll give its angle
	int k = sym_pick( "axis", 0, 2 ); double c = sym_real( "c" ); double s = sym_real( "s" ); sym_assume( sym_req( c * c + s * s, 1 ) ); double c2 = c * c - s * s, s2 = 2 * s * c;
	quatd q = part( k, c, s ); double a = k == 0 ? pitch( q ).value : k == 1 ? yaw( q ).value : roll( q ).value;
	CHECK_MSG( sym_req( std::sin( a ), s2 ) && sym_req( std::cos( a ), c2 ), "pitch, yaw, roll" );
	sym_reach( "end" );
}

//@ h_node quick()
HARNESS( h_node )
{
	static const double vals[] = { 0, 90, -45, 30.5 }; 
	int o = sym_pick( "order", 0, 6 ); double a[ 3 ]; a[ 0 ] = vals[ sym_pick( "x", 0, 3 ) ]; a[ 1 ] = vals[ sym_pick( "y", 0, 1 ) ]; a[ 2 ] = vals[ sym_pick( "z", 1, 3 ) ];
	quatd e = quat_from_euler( degreed( a[ 0 ] ), degreed( a[ 1 ] ), degreed( a[ 2 ] ), orders[ o % 6 ] );
	prop_node pn; pn.set( "x", a[ 0 ] ); pn.set( "y", a[ 1 ] ); pn.set( "z", a[ 2 ] ); if ( o < 6 ) pn.set( "order", names[ o ] );
	quatd q; CHECK_MSG( from_prop_node( pn, q ), "angles and an order can be read" ); CHECK_MSG( q == e, "angles in degrees in the given order, xyz by default" );
	if ( o == 6 ) {
		prop_node ps; ps.set_value( to_str( a[ 0 ] ) + " " + to_str( a[ 1 ] ) + " " + to_str( a[ 2 ] ) ); quatd t; CHECK_MSG( from_prop_node( ps, t ) && t == e, "angles as text" );
		prop_node pw = to_prop_node( quatd( 0.5, -0.5, 0.5, 0 ) ); quatd u; CHECK_MSG( from_prop_node( pw, u ) && u == quatd( 0.5, -0.5, 0.5, 0 ), "elements" );
		prop_node bad; bad.set( "x", 1 ); bad.set( "y", 1 ); quatd b( 2, 3, 4, 5 ); CHECK_MSG( !from_prop_node( bad, b ) && b == quatd( 2, 3, 4, 5 ), "something else is refused" );
		degreed d; CHECK_MSG( from_str( to_str( degreed( a[ 2 ] ) ), d ) && d.value == a[ 2 ], "angle as text" );
	}
	sym_reach( "end" );
}
