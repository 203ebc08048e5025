// quaternions as rotations
#include "sym.h"
#include "xo/system/assert.h"
#include "xo/geometry/quat.h"
using namespace xo;
static vec3d v3( const char* n ) { double x = sym_real( n ); double y = sym_real( n ); double z = sym_real( n ); return vec3d( x, y, z ); }
// with the parameter cases, the values are picked from a few: queries over real numbers are then easy
static const int qlist[][ 4 ] = { { 1, 2, -2, 4 }, { 2, 4, 1, -2 }, { -2, 1, 4, 2 }, { 4, -2, 2, 1 }, { 3, 0, 0, 4 }, { -1, -2, 4, 2 } };
static bool cases() { return sym_param( "cases", 0 ) != 0; }
static double fifth() { double f = sym_real( "fifth" ); sym_assume( f * 5 == 1 ); return f; }
static quatd qcase( const char* n ) { int k = sym_pick( n, 0, 5 ); const int* l = qlist[ k ]; double f = fifth(); return quatd( f * l[ 0 ], f * l[ 1 ], f * l[ 2 ], f * l[ 3 ] ); }
static quatd q4( const char* n ) { if ( cases() ) return qcase( n ); double w = sym_real( n ); double x = sym_real( n ); double y = sym_real( n ); double z = sym_real( n ); return quatd( w, x, y, z ); }
static quatd unit( const char* n ) { if ( cases() ) return qcase( n ); quatd q = q4( n ); sym_assume( sym_req( q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z, 1 ) ); return q; }
static bool eq( const vec3d& a, const vec3d& b ) { int r = sym_req( a.x, b.x ); r &= sym_req( a.y, b.y ); r &= sym_req( a.z, b.z ); return r; }
static bool eq( const quatd& a, const quatd& b ) { int r = sym_req( a.w, b.w ); r &= sym_req( a.x, b.x ); r &= sym_req( a.y, b.y ); r &= sym_req( a.z, b.z ); return r; }
// rotation by the definition of quaternions: q * ( 0, v ) * conj( q )
static quatd mul( const quatd& a, const quatd& b ) { return quatd( a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w ); }
static vec3d rot( const quatd& q, const vec3d& v ) { quatd r = mul( mul( q, quatd( 0, v.x, v.y, v.z ) ), quatd( q.w, -q.x, -q.y, -q.z ) ); return vec3d( r.x, r.y, r.z ); }

//@ h_algebra real quick(cases=0; cases=1)
HARNESS( h_algebra )
{
	quatd a = q4( "a" ), b = q4( "b" ); double s = sym_real( "s" );
	CHECK_MSG( eq( a * b, mul( a, b ) ), "product" ); quatd c = a; CHECK_MSG( &( c *= b ) == &c && eq( c, mul( a, b ) ), "product" );
	c = a; c *= s; CHECK_MSG( eq( c, quatd( a.w * s, a.x * s, a.y * s, a.z * s ) ), "scaling" );
	quatd j = conjugate( a ); CHECK_MSG( eq( j, quatd( a.w, -a.x, -a.y, -a.z ) ) && eq( -a, j ), "conjugate" );
	double n = a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z; CHECK_MSG( sym_req( squared_length( a ), n ), "squared length" );
	double l = length( a ); CHECK_MSG( l >= 0 && sym_req( l * l, n ), "length" ); double lx = length_xyz( a ); CHECK_MSG( lx >= 0 && sym_req( lx * lx, n - a.w * a.w ), "length of the vector part" );
	CHECK_MSG( eq( quatd(), quatd( 1, 0, 0, 0 ) ) && eq( quatd::identity(), quatd() ) && eq( a * quatd(), a ) && eq( quatd() * a, a ), "identity" );
	CHECK_MSG( a.is_identity() == ( a.w == 1 && a.x == 0 && a.y == 0 && a.z == 0 ), "is_identity" );
	bool same = a.w == b.w && a.x == b.x && a.y == b.y && a.z == b.z; CHECK_MSG( ( a == b ) == same && ( a != b ) == !same, "comparison" );
	quatd p = positive( a ); CHECK_MSG( p.w >= 0 && ( eq( p, a ) || eq( p, quatd( -a.w, -a.x, -a.y, -a.z ) ) ), "positive" );
	c.set( b.w, b.x, b.y, b.z ); CHECK_MSG( eq( c, b ) && c.size() == 4 && c.end() - c.begin() == 4, "set" ); quatf f( a ); CHECK_MSG( sym_req( f.w, a.w ) && sym_req( f.x, a.x ) && sym_req( f.y, a.y ) && sym_req( f.z, a.z ), "conversion" );
	sym_reach( "end" );
}

//@ h_inverse real quick(cases=0; cases=1)
HARNESS( h_inverse )
{
	quatd a = q4( "a" ); double n = a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z; sym_assume( n > 0 );
	quatd i = inverse( a ); CHECK_MSG( eq( mul( a, i ), quatd() ) && eq( mul( i, a ), quatd() ), "the product with the inverse is the identity" );
	sym_reach( "end" );
}

//@ h_normalize real quick(cases=0; cases=1)
HARNESS( h_normalize )
{
	quatd a = q4( "a" ); double n = a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z; sym_assume( n > 0 );
	quatd u = a; double l = normalize( u ); CHECK_MSG( l > 0 && sym_req( l * l, n ), "normalize gives the length" ); CHECK_MSG( sym_req( squared_length( u ), 1 ), "normalized" );
	CHECK_MSG( sym_req( u.w * l, a.w ) && sym_req( u.x * l, a.x ) && sym_req( u.y * l, a.y ) && sym_req( u.z * l, a.z ) && eq( normalized( a ), u ), "the direction is kept" );
	quatd f = normalized_fast( a ), t = normalized_try_fast( a ); double k = 2 / ( 1 + n );
	CHECK_MSG( eq( f, quatd( k * a.w, k * a.x, k * a.y, k * a.z ) ), "first order approximation" );
	int one = sym_req( squared_length( t ), 1 ); int fast = eq( t, f ); fast &= n > 0.999; fast &= n < 1.001; // then the remaining error is at most ( 1 - n )^2 / ( 1 + n )^2
	CHECK_MSG( one | fast, "always normalized" );
	CHECK_MSG( sym_req( t.w * a.x, a.w * t.x ) && sym_req( t.y * a.x, a.y * t.x ) && sym_req( t.z * a.x, a.z * t.x ), "the direction is kept" );
	sym_reach( "end" );
}

//@ h_rotate real quick(cases=0; cases=1)
HARNESS( h_rotate )
{
	quatd q = unit( "q" ); vec3d v = v3( "v" );
	CHECK_MSG( eq( q * v, rot( q, v ) ), "rotation of a vector" );
	CHECK_MSG( sym_req( squared_length( q * v ), squared_length( v ) ), "rotation keeps the length" );
	CHECK_MSG( eq( -q * ( q * v ), v ), "the conjugate rotates back" );
	vec3d x = local_x_axis( q ), y = local_y_axis( q ), z = local_z_axis( q ); auto ax = axes_from_quat( q );
	CHECK_MSG( eq( x, rot( q, vec3d::unit_x() ) ) && eq( y, rot( q, vec3d::unit_y() ) ) && eq( z, rot( q, vec3d::unit_z() ) ), "local axes" );
	CHECK_MSG( eq( ax.x, x ) && eq( ax.y, y ) && eq( ax.z, z ), "all axes" );
	CHECK_MSG( is_normalized( q ), "is_normalized" );
	sym_reach( "end" );
}

//@ h_compose real quick(cases=0; cases=1)
HARNESS( h_compose )
{
	quatd a = q4( "a" ), b = q4( "b" ); vec3d v = v3( "v" ); // h_rotate: q * v is rot( q, v ) for normalized q
	CHECK_MSG( eq( rot( a * b, v ), rot( a, rot( b, v ) ) ), "the product rotates by the second and then by the first" );
	quatd t = a * quat_from_quats( a, b ); double n = squared_length( a ); CHECK_MSG( eq( t, quatd( n * b.w, n * b.x, n * b.y, n * b.z ) ), "rotation from one quaternion to another" );
	quatd u = unit( "u" ); double c = sym_real( "c" ); double s = sym_real( "s" ); sym_assume( sym_req( c * c + s * s, 1 ) ); int k = sym_pick( "k", 0, 2 ); quatd r( c, k == 0 ? s : 0, k == 1 ? s : 0, k == 2 ? s : 0 );
	CHECK_MSG( eq( ( u * r ) * v, u * ( r * v ) ) && eq( ( r * u ) * v, r * ( u * v ) ), "vectors are rotated by the second and then by the first" );
	sym_reach( "end" );
}

//@ h_matrix real quick(cases=0; cases=1)
HARNESS( h_matrix )
{
	quatd q = unit( "q" ); vec3d x = rot( q, vec3d::unit_x() ), y = rot( q, vec3d::unit_y() ), z = rot( q, vec3d::unit_z() );
	mat33d m = mat33_from_axes( x, y, z ); const mat33d& c = m;
	for ( int i = 0; i < 3; ++i ) CHECK_MSG( m[ i ][ 0 ] == x[ i ] && c[ i ][ 1 ] == y[ i ] && m[ i ][ 2 ] == z[ i ], "the axes are the columns" );
	quatd r = quat_from_mat33( m );
	// equal up to sign: r = q * ( r . q ), with ( r . q )^2 = 1
	double d = r.w * q.w + r.x * q.x + r.y * q.y + r.z * q.z; CHECK_MSG( sym_req( d * d, 1 ), "the matrix leads back to the quaternion or its opposite" );
	CHECK_MSG( sym_req( squared_length( r ), 1 ), "normalized" );
	vec3d s = v3( "s" ); mat33d g = mat33_from_diagonal( s ); for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) CHECK_MSG( g[ i ][ j ] == ( i == j ? s[ i ] : 0 ), "diagonal matrix" );
	sym_reach( "end" );
}

//@ h_axis_angle real div0 quick()
HARNESS( h_axis_angle )
{
	vec3d a = v3( "a" ); double t = sym_real( "t" ); sym_assume( sym_req( squared_length( a ), 1 ) ); sym_assume( t > 0.001 && t < 6.28 );
	quatd q = quat_from_axis_angle( a, radiand( t ) ); double h = 0.5 * t, c = std::cos( h ), s = std::sin( h );
	CHECK_MSG( eq( q, quatd( c, s * a.x, s * a.y, s * a.z ) ), "cosine and sine of half the angle" );
	CHECK_MSG( sym_req( length( t * a ), t ), "length" );
	CHECK_MSG( eq( quat_from_rotation_vector( t * a ), q ), "the length of a rotation vector is the angle" );
	CHECK_MSG( eq( quat_from_rotation_vector( vec3d() ), quatd() ), "no rotation" );
	quatd x = quat_from_x_angle( radiand( t ) ), y = quat_from_y_angle( radiand( t ) ), z = quat_from_z_angle( radiand( t ) );
	CHECK_MSG( eq( x, quatd( c, s, 0, 0 ) ) && eq( y, quatd( c, 0, s, 0 ) ) && eq( z, quatd( c, 0, 0, s ) ), "rotation around an axis" );
	sym_reach( "end" );
}

//@ h_to_axis_angle real quick(cases=0; cases=1)
HARNESS( h_to_axis_angle )
{
	quatd q = unit( "q" ); double l2 = q.x * q.x + q.y * q.y + q.z * q.z; sym_assume( l2 > 0.0001 );
	auto aa = axis_angle_from_quat( q ); double h = std::acos( q.w ), s = std::sin( h ); 
	CHECK_MSG( sym_req( squared_length( aa.first ), 1 ), "the axis has length one" );
	CHECK_MSG( sym_req( aa.second.value, 2 * h ) && sym_req( s * aa.first.x, q.x ) && sym_req( s * aa.first.y, q.y ) && sym_req( s * aa.first.z, q.z ), "axis and angle make the quaternion" );
	vec3d v = rotation_vector_from_quat( q ); CHECK_MSG( eq( v, 2 * h * aa.first ), "the rotation vector is the axis times the angle" );
	auto va = rotation_vector_angle_from_quat( q ); CHECK_MSG( eq( va.first, v ) && sym_req( va.second.value, 2 * h ), "rotation vector and angle" );
	CHECK_MSG( rotation_vector_from_quat( quatd() ).is_null() && rotation_vector_angle_from_quat( quatd() ).second.value == 0 && axis_angle_from_quat( quatd() ).second.value == 0, "no rotation" );
	sym_reach( "end" );
}

//@ h_directions real quick()
HARNESS( h_directions )
{
	vec3d a = v3( "a" ), b = v3( "b" ); sym_assume( sym_req( squared_length( a ), 1 ) ); sym_assume( sym_req( squared_length( b ), 1 ) );
	double d = dot_product( a, b ); sym_assume( d > -0.999 );
	quatd q = quat_from_directions( a, b );
	CHECK_MSG( sym_req( squared_length( q ), 1 ), "normalized" );
	vec3d r = rot( q, a ); CHECK_MSG( eq( r, b ), "the source direction is rotated to the target direction" );
	sym_reach( "end" );
}

//@ h_opposite real known(quat_from_directions-opposite) quick()
HARNESS( h_opposite )
{
	vec3d a = v3( "a" ); sym_assume( sym_req( squared_length( a ), 1 ) );
	quatd q = quat_from_directions( a, -a ); vec3d r = rot( q, a ); CHECK_MSG( eq( r, -a ), "the source direction is rotated to the opposite target direction" );
	sym_reach( "end" );
}

//@ h_opposite_x real quick()
HARNESS( h_opposite_x )
{
	double c = sym_real( "c" ); double s = sym_real( "s" ); sym_assume( sym_req( c * c + s * s, 1 ) ); vec3d a( 0, c, s );
	quatd q = quat_from_directions( a, -a ); CHECK_MSG( sym_req( squared_length( q ), 1 ), "normalized" );
	vec3d r = rot( q, a ); CHECK_MSG( eq( r, -a ), "a direction perpendicular to x is rotated to the opposite direction" );
	sym_reach( "end" );
}

//@ h_twist real div0 quick(cases=0; cases=1)
HARNESS( h_twist )
{
	quatd q = unit( "q" ); double c = sym_real( "c" ); double sn = sym_real( "s" ); sym_assume( sym_req( c * c + sn * sn, 1 ) );
	int k = sym_pick( "k", 0, 2 ); vec3d a( k == 0 ? c : k == 1 ? sn : 0, k == 1 ? c : k == 2 ? sn : 0, k == 2 ? c : k == 0 ? sn : 0 );
	double d = q.x * a.x + q.y * a.y + q.z * a.z; sym_assume( q.w * q.w + d * d > 0.01 );
	auto [ t, ang ] = quat_angle_around_axis( q, a ); auto [ tf, angf ] = quat_angle_around_axis_fast( q, a );
	CHECK_MSG( sym_req( squared_length( t ), 1 ), "the rotation around the axis is normalized" );
	CHECK_MSG( eq( tf, t ) && sym_req( ang.value, angf.value ), "the fast version gives the same" );
	CHECK_MSG( eq( cross_product( vec3d( t.x, t.y, t.z ), a ), vec3d() ), "it rotates around the axis" );
	quatd s = mul( quatd( t.w, -t.x, -t.y, -t.z ), q ); CHECK_MSG( sym_req( s.x * a.x + s.y * a.y + s.z * a.z, 0 ), "the remaining rotation has no part around the axis" );
	double h = d >= 0 ? 0.5 * ang.value : -0.5 * ang.value; CHECK_MSG( h >= 0 && sym_req( std::acos( t.w ), h ), "the angle of the rotation around the axis" );
	CHECK_MSG( sym_req( rotation_around_axis( q, a ).value, ang.value ), "rotation_around_axis" );
	sym_reach( "end" );
}

//@ h_around_xyz real quick()
HARNESS( h_around_xyz )
{
	quatd q = unit( "q" ); sym_assume( q.w > 0.01 || q.w < -0.01 );
	auto r = rotation_around_xyz( q );
	CHECK_MSG( r.x.value == rotation_around_x( q ).value && r.y.value == rotation_around_y( q ).value && r.z.value == rotation_around_z( q ).value, "all axes" );
	CHECK_MSG( sym_req( r.x.value, rotation_around_axis( q, vec3d::unit_x() ).value ) && sym_req( r.y.value, rotation_around_axis( q, vec3d::unit_y() ).value ) && sym_req( r.z.value, rotation_around_axis( q, vec3d::unit_z() ).value ), "same as rotation_around_axis" );
	sym_reach( "end" );
}

//@ h_node quick()
HARNESS( h_node )
{
	int w = sym_int( "w", -9, 9 ); int x = sym_int( "x", -9, 9 ); int y = sym_int( "y", -9, 9 ); int z = sym_int( "z", -9, 9 );
	quat_< int > q( w, x, y, z ); prop_node pn = to_prop_node( q ); CHECK_MSG( pn.get< int >( "w" ) == w && pn.get< int >( "x" ) == x && pn.get< int >( "y" ) == y && pn.get< int >( "z" ) == z && pn.size() == 4, "elements are stored by name" );
	prop_node pr; pr.set( "z", z ); pr.set( "y", y ); pr.set( "x", x ); pr.set( "w", w ); CHECK_MSG( pr.get< int >( "w" ) == w && to_str( q ) == to_str( w ) + " " + to_str( x ) + " " + to_str( y ) + " " + to_str( z ), "text" );
	sym_reach( "end" );
}
