// transforms and mirroring
#include "sym.h"
#include "xo/system/assert.h"
#include "xo/geometry/transform.h"
#include "xo/geometry/transform_srt.h"
#include "xo/geometry/mirror_tools.h"
using namespace xo;
static vec3d v3( const char* n ) { double x = sym_real( n ); double y = sym_real( n ); double z = sym_real( n ); return vec3d( x, y, z ); }
// with the parameter cases, the values are picked from a few: queries over real numbers are then easy
static const int qlist[][ 4 ] = { { 1, 2, -2, 4 }, { 2, 4, 1, -2 }, { -2, 1, 4, 2 }, { 4, -2, 2, 1 }, { 0, 3, 0, 4 }, { -1, -2, 4, 2 } };
static bool cases() { return sym_param( "cases", 0 ) != 0; }
static double fifth() { double f = sym_real( "fifth" ); sym_assume( f * 5 == 1 ); return f; }
static quatd qcase( const char* n ) { int k = sym_pick( n, 0, 5 ); const int* l = qlist[ k ]; double f = fifth(); return quatd( f * l[ 0 ], f * l[ 1 ], f * l[ 2 ], f * l[ 3 ] ); }
static quatd q4( const char* n ) { if ( cases() ) return qcase( n ); double w = sym_real( n ); double x = sym_real( n ); double y = sym_real( n ); double z = sym_real( n ); return quatd( w, x, y, z ); }
static quatd unit( const char* n ) { if ( cases() ) return qcase( n ); quatd q = q4( n ); sym_assume( sym_req( q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z, 1 ) ); return q; }
static bool eq( const vec3d& a, const vec3d& b ) { int r = sym_req( a.x, b.x ); r &= sym_req( a.y, b.y ); r &= sym_req( a.z, b.z ); return r; }
static bool eq( const quatd& a, const quatd& b ) { int r = sym_req( a.w, b.w ); r &= sym_req( a.x, b.x ); r &= sym_req( a.y, b.y ); r &= sym_req( a.z, b.z ); return r; }
static quatd mul( const quatd& a, const quatd& b ) { return quatd( a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w ); }
static quatd conj( const quatd& q ) { return quatd( q.w, -q.x, -q.y, -q.z ); }
static vec3d rot( const quatd& q, const vec3d& v ) { quatd r = mul( mul( q, quatd( 0, v.x, v.y, v.z ) ), conj( q ) ); return vec3d( r.x, r.y, r.z ); }

//@ h_apply real quick(cases=0; cases=1)
HARNESS( h_apply )
{
	transformd t( v3( "p" ), unit( "q" ) ); vec3d v = v3( "v" ); vec3d e = rot( t.q, v ); e.x += t.p.x; e.y += t.p.y; e.z += t.p.z;
	CHECK_MSG( eq( t * v, e ) && eq( t.trans( v ), e ), "rotation followed by translation" );
	CHECK_MSG( eq( t.inv_trans( v ), rot( conj( t.q ), v - t.p ) ), "inverse of a point" );
	CHECK_MSG( eq( t.inv() * v, rot( conj( t.q ), v - t.p ) ), "inverse" );
	quatd o = q4( "o" ); CHECK_MSG( eq( t * o, mul( t.q, o ) ) && eq( t.trans( o ), mul( t.q, o ) ) && eq( t.inv_trans( o ), mul( conj( t.q ), o ) ), "orientations are only rotated" );
	transformd i; CHECK_MSG( i.is_identity() && transformd::identity().is_identity() && eq( i * v, v ), "identity" ); CHECK_MSG( t.is_identity() == ( t.p.x == 0 && t.p.y == 0 && t.p.z == 0 && t.q.w == 1 && t.q.x == 0 && t.q.y == 0 && t.q.z == 0 ), "is_identity" );
	transformd tp( t.p ), tq( t.q ); CHECK_MSG( eq( tp.p, t.p ) && tp.q.is_identity() && tq.p.is_null() && eq( tq.q, t.q ), "from a position or an orientation" );
	sym_reach( "end" );
}

//@ h_compose real quick(cases=0; cases=1)
HARNESS( h_compose )
{
	transformd a( v3( "ap" ), q4( "aq" ) ), b( v3( "bp" ), q4( "bq" ) );
	// the rotation by quaternions is decided in G02: here only how rotations and translations are combined
	transformd c = a * b; CHECK_MSG( eq( c.q, mul( a.q, b.q ) ) && eq( c.p, a.p + a.q * b.p ), "composition" );
	transformd d = a.trans( b ); CHECK_MSG( eq( d.q, c.q ) && eq( d.p, c.p ), "trans" );
	transformd e = a; transformd& r = ( e *= b ); CHECK_MSG( &r == &e && eq( e.q, c.q ) && eq( e.p, c.p ), "*=" );
	transformd s = a; s *= s; transformd aa = a * a; CHECK_MSG( eq( s.q, aa.q ) && eq( s.p, aa.p ), "*= with itself" );
	transformd i = a.inv_trans( b ); CHECK_MSG( eq( i.q, mul( conj( a.q ), b.q ) ) && eq( i.p, conjugate( a.q ) * ( b.p - a.p ) ), "inverse of a transform" );
	sym_reach( "end" );
}

//@ h_srt real quick(cases=0; cases=1)
HARNESS( h_srt )
{
	// uniform scale, as the documentation requires
	double s = sym_real( "s" ); double u = sym_real( "u" ); sym_assume( s != 0 && u != 0 );
	transform_srtd a( v3( "ap" ), q4( "aq" ), scale3d( s ) ), b( v3( "bp" ), q4( "bq" ), scale3d( u ) ); vec3d v = v3( "v" );
	vec3d e = a.p + a.q * ( s * v ); CHECK_MSG( eq( a * v, e ) && eq( a.trans( v ), e ), "scale, rotation, translation" );
	transform_srtd c = a * b; CHECK_MSG( eq( c.q, mul( a.q, b.q ) ) && eq( c.s, vec3d( s * u, s * u, s * u ) ) && eq( c.p, a * b.p ), "composition" );
	transform_srtd d = a.trans( b ); CHECK_MSG( eq( d.q, c.q ) && eq( d.p, c.p ) && eq( d.s, c.s ), "trans" ); transform_srtd f = a; f *= b; CHECK_MSG( eq( f.q, c.q ) && eq( f.p, c.p ) && eq( f.s, c.s ), "*=" );
	transform_srtd i = a.inv(); CHECK_MSG( eq( i.q, conj( a.q ) ) && sym_req( i.s.x * s, 1 ) && sym_req( i.s.y * s, 1 ) && sym_req( i.s.z * s, 1 ), "inverse" ); CHECK_MSG( eq( s * i.p, conj( a.q ) * -a.p ), "the inverse maps the position to the origin" );
	transform_srtd t = a.inv_trans( b ); CHECK_MSG( eq( t.q, mul( conj( a.q ), b.q ) ) && eq( vec3d( t.s.x * s, t.s.y * s, t.s.z * s ), b.s ) && eq( s * t.p, conj( a.q ) * ( b.p - a.p ) ), "inverse of a transform" );
	transform_srtd n; CHECK_MSG( n.is_identity() && eq( n * v, v ) && transform_srtd::identity().is_identity(), "identity" ); CHECK_MSG( !transform_srtd( vec3d(), quatd(), scale3d( 2 ) ).is_identity() && !transform_srtd( vec3d::unit_x() ).is_identity() && !transform_srtd( quatd( 0, 1, 0, 0 ) ).is_identity(), "not the identity" );
	CHECK_MSG( eq( mul( a.q, b.q ), a * b.q ) && eq( a.trans( b.q ), a * b.q ), "orientations are only rotated" );
	sym_reach( "end" );
}

//@ h_mirror real quick()
HARNESS( h_mirror )
{
	quatd q = q4( "q" ), r = q4( "r" ); vec3d v = v3( "v" ); bool m = sym_bool( "m" );
	vec3d w = mirrored( v ); CHECK_MSG( eq( w, vec3d( v.x, v.y, -v.z ) ) && eq( mirrored( w ), v ), "a point is mirrored in the xy plane" );
	CHECK_MSG( eq( mirrored( q ) * mirrored( v ), mirrored( q * v ) ), "a mirrored rotation of a mirrored point gives the mirrored result" );
	CHECK_MSG( eq( mirrored( q * r ), mirrored( q ) * mirrored( r ) ) && eq( mirrored( mirrored( q ) ), q ), "mirrored composition" );
	vec3d a = mirrored_axis_if( v, true ); quatd h( 0, v.x, v.y, v.z ), g = mirrored( h ); CHECK_MSG( eq( a, vec3d( g.x, g.y, g.z ) ), "a mirrored axis is the axis of the mirrored rotation" );
	vec3d n = vec3d::unit_z(); CHECK_MSG( eq( mirrored( n ), vec3d::neg_unit_z() ), "normal" );
	transformd t( v, q ), u( a, r ); transformd x = mirrored( t * u ), y = mirrored( t ) * mirrored( u ); CHECK_MSG( eq( x.p, y.p ) && eq( x.q, y.q ), "mirrored transforms" );
	double lo = sym_real( "lo" ); double hi = sym_real( "hi" ); double k = sym_real( "k" ); sym_assume( lo <= hi ); boundsd b( lo, hi ); boundsd c = mirrored( b );
	CHECK_MSG( c.is_within( -k ) == b.is_within( k ) && c.lower <= c.upper, "mirrored bounds contain the mirrored values" );
	vec3_< boundsd > l( b, boundsd( lo - 1, hi ), boundsd( lo, hi + 1 ) ); mirror( l ); CHECK_MSG( l.x.lower == -hi && l.x.upper == -lo && l.y.lower == -hi && l.y.upper == 1 - lo && l.z.lower == lo && l.z.upper == hi + 1, "limits of rotations" );
	vec3d d = v; CHECK_MSG( &mirror_if( d, m ) == &d && eq( d, m ? w : v ) && eq( mirrored_if( v, m ), d ), "only if asked" ); d = v; CHECK_MSG( &mirror_axis_if( d, m ) == &d && eq( d, m ? a : v ) && eq( mirrored_axis_if( v, m ), d ), "only if asked" );
	CHECK_MSG( mirrored( k ) == -k && mirrored_if( 3, m ) == ( m ? -3 : 3 ), "values" ); float fk = 2.5f; mirror( fk ); CHECK_MSG( fk == -2.5f, "values" );
	sym_reach( "end" );
}

//@ h_node quick()
HARNESS( h_node )
{
	int a[ 7 ]; for ( int i = 0; i < 7; ++i ) a[ i ] = i; a[ 0 ] = sym_pick( "p", -1, 1 ); a[ 4 ] = sym_pick( "q", -1, 1 ); a[ 6 ] = sym_pick( "z", -1, 1 );
	transformd t( vec3d( a[ 0 ], a[ 1 ], a[ 2 ] ), quatd( a[ 3 ], a[ 4 ], a[ 5 ], a[ 6 ] ) ); prop_node pn = prop_node( t ); transformd r;
	CHECK_MSG( from_prop_node( pn, r ) && r.p == t.p && r.q == t.q, "a transform in a tree is restored" );
	transform_srtd s; CHECK_MSG( from_prop_node( pn, s ) && s.p == t.p && s.q == t.q && s.s.is_one(), "also as transform with scale" );
	prop_node bad; bad[ "p" ] = pn[ "p" ]; transformd k; CHECK_MSG( throws( [&] { const prop_node& c = bad; if ( !from_prop_node( c, k ) ) throw 1; } ), "an incomplete tree is refused" );
	sym_reach( "end" );
}
