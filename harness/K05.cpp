// storage: frames and channels
#include "sym.h"
#include <vector>
#include <sstream>
#include "xo/container/storage.h"
#include "xo/container/storage_tools.h"
#include "xo/utility/data_algorithms.h"
using namespace xo;

struct model { std::vector< string > labels; std::vector< std::vector< int > > f; };
static void check( const storage< int >& s, const model& w )
{
	CHECK_MSG( s.channel_size() == w.labels.size() && s.frame_size() == w.f.size() && s.empty() == ( w.f.empty() || w.labels.empty() ), "number of frames and channels" );
	bool ok = s.data().size() == w.f.size() * w.labels.size();
	for ( size_t f = 0; ok && f < w.f.size(); ++f ) for ( size_t c = 0; ok && c < w.labels.size(); ++c ) ok = s( f, c ) == w.f[ f ][ c ] && s[ f ][ c ] == w.f[ f ][ c ] && ( w.labels[ c ].empty() || s[ f ][ w.labels[ c ] ] == w.f[ f ][ c ] );
	CHECK_MSG( ok, "values" );
	for ( size_t c = 0; ok && c < w.labels.size(); ++c ) {
		ok = s.get_label( c ) == w.labels[ c ] && s.try_find_channel( w.labels[ c ] ) == ( w.labels[ c ].empty() ? no_index : c );
		auto ch = s.get_channel( c ); ok = ok && ch.size() == w.f.size();
		for ( size_t f = 0; ok && f < w.f.size(); ++f ) ok = ch[ f ] == w.f[ f ][ c ];
	}
	CHECK_MSG( ok, "labels and channels" );
	CHECK( s.try_find_channel( "none" ) == no_index && throws( [&] { s.find_channel( "none" ); } ) );
	if ( !w.f.empty() && !w.labels.empty() ) CHECK_MSG( s.front()[ 0 ] == w.f.front()[ 0 ] && s.back()[ w.labels.size() - 1 ] == w.f.back().back(), "front and back" );
}

//@ h_storage quick(ops=3) thorough(ops=4)
HARNESS( h_storage )
{
	int nf = sym_pick( "frames", 0, 2 ), nc = sym_pick( "channels", 0, 1 ); int v0 = sym_int( "v0" );
	storage< int > s( nf, nc, v0 ); model w; w.labels.assign( nc, "" ); w.f.assign( nf, std::vector< int >( nc, v0 ) );
	int ops = (int)sym_param( "ops", 4 );
	for ( int o = 0; o < ops; ++o ) {
		int v = sym_int( "v" ); string l( 1, char( 'a' + o ) );
		switch ( sym_choice( 8, "op" ) ) {
		case 0: CHECK( s.add_channel( l, v ) == w.labels.size() ); w.labels.push_back( l ); for ( auto& f : w.f ) f.push_back( v ); break;
		case 1: { auto f = s.add_frame( v ); w.f.push_back( std::vector< int >( w.labels.size(), v ) ); if ( !w.labels.empty() ) { f[ 0 ] = 3; w.f.back()[ 0 ] = 3; } break; }
		case 2: { std::vector< int > d; for ( size_t i = 0; i < w.labels.size(); ++i ) d.push_back( v + (int)( i & 1 ) ); s.add_frame( d ); w.f.push_back( d ); break; }
		case 3: { size_t n = (size_t)sym_pick( "n", 0, 2 ); std::vector< int > d( n, v ); CHECK( s.add_channel( l, d ) == w.labels.size() );
			while ( w.f.size() < n ) w.f.push_back( std::vector< int >( w.labels.size(), 0 ) );
			w.labels.push_back( l ); for ( size_t i = 0; i < w.f.size(); ++i ) w.f[ i ].push_back( i < n ? v : 0 ); break; }
		case 4: if ( !w.f.empty() ) { s.back()[ l ] = v; w.labels.push_back( l ); for ( auto& f : w.f ) f.push_back( 0 ); w.f.back().back() = v; } break;
		case 5: { size_t df = (size_t)sym_pick( "df", 0, 1 ), dc = (size_t)sym_pick( "dc", 0, 1 ); s.resize( w.f.size() + df, w.labels.size() + dc, v );
			for ( size_t i = 0; i < dc; ++i ) { w.labels.push_back( "" ); for ( auto& f : w.f ) f.push_back( v ); }
			for ( size_t i = 0; i < df; ++i ) w.f.push_back( std::vector< int >( w.labels.size(), v ) ); break; }
		case 6: if ( !w.labels.empty() ) { s.set_label( 0, l ); w.labels[ 0 ] = l; } break;
		default: if ( !w.f.empty() && !w.labels.empty() ) { size_t f = w.f.size() - 1; s( f, 0 ) = v; w.f[ f ][ 0 ] = v; CHECK( s.find_or_add_channel( w.labels[ 0 ].empty() ? s.get_label( s.add_channel( l, 1 ) ) : w.labels[ 0 ] ) == ( w.labels[ 0 ].empty() ? w.labels.size() : 0 ) ); if ( w.labels[ 0 ].empty() ) { w.labels.push_back( l ); for ( auto& fr : w.f ) fr.push_back( 1 ); } } break;
		}
	}
	check( s, w );
	if ( !w.f.empty() ) CHECK_MSG( throws( [&] { s.resize( w.f.size() - 1, w.labels.size() ); } ), "no shrinking" );
	check( s, w );
	sym_reach( "end" );
}

//@ h_text quick(frames=2,channels=2) thorough(frames=3,channels=3)
HARNESS( h_text )
{
	// written as text and read
	int nf = sym_pick( "frames", 0, (int)sym_param( "frames", 2 ) ), nc = sym_pick( "channels", 1, (int)sym_param( "channels", 2 ) );
	storage< int > s; model w;
	for ( int c = 0; c < nc; ++c ) { string l = sym_str_of( "l", 1, "ab-1.#" ) + char( 'x' + c ); s.add_channel( l ); w.labels.push_back( l ); }
	for ( int f = 0; f < nf; ++f ) { w.f.push_back( {} ); for ( int c = 0; c < nc; ++c ) w.f.back().push_back( sym_int( "v", -99, 99 ) ); s.add_frame( w.f.back() ); }
	std::stringstream str; str << s;
	storage< int > r; str >> r;
	check( r, w );
	sym_reach( "end" );
}

//@ h_find real quick(n=3) thorough(n=5)
HARNESS( h_find )
{
	// the frame with the closest value in a sorted channel
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) );
	storage< double > s( 0, 2 ); double t[ 8 ];
	for ( int i = 0; i < n; ++i ) { t[ i ] = sym_real( "t" ); if ( i ) sym_assume( t[ i ] > t[ i - 1 ] ); s.add_frame( { 0.0, t[ i ] } ); }
	double v = sym_real( "v" );
	auto r = find_frame_index( s, v, 1 );
	if ( n == 0 ) CHECK( r == no_index );
	else {
		CHECK_MSG( r < (size_t)n, "an existing frame" );
		double d = v > t[ r ] ? v - t[ r ] : t[ r ] - v; bool ok = true;
		for ( int i = 0; i < n; ++i ) { double e = v > t[ i ] ? v - t[ i ] : t[ i ] - v; ok &= d <= e; }
		CHECK_MSG( ok, "no other frame is closer" );
	}
	sym_reach( "end" );
}

//@ h_interpolate real quick()
HARNESS( h_interpolate )
{
	double v[ 6 ]; storage< double > s( 0, 2 );
	for ( int i = 0; i < 3; ++i ) { v[ i * 2 ] = sym_real( "a" ); v[ i * 2 + 1 ] = sym_real( "b" ); s.add_frame( { v[ i * 2 ], v[ i * 2 + 1 ] } ); }
	double t = sym_real( "t" ); sym_assume( t >= 0 && t < 2 );
	size_t c = (size_t)sym_pick( "c", 0, 1 );
	double r = s.get_interpolated_value( t, c );
	if ( t < 1 ) CHECK_MSG( sym_req( r, v[ c ] + t * ( v[ 2 + c ] - v[ c ] ) ), "between the first frames" );
	else CHECK_MSG( sym_req( r, v[ 2 + c ] + ( t - 1 ) * ( v[ 4 + c ] - v[ 2 + c ] ) ), "between the last frames" );
	bool refused = false; double u = sym_real( "u" ); sym_assume( ( u > 2 && u < 5 ) || ( u < 0 && u > -5 ) ); try { s.get_interpolated_value( u, c ); } catch ( std::exception& ) { refused = true; } CHECK_MSG( refused, "nothing before the first and beyond the last frame" );
	sym_reach( "end" );
}

//@ h_statistics real quick(n=3) thorough(n=4)
HARNESS( h_statistics )
{
	int n = sym_pick( "n", 1, (int)sym_param( "n", 3 ) ); double a[ 8 ], b[ 8 ], sa = 0, sb = 0;
	storage< double > s( 0, 2 );
	for ( int i = 0; i < n; ++i ) { a[ i ] = sym_real( "a" ); b[ i ] = sym_real( "b" ); sa += a[ i ]; sb += b[ i ]; s.add_frame( { a[ i ], b[ i ] } ); }
	auto m = compute_channel_means( s );
	CHECK_MSG( m.size() == 2 && sym_req( m[ 0 ] * n, sa ) && sym_req( m[ 1 ] * n, sb ), "means" );
	auto cv = compute_covariance( s );
	double vaa = 0, vab = 0; for ( int i = 0; i < n; ++i ) { vaa += ( a[ i ] - m[ 0 ] ) * ( a[ i ] - m[ 0 ] ); vab += ( a[ i ] - m[ 0 ] ) * ( b[ i ] - m[ 1 ] ); }
	CHECK_MSG( cv.row_size() == 2 && cv.column_size() == 2 && sym_req( cv( 0, 0 ) * n, vaa ) && sym_req( cv( 0, 1 ) * n, vab ) && sym_req( cv( 1, 0 ), cv( 0, 1 ) ), "covariance" );
	sym_reach( "end" );
}

// vectors and rotations as channels of a frame
//@ h_write real quick()
HARNESS( h_write )
{
	storage< double > s( 0, 0 ); int n = sym_pick( "frames", 1, 2 ), at = n - 1; s.add_frame(); vec3_< double > v; quat_< double > q; double old = sym_real( "old" ); s.add_channel( "other", old ); if ( n == 2 ) s.add_frame( old );
	v.x = sym_real( "vx" ); v.y = sym_real( "vy" ); v.z = sym_real( "vz" ); q.w = sym_real( "qw" ); q.x = sym_real( "qx" ); q.y = sym_real( "qy" ); q.z = sym_real( "qz" );
	auto f = s[ at ]; write( f, "v", v ); write( f, "q", q ); CHECK_MSG( s.channel_size() == 8 && s.frame_size() == size_t( n ), "a channel for each element" );
	const char* names[] = { "v.x", "v.y", "v.z", "q.w", "q.x", "q.y", "q.z" }; double want[] = { v.x, v.y, v.z, q.w, q.x, q.y, q.z }; for ( int i = 0; i < 7; ++i ) CHECK_MSG( s( at, s.find_channel( names[ i ] ) ) == want[ i ], "element" ); CHECK_MSG( s( at, 0 ) == old, "others are kept" );
	const storage< double >& c = s; storage< double >::const_frame g = c[ at ]; vec3_< double > w; quat_< double > r; read( g, "v", w ); read( g, "q", r ); CHECK_MSG( w.x == v.x && w.y == v.y && w.z == v.z && r.w == q.w && r.x == q.x && r.y == q.y && r.z == q.z, "read as written" );
	sym_reach( "end" );
}

// written to its file when released, if there is anything to write
//@ h_file quick()
HARNESS( h_file )
{
	bool any = sym_pick( "any", 0, 1 ); int x = sym_int( "x", -9, 99 ); { file_storage< int > f( xo::path( "f.txt" ) ); if ( any ) { f.add_channel( "a" ); f.add_frame( x ); } } std::ifstream i( "f.txt" ); CHECK_MSG( i.good() == any, "a file if there is data" );
	if ( any ) { storage< int > r; i >> r; CHECK_MSG( r.channel_size() == 1 && r.frame_size() == 1 && r( 0, 0 ) == x && r.get_label( 0 ) == "a", "as it was" ); } sym_reach( "end" );
}
