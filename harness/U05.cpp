// colors
#include "sym.h"
#include "xo/utility/color.h"
#include "xo/container/prop_node.h"
#include <string>
#include <vector>
#include <cmath>
using xo::color; using xo::prop_node; using std::string;

static bool near( double a, double b, double e = 1e-5 ) { double d = a - b; return ( d <= e ) & ( d >= -e ); }
static color any( const char* n ) { color c; float r = (float)sym_real( n ); float g = (float)sym_real( n ); float b = (float)sym_real( n ); float a = (float)sym_real( n ); return color( r, g, b, a ); }
static bool same( const color& c, double r, double g, double b, double a ) { return near( c.r, r ) & near( c.g, g ) & near( c.b, b ) & near( c.a, a ); }

//@ h_algebra real quick() thorough()
HARNESS( h_algebra )
{
	color x = any( "x" ), y = any( "y" ); float s = (float)sym_real( "s" ); for ( float f : { x.r, x.g, x.b, x.a, y.r, y.g, y.b, y.a, s } ) sym_assume( ( f >= -8 ) & ( f <= 8 ) );
	CHECK_MSG( same( x + y, x.r + y.r, x.g + y.g, x.b + y.b, x.a + y.a ) && same( x - y, x.r - y.r, x.g - y.g, x.b - y.b, x.a - y.a ), "sum and difference" );
	CHECK_MSG( same( x * s, x.r * s, x.g * s, x.b * s, x.a * s ) && same( s * x, x.r * s, x.g * s, x.b * s, x.a * s ), "scaled" );
	sym_reach( "end" );
}

//@ h_order real quick() thorough()
HARNESS( h_order )
{
	color x = any( "x" ), y = any( "y" ); bool eq = ( x.r == y.r ) & ( x.g == y.g ) & ( x.b == y.b ) & ( x.a == y.a );
	bool less = x.r < y.r || ( x.r == y.r && ( x.g < y.g || ( x.g == y.g && ( x.b < y.b || ( x.b == y.b && x.a < y.a ) ) ) ) );
	CHECK_MSG( ( x == y ) == eq && ( x != y ) == !eq, "equal if all elements are" );
	CHECK_MSG( ( x < y ) == less && ( y < x ) == ( !less && !eq ), "ordered by red, green, blue and alpha" );
	CHECK_MSG( x.is_null() == ( ( x.r == 0 ) & ( x.g == 0 ) & ( x.b == 0 ) & ( x.a == 0 ) ) && color::null().is_null() && !color().is_null(), "null" );
	sym_reach( eq ? "equal" : "different" );
}

//@ h_clamp real quick() thorough()
HARNESS( h_clamp )
{
	color x = any( "x" ), y = x; float l = (float)sym_real( "l" ), u = (float)sym_real( "u" ); if ( sym_pick( "default", 0, 1 ) ) { l = 0; u = 1; } sym_assume( l <= u );
	auto c = [&]( float v ) { return v < l ? l : v > u ? u : v; }; color* r = &xo::clamp( y, l, u );
	CHECK_MSG( r == &y && y.r == c( x.r ) && y.g == c( x.g ) && y.b == c( x.b ) && y.a == c( x.a ), "all elements are clamped" );
	if ( l == 0 && u == 1 ) { color z = x; xo::clamp( z ); CHECK_MSG( z == y, "between zero and one by default" ); }
	sym_reach( "end" );
}

//@ h_named real quick() thorough()
HARNESS( h_named )
{
	float b = (float)sym_real( "brightness" ), s = (float)sym_real( "saturation" ); sym_assume( ( b >= 0 ) & ( b <= 1 ) & ( s >= 0 ) & ( s <= 1 ) );
	CHECK_MSG( same( color::white( b ), b, b, b, 1 ), "white" );
	struct { color c; float h; } v[] = { { color::red( b, s ), 0 }, { color::orange( b, s ), 30 }, { color::yellow( b, s ), 60 }, { color::green( b, s ), 120 }, { color::cyan( b, s ), 180 }, { color::blue( b, s ), 240 }, { color::magenta( b, s ), 300 } };
	auto& n = v[ sym_pick( "color", 0, 6 ) ]; color c = xo::color_from_hsv( n.h, s, b );
	CHECK_MSG( same( n.c, c.r, c.g, c.b, 1 ), "named colors have their hue, saturation and brightness" );
	CHECK_MSG( color::red() == color( 1.0f, 0.0f, 0.0f ) && color::blue() == color( 0.0f, 0.0f, 1.0f ) && color::green() == color( 0.0f, 1.0f, 0.0f ), "pure" );
	sym_reach( "end" );
}

// hue turns around, red at zero, green at 120, blue at 240; value is the largest element, saturation the part that is missing from the smallest
//@ h_hsv real quick(turns=1) thorough(turns=3)
HARNESS( h_hsv )
{
	int sec = sym_pick( "section", 0, 5 ), turn = sym_pick( "turn", -(int)sym_param( "turns", 1 ), (int)sym_param( "turns", 1 ) ); float f = (float)sym_real( "f" ), s = (float)sym_real( "s" ), v = (float)sym_real( "v" );
	sym_assume( ( f >= 0 ) & ( f <= 60 ) & ( s >= 0 ) & ( s <= 1 ) & ( v >= 0 ) & ( v <= 1 ) ); color c = xo::color_from_hsv( turn * 360 + sec * 60 + f, s, v );
	double x = f / 60, hi = v, lo = v * ( 1 - s ), up = v * ( 1 - s * ( 1 - x ) ), down = v * ( 1 - s * x );
	double w[ 6 ][ 3 ] = { { hi, up, lo }, { down, hi, lo }, { lo, hi, up }, { lo, down, hi }, { up, lo, hi }, { hi, lo, down } };
	CHECK_MSG( same( c, w[ sec ][ 0 ], w[ sec ][ 1 ], w[ sec ][ 2 ], 1 ), "red, green and blue" );
	sym_reach( turn < 0 ? "negative" : "positive" );
}

//@ h_hex quick() thorough()
HARNESS( h_hex )
{
	unsigned r = sym<unsigned char>( "r" ), g = sym<unsigned char>( "g" ), b = sym<unsigned char>( "b" ), a = sym<unsigned char>( "a" ); unsigned rgb = r << 16 | g << 8 | b, rgba = rgb << 8 | a; unsigned top = sym<unsigned char>( "unused" );
	color c = xo::color_from_hex_rgb( top << 24 | rgb ), d = xo::color_from_hex_rgba( rgba ); const float f = 1.0f / 255.0f;
	CHECK_MSG( c.r == f * r && c.g == f * g && c.b == f * b && c.a == 1, "elements from rgb" );
	CHECK_MSG( d.r == f * r && d.g == f * g && d.b == f * b && d.a == f * a, "elements from rgba" );
	sym_reach( "end" );
}

// from a color to bytes: nearest, and restricted
//@ h_bytes real quick() thorough()
HARNESS( h_bytes )
{
	color c = any( "c" ); float* e[] = { &c.r, &c.g, &c.b, &c.a }; int k = sym_pick( "element", 0, 3 ), n = sym_pick( "n", 0, 15 ) * 17; float x = *e[ k ]; for ( int i = 0; i < 4; ++i ) if ( i != k ) *e[ i ] = ( 3 + i ) / 255.0f;
	sym_assume( ( x * 255 > n - 0.499f ) & ( x * 255 < n + 0.499f ) ); if ( n == 255 ) sym_bool( "more" ) ? *e[ k ] += 2 : *e[ k ]; if ( n == 0 ) sym_bool( "less" ) ? *e[ k ] -= 2 : *e[ k ];
	unsigned w[] = { 3, 4, 5, 6 }; w[ k ] = unsigned( n );
	CHECK_MSG( xo::hex_rgb_from_color( c ) == ( w[ 0 ] << 16 | w[ 1 ] << 8 | w[ 2 ] ), "rgb" );
	CHECK_MSG( xo::hex_rgba_from_color( c ) == ( w[ 0 ] << 24 | w[ 1 ] << 16 | w[ 2 ] << 8 | w[ 3 ] ), "rgba" );
	sym_reach( "end" );
}

// every byte survives
//@ h_round_trip quick(n=1) thorough(n=4)
HARNESS( h_round_trip )
{
	int v = sym_pick( "v", 0, 255 ), k = sym_pick( "element", 0, (int)sym_param( "n", 1 ) - 1 ); unsigned x = 0x12345678; unsigned sh = unsigned( 24 - 8 * k ); x = ( x & ~( 0xffu << sh ) ) | unsigned( v ) << sh;
	CHECK_MSG( xo::hex_rgba_from_color( xo::color_from_hex_rgba( x ) ) == x, "rgba" );
	unsigned y = x >> 8; CHECK_MSG( xo::hex_rgb_from_color( xo::color_from_hex_rgb( y ) ) == y, "rgb" );
	sym_reach( "end" );
}

//@ h_brightness real quick() thorough()
HARNESS( h_brightness )
{
	color c = any( "c" ); for ( float f : { c.r, c.g, c.b } ) sym_assume( ( f >= 0 ) & ( f <= 1 ) ); double p = xo::perceived_brightness( c );
	CHECK_MSG( near( p * p, 0.299 * c.r * c.r + 0.587 * c.g * c.g + 0.114 * c.b * c.b ) && p >= 0, "brightness" );
	sym_reach( "end" );
}

//@ h_unique quick(n=36) thorough(n=60)
HARNESS( h_unique )
{
	int n = (int)sym_param( "n", 36 ), i = sym_pick( "i", 0, n - 1 ); float br[] = { 0.6f, 0.3f, 1.0f }; float b = br[ sym_pick( "brightness", 0, 2 ) ]; color c = xo::make_unique_color( (size_t)i, b );
	for ( int j = 0; j < n; ++j ) if ( j != i ) CHECK_MSG( xo::make_unique_color( (size_t)j, b ) != c, "all are different" );
	CHECK_MSG( c.r >= 0 && c.r <= 1 && c.g >= 0 && c.g <= 1 && c.b >= 0 && c.b <= 1 && c.a == 1, "valid" );
	double m = c.r > c.g ? c.r : c.g; m = m > c.b ? m : c.b; CHECK_MSG( near( xo::perceived_brightness( c ), b ) || ( near( m, 1 ) && xo::perceived_brightness( c ) < b ) || near( m, b ), "as bright as asked, within limits" );
	CHECK_MSG( b != 0.6f || c == xo::make_unique_color( (size_t)i ), "default brightness" );
	sym_reach( "end" );
}

static int digit( char c ) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

// hexadecimal text of six or eight digits, in a tree; other text is refused and changes nothing
//@ h_hex_text quick(k=2) thorough(k=3)
HARNESS( h_hex_text )
{
	int k = (int)sym_param( "k", 2 ); string base = sym_bool( "alpha" ) ? "40c0ff80" : "ff8040", v = base; int at = sym_pick( "at", 0, (int)base.size() - k ); for ( int i = 0; i < k; ++i ) { v[ size_t( at + i ) ] = sym<char>( "c" ); }
	bool ok = true; unsigned x = 0; for ( char c : v ) { int d = digit( c ); ok &= d >= 0; x = x * 16 + unsigned( d & 15 ); }
	sym_assume( v[ 0 ] != '0' || ( v[ 1 ] != 'x' && v[ 1 ] != 'X' ) ); // a prefix
	bool p = sym_bool( "prefix" ); if ( p ) v = "0x" + v; prop_node pn; pn = v; color old( 0.25f, 0.5f, 0.75f, 0.125f ), c = old; bool r = xo::from_prop_node( pn, c );
	CHECK_MSG( r == ok, "hexadecimal digits only" );
	if ( ok ) CHECK_MSG( c == ( base.size() == 8 ? xo::color_from_hex_rgba( x ) : xo::color_from_hex_rgb( x ) ), "color" ); else CHECK_MSG( c == old, "unchanged" );
	sym_reach( ok ? "color" : "refused" );
}

// words are not colors, also when they start with a hexadecimal digit
//@ h_word quick() thorough()
HARNESS( h_word )
{
	const char* words[] = { "blue", "cyan", "green", "", "12 34", "0x", "ff00ff00ff", "rgb", "rgb(1,2)", "hsv(1,2,3,4)", "rgb(a,b,c)", "0.5" }; prop_node pn; pn = string( words[ sym_int( "word", 0, 11 ) ] );
	color old( 0.25f, 0.5f, 0.75f, 0.125f ), c = old; CHECK_MSG( !xo::from_prop_node( pn, c ) && c == old, "refused" ); sym_reach( "end" );
}

//@ h_text quick() thorough()
HARNESS( h_text )
{
	int vs[] = { 0, 7, 128, 255 }, r = vs[ sym_pick( "r", 0, 3 ) ], g = vs[ sym_pick( "g", 0, 3 ) ], b = vs[ sym_pick( "b", 0, 3 ) ]; const char* forms[] = { "rgb(%d,%d,%d)", "RGB( %d, %d, %d )", "rgb %d %d %d", "rgb( %d; %d; %d )" }; char s[ 64 ]; int f = sym_pick( "form", 0, 3 );
	snprintf( s, sizeof s, forms[ f ], r, g, b ); prop_node pn; pn = string( s ); color c;
	CHECK_MSG( xo::from_prop_node( pn, c ) && same( c, r / 255.0, g / 255.0, b / 255.0, 1 ), "rgb with bytes" );
	s[ 0 ] = s[ 0 ] == 'r' ? 'h' : 'H'; s[ 1 ] = s[ 1 ] == 'g' ? 's' : 'S'; s[ 2 ] = s[ 2 ] == 'b' ? 'v' : 'V'; pn = string( s ); color d = xo::color_from_hsv( float( r ), g / 100.0f, b / 100.0f );
	CHECK_MSG( xo::from_prop_node( pn, c ) && same( c, d.r, d.g, d.b, 1 ), "hsv with degrees and percentages" );
	sym_reach( "end" );
}

// elements in a tree, by name or in order
//@ h_tree quick() thorough()
HARNESS( h_tree )
{
	double vs[] = { 0, 0.25, 1 }; double v[ 4 ]; for ( auto& x : v ) x = vs[ sym_pick( "v", 0, 2 ) ]; bool named = sym_pick( "named", 0, 1 ), alpha = sym_pick( "alpha", 0, 1 ), rev = sym_pick( "reversed", 0, 1 ) && named; prop_node pn; const char* n[] = { "r", "g", "b", "a" }; int cnt = alpha ? 4 : 3;
	for ( int i = 0; i < cnt; ++i ) { int j = rev ? cnt - 1 - i : i; pn.add_child( named ? n[ j ] : "" ).set( v[ j ] ); }
	color c; CHECK_MSG( xo::from_prop_node( pn, c ) && same( c, v[ 0 ], v[ 1 ], v[ 2 ], alpha ? v[ 3 ] : 1 ), "elements" );
	prop_node h; int which = sym_pick( "which", 1, 7 ); if ( which & 1 ) h[ "h" ] = 120 * v[ 0 ]; if ( which & 2 ) h[ "s" ] = v[ 1 ]; if ( which & 4 ) h[ "v" ] = v[ 2 ];
	color d = xo::color_from_hsv( which & 1 ? float( 120 * v[ 0 ] ) : 0, which & 2 ? float( v[ 1 ] ) : 1, which & 4 ? float( v[ 2 ] ) : 1 ); CHECK_MSG( xo::from_prop_node( h, c ) && same( c, d.r, d.g, d.b, 1 ), "hue, saturation and value, of which some are absent" );
	prop_node few; few.add_child( "" ).set( 1 ); if ( sym_bool( "two" ) ) few.add_child( "" ).set( 1 ); CHECK_MSG( !xo::from_prop_node( few, c ), "too few" ); CHECK_MSG( !xo::from_prop_node( prop_node(), c ), "empty" );
	sym_reach( "end" );
}
