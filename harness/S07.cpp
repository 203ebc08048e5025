// Version ordering and version text
#include "sym.h"
#include "xo/system/version.h"
#include "xo/string/string_cast.h"
#include "xo/string/string_tools.h"
using namespace xo;

static version any( const char* n ) { version v; v.major_ = sym<int>( n ); v.minor_ = sym<int>( n ); v.patch_ = sym<int>( n ); v.build_ = sym<int>( n ); return v; }
static int sgn( int x ) { return ( x > 0 ) - ( x < 0 ); }
static int ref( const version& a, const version& b )
{
	int p[ 4 ] = { a.major_, a.minor_, a.patch_, a.build_ }, q[ 4 ] = { b.major_, b.minor_, b.patch_, b.build_ };
	for ( int i = 0; i < 3; ++i ) if ( p[ i ] != q[ i ] ) return p[ i ] < q[ i ] ? -1 : 1;
	if ( p[ 3 ] > 0 && q[ 3 ] > 0 && p[ 3 ] != q[ 3 ] ) return p[ 3 ] < q[ 3 ] ? -1 : 1;
	return 0;
}
//@ h_order quick()
HARNESS( h_order )
{
	version a = any( "a" ), b = any( "b" );
	int r = ref( a, b ), c = version_compare( a, b );
	CHECK_MSG( sgn( c ) == r, "versions are ordered by major, minor, patch and, when both have one, build" );
	CHECK_MSG( version_compare( b, a ) == -c, "comparison is antisymmetric" );
	CHECK( ( a < b ) == ( r < 0 ) && ( a > b ) == ( r > 0 ) && ( a <= b ) == ( r <= 0 ) && ( a >= b ) == ( r >= 0 ) && ( a == b ) == ( r == 0 ) && ( a != b ) == ( r != 0 ) );
	CHECK_MSG( a == a && a <= a && !( a < a ), "reflexive" );
	CHECK_MSG( a.is_at_least( b.major_, b.minor_, b.patch_, b.build_ ) == ( r >= 0 ), "is_at_least" );
	CHECK_MSG( a.is_below( b.major_, b.minor_, b.patch_, b.build_ ) == ( r < 0 ), "is_below" );
	CHECK( a.is_at_least( b.major_, b.minor_ ) == ( ref( a, version( b.major_, b.minor_, 0, 0 ) ) >= 0 ) );
	CHECK( a.is_below( b.major_, b.minor_ ) == ( ref( a, version( b.major_, b.minor_, 0, 0 ) ) < 0 ) );
	CHECK( a.empty() == ( a.major_ == 0 && a.minor_ == 0 && a.patch_ == 0 && a.build_ == 0 ) );
	sym_reach( "end" );
}
//@ h_transitive quick()
HARNESS( h_transitive )
{
	version a = any( "a" ), b = any( "b" ), c = any( "c" );
	sym_assume( ( a.build_ > 0 && b.build_ > 0 && c.build_ > 0 ) || ( a.build_ == 0 && b.build_ == 0 && c.build_ == 0 ) );
	if ( a < b && b < c ) CHECK_MSG( a < c, "less-than is transitive" );
	if ( a == b && b == c ) CHECK_MSG( a == c, "equality is transitive" );
	if ( a <= b && b <= c ) CHECK_MSG( a <= c, "less-or-equal is transitive" );
	sym_reach( "end" );
}
//@ h_text quick(r=40) thorough(r=400)
HARNESS( h_text )
{
	int r = (int)sym_param( "r", 40 );
	version v( sym_int( "maj", 0, r ), sym_int( "min", 0, r ), sym_int( "patch", 0, r ), sym_int( "build", 0, r ) );
	version w( 1, 2, 3, 4, "old" );
	CHECK( from_str( to_str( v ), w ) );
	CHECK_MSG( w.major_ == v.major_ && w.minor_ == v.minor_ && w.patch_ == v.patch_ && w.build_ == v.build_ && w.postfix_.empty(), "a version survives conversion to text and back" );
	sym_reach( v.build_ > 0 ? "build" : "end" );
}
//@ h_parse quick(n=6) thorough(n=7)
HARNESS( h_parse )
{
	// arbitrary text: never accepted with fewer than three numbers, postfix is what follows the white space
	size_t n = (size_t)sym_param( "n", 6 );
	string s = sym_str( "s", n );
	for ( char c : s ) sym_assume( ( c == '.' ) | ( c == ' ' ) | ( ( c >= '0' ) & ( c <= '9' ) ) | ( c == 'x' ) );
	version w;
	bool ok = from_str( s, w );
	size_t sp = s.find( ' ' ); string num = s.substr( 0, sp ), post = sp == string::npos ? "" : s.substr( sp + 1 );
	auto parts = split_str( num, "." );
	bool ref = parts.size() >= 3;
	for ( size_t i = 0; i < 3 && ref; ++i ) ref = parts[ i ][ 0 ] >= '0' && parts[ i ][ 0 ] <= '9';
	CHECK_MSG( ok == ref, "a version needs three numbers" );
	if ( ok ) CHECK( w.postfix_ == post );
	sym_reach( ok ? "accepted" : "end" );
}
