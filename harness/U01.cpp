// flag_set, optional, result, error_message, error_code
#include "sym.h"
#include "xo/system/assert.h"
#include "xo/container/flag_set.h"
#include "xo/utility/optional.h"
#include "xo/utility/result.h"
#include "xo/system/error_code.h"
#include <vector>
using namespace xo;

enum class fl { a = 0, b = 1, c = 31, d = 32, e = 63 };
static const fl all[ 5 ] = { fl::a, fl::b, fl::c, fl::d, fl::e };
enum class sf { a = 0, b = 3, c = 7 };

//@ h_flags quick(ops=2) thorough(ops=3)
HARNESS( h_flags )
{
	uint64_t init = sym< uint64_t >( "init" );
	flag_set< fl > f( init ); uint64_t m = init;
	auto bit = []( fl x ) { return uint64_t( 1 ) << int( x ); };
	for ( int o = 0, n = (int)sym_param( "ops", 2 ); o < n; ++o ) {
		int i = sym_pick( "i", 0, 4 ); fl x = all[ i ], y = all[ ( i + 2 ) % 5 ]; bool v = sym_bool( "v" );
		switch ( sym_choice( 8, "op" ) ) {
		case 0: f.set( x ); m |= bit( x ); break;
		case 1: f.set( x, v ); m = ( m & ~bit( x ) ) | ( v ? bit( x ) : 0 ); break;
		case 2: f.toggle( x ); m ^= bit( x ); break;
		case 3: f.set( { x, y } ); m |= bit( x ) | bit( y ); break;
		case 4: f.clear( { x, y } ); m &= ~( bit( x ) | bit( y ) ); break;
		case 5: f.set( { x, y }, v ); m = ( m & ~( bit( x ) | bit( y ) ) ) | ( v ? bit( x ) | bit( y ) : 0 ); break;
		case 6: f.set< fl::d >(); f.clear< fl::c >(); f.toggle< fl::e >(); f.set< fl::a >( v ); m |= bit( fl::d ); m &= ~bit( fl::c ); m ^= bit( fl::e ); m = ( m & ~bit( fl::a ) ) | ( v ? bit( fl::a ) : 0 ); break;
		default: f.clear(); m = 0; break;
		}
	}
	CHECK_MSG( f.data() == m && f.any() == ( m != 0 ), "exactly the given flags change" );
	int q = sym_pick( "q", 0, 4 ); int r = ( q + sym_pick( "r", 0, 1 ) ) % 5;
	CHECK_MSG( f.get( all[ q ] ) == ( ( m & bit( all[ q ] ) ) != 0 ) && f( all[ q ] ) == f.get( all[ q ] ), "get" );
	CHECK_MSG( f.get< fl::e >() == ( ( m & bit( fl::e ) ) != 0 ), "get" );
	bool x = ( m & bit( all[ q ] ) ) != 0, y = ( m & bit( all[ r ] ) ) != 0;
	CHECK_MSG( f.any( { all[ q ], all[ r ] } ) == ( x || y ) && f.count( { all[ q ], all[ r ] } ) == size_t( x ) + size_t( y ), "any and count" );
	flag_set< fl > g( f ), h; h = f; CHECK_MSG( g.data() == m && h.data() == m, "copies" );
	CHECK_MSG( flag_set< fl >( all[ q ] ).data() == bit( all[ q ] ) && flag_set< fl >( { all[ q ], all[ r ] } ).data() == ( bit( all[ q ] ) | bit( all[ r ] ) ) && flag_set< fl >().data() == 0, "construction" );
	unsigned char s = sym< unsigned char >( "s" ); flag_set< sf, unsigned char > k( s );
	k.toggle( sf::c ); CHECK_MSG( k.data() == ( s ^ 0x80 ) && k.get( sf::b ) == ( ( s >> 3 ) & 1 ), "small storage" );
	sym_reach( "end" );
}

template< typename T > void check_optional( T a, T b, bool a_set, bool b_set )
{
	optional< T > x, y;
	CHECK_MSG( !x && !y && x == y && !( x != y ), "empty by default" );
	if ( a_set ) x = a;
	if ( b_set ) y = optional< T >( b );
	CHECK_MSG( bool( x ) == a_set && bool( y ) == b_set, "has a value after assignment only" );
	bool eq = a_set == b_set && ( !a_set || a == b );
	CHECK_MSG( ( x == y ) == eq, "equal if both have the same value, or both have none" );
	CHECK_MSG( ( x != y ) == !eq, "inequality is the opposite of equality" );
	CHECK_MSG( ( x == b ) == ( a_set && a == b ) && ( b == x ) == ( x == b ) && ( x != b ) == !( x == b ) && ( b != x ) == !( x == b ), "comparison with a value" );
	CHECK_MSG( x.value_or( b ) == ( a_set ? a : b ), "value_or" );
	T got = b; bool t = throws( [&] { got = x.value(); } );
	CHECK_MSG( t == !a_set && got == ( a_set ? a : b ), "value throws without value" );
	if ( a_set ) { CHECK_MSG( *x == a && *x.operator->() == a, "access" ); optional< T > z( x ); *x = b; CHECK_MSG( *x == b && *z == a, "access" ); }
	x.reset(); CHECK_MSG( !x && x == optional< T >(), "reset" );
}

//@ h_optional quick()
HARNESS( h_optional )
{
	bool as = sym_pick( "a_set", 0, 1 ), bs = sym_pick( "b_set", 0, 1 );
	switch ( sym_choice( 6, "type" ) ) {
	case 0: { int a = sym_int( "a" ); int b = sym_int( "b" ); sym_assume( a != constants< int >::sentinel() && b != constants< int >::sentinel() ); check_optional( a, b, as, bs ); break; }
	case 1: { unsigned a = (unsigned)sym_int( "a" ); unsigned b = (unsigned)sym_int( "b" ); sym_assume( a != constants< unsigned >::sentinel() && b != constants< unsigned >::sentinel() ); check_optional( a, b, as, bs ); break; }
	case 2: { char a = sym< char >( "a" ); char b = sym< char >( "b" ); sym_assume( a != constants< char >::sentinel() && b != constants< char >::sentinel() ); check_optional( a, b, as, bs ); break; }
	case 3: { bool a = sym_bool( "a" ); bool b = sym_bool( "b" ); check_optional( a, b, as, bs ); break; }
	case 4: { std::string a = sym_str( "a", 2 ); std::string b = sym_str( "b", 1 ); check_optional( a, b, as, bs ); break; }
	default: { double a = sym_real( "a" ); double b = sym_real( "b" ); sym_assume( a == a && b == b ); check_optional( a, b, as, bs ); break; }
	}
	sym_reach( "end" );
}

//@ h_result quick(ops=3) thorough(ops=4)
HARNESS( h_result )
{
	result< int > r; std::string err; int val = 0; bool val_known = true;
	CHECK_MSG( r.has_value() && r.error().good(), "good by default" );
	for ( int o = 0, n = (int)sym_param( "ops", 3 ); o < n; ++o ) {
		switch ( sym_choice( 5, "op" ) ) {
		case 0: { int v = sym_int( "v" ); r = v; val = v; val_known = true; err.clear(); break; }
		case 1: { std::string e = sym_str( "e", 1, 1 ); r = error_message( e ); err = e; break; }
		case 2: { int v = sym_int( "v" ); r = result< int >( v ); val = v; val_known = true; err.clear(); break; }
		case 3: { std::string e = sym_str( "e", 1, 1 ); result< int > x( ( error_message( e ) ) ); r = x; err = e; val_known = false; break; }
		default: { result< int > x = r; r = result< int >(); r = std::move( x ); break; }
		}
		CHECK_MSG( r.has_value() == err.empty() && bool( r ) == err.empty(), "has a value unless there is an error" );
		CHECK_MSG( r.error().message() == err && r.error().bad() == !err.empty() && r.error().good() == err.empty(), "the error message" );
		if ( err.empty() && val_known ) CHECK_MSG( r.value() == val, "the value that was given last" );
	}
	std::string a = sym_str( "m", 1 ); std::string b = sym_str( "m", 1 );
	error_message m( a ); m.append( error_message( b ) );
	CHECK_MSG( m.message() == ( a.empty() ? b : a + "\n" + b ), "messages are appended on a new line" );
	m = "x"; CHECK_MSG( m.bad() && m.message() == "x", "assigning text" );
	m = std::string(); CHECK_MSG( m.good(), "no message is no error" );
	sym_reach( "end" );
}

//@ h_error_code quick()
HARNESS( h_error_code )
{
	int c = sym_int( "c" ); std::string s = sym_str( "s", 2 );
	error_code e; CHECK_MSG( e.good() && !e.bad() && e.code() == 0 && e.message().empty(), "no error by default" );
	e.set( c, s ); CHECK_MSG( e.good() == ( c == 0 ) && e.bad() == ( c != 0 ) && e.code() == c && e.message() == s, "code and message" );
	error_code f; bool t = throws( [&] { set_error_or_throw( &f, s ); } );
	CHECK_MSG( !t && f.bad() && f.message() == s, "errors are reported to the error code" );
	t = throws( [&] { set_error_or_throw( nullptr, s ); } ); CHECK_MSG( t, "without error code errors are thrown" );
	error_code g; CHECK_MSG( try_set_error( &g, s ) && g.bad() && g.message() == s && !try_set_error( nullptr, s ), "try_set_error tells if there is an error code" );
	sym_reach( "end" );
}
