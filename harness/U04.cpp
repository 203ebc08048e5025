// smart enums, sides, hashes
#include "sym.h"
#include <sstream>
#include "xo/utility/smart_enum.h"
#include "xo/utility/side.h"
#include "xo/utility/hash.h"
using namespace xo;

xo_smart_enum( fruit, apple, pear, app );
xo_smart_enum_class( size_class, a, bb,	b );

//@ h_enum quick(n=4) thorough(n=5)
HARNESS( h_enum )
{
	fruit e = fruit( sym_pick( "e", 0, 2 ) ); const char* names[] = { "apple", "pear", "app" };
	CHECK_MSG( to_str( e ) == names[ e ], "name" );
	fruit b = pear; CHECK_MSG( from_str( to_str( e ), b ) && b == e, "a name is converted back" );
	std::string s = sym_str( "s", (size_t)sym_param( "n", 4 ) );
	size_class c = size_class::bb; bool ok = from_str( s, c ); int idx = s == "a" ? 0 : s == "bb" ? 1 : s == "b" ? 2 : -1;
	CHECK_MSG( ok == ( idx >= 0 ) && int( c ) == ( ok ? idx : 1 ), "only the exact names are accepted, and others change nothing" );
	sym_reach( "end" );
}

//@ h_enum_long quick(n=5) thorough(n=6)
HARNESS( h_enum_long )
{
	int n = sym_pick( "n", 3, (int)sym_param( "n", 5 ) ); std::string s = sym_str_n( "s", n ); fruit b = pear;
	bool ok = from_str( s, b ); int idx = s == "apple" ? 0 : s == "pear" ? 1 : s == "app" ? 2 : -1;
	CHECK_MSG( ok == ( idx >= 0 ) && int( b ) == ( ok ? idx : 1 ), "only the exact names are accepted" );
	sym_reach( "end" );
}

//@ h_enum_stream quick()
HARNESS( h_enum_stream )
{
	fruit e = fruit( sym_pick( "e", 0, 2 ) ); fruit f = fruit( sym_pick( "f", 0, 2 ) );
	std::ostringstream o; o << e << ' ' << f;
	std::string s = o.str(); if ( sym_pick( "end", 0, 1 ) ) s += "\n";
	std::istringstream in( s ); fruit a = pear, b = pear; in >> a; bool ok = !in.fail(); in >> b;
	CHECK_MSG( ok && !in.fail() && a == e && b == f, "what was written to a stream is read, also at its end" );
	std::istringstream bad( sym_pick( "tail", 0, 1 ) ? "fruit " : "fruit" ); bad >> a; CHECK_MSG( bad.fail() && a == e, "other text fails" );
	sym_reach( "end" );
}

//@ h_side quick(n=4) thorough(n=6)
HARNESS( h_side )
{
	std::string s = sym_str( "s", (size_t)sym_param( "n", 4 ) ); size_t n = s.size();
	bool l = n >= 2 && s[ n - 2 ] == '_' && s[ n - 1 ] == 'l', r = n >= 2 && s[ n - 2 ] == '_' && s[ n - 1 ] == 'r';
	side d = l ? side::left : r ? side::right : side::none; std::string stem = l || r ? s.substr( 0, n - 2 ) : s;
	CHECK_MSG( str_get_side( s ) == d, "side of a name" );
	CHECK_MSG( str_remove_side( s ) == stem, "name without side" );
	CHECK_MSG( stem + side_postfix( d ) == s, "a name is its stem and the postfix of its side" );
	side m = l ? side::right : r ? side::left : side::none;
	CHECK_MSG( mirrored( d ) == m && mirrored( mirrored( d ) ) == d, "mirrored side" );
	std::string ms = str_mirrored_side( s ); CHECK_MSG( ms == stem + side_postfix( m ) && str_mirrored_side( ms ) == s, "mirrored name" );
	std::string x = s; str_mirror_side( x ); CHECK_MSG( x == ms, "mirrored name in place" );
	side k = side( sym_pick( "k", -1, 1 ) );
	CHECK_MSG( str_set_side( s, k ) == stem + side_postfix( k ), "name with another side" );
	CHECK_MSG( str_append_before_side( s, "xy" ) == stem + "xy" + side_postfix( d ), "text before the side" );
	sym_reach( "end" );
}

//@ h_hash quick(n=3) thorough(n=4)
HARNESS( h_hash )
{
	std::string s = sym_str( "s", (size_t)sym_param( "n", 3 ) ); size_t z = 0; while ( z < s.size() && s[ z ] ) ++z;
	hash_t h = xo::hash( s );
	CHECK_MSG( h == hash_constexpr( s.c_str() ) && h == xo::hash( s.c_str() ), "the compile time hash is the run time hash" );
	hash_t w = 0xCBF29CE484222325ull; bool ascii = true; for ( size_t i = 0; i < z; ++i ) { w = ( w ^ (unsigned char)s[ i ] ) * 0x100000001B3ull; ascii = ascii && (unsigned char)s[ i ] < 128; }
	if ( ascii ) CHECK_MSG( h == w, "FNV-1a" );
	switch ( "abc"_hash ) { case hash_constexpr( "abc" ): break; default: CHECK_MSG( false, "literal" ); }
	sym_reach( "end" );
}
