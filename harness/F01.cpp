// Decomposition of paths
#include "sym.h"
#include "xo/filesystem/path.h"
using namespace xo;

static bool sep( char c ) { return c == '/' || c == '\\'; }

//@ h_parts quick(n=6) thorough(n=8)
HARNESS( h_parts )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 6 ) );
	path p( s );
	size_t ls = string::npos, dot = string::npos, n = s.size();
	for ( size_t i = 0; i < n; ++i ) { if ( sep( s[ i ] ) ) { ls = i; dot = string::npos; } else if ( s[ i ] == '.' ) dot = i; }
	size_t f0 = ls == string::npos ? 0 : ls + 1;
	CHECK_MSG( p.str() == s, "text is preserved" );
	CHECK_MSG( p.filename().str() == s.substr( f0 ), "filename is the part after the last separator" );
	CHECK_MSG( p.parent_path().str() == s.substr( 0, ls == string::npos ? 0 : ls ), "parent is the part before the last separator" );
	CHECK_MSG( p.has_parent_path() == ( ls != string::npos ), "has_parent_path" );
	CHECK_MSG( p.has_filename() == ( f0 < n && s[ n - 1 ] != ':' ), "has_filename" );
	CHECK_MSG( p.empty() == ( n == 0 ), "empty" );
	string ext = p.extension().str(), stem = p.stem().str();
	CHECK_MSG( stem + ext == p.filename().str(), "stem and extension form the filename" );
	CHECK_MSG( ext == ( dot == string::npos ? string() : s.substr( dot ) ), "extension starts at the last dot of the filename" );
	CHECK_MSG( p.extension_no_dot().str() == ( dot == string::npos ? string() : s.substr( dot + 1 ) ), "extension_no_dot" );
	sym_reach( dot != string::npos ? "extension" : ls != string::npos ? "directory" : "plain" );
}

//@ h_absolute quick(n=5) thorough(n=7)
HARNESS( h_absolute )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 5 ) );
	path p( s );
	bool a = s.size() > 0 && ( s[ 0 ] == '/' || s[ 0 ] == '~' );
	for ( char c : s ) a = a || c == ':';
	CHECK( p.is_absolute() == a );
	CHECK( p.is_relative() == !a );
	sym_reach( a ? "absolute" : "relative" );
}

//@ h_compare quick(n=3) thorough(n=5)
HARNESS( h_compare )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 3 ) ); string t = sym_str( "t", (size_t)sym_param( "n", 3 ) );
	path p( s ), q( t );
	CHECK( ( p == q ) == ( s == t ) );
	CHECK( ( p != q ) == ( s != t ) );
	CHECK( ( p < q ) == ( s < t ) );
	CHECK( !( p < q && q < p ) );
	CHECK( ( p < q ) + ( q < p ) + ( p == q ) == 1 );
	sym_reach( "end" );
}
