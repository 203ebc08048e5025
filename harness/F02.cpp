// Modification and joining of paths
#include "sym.h"
#include "xo/filesystem/path.h"
using namespace xo;

static bool sep( char c ) { return c == '/' || c == '\\'; }
static string name( const char* nm, size_t mx, bool dots )
{
	string s = sym_str( nm, mx, 0 );
	for ( char c : s ) sym_assume( !sep( c ) & ( c != ':' ) & ( dots | ( c != '.' ) ) );
	return s;
}

//@ h_ext quick(n=5) thorough(n=7)
HARNESS( h_ext )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 5 ) );
	string e = name( "e", 2, false );
	bool dot = sym_bool( "dot" );
	path p( s );
	path q( s ); path& r = q.replace_extension( path( ( dot ? "." : "" ) + e ) );
	CHECK_MSG( &r == &q, "modifies in place" );
	CHECK_MSG( q.parent_path() == p.parent_path() && q.has_parent_path() == p.has_parent_path(), "replace_extension keeps the directory" );
	if ( dot || !e.empty() ) {
		CHECK_MSG( q.stem() == p.stem(), "replace_extension keeps the stem" );
		CHECK_MSG( q.extension().str() == "." + e, "replace_extension sets the extension" );
	}
	path t( s ); t.replace_extension();
	size_t el = p.extension().str().size();
	CHECK_MSG( t.str() == s.substr( 0, s.size() - el ), "replace_extension without argument removes the extension" );
	sym_reach( p.has_parent_path() ? "directory" : "plain" );
}

//@ h_filename quick(n=5) thorough(n=7)
HARNESS( h_filename )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 5 ) );
	string f = name( "f", 2, true );
	path p( s );
	size_t ls = s.find_last_of( "/\\" );
	string dir = ls == string::npos ? string() : s.substr( 0, ls + 1 );
	path q( s ); q.replace_filename( path( f ) );
	path r( s ); r.remove_filename();
	CHECK_MSG( q.filename().str() == f, "replace_filename sets the filename" );
	CHECK_MSG( q.parent_path() == p.parent_path() && q.has_parent_path() == p.has_parent_path() && q.is_absolute() == ( path( dir ).is_absolute() || ( ls == string::npos && path( f ).is_absolute() ) ), "replace_filename keeps the directory" );
	CHECK_MSG( r == p.parent_path(), "remove_filename leaves the directory" );
	sym_reach( ls == 0 ? "root" : ls != string::npos ? "directory" : "plain" );
}

//@ h_stem quick(n=5) thorough(n=6)
HARNESS( h_stem )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 5 ) );
	string t = name( "t", 2, false );
	path p( s );
	path q( s ); q.replace_stem( path( t ) );
	CHECK_MSG( q.parent_path() == p.parent_path() && q.has_parent_path() == p.has_parent_path(), "replace_stem keeps the directory" );
	CHECK_MSG( q.extension() == p.extension(), "replace_stem keeps the extension" );
	CHECK_MSG( q.stem().str() == t, "replace_stem sets the stem" );
	path r( s ); r.concat_stem( t );
	CHECK_MSG( r.parent_path() == p.parent_path() && r.has_parent_path() == p.has_parent_path(), "concat_stem keeps the directory" );
	CHECK_MSG( r.stem().str() == p.stem().str() + t && r.extension() == p.extension(), "concat_stem appends to the stem" );
	sym_reach( p.has_parent_path() ? "directory" : "plain" );
}

//@ h_join quick(n=4) thorough(n=5)
HARNESS( h_join )
{
	string a = sym_str( "a", (size_t)sym_param( "n", 4 ) ); string b = sym_str( "b", 3 );
	path p( a ), q( b );
	path j = p / q;
	size_t lead = 0; while ( lead < b.size() && sep( b[ lead ] ) ) ++lead;
	if ( p.has_filename() ) CHECK_MSG( j.str() == a + "/" + b.substr( lead ), "joined by one separator" );
	else CHECK_MSG( j.str() == a + b, "no separator added to an empty path or directory" );
	CHECK_MSG( j.filename() == q.filename() || b.empty() || ( !a.empty() && a[ a.size() - 1 ] == ':' ), "filename is that of the second path" );
	path k( a ); k /= q; path m( a ); m /= b;
	CHECK_MSG( k == j && m == j, "/= equals /" );
	CHECK_MSG( ( p + q ).str() == a + b, "+ concatenates" );
	path l( a ); l += b;
	CHECK_MSG( l.str() == a + b, "+= concatenates" );
	sym_reach( p.has_filename() ? "file" : "none" );
}

//@ h_preferred quick(n=6) thorough(n=8)
HARNESS( h_preferred )
{
	string s = sym_str( "s", (size_t)sym_param( "n", 6 ) );
	path p( s ); p.make_preferred();
	string w = s; for ( char& c : w ) if ( c == '\\' ) c = '/';
	CHECK_MSG( p.str() == w, "only separators are changed" );
	path q = p; q.make_preferred();
	CHECK_MSG( q == p, "idempotent" );
	sym_reach( "end" );
}
