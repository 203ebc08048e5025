// finding files in directories by patterns, over every small content of the disk
#include "sym.h"
#include "xo/filesystem/filesystem.h"
#include "xo/string/pattern_matcher.h"
#include <fstream>
#include <sys/stat.h>
#include <vector>
#include <cstring>
#include <algorithm>
using xo::path; using std::string; using std::vector;
#ifndef SYM_NATIVE
namespace std { namespace filesystem { extern bool shim_dir_reversed; } }
static void any_order() { std::filesystem::shim_dir_reversed = sym_pick( "reversed", 0, 1 ); }
#else
static void any_order() { sym_pick( "reversed", 0, 1 ); }
#endif

#ifndef SYM_NATIVE
static const char *g_home, *g_tmp; static string g_exe; static bool g_link = true;
extern "C" char* getenv( const char* n ) noexcept { return (char*)( !strcmp( n, "HOME" ) ? g_home : !strcmp( n, "TMP" ) ? g_tmp : nullptr ); }
extern "C" ssize_t readlink( const char* n, char* b, size_t m ) noexcept { if ( strcmp( n, "/proc/self/exe" ) || !g_link ) return -1; size_t k = 0; while ( k < g_exe.size() && k < m ) { b[ k ] = g_exe[ k ]; ++k; } return (ssize_t)k; }
static void environment( const char* n, const char* v ) { ( n[ 0 ] == 'H' ? g_home : g_tmp ) = v; }
#else
#include <unistd.h>
static bool g_link = true; static string g_exe;
static void environment( const char* n, const char* v ) { if ( v ) setenv( n, v, 1 ); else unsetenv( n ); }
#endif

static const char* patterns[] = { "*.t", "*", "a*", "b;*.u", "?.t;c", "x" };
static bool ends( const string& s, const string& e ) { return s.size() >= e.size() && s.substr( s.size() - e.size() ) == e; }
static bool matches( int p, const string& s )
{
	switch ( p ) { case 0: return ends( s, ".t" ); case 1: return true; case 2: return s[ 0 ] == 'a'; case 3: return s == "b" || ends( s, ".u" ); case 4: return ( s.size() == 3 && ends( s, ".t" ) ) || s == "c"; default: return s == "x"; }
}
struct entry { string dir, name; int kind; };
static vector< entry > disk;
static void place( const string& d, const string& n, int kinds )
{
	int k = sym_pick( "kind", 0, kinds ); string f = d + "/" + n; if ( k == 1 ) { std::ofstream o( f ); o << "x"; } if ( k == 2 ) mkdir( f.c_str(), 0777 ); if ( k ) disk.push_back( { d, n, k } );
}
static bool has_dir( const string& d ) { for ( auto& e : disk ) if ( e.kind == 2 && e.dir + "/" + e.name == d ) return true; return false; }
static void expect( const string& d, int inc, int exc, bool rec, int levels, vector< string >& out )
{
	for ( auto& e : disk ) if ( e.dir == d ) { if ( matches( inc, e.name ) && ( exc < 0 || !matches( exc, e.name ) ) ) out.push_back( d + "/" + e.name ); if ( e.kind == 2 && rec && levels != 0 ) expect( d + "/" + e.name, inc, exc, rec, levels - 1, out ); }
}

// what matches, in the directory and those in it, as deep as asked
//@ h_find quick() thorough()
HARNESS( h_find )
{
	mkdir( "d", 0777 ); mkdir( "e", 0777 ); { std::ofstream o( "e/a.t" ); o << "x"; } { std::ofstream o( "a.t" ); o << "x"; }
	string any = sym_str_of( "name", 1, "abx" ); place( "d", any + ".t", 1 ); place( "d", "b", 2 ); if ( has_dir( "d/b" ) ) { place( "d/b", "c", 2 ); place( "d/b", any + "b.u", 1 ); if ( has_dir( "d/b/c" ) ) place( "d/b/c", "a.t", 2 ); } any_order();
	int inc = sym_pick( "include", 0, 5 ), exc = sym_pick( "exclude", -1, 5 ), how = sym_pick( "how", 0, 4 ); bool slash = inc & 1; path root( slash ? "d/" : "d" ); int levels = how - 1; bool rec = how != 4; // all, none, one or two levels; or not recursive
	vector< path > f = exc < 0 ? xo::find_files( root, patterns[ inc ], rec, rec ? levels : -1 ) : xo::find_files( root, patterns[ inc ], patterns[ exc ], rec, rec ? levels : -1 );
	vector< string > got, want; for ( auto& p : f ) got.push_back( p.str() ); expect( "d", inc, exc, rec, rec ? levels : -1, want ); std::sort( got.begin(), got.end() ); std::sort( want.begin(), want.end() );
	CHECK_MSG( got == want, "everything that matches, once" ); sym_reach( want.empty() ? "none" : want.size() > 1 ? "more" : "one" );
}

//@ h_default quick() thorough()
HARNESS( h_default )
{
	mkdir( "d", 0777 ); place( "d", "a.t", 1 ); place( "d", "b", 2 ); if ( has_dir( "d/b" ) ) { place( "d/b", "c", 2 ); place( "d/b", "x", 1 ); if ( has_dir( "d/b/c" ) ) place( "d/b/c", "a.t", 1 ); } any_order(); int inc = sym_pick( "include", 0, 5 );
	vector< string > got, want; for ( auto& p : xo::find_files( "d", patterns[ inc ] ) ) got.push_back( p.str() ); expect( "d", inc, -1, true, -1, want ); std::sort( got.begin(), got.end() ); std::sort( want.begin(), want.end() ); CHECK_MSG( got == want, "recursive by default" );
	CHECK_MSG( throws( [] { xo::find_files( "absent", "*" ); } ), "a directory that is absent is an error" ); sym_reach( want.empty() ? "none" : "some" );
}

// a matcher of several patterns accepts what any of them accepts
//@ h_matcher quick(n=3,m=2) thorough(n=4,m=3)
HARNESS( h_matcher )
{
	int n = (int)sym_param( "n", 3 ); string p = sym_str_of( "patterns", (size_t)sym_pick( "length", 0, n ), "a*?;" ), s = sym_str( "s", (size_t)sym_param( "m", 2 ) ); int form = sym_pick( "form", 0, 3 ); string q = p; if ( form == 3 ) for ( auto& c : q ) c = c == ';' ? ',' : c;
	xo::prop_node pn; pn.set_value( string( p ) ); xo::pattern_matcher m = form == 0 ? xo::pattern_matcher( p ) : form == 1 ? xo::pattern_matcher( p.c_str() ) : form == 2 ? pn.get< xo::pattern_matcher >() : xo::pattern_matcher( q, "," );
	bool want = false; vector< string > parts; size_t b = 0; while ( b <= p.size() ) { size_t e = p.find( ';', b ); if ( e == string::npos ) e = p.size(); if ( e > b ) parts.push_back( p.substr( b, e - b ) ); b = e + 1; } for ( auto& x : parts ) want |= xo::pattern_match( s, x );
	CHECK_MSG( m.match( s ) == want && m( s ) == want, "any of the patterns" ); CHECK_MSG( m.empty() == parts.empty() && m.patterns().size() == parts.size(), "patterns" ); xo::pattern_matcher r( to_str( m ) ); CHECK_MSG( r.match( s ) == want, "text of a matcher" ); CHECK_MSG( xo::is_pattern( p ) == ( p.find( '*' ) != string::npos || p.find( '?' ) != string::npos ), "is a pattern" ); sym_reach( want ? "match" : "no match" );
}

// directories of the user and of the program
//@ h_dirs quick() thorough()
HARNESS( h_dirs )
{
	string home = "/h" + sym_str_of( "home", 1, "ab/c" ), tmp = "/t" + sym_str_of( "tmp", 1, "ab\\c" ); bool has_home = sym_pick( "has home", 0, 1 ), has_tmp = sym_pick( "has tmp", 0, 1 ); environment( "HOME", has_home ? home.c_str() : nullptr ); environment( "TMP", has_tmp ? tmp.c_str() : nullptr );
	string c, d; bool tc = throws( [&] { c = xo::get_config_dir().str(); } ), td = throws( [&] { d = xo::get_documents_dir().str(); } ); CHECK_MSG( tc == !has_home && td == !has_home, "no home is an error" );
	if ( has_home ) { CHECK_MSG( c == home + "/.config", "configuration" ); CHECK_MSG( d == home, "documents" ); }
	CHECK_MSG( xo::temp_directory_path() == ( has_tmp ? xo::path( tmp ) : xo::path( "/tmp" ) ), "temporary files" );
	int n = sym_pick( "parts", 0, 2 ); g_link = sym_pick( "link", 0, 1 ); g_exe = n == 0 ? "/x" : n == 1 ? "/d" + home + "/x.y" : "/b" + string( sym_pick( "length", 1000, 1016 ), 'b' ) + "/xyz";
#ifdef SYM_NATIVE
	char b[ 4096 ]; ssize_t k = readlink( "/proc/self/exe", b, sizeof b ); g_exe = string( b, k ); g_link = true;
#endif
	string app = xo::get_application_dir().str(); CHECK_MSG( app == ( g_link ? g_exe.substr( 0, g_exe.rfind( '/' ) ) : "" ), "directory of the program" ); sym_reach( "end" );
}
