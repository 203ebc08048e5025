// files and directories: searching, creating, copying, loading and saving, over every small content of the disk
#include "sym.h"
#include "xo/filesystem/filesystem.h"
#include <fstream>
#include <sys/stat.h>
#include <vector>
using xo::path; using std::string; using std::vector;

static void put( const string& n, const string& s ) { std::ofstream f( n ); f << s; }
static string text( const string& n ) { std::ifstream f( n ); string s; char c; while ( f.get( c ) ) s += c; return s; }
// nothing, a file or a directory of that name; its text is its name
static int place( const char* what, const string& n ) { int k = sym_int( what, 0, 2 ); if ( k == 1 ) put( n, n ); if ( k == 2 ) mkdir( n.c_str(), 0777 ); return k; }

//@ h_exists quick() thorough()
HARNESS( h_exists )
{
	mkdir( "d", 0777 ); const char* names[] = { "a", "d/b", "d/b.x", "e/c" }; string n = names[ sym_pick( "name", 0, 3 ) ]; bool parent = n[ 0 ] != 'e';
	int k = place( "kind", n ); if ( !parent ) k = 0;
	CHECK_MSG( xo::exists( n ) == ( k != 0 ), "exists" );
	CHECK_MSG( xo::file_exists( n ) == ( k == 1 ), "a file exists when it is a file" );
	CHECK_MSG( xo::directory_exists( n ) == ( k == 2 ), "a directory exists when it is one" );
	bool r = xo::remove( n ); CHECK_MSG( r == ( k != 0 ), "remove" ); CHECK_MSG( !xo::exists( n ), "removed" );
	CHECK_MSG( xo::directory_exists( "d" ) && !xo::file_exists( "d" ), "others are kept" );
	sym_reach( k == 0 ? "nothing" : k == 1 ? "file" : "directory" );
}

// the first of the paths, in order, that is a file; relative paths are relative to the current find path
//@ h_find quick() thorough()
HARNESS( h_find )
{
	mkdir( "r", 0777 ); const char* cand[] = { "a", "b", "c" }; int kind[ 3 ]; for ( int i = 0; i < 3; ++i ) kind[ i ] = place( "kind", string( "r/" ) + cand[ i ] );
	int where = sym_pick( "folder", 0, 1 ); path root = where ? path( "r" ) : path( "r/" ); xo::current_find_file_path( root );
	CHECK_MSG( xo::current_find_file_path() == root, "current find path" );
	if ( sym_bool( "elsewhere" ) ) for ( auto* c : cand ) put( c, "file in the working directory" );
	int want = -1; for ( int i = 2; i >= 0; --i ) if ( kind[ i ] == 1 ) want = i;
	auto f = xo::try_find_file( { "a", "b", "c" } );
	CHECK_MSG( bool( f ) == ( want >= 0 ), "found when there is one" );
	if ( f ) CHECK_MSG( f->str() == string( "r/" ) + cand[ want ], "first file is found" );
	string g; bool t = throws( [&] { g = xo::find_file( { "a", "b", "c" } ).str(); } );
	CHECK_MSG( t == ( want < 0 ) && ( t || g == f->str() ), "find_file finds the same, or throws" );
	sym_reach( want < 0 ? "none" : "found" );
}

// in search directories; an absolute path that does not exist is searched by its file name
//@ h_find_dirs quick() thorough()
HARNESS( h_find_dirs )
{
	mkdir( "p", 0777 ); mkdir( "q", 0777 ); mkdir( "q/s", 0777 );
	int kp = place( "p", "p/f.t" ), kq = place( "q", "q/f.t" ), ks = place( "s", "q/s/f.t" ), other = sym_bool( "other" ); if ( other ) put( "p/g.t", "g" );
	int form = sym_pick( "form", 0, 2 ); vector<path> dirs; int n = sym_pick( "directories", 0, 2 ); if ( n > 0 ) dirs.push_back( "p" ); if ( n > 1 ) dirs.push_back( "q/" );
	auto f = xo::try_find_file( form == 0 ? path( "f.t" ) : form == 1 ? path( "s/f.t" ) : path( "/absent/f.t" ), dirs );
	string want; if ( form == 1 ) { if ( n > 1 && ks == 1 ) want = "q/s/f.t"; }
	else { if ( n > 1 && kq == 1 ) want = "q/f.t"; if ( n > 0 && kp == 1 ) want = "p/f.t"; }
	CHECK_MSG( bool( f ) == !want.empty(), "found when one of the directories has it" );
	if ( f ) CHECK_MSG( f->str() == want, "the first directory that has it" );
	sym_reach( f ? "found" : "none" );
}

//@ h_create quick() thorough()
HARNESS( h_create )
{
	int ka = sym_int( "a", 0, 2 ), kb = 0, kc = 0; if ( ka == 1 ) put( "a", "file" ); if ( ka == 2 ) { mkdir( "a", 0777 ); kb = place( "b", "a/b" ); if ( kb == 2 ) kc = place( "c", "a/b/c" ); }
	int depth = sym_pick( "depth", 1, 3 ); bool abs = false; (void)abs; string n = depth == 1 ? "a" : depth == 2 ? "a/b" : "a/b/c"; int last = depth == 1 ? ka : depth == 2 ? kb : kc;
	bool blocked = ka == 1 || ( depth > 1 && kb == 1 ) || ( depth > 2 && kc == 1 );
	bool r = xo::create_directories( n );
	CHECK_MSG( xo::directory_exists( n ) == !blocked, "directory exists afterwards, with its parents" );
	CHECK_MSG( r == ( !blocked && last == 0 ), "created if it did not exist" );
	if ( ka == 1 ) CHECK_MSG( text( "a" ) == "file", "files are kept" ); if ( kb == 1 ) CHECK_MSG( text( "a/b" ) == "a/b", "files are kept" );
	sym_reach( blocked ? "blocked" : r ? "created" : "there" );
}

// unique directories do not exist yet, and take the lowest number
//@ h_unique quick(n=3) thorough(n=4)
HARNESS( h_unique )
{
	int n = (int)sym_param( "n", 3 ); bool have[ 6 ]; mkdir( "w", 0777 ); const char* names[] = { "w/u", "w/u (1)", "w/u (2)", "w/u (3)", "w/u (4)" };
	for ( int i = 0; i < n; ++i ) { have[ i ] = sym_bool( "have" ); if ( have[ i ] ) mkdir( names[ i ], 0777 ); }
	int want = -1; for ( int i = n - 1; i >= 0; --i ) if ( !have[ i ] ) want = i;
	int lim = sym_int( "attempts", 1, n ); if ( want >= lim ) want = -1;
	string f; bool t = throws( [&] { f = xo::find_unique_directory( "w/u", lim ).str(); } );
	CHECK_MSG( t == ( want < 0 ) && ( t || f == names[ want ] ), "first name that is free, or refused after the attempts" );
	if ( !t ) CHECK_MSG( !xo::exists( f ), "finding does not create" );
	string g; bool u = throws( [&] { g = xo::create_unique_directory( "w/u", lim ).str(); } );
	CHECK_MSG( u == t && ( u || g == f ), "the same name is created" );
	if ( !u ) { CHECK_MSG( xo::directory_exists( g ), "created" ); string h; bool v = throws( [&] { h = xo::create_unique_directory( "w/u", n + 2 ).str(); } ); CHECK_MSG( !v && h != g && xo::directory_exists( h ), "a second one differs" ); }
	sym_reach( t ? "refused" : "unique" );
}

// text that is saved is loaded, byte for byte; appending adds at the end
//@ h_text quick(a=2,b=1) thorough(a=4,b=3)
HARNESS( h_text )
{
	const char* dirs[] = { "", "x/", "x/y/" }; int kx = sym_int( "x", 0, 2 ); if ( kx == 1 ) put( "x", "file" ); if ( kx == 2 ) mkdir( "x", 0777 );
	string d = dirs[ sym_pick( "folder", 0, 2 ) ]; bool blocked = !d.empty() && kx == 1; path n( d + "t.txt" );
	bool old = !blocked && d != "x/y/" && ( d.empty() || kx == 2 ) && sym_pick( "old", 0, 1 ); if ( old ) put( n.str(), "old text" );
	string s = sym_str( "text", (size_t)sym_param( "a", 2 ) ), t = sym_str( "more", (size_t)sym_param( "b", 1 ) ); bool first = sym_bool( "append first" );
	xo::error_code ec; first ? xo::append_string( n, s, &ec ) : xo::save_string( n, s, &ec );
	CHECK_MSG( ec.bad() == blocked, "saved unless that is impossible" );
	string want = ( first && old ? "old text" : "" ) + s;
	if ( !blocked ) {
		CHECK_MSG( xo::load_string( n ) == want, "what was saved is loaded" );
		xo::append_string( n, t ); want += t; CHECK_MSG( xo::load_string( n, &ec ) == want && ec.good(), "appended" );
		CHECK_MSG( xo::load_string( n ) == want, "loading changes nothing" );
		xo::save_string( n, t ); CHECK_MSG( xo::load_string( n ) == t, "saving replaces" );
	}
	else { CHECK_MSG( throws( [&] { xo::save_string( n, s ); } ), "refused" ); CHECK_MSG( throws( [&] { xo::append_string( n, s ); } ), "refused" ); }
	sym_reach( blocked ? "blocked" : "saved" );
}

// a file that is not there, or is a directory, is an error
//@ h_load quick() thorough()
HARNESS( h_load )
{
	int k = place( "kind", "f" ); xo::error_code ec; string s = xo::load_string( "f", &ec );
	CHECK_MSG( ec.good() == ( k == 1 ), "error unless it is a file" ); CHECK_MSG( s == ( k == 1 ? "f" : "" ), "its text" );
	string r; bool t = throws( [&] { r = xo::load_string( "f" ); } );
	CHECK_MSG( t == ( k != 1 ) && ( t || r == s ), "the same without error code, as exception" );
	sym_reach( k == 1 ? "file" : "error" );
}

//@ h_copy quick(a=2) thorough(a=3)
HARNESS( h_copy )
{
	mkdir( "to", 0777 ); string s = sym_str( "text", (size_t)sym_param( "a", 2 ) ); int kf = sym_int( "from", 0, 2 ); if ( kf == 1 ) put( "f", s ); if ( kf == 2 ) mkdir( "f", 0777 );
	int kt = place( "target", "to/g" ); bool over = sym_bool( "overwrite" ), noec = sym_bool( "no error code" ), nodir = sym_pick( "no directory", 0, 1 ); string t = nodir ? "none/g" : "to/g"; if ( nodir ) sym_assume( kt == 0 );
	bool want = kf == 1 && !nodir && ( kt == 0 || ( kt == 1 && over ) ); xo::error_code ec; bool r = false;
	bool thrown = throws( [&] { r = xo::copy_file( "f", t, over, noec ? nullptr : &ec ); } );
	if ( noec ) CHECK_MSG( thrown == !want && ( thrown || r ), "copied, or thrown" ); else CHECK_MSG( !thrown && r == want && ec.good() == want, "copied, or an error code" );
	if ( want ) CHECK_MSG( text( t ) == s, "target has the text" ); else if ( kt == 1 ) CHECK_MSG( text( t ) == "to/g", "target is kept" );
	if ( kf == 1 ) CHECK_MSG( text( "f" ) == s, "source is kept" );
	sym_reach( want ? "copied" : "not copied" );
}
