// trees in files: by extension, with included files, and plain data
#include "sym.h"
#include "xo/serialization/serialize.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/serialization/prop_node_serializer_xml.h"
#include "xo/serialization/prop_node_serializer_ini.h"
#include "xo/serialization/container_io.h"
#include "xo/container/prop_node.h"
#include "xo/filesystem/filesystem.h"
#include "xo/string/string_tools.h"
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <vector>
using xo::path; using xo::prop_node; using std::string; using std::vector;

static void put( const string& n, const string& s ) { std::ofstream f( n ); f << s; }
static const char* formats[] = { "zml", "xml", "ini" };
static string word( const char* nm, size_t n ) { return sym_str_of( nm, n, "abz09_" ); }

// a tree that is saved is loaded, whatever the format that belongs to the extension
//@ h_save_load quick(n=2) thorough(n=3)
HARNESS( h_save_load )
{
	size_t n = (size_t)sym_param( "n", 2 ); string v = word( "value", n ), w = word( "other", n ); int f = sym_pick( "format", 0, 2 );
	prop_node pn; if ( f == 1 ) { pn[ "root" ][ "a" ] = v; pn[ "root" ][ "g" ][ "b" ] = w; } else { pn[ "a" ] = v; pn[ "g" ][ "b" ] = w; }
	int dir = sym_bool( "directory" ); if ( dir ) mkdir( "d", 0777 ); path p( string( dir ? "d/" : "" ) + "t." + formats[ f ] );
	bool explicit_type = sym_bool( "explicit type" ); if ( explicit_type ) p = path( string( dir ? "d/" : "" ) + "t.dat" );
	if ( sym_bool( "exists" ) ) put( p.str(), "old = 1 # text that is longer than what is written afterwards" );
	xo::error_code ec; bool use_ec = sym_bool( "error code" ); auto* e = use_ec ? &ec : nullptr;
	bool r = explicit_type ? xo::save_file( pn, p, formats[ f ], e ) : xo::save_file( pn, p, e );
	CHECK_MSG( r && ec.good(), "saved" );
	prop_node l = explicit_type ? xo::load_file( p, formats[ f ], e ) : xo::load_file( p, e );
	CHECK_MSG( ec.good() && l == pn, "loaded what was saved" );
	sym_reach( formats[ f ] );
}

// extensions without a format, directories that do not exist and files that are absent are errors, never a crash
//@ h_refused quick() thorough()
HARNESS( h_refused )
{
	prop_node pn; pn[ "a" ] = "1"; string ext = word( "extension", 3 ); int kind = sym_pick( "kind", 0, 4 ); xo::error_code ec; bool bad, thrown;
	bool known = ext == "zml" || ext == "xml" || ext == "ini"; sym_assume( !known );
	switch ( kind ) {
	case 0: bad = !xo::save_file( pn, "t." + ext, &ec ); thrown = throws( [&] { xo::save_file( pn, "t." + ext ); } ); CHECK_MSG( !xo::exists( "t." + ext ), "nothing is written" ); break;
	case 1: put( "t." + ext, "a = 1" ); { prop_node l = xo::load_file( "t." + ext, &ec ); bad = ec.bad(); CHECK_MSG( l.size() == 0, "empty" ); } thrown = throws( [&] { xo::load_file( "t." + ext ); } ); break;
	case 2: bad = !xo::save_file( pn, ext + "/t.zml", &ec ); thrown = throws( [&] { xo::save_file( pn, ext + "/t.zml" ); } ); break;
	case 3: { prop_node l = xo::load_file( ext + ".zml", &ec ); bad = ec.bad(); CHECK_MSG( l.size() == 0, "empty" ); } thrown = throws( [&] { xo::load_file( ext + ".zml" ); } ); break;
	default: put( "t.zml", "a = 1" ); { prop_node l = xo::load_file( "t.zml", ext, &ec ); bad = ec.bad(); CHECK_MSG( l.size() == 0, "empty" ); } thrown = throws( [&] { xo::load_file( "t.zml", ext ); } ); break;
	}
	CHECK_MSG( bad, "an error code is set" ); CHECK_MSG( ec.bad(), "error code" ); CHECK_MSG( thrown, "without error code, it throws" );
	sym_reach( "refused" );
}

// << file >> inserts the children of that file, relative to the including file; all included files are reported
//@ h_zml_include quick() thorough()
HARNESS( h_zml_include )
{
	string v = word( "v", 1 ), w = word( "w", 1 ), x = word( "x", 1 ); mkdir( "d", 0777 ); mkdir( "d/e", 0777 );
	bool nested = sym_bool( "nested" ), absent = sym_bool( "absent" ), malformed = sym_bool( "malformed" ), twice = sym_bool( "twice" ), group = sym_bool( "group" );
	put( "d/m.zml", "a = " + v + "\n" + ( group ? "g { << e/i.zml >> }" : "<< e/i.zml >>" ) + "\n" + ( twice ? "<< \"e/i.zml\" >>\n" : "" ) + "z = " + x + "\n" );
	put( "d/e/i.zml", "b = " + w + "\n" + ( nested ? "<< n.zml >>\n" : "" ) + "c = 2\n" );
	if ( !absent ) put( "d/e/n.zml", malformed ? "n = { 3" : "n = 3" );
	bool ok = !nested || ( !absent && !malformed );
	prop_node inc; inc.add_child( "b" ).set_value( string( w ) ); if ( nested ) inc.add_child( "n" ).set_value( string( "3" ) ); inc.add_child( "c" ).set_value( string( "2" ) );
	prop_node want; want.add_child( "a" ).set_value( string( v ) ); if ( group ) want.add_child( "g" ).append( inc ); else want.append( inc ); if ( twice ) want.append( inc ); want.add_child( "z" ).set_value( string( x ) );
	xo::error_code ec; vector<path> files; prop_node pn = xo::load_zml( "d/m.zml", &ec, path(), &files );
	CHECK_MSG( ec.good() == ok, "an error in or when opening an included file is reported" );
	if ( ok ) {
		CHECK_MSG( pn == want, "included children are inserted" );
		size_t cnt = 0, nn = 0; for ( auto& f : files ) { if ( f == path( "d/e/i.zml" ) ) ++cnt; else if ( f == path( "d/e/n.zml" ) ) ++nn; else CHECK_MSG( false, "only included files" ); }
		CHECK_MSG( cnt == ( twice ? 2u : 1u ) && nn == ( nested ? cnt : 0 ), "all included files are reported" );
	}
	prop_node r; bool t = throws( [&] { r = xo::load_file( "d/m.zml" ); } ); CHECK_MSG( t == !ok && ( t || r == want ), "the same without error code" );
	sym_reach( ok ? nested ? "nested" : "plain" : "error" );
}

// files that include each other are refused
//@ h_zml_loop insts(80000000) quick() thorough()
HARNESS( h_zml_loop )
{
	int kind = sym_pick( "kind", 0, 2 ); bool use_ec = sym_bool( "error code" );
	put( "a.zml", kind == 0 ? "x = 1 << a.zml >>" : "x = 1 << b.zml >> << b.zml >>" ); put( "b.zml", kind == 1 ? "y = 2 << a.zml >>" : kind == 2 ? "y = 2" : "" );
	xo::error_code ec; prop_node pn; bool t = throws( [&] { pn = xo::load_zml( "a.zml", use_ec ? &ec : nullptr ); } );
	if ( use_ec ) CHECK_MSG( !t && ec.bad() == ( kind != 2 ), "a loop is an error" ); else CHECK_MSG( t == ( kind != 2 ), "a loop is an error" );
	xo::error_code e2; put( "c.zml", "y = 2" ); xo::load_zml( "c.zml", &e2 ); CHECK_MSG( e2.good(), "other files are loaded afterwards" );
	sym_reach( kind == 2 ? "no loop" : "loop" );
}

// an include directive is replaced by the root of that file, or its children are merged without overwriting
//@ h_include quick() thorough()
HARNESS( h_include )
{
	string v = word( "v", 1 ), w = word( "w", 1 ); int at = sym_pick( "place", 0, 2 ); bool merge = sym_bool( "merge" ), nested = sym_bool( "nested" ), two = sym_bool( "two roots" ), deep = sym_bool( "deep" ); mkdir( "d", 0777 );
	const char* dir = sym_bool( "other directive" ) ? "USE" : "INCLUDE"; string inc = string( dir ) + " { file = i.zml " + ( merge ? "merge_children = 1 " : "" ) + "}\n";
	string a = "a = " + v + "\n", c = "c = 3\n", body = at == 0 ? inc + a + c : at == 1 ? a + inc + c : a + c + inc;
	put( "d/m.zml", deep ? "top {\n" + body + "}\n" : body );
	put( "d/i.zml", "r {\n a = " + w + "\n b = 2\n" + ( nested ? string( dir ) + " { file = n.zml }\n" : "" ) + "}\n" + ( two ? "s { a = 1 }\n" : "" ) );
	put( "d/n.zml", "n { q = 5 }\n" );
	prop_node r; r.add_child( "a" ).set_value( string( w ) ); r.add_child( "b" ).set_value( string( "2" ) ); if ( nested ) r.add_child( "n" ).add_child( "q" ).set_value( string( "5" ) );
	prop_node want;
	if ( merge ) { want.add_child( "a" ).set_value( string( v ) ); want.add_child( "c" ).set_value( string( "3" ) ); want.add_child( "b" ).set_value( string( "2" ) ); if ( nested ) want.add_child( "n" ).add_child( "q" ).set_value( string( "5" ) ); }
	else { if ( at == 0 ) want.add_child( "r", r ); want.add_child( "a" ).set_value( string( v ) ); if ( at == 1 ) want.add_child( "r", r ); want.add_child( "c" ).set_value( string( "3" ) ); if ( at == 2 ) want.add_child( "r", r ); }
	if ( deep ) { prop_node t; t.add_child( "top", want ); want = t; }
	prop_node pn; bool t = throws( [&] { pn = xo::load_file_with_include( "d/m.zml", dir ); } );
	CHECK_MSG( t == two, "an included file has one root" );
	if ( !t ) CHECK_MSG( pn == want, "included" );
	sym_reach( t ? "refused" : merge ? "merged" : "inserted" );
}

// any sequence of includes and other children
//@ h_include_many quick(n=3) thorough(n=4)
HARNESS( h_include_many )
{
	static const char* files[] = { "i.zml", "j.zml" }; static const char* keys[] = { "x", "y" }; put( "i.zml", "r { x = 1 y = 2 }" ); put( "j.zml", "s { y = 3 z = 4 }" ); int n = (int)sym_param( "n", 3 ); string text; prop_node want, added[ 2 ];
	added[ 0 ].add_child( "x" ).set_value( "1" ); added[ 0 ].add_child( "y" ).set_value( "2" ); added[ 1 ].add_child( "y" ).set_value( "3" ); added[ 1 ].add_child( "z" ).set_value( "4" ); vector< int > merged;
	for ( int i = 0; i < n; ++i ) {
		int k = sym_pick( "kind", 0, 5 ), f = k & 1; if ( k < 2 ) { if ( want.has_key( keys[ f ] ) ) { text += "p" + std::to_string( i ) + " = 0\n"; want.add_child( "p" + std::to_string( i ) ).set_value( "0" ); } else { text += string( keys[ f ] ) + " = 9\n"; want.add_child( keys[ f ] ).set_value( "9" ); } }
		else { text += string( "INCLUDE { file = " ) + files[ f ] + ( k < 4 ? " }\n" : " merge_children = 1 }\n" ); if ( k < 4 ) want.add_child( f ? "s" : "r", added[ f ] ); else merged.push_back( f ); }
	}
	for ( int f : merged ) for ( auto& c : added[ f ] ) if ( !want.has_key( c.first ) ) want.add_child( c.first, c.second );
	put( "m.zml", text ); prop_node pn; bool t = throws( [&] { pn = xo::load_file_with_include( "m.zml", "INCLUDE" ); } ); CHECK_MSG( !t && pn == want, "included" ); sym_reach( merged.size() > 1 ? "merged" : "other" );
}

//@ h_include_loop insts(80000000) quick() thorough()
HARNESS( h_include_loop )
{
	int kind = sym_pick( "kind", 0, 2 ); bool merge = sym_bool( "merge" ); string m = merge ? " merge_children = 1" : "";
	put( "a.zml", "r { INCLUDE { file = " + string( kind == 0 ? "a" : "b" ) + ".zml" + m + " } }" ); put( "b.zml", kind == 1 ? "s { INCLUDE { file = a.zml" + m + " } }" : "s { y = 2 }" );
	bool t = throws( [&] { xo::load_file_with_include( "a.zml" ); } );
	CHECK_MSG( t == ( kind != 2 ), "a loop is an error" ); CHECK_MSG( throws( [&] { xo::load_file_with_include( "absent.zml" ); } ), "an absent file too" );
	sym_reach( t ? "loop" : "no loop" );
}

// numbers in a file are read in order, all of them
//@ h_data quick(n=3) thorough(n=4)
HARNESS( h_data )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 3 ) ), end = sym_pick( "end", 0, 3 ); vector<int> want; string s; const char* seps[] = { " ", "\n", "\t " };
	for ( int i = 0; i < n; ++i ) { string d = sym_str_of( "digit", 1, "0123456789" ); want.push_back( d[ 0 ] - '0' ); if ( i ) s += seps[ sym_pick( "separator", 0, 2 ) ]; s += d; }
	if ( end == 1 ) s += "\n"; if ( end == 2 ) s += " x"; if ( end == 3 ) s += "\n\n "; put( "n.txt", s );
	xo::error_code ec; vector<int> v = xo::read_data<vector<int>>( "n.txt", &ec );
	CHECK_MSG( v == want, "all elements in order" ); CHECK_MSG( ec.good() == ( n > 0 && end != 2 ), "no data or other data is an error" );
	xo::error_code e2; xo::read_data<vector<int>>( "none.txt", &e2 ); CHECK_MSG( e2.bad(), "absent" ); CHECK_MSG( throws( [&] { xo::read_data<vector<int>>( "none.txt" ); } ), "absent" );
	sym_reach( end == 2 ? "other data" : n ? "data" : "empty" );
}

// extensions can be registered for a format, once, until they are unregistered
//@ h_extension quick(n=2) thorough(n=3)
HARNESS( h_extension )
{
	string ext = word( "extension", (size_t)sym_param( "n", 2 ) ), v = word( "value", 1 ); int f = sym_pick( "format", 0, 2 ); prop_node pn; if ( f == 1 ) pn[ "root" ][ "a" ] = v; else pn[ "g" ][ "a" ] = v;
	auto reg = [&]( const string& e ) { if ( f == 0 ) xo::register_file_extension< xo::prop_node_serializer_zml >( e ); else if ( f == 1 ) xo::register_file_extension< xo::prop_node_serializer_xml >( e ); else xo::register_file_extension< xo::prop_node_serializer_ini >( e ); };
	CHECK_MSG( throws( [&] { reg( "zml" ); } ) && throws( [&] { reg( "xml" ); } ) && throws( [&] { reg( "ini" ); } ), "extensions of formats are registered" ); CHECK_MSG( throws( [&] { xo::save_file( pn, "t." + ext ); } ), "an unknown extension is refused" );
	reg( ext ); CHECK_MSG( throws( [&] { reg( ext ); } ), "registered once" ); xo::save_file( pn, "t." + ext ); xo::save_file( pn, string( "t." ) + formats[ f ] );
	CHECK_MSG( xo::load_string( "t." + ext ) == xo::load_string( string( "t." ) + formats[ f ] ) && xo::load_file( "t." + ext ) == pn, "saved and loaded in that format" );
	std::stringstream str; xo::error_code ec; prop_node got; auto w = xo::make_serializer( ext, (const prop_node&)pn, &ec ); str << *w; auto r = xo::make_serializer( ext, got, &ec ); str >> *r; CHECK_MSG( ec.good() && got == pn, "streams" );
	xo::get_serializer_factory().unregister_type( ext ); CHECK_MSG( throws( [&] { xo::load_file( "t." + ext ); } ) && !xo::make_serializer( ext, got, &ec ) && ec.bad(), "unregistered" );
	sym_reach( formats[ f ] );
}
