// settings: values that satisfy their schema are stored, others are refused or restricted, and all survive saving
#include "sym.h"
#include "xo/system/settings.h"
#include "xo/serialization/serialize.h"
#include "xo/filesystem/filesystem.h"
#include "xo/geometry/vec3.h"
#include "xo/utility/color.h"
#include <fstream>
#include <vector>
using xo::prop_node; using xo::settings; using xo::path; using xo::version; using std::string; using std::vector;

static prop_node& setting( prop_node& g, const char* id, const char* type, const char* def ) { auto& s = g.add_child( id ); if ( *type ) s.add_child( "type" ).set_value( string( type ) ); s.add_child( "default" ).set_value( string( def ) ); s.add_child( "label" ).set_value( "text" ); return s; }
static prop_node schema( const char* int_range = "0..100" )
{
	prop_node pn; setting( pn, "i", "int", "5" ).add_child( "range" ).set_value( string( int_range ) );
	auto& g = pn.add_child( "g" ); setting( g, "t", "string", "abc" ); setting( g, "n", "int", "7" ); setting( g, "b", "bool", "1" ); setting( g, "f", "float", "0.5" ).add_child( "range" ).set_value( "-1..2" );
	auto& h = g.add_child( "h" ); auto& a = setting( h, "c", "string", "low" ).add_child( "allowed" ); a.add_child( "" ).set_value( "low" ); a.add_child( "" ).set_value( "mid" ); a.add_child( "" ).set_value( "high" ); setting( h, "any", "", "x" );
	return pn;
}
// plain words, which all formats keep
static string word( const char* nm, size_t n ) { return sym_str_of( nm, n, "ab1-" ); }
struct state { int i = 5, n = 7; string t = "abc", c = "low", any = "x"; bool b = true; };
static void compare( const settings& s, const state& w )
{
	CHECK_MSG( s.get<int>( "i" ) == w.i && s.get<int>( "g.n" ) == w.n, "integer settings" );
	CHECK_MSG( s.get<string>( "g.t" ) == w.t && s.get<string>( "g.h.c" ) == w.c && s.get<string>( "g.h.any" ) == w.any, "text settings" );
	CHECK_MSG( s.get<bool>( "g.b" ) == w.b, "boolean settings" );
	CHECK_MSG( s.get<double>( "g.f" ) == 0.5, "settings that were not set have the default" );
}

// any sequence of sets, then saving and loading
//@ h_history quick(n=2) thorough(n=3)
HARNESS( h_history )
{
	settings s( schema(), "s.zml" ); state w; int n = (int)sym_param( "n", 2 ); compare( s, w ); CHECK_MSG( xo::file_exists( "s.zml" ), "file with defaults is made" );
	for ( int k = 0; k < n; ++k ) switch ( sym_pick( "operation", 0, 7 ) ) {
	case 0: { int v = sym_pick( "i", 0, 6 ) * 25 - 25; CHECK_MSG( s.set( "i", v ), "set" ); w.i = v < 0 ? 0 : v > 100 ? 100 : v; break; }
	case 1: { int v = sym_int( "n", -20, 20 ); CHECK_MSG( s.set( "g.n", v ), "set" ); w.n = v; break; }
	case 2: { string v = word( "text", 2 ); CHECK_MSG( s.set( "g.t", v ), "set" ); w.t = v; break; }
	case 3: { bool v = sym_bool( "b" ); CHECK_MSG( s.set( "g.b", v ), "set" ); w.b = v; break; }
	case 4: { string v = sym_str_of( "choice", 3, "lowmid" ); bool ok = v == "low" || v == "mid"; CHECK_MSG( s.set( "g.h.c", v ) == ok, "only allowed values" ); if ( ok ) w.c = v; break; }
	case 5: { string v = word( "number", 2 ); bool ok = v[ 0 ] == '1' || ( v[ 0 ] == '-' && v[ 1 ] == '1' ); sym_assume( !ok ); CHECK_MSG( !s.set( "g.n", v ), "text is refused for a number" ); CHECK_MSG( !s.set( "i", v ), "text is refused for a number" ); CHECK_MSG( !s.set( "g.b", string( "2" ) ), "not a boolean" ); break; }
	case 6: { string v = word( "any", 1 ); CHECK_MSG( s.set( "g.h.any", v ), "set" ); w.any = v; break; }
	case 7: s.reset(); w = state(); break;
	}
	compare( s, w ); bool other = sym_bool( "other file" ); path p( other ? "d/t.zml" : "s.zml" );
	s.save( other ? p : path() ); CHECK_MSG( s.data_file() == p, "file name" ); compare( s, w );
	settings t( schema(), p ); compare( t, w );
	sym_reach( "end" );
}

// settings that do not exist are refused, and change nothing
//@ h_unknown quick(n=1) thorough(n=2)
HARNESS( h_unknown )
{
	settings s( schema(), "s.zml" ); string id = sym_str_of( "id", (size_t)sym_param( "n", 1 ), "ign.btz" ); if ( sym_bool( "group" ) ) id = "g." + id;
	bool known = id == "i" || id == "g.t" || id == "g.n" || id == "g.b"; 
	CHECK_MSG( ( s.try_find_setting( id ) != nullptr ) == known, "found" );
	bool t = throws( [&] { (void)s.get<string>( id ); } ); CHECK_MSG( t == !known, "unknown settings have no value" );
	prop_node before = s.data(); bool r = s.set( id, string( "1" ) ); CHECK_MSG( r == known, "unknown settings are not set" );
	if ( !known ) { CHECK_MSG( s.data() == before, "nothing is changed" ); state w; compare( s, w ); }
	sym_reach( known ? "known" : "unknown" );
}

// all digits of values are kept; values outside of the range are moved to its nearest end
//@ h_range quick() thorough()
HARNESS( h_range )
{
	int lo = sym_pick( "lower", 0, 2 ), hi = sym_pick( "upper", 0, 2 ), v = sym_pick( "value", 0, 8 ); int los[] = { -2000000000, 0, 1000000 }, his[] = { 1000000, 16777217, 2147483647 }, vs[] = { -2147483647, -123456789, -1, 0, 999999, 1000000, 12345678, 16777217, 2147483647 };
	string range = std::to_string( los[ lo ] ) + ".." + std::to_string( his[ hi ] ); settings s( schema( range.c_str() ), "s.zml" );
	CHECK_MSG( s.set( "i", vs[ v ] ), "set" ); int want = vs[ v ] < los[ lo ] ? los[ lo ] : vs[ v ] > his[ hi ] ? his[ hi ] : vs[ v ];
	CHECK_MSG( s.get<int>( "i" ) == want, "the value, or the nearest end of the range" );
	s.save(); settings t( schema( range.c_str() ), "s.zml" ); CHECK_MSG( t.get<int>( "i" ) == want, "saved and loaded" );
	sym_reach( want == vs[ v ] ? "within" : "restricted" );
}

//@ h_float quick() thorough()
HARNESS( h_float )
{
	const char* txt[] = { "0.25", "-0.75", "2", "-1", "7.5", "-3", "1e9", "abc", "nan", "-" }; double val[] = { 0.25, -0.75, 2, -1, 2, -1, 2, 0.5, 0.5, 0.5 }; settings s( schema(), "s.zml" );
	int k = sym_int( "k", 0, 9 ); bool r = s.set( "g.f", string( txt[ k ] ) ); CHECK_MSG( r == ( k < 7 ), "only numbers" );
	CHECK_MSG( s.get<double>( "g.f" ) == val[ k ], "value, or nearest end of the range" );
	int j = sym_int( "j", 0, 1 ); CHECK_MSG( s.set( "g.f", string( j ? "" : "0.5" ) ) && s.get<double>( "g.f" ) == 0.5, "default" ); CHECK_MSG( s.data().try_get_query( "g.f" ) == nullptr, "defaults are not stored" );
	sym_reach( r ? "set" : "refused" );
}

// any short text for a number
//@ h_number quick(n=2) thorough(n=3)
HARNESS( h_number )
{
	settings s( schema(), "s.zml" ); string t = sym_str_of( "text", (size_t)sym_param( "n", 2 ), "0159.-ex" ); char* e = nullptr; double d = std::strtod( t.c_str(), &e ); bool ok = e != t.c_str();
	bool r = s.set( "g.f", t ); CHECK_MSG( r == ok, "only numbers" ); double g = s.get<double>( "g.f" ); CHECK_MSG( g == ( !ok ? 0.5 : d < -1 ? -1 : d > 2 ? 2 : d ), "value, or nearest end of the range" );
	sym_reach( r ? "set" : "refused" );
}

// colors and vectors
//@ h_types quick() thorough()
HARNESS( h_types )
{
	prop_node pn; setting( pn, "c", "color", "ff0000" ); auto& d = pn.add_child( "v" ); d.add_child( "type" ).set_value( "vec3" ); d[ "default" ] = xo::to_prop_node( xo::vec3d( 1, 2, 3 ) ); settings s( pn, "s.zml" );
	int x = sym_pick( "x", -1, 1 ), y = sym_pick( "y", -2, 10 ); CHECK_MSG( s.set( "v", xo::vec3d( x, y, 4 ) ) && s.get<xo::vec3d>( "v" ) == xo::vec3d( x, y, 4 ), "vector" );
	CHECK_MSG( !s.set( "v", string( "a" ) ) && s.get<xo::vec3d>( "v" ) == xo::vec3d( x, y, 4 ), "not a vector" );
	int g = sym_int( "g", 0, 15 ); string hex = string( "0000" ) + "0123456789abcdef"[ g ] + "0"; CHECK_MSG( s.set( "c", hex ) && s.get<xo::color>( "c" ).b == ( g * 16 ) * ( 1.0f / 255 ) , "color" );
	CHECK_MSG( !s.set( "c", string( "xyz" ) ), "not a color" );
	s.save(); settings t( pn, "s.zml" ); CHECK_MSG( t.get<xo::vec3d>( "v" ) == xo::vec3d( x, y, 4 ) && t.get<xo::color>( "c" ) == s.get<xo::color>( "c" ), "saved and loaded" );
	sym_reach( "end" );
}

// what is in a file is checked like values that are set; the version of the file is kept
//@ h_file quick() thorough()
HARNESS( h_file )
{
	int i = sym_pick( "i", 0, 6 ) * 25 - 25, ma = sym_int( "major", 0, 9 ), mi = sym_int( "minor", 0, 9 ); string c = sym_str_of( "choice", 3, "lowmid" ), post = sym_bool( "postfix" ) ? "beta" : ""; bool extra = sym_bool( "unknown" ), vers = sym_bool( "version" ), cur = sym_bool( "current version" ); version cv( 3, 2, 1, 0, post );
	{ std::ofstream f( "s.zml" ); f << ( vers ? "version = " + std::to_string( ma ) + "." + std::to_string( mi ) + ".5\n" : string() ) << "i = " << i << "\ng {\n h { c = " << c << " }\n" << ( extra ? " u = 3 t { x = 1 }\n" : "" ) << " n = 12x\n}\n" << ( extra ? "z { y = 1 }\n" : "" ); }
	settings s( schema(), "s.zml", cur ? cv : version() ); state w; w.i = i < 0 ? 0 : i > 100 ? 100 : i; if ( c == "mid" ) w.c = c; w.n = 12;
	if ( !extra ) compare( s, w ); else CHECK_MSG( s.get<int>( "i" ) == w.i && throws( [&] { (void)s.get<int>( "g.u" ); } ), "unknown settings are ignored" );
	if ( vers ) CHECK_MSG( s.data_version().major_ == ma && s.data_version().minor_ == mi && s.data_version().patch_ == 5, "version of the file" ); else CHECK_MSG( s.data_version().empty(), "no version" );
	CHECK_MSG( s.current_version() == ( cur ? cv : version() ), "current version" );
	s.save(); settings t( schema(), "s.zml" ); CHECK_MSG( cur ? t.data_version() == cv && t.data_version().postfix_ == post : t.data_version().empty(), "the current version is saved" ); CHECK_MSG( t.get<int>( "i" ) == w.i && t.get<string>( "g.h.c" ) == w.c, "values" );
	CHECK_MSG( throws( [&] { settings u( schema() ); } ), "a file name is needed" );
	sym_reach( vers ? "version" : "no version" );
}
