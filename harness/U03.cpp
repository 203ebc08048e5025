// memoize, cached_var, factory, arg_parser
#include "sym.h"
#include "xo/utility/memoize.h"
#include "xo/utility/cached_var.h"
#include "xo/utility/factory.h"
#include "xo/utility/arg_parser.h"
#include "xo/string/string_cast.h"
#include <vector>
using namespace xo;

//@ h_memoize quick(n=3) thorough(n=5)
HARNESS( h_memoize )
{
	int n = (int)sym_param( "n", 3 ); bool ts = sym_pick( "thread_safe", 0, 1 );
	std::vector< std::pair< int, int > > calls; bool fail = false;
	auto f = [&]( int a, int b ) { if ( fail ) throw std::runtime_error( "fail" ); calls.push_back( { a, b } ); return a * 10 + b; };
	memoize< int( int, int ) > m( f ); memoize_thread_safe< int( int, int ) > mt( f );
	std::vector< std::pair< int, int > > seen;
	for ( int i = 0; i < n; ++i ) {
		int a = sym_int( "a", -2, 2 ); int b = sym_int( "b", -2, 2 ); fail = sym_pick( "fail", 0, 1 );
		bool known = false; for ( auto& s : seen ) known = known || ( s.first == a && s.second == b );
		int r = 0; const int* pr = nullptr; bool t = throws( [&] { auto& x = ts ? mt( a, b ) : m( a, b ); pr = &x; r = x; } );
		CHECK_MSG( t == ( fail && !known ), "an error is passed on, and not remembered" );
		if ( !t ) { CHECK_MSG( r == a * 10 + b, "the result belongs to the arguments" ); if ( !known ) seen.push_back( { a, b } ); CHECK_MSG( &( ts ? mt( a, b ) : m( a, b ) ) == pr, "the result is not copied or moved" ); }
		CHECK_MSG( calls.size() == seen.size() && ( ts ? mt.size() : m.size() ) == seen.size(), "called once for every different combination of arguments" );
	}
	sym_reach( "end" );
}

//@ h_cached quick(n=3) thorough(n=5)
HARNESS( h_cached )
{
	int t0 = sym_int( "t0" ); int v0 = sym_int( "v0" ); int calls = 0, last_t = t0, last_v = v0;
	cached_var< int, int > c( t0, v0 );
	for ( int i = 0, n = (int)sym_param( "n", 3 ); i < n; ++i ) {
		int t = sym_int( "t" ); int v = sym_int( "v" ); bool fail = sym_pick( "fail", 0, 1 ); int before = calls;
		int r = 0; bool th = throws( [&] { r = c( t, [&] { ++calls; if ( fail ) throw std::runtime_error( "fail" ); return v; } ); } );
		CHECK_MSG( calls == before + ( t != last_t ) && th == ( fail && t != last_t ), "computed only if the time differs" );
		if ( t != last_t && !th ) { last_t = t; last_v = v; }
		if ( !th ) CHECK_MSG( r == last_v, "the value for this time" );
	}
	sym_reach( "end" );
}

struct base { virtual ~base() {} virtual int id() = 0; };
struct type_a : base { int x; type_a( int v ) : x( v ) {} int id() override { return x; } };
struct type_b : base { int x; type_b( int v ) : x( v ) {} int id() override { return -x; } };

//@ h_factory quick(ops=3) thorough(ops=4)
HARNESS( h_factory )
{
	factory< base, int > f; std::vector< std::pair< string, int > > w;
	for ( int o = 0, n = (int)sym_param( "ops", 3 ); o < n; ++o ) {
		string k = sym_str( "k", 1, 1 ); size_t i = 0; while ( i < w.size() && w[ i ].first != k ) ++i; bool has = i < w.size();
		switch ( sym_choice( 3, "op" ) ) {
		case 0: { bool t = throws( [&] { f.register_type< type_a >( k ); } ); CHECK_MSG( t == has, "a name can be registered once" ); if ( !has ) w.push_back( { k, 1 } ); break; }
		case 1: { bool t = throws( [&] { f.register_type< type_b >( k ); } ); CHECK_MSG( t == has, "a name can be registered once" ); if ( !has ) w.push_back( { k, -1 } ); break; }
		default: { bool t = throws( [&] { f.unregister_type( k ); } ); CHECK_MSG( t == !has, "only a registered name can be unregistered" ); if ( has ) w.erase( w.begin() + i ); break; }
		}
	}
	string q = sym_str( "q", 1 ); int arg = sym_int( "arg", 1, 99 ); size_t i = 0; while ( i < w.size() && w[ i ].first != q ) ++i; bool has = i < w.size();
	CHECK_MSG( f.has_type( q ) == has && f.empty() == w.empty() && size_t( f.end() - f.begin() ) == w.size(), "registered names" );
	auto p = f.try_create( q, arg ); CHECK_MSG( bool( p ) == has && ( !has || p->id() == arg * w[ i ].second ), "try_create makes the registered type with the arguments" );
	u_ptr< base > c; bool t = throws( [&] { c = f.create( q, arg ); } ); CHECK_MSG( t == !has && ( !has || ( c->id() == arg * w[ i ].second && c != p ) ), "create makes a new object, or throws" );
	prop_node pn; pn.set( "zz", 1 ); pn.set( q, 2 ); pn.set( "yy", 3 );
	auto it = find_factory_prop_node( f, pn ); CHECK_MSG( has ? it != pn.end() && it->first == q : it == pn.end(), "the first registered child is found" );
	sym_reach( "end" );
}

//@ h_registrant quick()
HARNESS( h_registrant )
{
	factory< base, int > f; string k = sym_str( "k", 1 ); string l = sym_str( "l", 1 ); bool again = false;
	{
		factory_registrant< factory< base, int >, type_a > r( f, k ); CHECK_MSG( f.has_type( k ), "registered" );
		again = throws( [&] { factory_registrant< factory< base, int >, type_b > r2( f, l ); CHECK_MSG( f.has_type( l ) && f.create( l, 3 )->id() == -3, "registered" ); } );
		CHECK_MSG( again == ( k == l ) && f.has_type( k ) && f.create( k, 3 )->id() == 3, "a failed registration does not unregister the other" );
	}
	CHECK_MSG( f.empty(), "unregistered at the end of its life" );
	{
		auto r = make_factory_registrant< type_a >( f, k ); { XO_FACTORY_REGISTRANT( f, type_b ); CHECK_MSG( f.has_type( "type_b" ) && f.create( "type_b", 4 )->id() == -4 && f.has_type( k ) && f.create( k, 4 )->id() == 4, "registered by the name of the type" ); } CHECK_MSG( !f.has_type( "type_b" ) && f.has_type( k ), "unregistered, others are not" );
		XO_FACTORY_REGISTRANT_NAMED( f, type_b, other ); CHECK_MSG( f.has_type( "other" ) && !f.has_type( "type_b" ), "registered by a name" );
	}
	CHECK_MSG( f.empty(), "unregistered at the end of its life" );
	sym_reach( "end" );
}

//@ h_args time(400,900) quick(n=2,len=3) thorough(n=3,len=3)
HARNESS( h_args )
{
	int n = sym_pick( "n", 0, (int)sym_param( "n", 2 ) ); int len = (int)sym_param( "len", 3 );
	std::vector< std::string > a; std::vector< const char* > argv{ "program" };
	for ( int i = 0; i < n; ++i ) { int l = sym_pick( "len", 0, len ); a.push_back( sym_str_of( "arg", l, "-ab1" ) ); }
	for ( auto& s : a ) argv.push_back( s.c_str() );
	arg_parser p( n + 1, argv.data() );
	auto dashes = []( const std::string& s ) { size_t c = 0; while ( c < s.size() && s[ c ] == '-' ) ++c; return c; };
	string f = sym_pick( "flag", 0, 1 ) ? "ab" : "a";
	int at = -1; for ( int i = n - 1; i >= 0; --i ) { size_t d = dashes( a[ i ] ); if ( d > 0 && a[ i ].substr( d ) == f ) at = i; }
	CHECK_MSG( p.size() == (size_t)n && p.has_flag( f ) == ( at >= 0 ) && p.find_flag( f ) == ( at >= 0 ? index_t( at ) : no_index ), "first argument with dashes and exactly this name" );
	bool val = at >= 0 && at + 1 < n && dashes( a[ at + 1 ] ) == 0;
	CHECK_MSG( p.get< string >( f, "def" ) == ( val ? a[ at + 1 ] : "def" ), "value that follows a flag, or the default" );
	int want = 7; if ( val ) from_str( a[ at + 1 ], want );
	CHECK_MSG( p.get< int >( f, 7 ) == want, "value that follows a flag" );
	int pos = 0; while ( pos < n && dashes( a[ pos ] ) == 0 ) ++pos;
	for ( int i = 0; i <= n; ++i ) CHECK_MSG( p.get< string >( index_t( i ), "def" ) == ( i < pos ? a[ i ] : "def" ), "positional arguments come before the first flag" );
	for ( int i = 0; i < n; ++i ) CHECK_MSG( p.arg( i ) == a[ i ], "all arguments" );
	bool t = throws( [&] { p.arg( n ); } ); CHECK_MSG( t, "arguments that are not there throw" );
	sym_reach( "end" );
}
