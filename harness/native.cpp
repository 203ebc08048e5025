// Native replay of a harness: prog ENTRY REPLAYFILE [k=v ...]. Exit 0: ran to completion; 1: assertion failed or uncaught exception; 3: an assumption was false.
#ifndef SYM_NATIVE
#define SYM_NATIVE
#endif
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <map>
#include <vector>
#include <exception>
static std::map<std::string, void ( * )()>& tab() { static std::map<std::string, void ( * )()> t; return t; }
sym_registrar::sym_registrar( const char* n, void ( *f )() ) { tab()[ n ] = f; }
struct input { std::string name, val; bool used; }; static std::vector<input> in; // values are looked up by name, in order: argument evaluation order differs between compilers
 static std::map<std::string, long long> par;
static std::string next( const char* name ) { std::string n = name; for ( auto& c : n ) if ( c == ' ' ) c = '_'; for ( auto& i : in ) if ( !i.used && i.name == n ) { i.used = true; return i.val; } return std::string(); }
static std::vector<unsigned char> hex( size_t n, const char* name ) {
	std::string h = next( name ); std::vector<unsigned char> r;
	if ( h.compare( 0, 2, "r:" ) == 0 ) { double d = strtod( h.c_str() + 2, nullptr ); unsigned char b[ 8 ]; memcpy( b, &d, 8 ); r.assign( b, b + 8 ); }
	else { if ( h.compare( 0, 2, "b:" ) == 0 ) h = h.substr( 2 ); for ( size_t i = 0; i + 1 < h.size(); i += 2 ) r.push_back( (unsigned char)strtoul( h.substr( i, 2 ).c_str(), nullptr, 16 ) ); }
	r.resize( n, 0 ); return r;
}
extern "C" {
	void sym_make( void* p, uint64_t n, const char* m ) { auto b = hex( n, m ); if ( n ) memcpy( p, b.data(), n ); }
	void sym_bytes( void* p, uint64_t n, const char* m ) { auto b = hex( n, m ); if ( n ) memcpy( p, b.data(), n ); }
	double sym_real( const char* m ) { auto b = hex( 8, m ); double d; memcpy( &d, b.data(), 8 ); return d; }
	uint32_t sym_choice( uint32_t n, const char* m ) { auto b = hex( 4, m ); uint32_t v; memcpy( &v, b.data(), 4 ); return n ? v % n : 0; }
	int64_t sym_param( const char* n, int64_t d ) { auto it = par.find( n ); return it == par.end() ? d : it->second; }
	void sym_assume( int c ) { if ( !c ) { printf( "ASSUME-FALSE\n" ); fflush( stdout ); _Exit( 3 ); } }
	void sym_assert( int c, const char* m ) { if ( !c ) { printf( "ASSERT-FAIL %s\n", m ); fflush( stdout ); _Exit( 1 ); } }
	void sym_reach( const char* l ) { printf( "REACH %s\n", l ); }
	int sym_req( double a, double b ) { if ( a == b ) return 1; if ( std::isinf( a ) || std::isinf( b ) ) return 0; return std::fabs( a - b ) <= 1e-5 * ( 1 + std::fabs( a ) + std::fabs( b ) ); }
	int sym_symbolic( void ) { return 0; }
	void sym_out( uint64_t v ) { printf( "OUT %llu\n", (unsigned long long)v ); }
}
int main( int c, char** v ) {
	if ( c < 3 ) return 2;
	for ( int i = 3; i < c; ++i ) { std::string s = v[ i ]; auto e = s.find( '=' ); if ( e != s.npos ) par[ s.substr( 0, e ) ] = atoll( s.c_str() + e + 1 ); }
	std::ifstream f( v[ 2 ] ); std::string l; while ( std::getline( f, l ) ) { auto sp = l.find( ' ' ); if ( !l.empty() && l[ 0 ] != '#' ) in.push_back( { l.substr( 0, sp ), sp == l.npos ? l : l.substr( sp + 1 ), false } ); }
	auto it = tab().find( v[ 1 ] ); if ( it == tab().end() ) { fprintf( stderr, "no harness %s\n", v[ 1 ] ); return 2; }
	try { it->second(); }
	catch ( std::exception& e ) { printf( "UNCAUGHT %s\n", e.what() ); fflush( stdout ); _Exit( 1 ); }
	catch ( ... ) { printf( "UNCAUGHT\n" ); fflush( stdout ); _Exit( 1 ); }
	printf( "DONE\n" ); fflush( stdout ); _Exit( 0 );
}
