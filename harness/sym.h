// Interface between harnesses and the symbolic executor (xosym), or the native replayer (native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>

extern "C" {
	void sym_make( void* p, uint64_t n, const char* name );       // n symbolic bytes, one variable when n is 1, 2, 4 or 8
	void sym_bytes( void* p, uint64_t n, const char* name );      // n symbolic bytes, one variable per byte
	double sym_real( const char* name );                          // a real variable (real mode) or any double (ieee mode)
	uint32_t sym_choice( uint32_t n, const char* name );          // 0..n-1, every value explored as its own path
	int64_t sym_param( const char* name, int64_t def );           // bound given by the check (same value in replay)
	void sym_assume( int c );
	void sym_assert( int c, const char* msg );
	void sym_reach( const char* label );                          // vacuity witness
	int sym_req( double a, double b );                            // exact equality (real mode), tolerance in native replay
	int sym_symbolic( void );
	void sym_out( uint64_t v );
}

#ifdef SYM_NATIVE
struct sym_registrar { sym_registrar( const char* n, void ( *f )() ); };
#	define HARNESS( N ) extern "C" void N(); static sym_registrar reg_##N( #N, N ); extern "C" void N()
#else
#	define HARNESS( N ) extern "C" void N()
#endif

template< typename T > T sym( const char* name ) { T v; sym_make( &v, sizeof( T ), name ); return v; }
inline bool sym_bool( const char* name ) { return sym<unsigned char>( name ) & 1; }
inline int sym_int( const char* name ) { return sym<int>( name ); }
// an int in [lo, hi], one symbolic variable
inline int sym_int( const char* name, int lo, int hi ) { int v = sym<int>( name ); sym_assume( v >= lo && v <= hi ); return v; }
// an int in [lo, hi], explored value by value
inline int sym_pick( const char* name, int lo, int hi ) { return lo + (int)sym_choice( (uint32_t)( hi - lo + 1 ), name ); }
// a string of exactly n arbitrary bytes / of 0..n arbitrary bytes
inline std::string sym_str_n( const char* name, size_t n ) { std::string s( n, ' ' ); if ( n ) sym_bytes( &s[ 0 ], n, name ); return s; }
inline std::string sym_str( const char* name, size_t maxn, size_t minn = 0 ) { size_t n = minn + sym_choice( (uint32_t)( maxn - minn + 1 ), "length" ); return sym_str_n( name, n ); }
// a string over the given alphabet, each character chosen symbolically
inline std::string sym_str_of( const char* name, size_t n, const char* alphabet )
{
	std::string s = sym_str_n( name, n );
	for ( size_t i = 0; i < n; ++i ) { int ok = 0; for ( const char* a = alphabet; *a; ++a ) ok |= ( s[ i ] == *a ); sym_assume( ok ); }
	return s;
}
#define CHECK( C ) sym_assert( !!( C ), #C )
#define CHECK_MSG( C, M ) sym_assert( !!( C ), M )
// the expression must not throw / must throw
#define MUST_NOT_THROW( MSG, ... ) do { bool threw__ = false; try { __VA_ARGS__; } catch ( ... ) { threw__ = true; } sym_assert( !threw__, MSG ); } while ( 0 )
template< typename F > bool throws( F&& f ) { try { f(); } catch ( ... ) { return true; } return false; }
// note: at most one sym_ call per expression (compilers order them differently); replay matches values by name
