// Runtime pieces that normally live in precompiled libraries (libc, libstdc++), written so that they can be executed symbolically.
#include <list>
#include "xo_shim_streams.h"
#include <stdexcept>
#include <new>
#include <functional>
#include <typeinfo>
#include <exception>
#include <unordered_map>
#include <system_error>
#include <vector>
#include <map>
#include <cstdarg>
#include <cerrno>
#include <climits>
#include <memory>
#include <filesystem>
#include <sys/stat.h>
#include <pthread.h>
#include <ctime>
extern "C" unsigned long long sym_unique64( unsigned long long ) noexcept;
extern "C" { int32_t sym_fmt_double( char*, uint64_t, const char*, int32_t, double ); double sym_strtod( const char*, uint64_t* ); }
namespace std {
	// in-memory file system: the working directory and the root exist
	static shim_file* shim_files = nullptr; long shim_now = 1000;
	static std::string shim_norm( const std::string& n, bool& slash ) {
		std::string r; size_t i = 0; slash = false; if ( !n.empty() && n[ 0 ] == '/' ) r = "/";
		while ( i < n.size() ) {
			while ( i < n.size() && n[ i ] == '/' ) { slash = true; ++i; }
			std::string seg; while ( i < n.size() && n[ i ] != '/' ) seg += n[ i++ ];
			if ( !seg.empty() ) slash = false; if ( seg.empty() || seg == "." ) continue;
			if ( !r.empty() && r != "/" ) r += '/'; r += seg;
		}
		return r;
	}
	static std::string shim_up( const std::string& n ) { auto p = n.rfind( '/' ); return p == std::string::npos ? std::string( "." ) : p == 0 ? std::string( "/" ) : n.substr( 0, p ); }
	static shim_file shim_root{ "/", "", nullptr, true, 0 };
	shim_file* shim_find( const std::string& n ) {
		if ( n.empty() ) return nullptr; bool slash; auto k = shim_norm( n, slash ); if ( k.empty() || k == "/" ) return &shim_root;
		for ( auto f = shim_files; f; f = f->next ) if ( f->name == k ) return slash && !f->dir ? nullptr : f;
		return nullptr;
	}
	shim_file* shim_create( const std::string& n, bool dir ) {
		if ( n.empty() ) return nullptr; bool slash; auto k = shim_norm( n, slash ); if ( k.empty() || k == "/" || ( slash && !dir ) ) return nullptr;
		auto up = shim_find( shim_up( k ) ); if ( !up || !up->dir ) return nullptr;
		return shim_files = new shim_file{ k, "", shim_files, dir, shim_now };
	}
	static bool shim_remove( const char* n ) {
		auto f = shim_find( n ); if ( !f || f == &shim_root ) return false;
		if ( f->dir ) for ( auto g = shim_files; g; g = g->next ) if ( shim_up( g->name ) == f->name ) return false;
		for ( auto pp = &shim_files; *pp; pp = &( *pp )->next ) if ( *pp == f ) { *pp = f->next; return true; }
		return false;
	}
	template ostream& __ostream_insert( ostream&, const char*, streamsize );
	static basic_streambuf<char> shim_sink[ 4 ];
	ostream cout( &shim_sink[ 0 ] ), cerr( &shim_sink[ 1 ] ), clog( &shim_sink[ 2 ] ); istream cin( &shim_sink[ 3 ] );
	exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
	bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "bad_exception"; }
	bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
	bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
	bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
	bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
	bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
	bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
	static const char* dup( const char* s, size_t n ) { char* p = new char[ n + 1 ]; for ( size_t i = 0; i < n; ++i ) p[ i ] = s[ i ]; p[ n ] = 0; return p; }
	__cow_string::__cow_string() : _M_p( dup( "", 0 ) ) {} __cow_string::__cow_string( const std::string& s ) : _M_p( dup( s.data(), s.size() ) ) {}
	__cow_string::__cow_string( const char* s, size_t n ) : _M_p( dup( s, n ) ) {} __cow_string::__cow_string( const __cow_string& o ) noexcept : _M_p( dup( o._M_p, __builtin_strlen( o._M_p ) ) ) {}
	__cow_string& __cow_string::operator=( const __cow_string& o ) noexcept { _M_p = dup( o._M_p, __builtin_strlen( o._M_p ) ); return *this; }
	__cow_string::~__cow_string() {} __cow_string::__cow_string( __cow_string&& o ) noexcept : _M_p( o._M_p ) {} __cow_string& __cow_string::operator=( __cow_string&& o ) noexcept { _M_p = o._M_p; return *this; }
	logic_error::logic_error( const string& s ) : _M_msg( s ) {} logic_error::logic_error( const char* s ) : _M_msg( s, __builtin_strlen( s ) ) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
	logic_error::logic_error( const logic_error& o ) noexcept : exception( o ), _M_msg( o._M_msg ) {}
	runtime_error::runtime_error( const string& s ) : _M_msg( s ) {} runtime_error::runtime_error( const char* s ) : _M_msg( s, __builtin_strlen( s ) ) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
	runtime_error::runtime_error( const runtime_error& o ) noexcept : exception( o ), _M_msg( o._M_msg ) {}
	runtime_error::runtime_error( runtime_error&& o ) noexcept : exception( o ), _M_msg( o._M_msg ) {}
	domain_error::domain_error( const string& s ) : logic_error( s ) {} domain_error::domain_error( const char* s ) : logic_error( s ) {} domain_error::~domain_error() noexcept {}
	invalid_argument::invalid_argument( const string& s ) : logic_error( s ) {} invalid_argument::invalid_argument( const char* s ) : logic_error( s ) {} invalid_argument::~invalid_argument() noexcept {}
	length_error::length_error( const string& s ) : logic_error( s ) {} length_error::length_error( const char* s ) : logic_error( s ) {} length_error::~length_error() noexcept {}
	out_of_range::out_of_range( const string& s ) : logic_error( s ) {} out_of_range::out_of_range( const char* s ) : logic_error( s ) {} out_of_range::~out_of_range() noexcept {}
	range_error::~range_error() noexcept {} range_error::range_error( const string& s ) : runtime_error( s ) {} range_error::range_error( const char* s ) : runtime_error( s ) {}
	overflow_error::~overflow_error() noexcept {} overflow_error::overflow_error( const string& s ) : runtime_error( s ) {}
	type_info::~type_info() {}
	void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
	void __throw_logic_error( const char* s ) { throw logic_error( s ); } void __throw_domain_error( const char* s ) { throw domain_error( s ); } void __throw_invalid_argument( const char* s ) { throw invalid_argument( s ); } void __throw_length_error( const char* s ) { throw length_error( s ); }
	void __throw_out_of_range( const char* s ) { throw out_of_range( s ); } void __throw_out_of_range_fmt( const char* s, ... ) { throw out_of_range( s ); } void __throw_runtime_error( const char* s ) { throw runtime_error( s ); } void __throw_range_error( const char* s ) { throw range_error( s ); }
	void __throw_system_error( int ) { throw runtime_error( "system_error" ); } void __throw_bad_function_call() { throw bad_function_call(); }
	size_t _Hash_bytes( const void* p, size_t n, size_t seed ) { size_t h = seed; for ( size_t i = 0; i < n; ++i ) h = h * 31 + ( (const unsigned char*)p )[ i ]; return h; }
	namespace __detail {
		size_t _Prime_rehash_policy::_M_next_bkt( size_t n ) const { size_t b = 13; while ( b < n ) b = b * 2 + 1; _M_next_resize = b; return b; }
		pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash( size_t nb, size_t ne, size_t ni ) const { if ( ne + ni > _M_next_resize ) { size_t need = ne + ni; if ( need > nb || nb < 13 ) return { true, _M_next_bkt( need * 2 ) }; _M_next_resize = nb; } return { false, 0 }; }
		void _List_node_base::_M_hook( _List_node_base* p ) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
		void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
		void _List_node_base::_M_transfer( _List_node_base* f, _List_node_base* l ) noexcept { if ( this != l ) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
	}
	// red-black tree (unbalanced binary search tree with the same interface: ordering is what matters)
	typedef _Rb_tree_node_base N;
	N* _Rb_tree_increment( N* x ) noexcept { if ( x->_M_right ) { x = x->_M_right; while ( x->_M_left ) x = x->_M_left; } else { N* y = x->_M_parent; while ( x == y->_M_right ) { x = y; y = y->_M_parent; } if ( x->_M_right != y ) x = y; } return x; }
	const N* _Rb_tree_increment( const N* x ) noexcept { return _Rb_tree_increment( const_cast<N*>( x ) ); }
	N* _Rb_tree_decrement( N* x ) noexcept { if ( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) x = x->_M_right; else if ( x->_M_left ) { N* y = x->_M_left; while ( y->_M_right ) y = y->_M_right; x = y; } else { N* y = x->_M_parent; while ( x == y->_M_left ) { x = y; y = y->_M_parent; } x = y; } return x; }
	const N* _Rb_tree_decrement( const N* x ) noexcept { return _Rb_tree_decrement( const_cast<N*>( x ) ); }
	void _Rb_tree_insert_and_rebalance( const bool left, N* x, N* p, N& h ) noexcept {
		x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
		if ( left ) { p->_M_left = x; if ( p == &h ) { h._M_parent = x; h._M_right = x; } else if ( p == h._M_left ) h._M_left = x; }
		else { p->_M_right = x; if ( p == h._M_right ) h._M_right = x; }
	}
	N* _Rb_tree_rebalance_for_erase( N* const z, N& h ) noexcept {
		N* const root = h._M_parent;
		auto repl = [&]( N* u, N* v ) { if ( h._M_parent == u ) h._M_parent = v; else if ( u->_M_parent->_M_left == u ) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if ( v ) v->_M_parent = u->_M_parent; };
		(void)root;
		if ( h._M_left == z ) h._M_left = z->_M_right || z->_M_parent != &h ? _Rb_tree_increment( z ) : &h;
		if ( h._M_right == z ) h._M_right = z->_M_left || z->_M_parent != &h ? _Rb_tree_decrement( z ) : &h;
		if ( !z->_M_left ) repl( z, z->_M_right ); else if ( !z->_M_right ) repl( z, z->_M_left );
		else { N* y = z->_M_right; while ( y->_M_left ) y = y->_M_left; if ( y->_M_parent != z ) { repl( y, y->_M_right ); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl( z, y ); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
		return z;
	}
}
extern "C" {
	static int sp( int c ) { return ( c == ' ' ) | ( ( c >= 9 ) & ( c <= 13 ) ); }
	int isspace( int c ) { return sp( c ); } int isdigit( int c ) { return ( c >= '0' ) & ( c <= '9' ); } int isupper( int c ) { return ( c >= 'A' ) & ( c <= 'Z' ); } int islower( int c ) { return ( c >= 'a' ) & ( c <= 'z' ); }
	int isalpha( int c ) { return isupper( c ) | islower( c ); } int isalnum( int c ) { return isalpha( c ) | isdigit( c ); } int isprint( int c ) { return ( c >= 32 ) & ( c < 127 ); } int isgraph( int c ) { return ( c > 32 ) & ( c < 127 ); } int iscntrl( int c ) { return ( ( c >= 0 ) & ( c < 32 ) ) | ( c == 127 ); } int ispunct( int c ) { return isgraph( c ) & !isalnum( c ); }
	int isxdigit( int c ) { return isdigit( c ) | ( ( c >= 'a' ) & ( c <= 'f' ) ) | ( ( c >= 'A' ) & ( c <= 'F' ) ); } int isblank( int c ) { return ( c == ' ' ) | ( c == '\t' ); }
	int tolower( int c ) { return isupper( c ) ? c + 32 : c; } int toupper( int c ) { return islower( c ) ? c - 32 : c; }
	int strcmp( const char* a, const char* b ) { while ( *a && *a == *b ) ++a, ++b; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
	int strncmp( const char* a, const char* b, size_t n ) { for ( ; n; --n, ++a, ++b ) { if ( *a != *b ) return (int)(unsigned char)*a - (int)(unsigned char)*b; if ( !*a ) return 0; } return 0; }
	char* strstr( const char* h, const char* n ) { for ( ;; ++h ) { size_t i = 0; while ( n[ i ] && h[ i ] == n[ i ] ) ++i; if ( !n[ i ] ) return (char*)h; if ( !*h ) return nullptr; } }
	char* strrchr( const char* s, int c ) { const char* r = nullptr; for ( ;; ++s ) { if ( *s == (char)c ) r = s; if ( !*s ) return (char*)r; } }
	size_t strcspn( const char* s, const char* set ) { size_t n = 0; for ( ; s[ n ]; ++n ) if ( __builtin_strchr( set, s[ n ] ) ) break; return n; }
	size_t strspn( const char* s, const char* set ) { size_t n = 0; for ( ; s[ n ]; ++n ) if ( !__builtin_strchr( set, s[ n ] ) ) break; return n; }
	char* strpbrk( const char* s, const char* set ) { s += strcspn( s, set ); return *s ? (char*)s : nullptr; }
	char* strcpy( char* d, const char* s ) { char* r = d; while ( ( *d++ = *s++ ) ) {} return r; }
	char* strncpy( char* d, const char* s, size_t n ) { size_t i = 0; for ( ; i < n && s[ i ]; ++i ) d[ i ] = s[ i ]; for ( ; i < n; ++i ) d[ i ] = 0; return d; }
	char* strcat( char* d, const char* s ) { char* r = d; while ( *d ) ++d; strcpy( d, s ); return r; }
	static unsigned long long rdint( const char* s, char** end, int base, bool& neg, bool& ovf ) {
		const char* p = s; while ( sp( (unsigned char)*p ) ) ++p; neg = false; ovf = false;
		if ( *p == '-' ) { neg = true; ++p; } else if ( *p == '+' ) ++p;
		auto dig = []( int c ) -> int { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; };
		if ( ( base == 0 || base == 16 ) && p[ 0 ] == '0' && ( p[ 1 ] == 'x' || p[ 1 ] == 'X' ) && dig( p[ 2 ] ) < 16 ) { p += 2; base = 16; } else if ( base == 0 ) base = *p == '0' ? 8 : 10;
		unsigned long long v = 0; const char* st = p;
		for ( ; dig( *p ) < base; ++p ) { unsigned long long d = (unsigned)dig( *p ); if ( v > ( ULLONG_MAX - d ) / (unsigned)base ) ovf = true; v = v * (unsigned)base + d; }
		if ( end ) *end = (char*)( p == st ? s : p );
		return v;
	}
	long strtol( const char* s, char** e, int b ) { bool n, o; auto v = rdint( s, e, b, n, o ); if ( o || ( n ? v > 1ull << 63 : v > LLONG_MAX ) ) { errno = ERANGE; return n ? LONG_MIN : LONG_MAX; } return (long)( n ? 0 - v : v ); }
	unsigned long strtoul( const char* s, char** e, int b ) { bool n, o; auto v = rdint( s, e, b, n, o ); if ( o ) { errno = ERANGE; return ULONG_MAX; } return n ? 0 - v : v; }
	long long strtoll( const char* s, char** e, int b ) { return strtol( s, e, b ); } unsigned long long strtoull( const char* s, char** e, int b ) { return strtoul( s, e, b ); }
	int atoi( const char* s ) { return (int)strtol( s, nullptr, 10 ); }
	double strtod( const char* s, char** e ) {
		// strings that cannot start a number need no value
		const char* p = s; while ( sp( (unsigned char)*p ) ) ++p; if ( *p == '-' || *p == '+' ) ++p;
		if ( !( isdigit( (unsigned char)*p ) | ( *p == '.' ) | ( *p == 'i' ) | ( *p == 'I' ) | ( *p == 'n' ) | ( *p == 'N' ) ) ) { if ( e ) *e = (char*)s; return 0; }
		uint64_t used = 0; double d = sym_strtod( s, &used ); if ( e ) *e = (char*)s + used; return d;
	}
	float strtof( const char* s, char** e ) { return (float)strtod( s, e ); }
	static void out( char* b, size_t n, size_t& p, char c ) { if ( p + 1 < n ) b[ p ] = c; ++p; }
	int vsnprintf( char* b, size_t n, const char* f, va_list ap ) noexcept {
		size_t p = 0;
		for ( ; *f; ++f ) {
			if ( *f != '%' ) { out( b, n, p, *f ); continue; }
			const char* f0 = f; ++f; bool left = false, zero = false, plus = false, space = false, alt = false;
			for ( ;; ++f ) { if ( *f == '-' ) left = true; else if ( *f == '0' ) zero = true; else if ( *f == '+' ) plus = true; else if ( *f == ' ' ) space = true; else if ( *f == '#' ) alt = true; else break; }
			int w = 0, pr = -1, len = 0;
			if ( *f == '*' ) { w = va_arg( ap, int ); if ( w < 0 ) { left = true; w = -w; } ++f; } else while ( *f >= '0' && *f <= '9' ) w = w * 10 + ( *f++ - '0' );
			if ( *f == '.' ) { ++f; pr = 0; if ( *f == '*' ) { pr = va_arg( ap, int ); ++f; } else while ( *f >= '0' && *f <= '9' ) pr = pr * 10 + ( *f++ - '0' ); }
			for ( ;; ++f ) { if ( *f == 'l' ) ++len; else if ( *f == 'h' ) --len; else if ( *f == 'z' || *f == 'j' || *f == 't' ) len = 1; else break; }
			char tmp[ 512 ]; const char* s = tmp; size_t sl = 0; char pre[ 3 ]; size_t pl = 0; bool isnum = true;
			switch ( *f ) {
			case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
				unsigned long long v; bool neg = false; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
				if ( *f == 'p' ) { v = (unsigned long long)va_arg( ap, void* ); alt = true; }
				else if ( *f == 'd' || *f == 'i' ) { long long x = len > 0 ? va_arg( ap, long long ) : va_arg( ap, int ); if ( len == -1 ) x = (short)x; else if ( len < -1 ) x = (signed char)x; neg = x < 0; v = neg ? 0 - (unsigned long long)x : (unsigned long long)x; if ( neg ) pre[ pl++ ] = '-'; else if ( plus ) pre[ pl++ ] = '+'; else if ( space ) pre[ pl++ ] = ' '; }
				else { v = len > 0 ? va_arg( ap, unsigned long long ) : va_arg( ap, unsigned ); if ( len == -1 ) v = (unsigned short)v; else if ( len < -1 ) v = (unsigned char)v; }
				if ( alt && base == 16 && v ) { pre[ pl++ ] = '0'; pre[ pl++ ] = *f == 'X' ? 'X' : 'x'; }
				v = sym_unique64( v ); size_t k = sizeof tmp; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; size_t digits = 0;
				while ( v ) { tmp[ --k ] = dg[ v % base ]; v /= base; ++digits; } int minp = pr < 0 ? 1 : pr; while ( (int)digits < minp ) { tmp[ --k ] = '0'; ++digits; }
				s = tmp + k; sl = digits; if ( pr >= 0 ) zero = false; break;
			}
			case 'c': tmp[ 0 ] = (char)va_arg( ap, int ); sl = 1; isnum = false; zero = false; break;
			case 's': { s = va_arg( ap, const char* ); if ( !s ) s = "(null)"; while ( ( pr < 0 || (int)sl < pr ) && s[ sl ] ) ++sl; zero = false; break; }
			case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': {
				double d = va_arg( ap, double ); char fm[ 16 ]; size_t m = 0; fm[ m++ ] = '%'; if ( plus ) fm[ m++ ] = '+'; if ( alt ) fm[ m++ ] = '#'; if ( pr >= 0 ) { fm[ m++ ] = '.'; fm[ m++ ] = '*'; } fm[ m++ ] = *f; fm[ m ] = 0;
				sl = (size_t)sym_fmt_double( tmp, sizeof tmp, fm, pr, d ); if ( sl && ( tmp[ 0 ] == '-' || tmp[ 0 ] == '+' ) ) { pre[ pl++ ] = tmp[ 0 ]; s = tmp + 1; --sl; } break;
			}
			case '%': tmp[ 0 ] = '%'; sl = 1; break;
			default: for ( ; f0 <= f; ++f0 ) out( b, n, p, *f0 ); continue;
			}
			(void)isnum; size_t tot = pl + sl;
			if ( !left && !zero ) for ( size_t i = tot; i < (size_t)w; ++i ) out( b, n, p, ' ' );
			for ( size_t i = 0; i < pl; ++i ) out( b, n, p, pre[ i ] );
			if ( !left && zero ) for ( size_t i = tot; i < (size_t)w; ++i ) out( b, n, p, '0' );
			for ( size_t i = 0; i < sl; ++i ) out( b, n, p, s[ i ] );
			if ( left ) for ( size_t i = tot; i < (size_t)w; ++i ) out( b, n, p, ' ' );
		}
		if ( n ) b[ p < n ? p : n - 1 ] = 0;
		return (int)p;
	}
	int snprintf( char* b, size_t n, const char* f, ... ) noexcept { va_list ap; va_start( ap, f ); int r = vsnprintf( b, n, f, ap ); va_end( ap ); return r; }
	int vsprintf( char* b, const char* f, va_list ap ) noexcept { return vsnprintf( b, (size_t)1 << 30, f, ap ); }
	int sprintf( char* b, const char* f, ... ) noexcept { va_list ap; va_start( ap, f ); int r = vsprintf( b, f, ap ); va_end( ap ); return r; }
	int printf( const char*, ... ) { return 0; } int puts( const char* ) { return 0; } int putchar( int c ) { return c; } int vprintf( const char*, va_list ) { return 0; }
	int fprintf( FILE*, const char*, ... ) { return 0; } int vfprintf( FILE*, const char*, va_list ) { return 0; } int fflush( FILE* ) { return 0; } int fputs( const char*, FILE* ) { return 0; } int fputc( int c, FILE* ) { return c; } size_t fwrite( const void*, size_t, size_t n, FILE* ) { return n; }
	int fnmatch( const char* p, const char* s, int fl ) {
		for ( ;; ++p, ++s ) {
			if ( *p == '*' ) { while ( *p == '*' ) ++p; for ( ;; ++s ) { if ( fnmatch( p, s, fl ) == 0 ) return 0; if ( !*s ) return 1; } }
			if ( !*p ) return *s ? 1 : 0;
			if ( !*s ) return 1;
			if ( *p == '?' ) continue;
			if ( *p == '\\' && !( fl & 2 ) && p[ 1 ] ) ++p;
			if ( *p != *s ) return 1;
		}
	}
	int mkdir( const char* n, mode_t ) noexcept { if ( std::shim_find( n ) ) { errno = EEXIST; return -1; } if ( std::shim_create( n, true ) ) return 0; errno = ENOENT; return -1; }
	double difftime( time_t a, time_t b ) noexcept { return (double)( a - b ); }
	int stat( const char* n, struct stat* st ) noexcept { auto f = std::shim_find( n ); if ( !f ) { errno = ENOENT; return -1; } st->st_mode = f->dir ? S_IFDIR | 0777 : S_IFREG | 0644; st->st_mtim.tv_sec = f->mtime; st->st_size = (long)f->data.size(); return 0; }
	int remove( const char* n ) noexcept { return std::shim_remove( n ) ? 0 : -1; }
	unsigned long shim_thread = 1; __attribute__((weak)) pthread_t pthread_self() noexcept { return shim_thread; }
	struct tm* localtime( const time_t* t ) noexcept { // UTC
		static struct tm r; long long s = (long long)sym_unique64( (unsigned long long)*t ), d = s / 86400; s %= 86400; if ( s < 0 ) { s += 86400; --d; }
		r.tm_hour = (int)( s / 3600 ); r.tm_min = (int)( s / 60 % 60 ); r.tm_sec = (int)( s % 60 ); r.tm_wday = (int)( ( d % 7 + 11 ) % 7 );
		d += 719468; long long era = ( d >= 0 ? d : d - 146096 ) / 146097, doe = d - era * 146097, yoe = ( doe - doe / 1460 + doe / 36524 - doe / 146096 ) / 365, doy = doe - ( 365 * yoe + yoe / 4 - yoe / 100 ), mp = ( 5 * doy + 2 ) / 153;
		r.tm_mday = (int)( doy - ( 153 * mp + 2 ) / 5 + 1 ); r.tm_mon = (int)( mp < 10 ? mp + 2 : mp - 10 ); r.tm_year = (int)( yoe + era * 400 + ( r.tm_mon < 2 ) - 1900 ); return &r;
	}
	size_t strftime( char* b, size_t n, const char* f, const struct tm* t ) noexcept {
		size_t p = 0; auto num = [&]( int v, int w ) { char c[ 12 ]; int k = 0; do { c[ k++ ] = (char)( '0' + v % 10 ); v /= 10; } while ( v || k < w ); while ( k ) out( b, n, p, c[ --k ] ); };
		for ( ; *f; ++f ) {
			if ( *f != '%' ) { out( b, n, p, *f ); continue; }
			switch ( *++f ) { case 'H': num( t->tm_hour, 2 ); break; case 'M': num( t->tm_min, 2 ); break; case 'S': num( t->tm_sec, 2 ); break; case 'Y': num( t->tm_year + 1900, 4 ); break; case 'm': num( t->tm_mon + 1, 2 ); break; case 'd': num( t->tm_mday, 2 ); break; case 'y': num( ( t->tm_year + 1900 ) % 100, 2 ); break; default: out( b, n, p, *f ); }
		}
		if ( p < n ) b[ p ] = 0; return p < n ? p : 0;
	}
	__attribute__((weak)) time_t time( time_t* t ) noexcept { if ( t ) *t = std::shim_now; return std::shim_now; }
}
namespace std {
	error_category::~error_category() noexcept {} error_condition error_category::default_error_condition( int v ) const noexcept { return error_condition( v, *this ); }
	bool error_category::equivalent( int v, const error_condition& c ) const noexcept { return c.value() == v; } bool error_category::equivalent( const error_code& c, int v ) const noexcept { return c.value() == v; }
	__cow_string error_category::_M_message( int ) const { return __cow_string( "system error", 12 ); }
	struct shim_category : error_category { const char* name() const noexcept override { return "system"; } string message( int ) const override { return "system error"; } };
	static shim_category shim_system; inline namespace _V2 { const error_category& system_category() noexcept { return shim_system; } const error_category& generic_category() noexcept { return shim_system; } }
}
// std::filesystem::path as a plain string, and copying of regular files
namespace std { namespace filesystem {
	// the components of a path: none if it is empty or a single name, else the directory and the name after the last slash (enough for filename() and parent_path())
	struct path::_List::_Impl { std::vector< _Cmpt > v; }; 
	template< typename I > static I* notype( I* p ) { return (I*)( (uintptr_t)p & ~(uintptr_t)3 ); }
	void path::_List::_Impl_deleter::operator()( _Impl* p ) const noexcept { delete notype( p ); }
	path::_List::_List() : _M_impl( (_Impl*)(uintptr_t)_Type::_Filename ) {} path::_List::_List( const _List& o ) { auto p = notype( o._M_impl.get() ); _M_impl.reset( p ? new _Impl( *p ) : (_Impl*)(uintptr_t)o.type() ); }
	path::_List& path::_List::operator=( const _List& o ) { if ( &o != this ) { auto p = notype( o._M_impl.get() ); _M_impl.reset( p ? new _Impl( *p ) : (_Impl*)(uintptr_t)o.type() ); } return *this; }
	void path::_List::type( _Type t ) noexcept { _M_impl.reset( (_Impl*)(uintptr_t)t ); } int path::_List::size() const noexcept { auto p = notype( _M_impl.get() ); return p ? (int)p->v.size() : 0; } bool path::_List::empty() const noexcept { return size() == 0; }
	path::_List::iterator path::_List::begin() noexcept { return notype( _M_impl.get() )->v.data(); } path::_List::iterator path::_List::end() noexcept { return begin() + size(); } path::_List::const_iterator path::_List::begin() const noexcept { return notype( _M_impl.get() )->v.data(); } path::_List::const_iterator path::_List::end() const noexcept { return begin() + size(); }
	path::path( basic_string_view<value_type> s, _Type t ) : _M_pathname( s ) { _M_cmpts.type( t ); }
	path::_Cmpt::_Cmpt( basic_string_view<value_type> s, _Type t, size_t pos ) : path( string_type( s ), t ), _M_pos( pos ) {}
	void path::_M_split_cmpts() {
		size_t p = _M_pathname.rfind( '/' ); if ( p == string_type::npos || _M_pathname.size() == 1 ) { _M_cmpts.type( p == string_type::npos ? _Type::_Filename : _Type::_Root_dir ); return; }
		auto i = new _List::_Impl; if ( p > 0 ) i->v.emplace_back( basic_string_view<value_type>( _M_pathname ).substr( 0, p ), _Type::_Filename, 0 ); else i->v.emplace_back( basic_string_view<value_type>( "/" ), _Type::_Root_dir, 0 );
		i->v.emplace_back( basic_string_view<value_type>( _M_pathname ).substr( p + 1 ), _Type::_Filename, p + 1 ); _M_cmpts._M_impl.reset( i );
	}
	path& path::operator=( const path& o ) { _M_pathname = o._M_pathname; _M_cmpts = o._M_cmpts; return *this; }
	file_status status( const path& p ) { auto f = shim_find( p.native() ); return file_status( !f ? file_type::not_found : f->dir ? file_type::directory : file_type::regular ); } file_status symlink_status( const path& p ) { return status( p ); }
	// directories have their entries in the order in which they were made, or the reverse
	bool shim_dir_reversed = false; inline namespace __cxx11 { struct _Dir { std::vector< directory_entry > v; size_t i = 0; }; }
	directory_iterator::directory_iterator( const path& p, directory_options, std::error_code* ) {
		auto d = shim_find( p.native() ); if ( !d || !d->dir ) throw std::runtime_error( "filesystem error: directory iterator cannot open directory" ); auto v = std::__make_shared< _Dir >(); bool slash; std::string root = shim_norm( p.native(), slash ), dot = root.empty() ? "." : root;
		for ( auto f = shim_files; f; f = f->next ) if ( shim_up( f->name ) == dot ) { std::string n = f->name.substr( f->name.rfind( '/' ) + 1 ); directory_entry e( path( p.native() + ( p.native().back() == '/' ? "" : "/" ) + n ) ); v->v.insert( shim_dir_reversed ? v->v.end() : v->v.begin(), e ); }
		if ( v->v.size() ) _M_dir = v;
	}
	const directory_entry& directory_iterator::operator*() const noexcept { return _M_dir->v[ _M_dir->i ]; } directory_iterator& directory_iterator::operator++() { if ( ++_M_dir->i == _M_dir->v.size() ) _M_dir.reset(); return *this; }
	static void fail( std::error_code& ec, int v ) { ec = std::error_code( v, std::system_category() ); }
	bool copy_file( const path& from, const path& to, copy_options opt, std::error_code& ec ) {
		auto f = shim_find( from.native() ); ec = std::error_code( 0, std::system_category() );
		if ( !f ) { fail( ec, ENOENT ); return false; }
		auto t = shim_find( to.native() );
		if ( f->dir || ( t && t->dir ) ) { fail( ec, EINVAL ); return false; }
		if ( t == f ) { fail( ec, EEXIST ); return false; }
		if ( t && opt == copy_options::skip_existing ) return false;
		if ( t && opt == copy_options::none ) { fail( ec, EEXIST ); return false; }
		if ( !t ) t = shim_create( to.native(), false );
		if ( !t ) { fail( ec, ENOENT ); return false; }
		t->data = f->data; t->mtime = shim_now; return true;
	}
	bool copy_file( const path& from, const path& to, copy_options opt ) { std::error_code ec; bool r = copy_file( from, to, opt, ec ); if ( ec.value() ) throw std::runtime_error( "filesystem error: cannot copy file" ); return r; }
} }

// names of types: identifiers, scopes, template arguments, substitutions and the builtin types that are one letter
extern "C" char* shim_demangle_unsupported( const char* );
struct shim_demangler
{
	const char* c; std::vector< std::string > subs;
	bool type( std::string& o ); // adds the name of a type to o
	bool identifier( std::string& o )
	{
		if ( *c < '1' || *c > '9' ) return false;
		size_t n = 0; while ( *c >= '0' && *c <= '9' ) n = n * 10 + size_t( *c++ - '0' );
		for ( size_t i = 0; i < n; ++i ) if ( !c[ i ] ) return false;
		for ( size_t i = 0; i < n; ++i ) o += c[ i ];
		c += n; return true;
	}
	bool args( std::string& o ) { ++c; o += '<'; bool first = true; while ( *c != 'E' ) { if ( !first ) o += ", "; first = false; if ( !type( o ) ) return false; } ++c; if ( o.back() == '>' ) o += ' '; o += '>'; return true; }
	bool substitution( std::string& o ) // after the S
	{
		size_t n = 0; if ( *c != '_' ) { if ( *c < '0' || *c > '9' ) return false; n = size_t( *c++ - '0' ) + 1; }
		if ( *c != '_' || n >= subs.size() ) return false; ++c; o += subs[ n ]; return true;
	}
	bool name( std::string& o, bool substitute ) // with any template arguments
	{
		if ( !substitute ) { if ( !identifier( o ) ) return false; }
		if ( !substitute ) subs.push_back( o ); if ( *c == 'I' ) { if ( !args( o ) ) return false; subs.push_back( o ); } return true;
	}
};
bool shim_demangler::type( std::string& all )
{
	static const char* const builtin[] = { "iint", "junsigned int", "ffloat", "ddouble", "bbool", "cchar", "llong", "munsigned long", "xlong long", "yunsigned long long", "sshort", "tunsigned short", "hunsigned char", "asigned char", "vvoid" };
	std::string o; bool ok = true;
	if ( *c == 'P' ) { ++c; ok = type( o ); o += '*'; subs.push_back( o ); }
	else if ( *c == 'N' ) {
		++c; bool first = true; while ( ok && *c != 'E' ) {
			if ( c[ 0 ] == 'S' && c[ 1 ] == 't' && first ) { c += 2; o += "std"; }
			else if ( *c == 'S' && first ) { ++c; ok = substitution( o ) && name( o, true ); }
			else { if ( !first ) o += "::"; if ( !strncmp( c, "12_GLOBAL__N_1", 14 ) ) { o += "(anonymous namespace)"; c += 14; subs.push_back( o ); } else ok = name( o, false ); }
			first = false; }
		if ( ok ) ++c;
	}
	else if ( c[ 0 ] == 'S' && c[ 1 ] == 't' ) { c += 2; o += "std::"; ok = name( o, false ); }
	else if ( *c == 'S' ) { ++c; ok = substitution( o ) && name( o, true ); }
	else { bool found = false; for ( auto b : builtin ) if ( *c == b[ 0 ] ) { ++c; o += b + 1; found = true; break; } if ( !found ) ok = name( o, false ); }
	all += o; return ok;
}
extern "C" char* __cxa_demangle( const char* name, char*, size_t*, int* status )
{
	std::string o; shim_demangler d{ name, {} }; if ( !d.type( o ) || *d.c ) return shim_demangle_unsupported( name );
	char* r = (char*)malloc( o.size() + 1 ); __builtin_memcpy( r, o.c_str(), o.size() + 1 ); if ( status ) *status = 0; return r;
}
