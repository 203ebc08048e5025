// Stand-in for the libstdc++ iostream library, used only when harnesses are compiled for symbolic execution
// (the real one lives in a precompiled library). In-memory, narrow and minimal. Files are an in-memory map.
#pragma once
#include <ctime>
#pragma GCC system_header
#include <iosfwd>
#include <string>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
extern "C" int snprintf( char*, size_t, const char*, ... ) noexcept; extern "C" unsigned long long sym_unique64( unsigned long long ) noexcept;
namespace std
{
	typedef ptrdiff_t streamsize;
	class ios_base {
	public:
		typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
		static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384;
		static constexpr fmtflags adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = fixed | scientific;
		static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
		static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
		static constexpr seekdir beg = 0, cur = 1, end = 2;
		class Init { public: Init() {} };
		class failure {};
		fmtflags flags() const { return fl_; } fmtflags flags( fmtflags f ) { auto o = fl_; fl_ = f; return o; }
		fmtflags setf( fmtflags f ) { auto o = fl_; fl_ |= f; return o; } fmtflags setf( fmtflags f, fmtflags m ) { auto o = fl_; fl_ = ( fl_ & ~m ) | ( f & m ); return o; } void unsetf( fmtflags f ) { fl_ &= ~f; }
		streamsize width() const { return w_; } streamsize width( streamsize w ) { auto o = w_; w_ = w; return o; }
		streamsize precision() const { return p_; } streamsize precision( streamsize w ) { auto o = p_; p_ = w; return o; }
		static bool sync_with_stdio( bool = true ) { return true; }
		virtual ~ios_base() {}
	protected:
		fmtflags fl_ = dec | skipws; streamsize w_ = 0, p_ = 6; iostate st_ = 0;
	};
	template< typename C, typename T > class basic_streambuf {
	public:
		typedef typename T::int_type int_type; typedef C char_type; typedef T traits_type;
		virtual ~basic_streambuf() {}
		int_type sputc( C c ) { return overflow( T::to_int_type( c ) ); }
		streamsize sputn( const C* s, streamsize n ) { return xsputn( s, n ); }
		int_type sgetc() { return r_ < d_.size() ? T::to_int_type( d_[ r_ ] ) : T::eof(); }
		int_type sbumpc() { return r_ < d_.size() ? T::to_int_type( d_[ r_++ ] ) : T::eof(); }
		int_type snextc() { if ( r_ < d_.size() ) ++r_; return sgetc(); }
		int pubsync() { return 0; } streamsize sgetn( C* s, streamsize n ) { streamsize i = 0; while ( i < n && r_ < d_.size() ) s[ i++ ] = d_[ r_++ ]; return i; }
		streamsize in_avail() { return (streamsize)( d_.size() - r_ ); }
		std::basic_string<C, T> d_; size_t r_ = 0;
	protected:
		virtual streamsize xsputn( const C* s, streamsize n ) { d_.append( s, (size_t)n ); return n; }
		virtual int_type overflow( int_type c ) { d_.push_back( (C)c ); return c; }
	};
	template< typename C, typename T > class basic_ios : public ios_base {
	public:
		typedef basic_streambuf<C, T> sb;
		typedef std::ios_base ios_base;
		iostate rdstate() const { return st_; } void clear( iostate s = goodbit ) { st_ = s; } void setstate( iostate s ) { st_ |= s; } void _M_setstate( iostate s ) { st_ |= s; }
		bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & ( failbit | badbit ); } bool bad() const { return st_ & badbit; }
		explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
		sb* rdbuf() const { return b_; } sb* rdbuf( sb* b ) { auto o = b_; b_ = b; return o; } C fill() const { return f_; } C fill( C c ) { C o = f_; f_ = c; return o; }
		C widen( char c ) const { return (C)c; } char narrow( C c, char ) const { return (char)c; }
		void exceptions( iostate ) {}
	protected:
		sb* b_ = nullptr; C f_ = C( ' ' );
	};
	template< typename C, typename T > class basic_ostream : virtual public basic_ios<C, T> {
	public:
		typedef basic_ios<C, T> B; typedef std::ios_base ios_base;
		basic_ostream() {}
		explicit basic_ostream( basic_streambuf<C, T>* b ) { this->b_ = b; }
		struct sentry { bool ok; explicit sentry( basic_ostream& o ) : ok( o.good() ) {} explicit operator bool() const { return ok; } };
		basic_ostream& put( C c ) { if ( this->good() ) this->b_->sputc( c ); return *this; }
		basic_ostream& write( const C* s, streamsize n ) { if ( this->good() ) this->b_->sputn( s, n ); return *this; }
		basic_ostream& flush() { return *this; }
		basic_ostream& pad( const C* s, size_t n ) {
			if ( !this->good() ) return *this;
			size_t w = (size_t)this->w_; this->w_ = 0; bool l = ( this->fl_ & ios_base::adjustfield ) == ios_base::left;
			if ( w > n && !l ) for ( size_t i = n; i < w; ++i ) this->b_->sputc( this->f_ );
			this->b_->sputn( s, (streamsize)n );
			if ( w > n && l ) for ( size_t i = n; i < w; ++i ) this->b_->sputc( this->f_ );
			return *this;
		}
		basic_ostream& num( unsigned long long v, bool neg ) {
			v = sym_unique64( v ); char t[ 32 ]; int n = 32; unsigned base = ( this->fl_ & ios_base::hex ) ? 16 : ( this->fl_ & ios_base::oct ) ? 8 : 10; const char* dg = ( this->fl_ & ios_base::uppercase ) ? "0123456789ABCDEF" : "0123456789abcdef";
			do { t[ --n ] = dg[ v % base ]; v /= base; } while ( v ); if ( neg ) t[ --n ] = '-'; else if ( this->fl_ & ios_base::showpos ) t[ --n ] = '+';
			return pad( t + n, 32 - n );
		}
		basic_ostream& snum( long long v ) { return v < 0 && !( this->fl_ & ( ios_base::hex | ios_base::oct ) ) ? num( 0 - (unsigned long long)v, true ) : num( (unsigned long long)v, false ); }
		basic_ostream& operator<<( int v ) { return ( this->fl_ & ( ios_base::hex | ios_base::oct ) ) ? num( (unsigned)v, false ) : snum( v ); }
		basic_ostream& operator<<( long v ) { return snum( v ); } basic_ostream& operator<<( long long v ) { return snum( v ); } basic_ostream& operator<<( short v ) { return snum( v ); }
		basic_ostream& operator<<( unsigned v ) { return num( v, false ); } basic_ostream& operator<<( unsigned long v ) { return num( v, false ); } basic_ostream& operator<<( unsigned long long v ) { return num( v, false ); } basic_ostream& operator<<( unsigned short v ) { return num( v, false ); }
		basic_ostream& operator<<( bool v ) { if ( this->fl_ & ios_base::boolalpha ) return v ? pad( "true", 4 ) : pad( "false", 5 ); return num( v, false ); }
		basic_ostream& operator<<( double v ) { char t[ 512 ]; const char* f = ( this->fl_ & ios_base::fixed ) ? "%.*f" : ( this->fl_ & ios_base::scientific ) ? "%.*e" : "%.*g"; int n = snprintf( t, sizeof t, f, (int)this->p_, v ); return pad( t, (size_t)n ); }
		basic_ostream& operator<<( float v ) { return *this << (double)v; } basic_ostream& operator<<( long double v ) { return *this << (double)v; }
		basic_ostream& operator<<( const void* p ) { char t[ 32 ]; int n = snprintf( t, sizeof t, "%p", p ); return pad( t, (size_t)n ); }
		basic_ostream& operator<<( basic_ostream& ( *f )( basic_ostream& ) ) { return f( *this ); }
		basic_ostream& operator<<( ios_base& ( *f )( ios_base& ) ) { f( *this ); return *this; }
		basic_ostream& operator<<( basic_streambuf<C, T>* b ) { if ( b ) { while ( b->sgetc() != T::eof() ) this->b_->sputc( (C)b->sbumpc() ); } return *this; }
		long long tellp() { return (long long)this->b_->d_.size(); }
	};
	template< typename T > basic_ostream<char, T>& operator<<( basic_ostream<char, T>& o, char c ) { return o.pad( &c, 1 ); }
	template< typename T > basic_ostream<char, T>& operator<<( basic_ostream<char, T>& o, signed char c ) { char d = (char)c; return o.pad( &d, 1 ); }
	template< typename T > basic_ostream<char, T>& operator<<( basic_ostream<char, T>& o, unsigned char c ) { char d = (char)c; return o.pad( &d, 1 ); }
	template< typename T > basic_ostream<char, T>& operator<<( basic_ostream<char, T>& o, const char* s ) { return o.pad( s, char_traits<char>::length( s ) ); }
	inline basic_ostream<char>& __ostream_insert_shim( basic_ostream<char>& o, const char* s, size_t n ) { return o.pad( s, n ); }
	template< typename C, typename T > basic_ostream<C, T>& endl( basic_ostream<C, T>& o ) { return o.put( C( '\n' ) ); }
	template< typename C, typename T > basic_ostream<C, T>& ends( basic_ostream<C, T>& o ) { return o.put( C() ); }
	template< typename C, typename T > basic_ostream<C, T>& flush( basic_ostream<C, T>& o ) { return o; }
	inline ios_base& hex( ios_base& b ) { b.setf( ios_base::hex, ios_base::basefield ); return b; } inline ios_base& dec( ios_base& b ) { b.setf( ios_base::dec, ios_base::basefield ); return b; }
	inline ios_base& fixed( ios_base& b ) { b.setf( ios_base::fixed, ios_base::floatfield ); return b; } inline ios_base& scientific( ios_base& b ) { b.setf( ios_base::scientific, ios_base::floatfield ); return b; }
	inline ios_base& left( ios_base& b ) { b.setf( ios_base::left, ios_base::adjustfield ); return b; } inline ios_base& right( ios_base& b ) { b.setf( ios_base::right, ios_base::adjustfield ); return b; }
	inline ios_base& boolalpha( ios_base& b ) { b.setf( ios_base::boolalpha ); return b; } inline ios_base& noboolalpha( ios_base& b ) { b.unsetf( ios_base::boolalpha ); return b; }
	inline ios_base& skipws( ios_base& b ) { b.setf( ios_base::skipws ); return b; } inline ios_base& noskipws( ios_base& b ) { b.unsetf( ios_base::skipws ); return b; }
	struct _sw { int v; }; inline _sw setw( int v ) { return { v }; } struct _sp { int v; }; inline _sp setprecision( int v ) { return { v }; } struct _sf { char v; }; inline _sf setfill( char v ) { return { v }; }
	template< typename C, typename T > basic_ostream<C, T>& operator<<( basic_ostream<C, T>& o, _sw s ) { o.width( s.v ); return o; }
	template< typename C, typename T > basic_ostream<C, T>& operator<<( basic_ostream<C, T>& o, _sp s ) { o.precision( s.v ); return o; }
	template< typename C, typename T > basic_ostream<C, T>& operator<<( basic_ostream<C, T>& o, _sf s ) { o.fill( s.v ); return o; }

	template< typename S, typename V, typename = typename std::enable_if<!std::is_lvalue_reference<S>::value && std::is_base_of<ios_base, S>::value>::type > S&& operator<<( S&& s, const V& v ) { s << v; return std::move( s ); }

	template< typename C, typename T > class basic_istream : virtual public basic_ios<C, T> {
	public:
		typedef typename T::int_type int_type; typedef std::ios_base ios_base;
		basic_istream() {}
		explicit basic_istream( basic_streambuf<C, T>* b ) { this->b_ = b; }
		static bool sp( C c ) { return ( c == ' ' ) | ( ( c >= 9 ) & ( c <= 13 ) ); }
		bool prep( bool noskip = false ) {
			if ( !this->good() ) { this->setstate( ios_base::failbit ); return false; }
			if ( !noskip && ( this->fl_ & ios_base::skipws ) ) { while ( this->b_->sgetc() != T::eof() && sp( (C)this->b_->sgetc() ) ) this->b_->sbumpc(); if ( this->b_->sgetc() == T::eof() ) { this->setstate( ios_base::eofbit | ios_base::failbit ); return false; } }
			return true;
		}
		struct sentry { bool ok; explicit sentry( basic_istream& i, bool noskip = false ) : ok( i.prep( noskip ) ) {} explicit operator bool() const { return ok; } };
		size_t gc_ = 0; streamsize gcount() const { return (streamsize)gc_; }
		int_type get() { gc_ = 0; if ( !this->good() ) { this->setstate( ios_base::failbit ); return T::eof(); } auto c = this->b_->sbumpc(); if ( c == T::eof() ) this->setstate( ios_base::eofbit | ios_base::failbit ); else gc_ = 1; return c; }
		basic_istream& get( C& c ) { auto x = get(); if ( x != T::eof() ) c = (C)x; return *this; }
		int_type peek() { if ( !this->good() ) return T::eof(); auto c = this->b_->sgetc(); if ( c == T::eof() ) this->setstate( ios_base::eofbit ); return c; }
		basic_istream& unget() { this->st_ &= ~ios_base::eofbit; if ( this->b_->r_ ) --this->b_->r_; return *this; }
		basic_istream& putback( C ) { return unget(); }
		basic_istream& read( C* s, streamsize n ) { gc_ = 0; while ( (streamsize)gc_ < n ) { auto c = this->b_->sbumpc(); if ( c == T::eof() ) { this->setstate( ios_base::eofbit | ios_base::failbit ); break; } s[ gc_++ ] = (C)c; } return *this; }
		basic_istream& getline( C* s, streamsize n ) {
			gc_ = 0; if ( !prep( true ) ) { if ( n > 0 ) *s = C(); return *this; }
			streamsize k = 0; // characters stored
			for ( ;; ) {
				auto c = this->b_->sgetc();
				if ( c == T::eof() ) { this->setstate( gc_ ? ios_base::eofbit : ( ios_base::eofbit | ios_base::failbit ) ); break; }
				if ( (C)c == C( '\n' ) ) { ++gc_; this->b_->sbumpc(); break; }
				if ( k + 1 >= n ) { this->setstate( ios_base::failbit ); break; }
				s[ k++ ] = (C)c; ++gc_; this->b_->sbumpc();
			}
			if ( n > 0 ) s[ k ] = C(); return *this;
		}
		basic_istream& ignore( streamsize n = 1, int_type d = T::eof() ) { while ( n-- > 0 ) { auto c = this->b_->sbumpc(); if ( c == T::eof() ) { this->setstate( ios_base::eofbit ); break; } if ( c == d ) break; } return *this; }
		long long tellg() { return this->fail() ? -1 : (long long)this->b_->r_; }
		basic_istream& seekg( long long p ) { this->st_ &= ~ios_base::eofbit; this->b_->r_ = (size_t)p; return *this; }
		basic_istream& seekg( long long p, ios_base::seekdir d ) { this->st_ &= ~ios_base::eofbit; this->b_->r_ = (size_t)( d == ios_base::beg ? p : d == ios_base::cur ? (long long)this->b_->r_ + p : (long long)this->b_->d_.size() + p ); return *this; }
		std::string tok_num() { std::string t; for ( ;; ) { auto c = this->b_->sgetc(); if ( c == T::eof() ) { this->setstate( ios_base::eofbit ); break; } bool ok = ( c >= '0' && c <= '9' ) || ( t.empty() && ( c == '-' || c == '+' ) ); if ( !ok ) break; t.push_back( (char)c ); this->b_->sbumpc(); } return t; }
		std::string tok_flt() { std::string t; for ( ;; ) { auto c = this->b_->sgetc(); if ( c == T::eof() ) { this->setstate( ios_base::eofbit ); break; } bool ok = ( c >= '0' && c <= '9' ) || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E'; if ( !ok ) break; t.push_back( (char)c ); this->b_->sbumpc(); } return t; }
		template< typename N > basic_istream& rint( N& v ) { if ( !prep() ) { return *this; } auto t = tok_num(); size_t i = 0; bool neg = false; if ( t.size() && ( t[ 0 ] == '-' || t[ 0 ] == '+' ) ) { neg = t[ 0 ] == '-'; i = 1; } if ( i >= t.size() ) { this->setstate( ios_base::failbit ); v = 0; return *this; } unsigned long long r = 0; for ( ; i < t.size(); ++i ) r = r * 10 + (unsigned)( t[ i ] - '0' ); v = (N)( neg ? 0 - r : r ); return *this; }
		basic_istream& operator>>( int& v ) { return rint( v ); } basic_istream& operator>>( long& v ) { return rint( v ); } basic_istream& operator>>( long long& v ) { return rint( v ); } basic_istream& operator>>( short& v ) { return rint( v ); }
		basic_istream& operator>>( unsigned& v ) { return rint( v ); } basic_istream& operator>>( unsigned long& v ) { return rint( v ); } basic_istream& operator>>( unsigned long long& v ) { return rint( v ); } basic_istream& operator>>( bool& v ) { int i = 0; rint( i ); v = i != 0; return *this; }
		basic_istream& operator>>( double& v ) { if ( !prep() ) return *this; auto t = tok_flt(); char* e = nullptr; v = strtod( t.c_str(), &e ); if ( t.empty() || *e ) this->setstate( ios_base::failbit ); return *this; }
		basic_istream& operator>>( float& v ) { double d = 0; *this >> d; v = (float)d; return *this; }
		basic_istream& operator>>( basic_istream& ( *f )( basic_istream& ) ) { return f( *this ); }
	};
	template< typename T > basic_istream<char, T>& operator>>( basic_istream<char, T>& i, char& c ) { if ( i.prep() ) c = (char)i.rdbuf()->sbumpc(); return i; }
	template< typename T > basic_istream<char, T>& operator>>( basic_istream<char, T>& i, std::basic_string<char>& s ) {
		if ( !i.prep() ) return i; s.clear();
		for ( ;; ) { auto c = i.rdbuf()->sgetc(); if ( c == T::eof() ) { i.setstate( ios_base::eofbit ); break; } if ( basic_istream<char, T>::sp( (char)c ) ) break; s.push_back( (char)c ); i.rdbuf()->sbumpc(); }
		i.width( 0 ); return i;
	}
	inline basic_istream<char>& operator>>( basic_istream<char>& i, std::string& s ) { return operator>><char_traits<char>>( i, s ); }
	template< typename C, typename T > basic_istream<C, T>& ws( basic_istream<C, T>& i ) { while ( i.rdbuf()->sgetc() != T::eof() && basic_istream<C, T>::sp( (C)i.rdbuf()->sgetc() ) ) i.rdbuf()->sbumpc(); return i; }
	inline basic_istream<char>& getline( basic_istream<char>& i, std::string& s, char d ) {
		if ( !i.prep( true ) ) { return i; } s.clear(); bool any = false;
		for ( ;; ) { auto c = i.rdbuf()->sbumpc(); if ( c == char_traits<char>::eof() ) { i.setstate( any ? ios_base::eofbit : ( ios_base::eofbit | ios_base::failbit ) ); break; } any = true; if ( (char)c == d ) break; s.push_back( (char)c ); }
		return i;
	}
	inline basic_istream<char>& getline( basic_istream<char>& i, std::string& s ) { return getline( i, s, '\n' ); }
	template< typename C, typename T > class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} explicit basic_iostream( basic_streambuf<C, T>* b ) { this->b_ = b; } };
	inline namespace __cxx11 {
	template< typename C, typename T, typename A > class basic_stringbuf : public basic_streambuf<C, T> { public: basic_stringbuf() {} std::basic_string<C, T, A> str() const { return this->d_; } };
	template< typename C, typename T, typename A > class basic_stringstream : public basic_iostream<C, T> {
		basic_streambuf<C, T> sb_;
	public:
		basic_stringstream() { this->b_ = &sb_; } explicit basic_stringstream( ios_base::openmode ) { this->b_ = &sb_; }
		explicit basic_stringstream( const std::basic_string<C, T, A>& s, ios_base::openmode = 0 ) { this->b_ = &sb_; sb_.d_ = s; }
		std::basic_string<C, T, A> str() const { return sb_.d_; } void str( const std::basic_string<C, T, A>& s ) { sb_.d_ = s; sb_.r_ = 0; }
	};
	template< typename C, typename T, typename A > class basic_ostringstream : public basic_ostream<C, T> {
		basic_streambuf<C, T> sb_;
	public:
		basic_ostringstream() { this->b_ = &sb_; } std::basic_string<C, T, A> str() const { return sb_.d_; } void str( const std::basic_string<C, T, A>& s ) { sb_.d_ = s; }
	};
	template< typename C, typename T, typename A > class basic_istringstream : public basic_istream<C, T> {
		basic_streambuf<C, T> sb_;
	public:
		basic_istringstream() { this->b_ = &sb_; } explicit basic_istringstream( const std::basic_string<C, T, A>& s ) { this->b_ = &sb_; sb_.d_ = s; } std::basic_string<C, T, A> str() const { return sb_.d_; }
	};
	}
	// in-memory files
	struct shim_file { std::string name, data; shim_file* next; bool dir; long mtime; };
	extern long shim_now;
	shim_file* shim_find( const std::string& n ); // file or directory, null if there is none; a path through a file or with a trailing / on a file is none
	shim_file* shim_create( const std::string& n, bool dir ); // null if the parent is no directory
	template< typename C, typename T > class basic_filebuf : public basic_streambuf<C, T> {};
	template< typename C, typename T > class basic_ifstream : public basic_istream<C, T> {
		basic_streambuf<C, T> sb_; bool open_ = false;
	public:
		basic_ifstream() { this->b_ = &sb_; }
		explicit basic_ifstream( const char* n, ios_base::openmode = 0 ) { this->b_ = &sb_; open( std::string( n ) ); }
		explicit basic_ifstream( const std::string& n, ios_base::openmode = 0 ) { this->b_ = &sb_; open( n ); }
		void open( const std::string& n, ios_base::openmode = 0 ) { auto f = shim_find( n ); if ( f ) { sb_.d_ = f->data; open_ = true; } else this->setstate( ios_base::failbit ); } // as on Linux, a directory can be opened for reading (and then has nothing to read)
		bool is_open() const { return open_; } void close() { open_ = false; }
		basic_ifstream( basic_ifstream&& o ) : open_( o.open_ ) { this->b_ = &sb_; sb_.d_ = o.sb_.d_; sb_.r_ = o.sb_.r_; this->st_ = o.st_; }
	};
	template< typename C, typename T > class basic_ofstream : public basic_ostream<C, T> {
		basic_streambuf<C, T> sb_; std::string n_; bool open_ = false;
	public:
		basic_ofstream() { this->b_ = &sb_; }
		explicit basic_ofstream( const char* n, ios_base::openmode m = 0 ) { this->b_ = &sb_; open( std::string( n ), m ); }
		explicit basic_ofstream( const std::string& n, ios_base::openmode m = 0 ) { this->b_ = &sb_; open( n, m ); }
		void open( const std::string& n, ios_base::openmode m = 0 ) { auto f = shim_find( n ); if ( !f ) f = shim_create( n, false ); if ( !f || f->dir ) { this->setstate( ios_base::failbit ); return; } n_ = n; open_ = true; if ( m & ios_base::app ) sb_.d_ = f->data; else f->data = std::string(); }
		bool is_open() const { return open_; } void close() { if ( open_ ) { shim_flush(); open_ = false; } }
		void shim_flush() { if ( auto f = shim_find( n_ ) ) { f->data = sb_.d_; f->mtime = shim_now; } }
		~basic_ofstream() { close(); }
	};
	template< typename C, typename T > class basic_fstream : public basic_iostream<C, T> { basic_streambuf<C, T> sb_; public: basic_fstream() { this->b_ = &sb_; } };
	// date formatting and std::quoted: declared so that headers parse
	template< typename C > struct _put_time { const void* t; const C* f; };
	template< typename C > _put_time<C> put_time( const struct tm* t, const C* f ) { return { t, f }; }
	template< typename C, typename T > basic_ostream<C, T>& operator<<( basic_ostream<C, T>& o, _put_time<C> p ) { char t[ 128 ]; size_t n = strftime( t, sizeof t, p.f, (const struct tm*)p.t ); return o.write( t, (streamsize)n ); }
	template< typename S > struct _quoted { S s; };
	template< typename C, typename T, typename A > _quoted<std::basic_string<C, T, A>> quoted( const std::basic_string<C, T, A>& s ) { return { s }; }
	template< typename C, typename T, typename S > basic_ostream<C, T>& operator<<( basic_ostream<C, T>& o, const _quoted<S>& p ) { return o; }
	template< typename C, typename T, typename S > basic_istream<C, T>& operator>>( basic_istream<C, T>& o, const _quoted<S>& p ) { return o; }
	extern ostream cout, cerr, clog; extern istream cin;
}
#include <bits/ostream_insert.h>
