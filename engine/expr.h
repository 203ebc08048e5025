// Hash-consed bit-vector / boolean / floating-point / real expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <stdexcept>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum K : uint8_t {
	CONST, VAR,
	ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
	FADD, FSUB, FMUL, FDIV, FREM, FNEG, FABS, FSQRT, FRINT, FEQ, FLT, FLE, FNAN, FTOSI, FTOUI, SITOF, UITOF, FTOF,
	RADD, RSUB, RMUL, RDIV, REQ, RLT, RLE, RTOI, ITOR,
	NKINDS
};

struct Expr {
	K k; bool real; bool fp; bool hr; bool leaf; // leaf: ITE tree with constant leaves only (or a constant)
	uint16_t w; uint32_t id; uint32_t vs;
	const Expr *a, *b, *c;
	u128 val; // constant value / extract low bit / var id / rint mode
	mutable uint64_t mid; mutable u128 mval; // evaluation cache
};
typedef const Expr* E;

inline u128 maskw( unsigned w ) { return w >= 128 ? ~(u128)0 : ( ( (u128)1 << w ) - 1 ); }
inline i128 sextv( u128 v, unsigned w ) { if ( w >= 128 ) return (i128)v; u128 s = (u128)1 << ( w - 1 ); return (i128)( ( v ^ s ) - s ); }
inline double asD( u128 v ) { uint64_t x = (uint64_t)v; double d; memcpy( &d, &x, 8 ); return d; }
inline float asF( u128 v ) { uint32_t x = (uint32_t)v; float d; memcpy( &d, &x, 4 ); return d; }
inline u128 fromD( double d ) { uint64_t x; memcpy( &x, &d, 8 ); return x; }
inline u128 fromF( float d ) { uint32_t x; memcpy( &x, &d, 4 ); return x; }

struct VarInfo { std::string name; unsigned w; bool real; };

struct Exprs {
	struct Key { K k; uint16_t w; E a, b, c; u128 val; };
	struct H {
		size_t operator()( const Key& x ) const {
			uint64_t h = x.k * 0x9E3779B97F4A7C15ull + x.w;
			auto mix = [&]( uint64_t v ) { h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 ); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
			mix( (uint64_t)x.a ); mix( (uint64_t)x.b ); mix( (uint64_t)x.c ); mix( (uint64_t)x.val ); mix( (uint64_t)( x.val >> 64 ) );
			return h;
		}
	};
	struct EqK { bool operator()( const Key& x, const Key& y ) const { return x.k == y.k && x.w == y.w && x.a == y.a && x.b == y.b && x.c == y.c && x.val == y.val; } };
	std::unordered_map<Key, E, H, EqK> tab;
	std::vector<VarInfo> vars;
	uint32_t nextId = 0;
	// var sets
	std::vector<std::vector<uint32_t>> vsets{ {} };
	std::map<std::vector<uint32_t>, uint32_t> vsid{ { {}, 0 } };
	std::unordered_map<uint64_t, uint32_t> vsunion;
	uint32_t vsOf( std::vector<uint32_t> v ) {
		auto it = vsid.find( v ); if ( it != vsid.end() ) return it->second;
		uint32_t id = vsets.size(); vsets.push_back( v ); vsid[ v ] = id; return id;
	}
	uint32_t vsUnion( uint32_t a, uint32_t b ) {
		if ( a == b || b == 0 ) return a; if ( a == 0 ) return b;
		if ( a > b ) std::swap( a, b );
		uint64_t key = ( (uint64_t)a << 32 ) | b;
		auto it = vsunion.find( key ); if ( it != vsunion.end() ) return it->second;
		std::vector<uint32_t> r; std::set_union( vsets[ a ].begin(), vsets[ a ].end(), vsets[ b ].begin(), vsets[ b ].end(), std::back_inserter( r ) );
		return vsunion[ key ] = vsOf( r );
	}

	E raw( K k, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, u128 val = 0, bool real = false ) {
		Key key{ k, (uint16_t)w, a, b, c, val };
		auto it = tab.find( key );
		if ( it != tab.end() ) return it->second;
		if ( w > 128 ) throw Unsupported( "expression wider than 128 bits" );
		Expr* e = new Expr;
		e->k = k; e->w = w; e->id = nextId++; e->a = a; e->b = b; e->c = c; e->val = val; e->mid = 0; e->mval = 0;
		e->vs = 0; e->fp = ( k >= FADD && k <= FTOF ); e->real = real || k == RADD || k == RSUB || k == RMUL || k == RDIV || k == ITOR;
		bool hasfp = e->fp;
		if ( k == ITE && ( b->real || c->real ) ) e->real = true;
		e->hr = e->real || k == REQ || k == RLT || k == RLE || k == RTOI;
		for ( E x : { a, b, c } ) if ( x ) { e->vs = vsUnion( e->vs, x->vs ); hasfp |= x->fp; e->hr |= x->hr; }
		e->fp = hasfp; // "contains floating point"
		if ( k == VAR ) e->vs = vsOf( { (uint32_t)val } );
		e->leaf = k == CONST || ( k == ITE && b->leaf && c->leaf );
		tab.emplace( key, e );
		return e;
	}
	E smallc[ 65 ][ 258 ];
	Exprs() { memset( smallc, 0, sizeof smallc ); }
	E C( unsigned w, u128 v ) {
		v &= maskw( w );
		if ( w <= 64 && v < 257 ) { E& e = smallc[ w ][ (unsigned)v ]; if ( !e ) e = raw( CONST, w, 0, 0, 0, v ); return e; }
		return raw( CONST, w, 0, 0, 0, v );
	}
	E T() { return C( 1, 1 ); }
	E F() { return C( 1, 0 ); }
	E B( bool b ) { return C( 1, b ); }
	E var( unsigned w, const std::string& name, bool real = false ) {
		vars.push_back( { name, w, real } );
		return raw( VAR, w, 0, 0, 0, vars.size() - 1, real );
	}
	static bool isC( E e ) { return e->k == CONST; }
	static bool isNot( E e ) { return e->k == XOR && e->w == 1 && e->b->k == CONST && e->b->val == 1; }

	E Not( E a ) { // w==1
		if ( isC( a ) ) return B( !a->val );
		if ( isNot( a ) ) return a->a;
		switch ( a->k ) {
		case ULT: return raw( ULE, 1, a->b, a->a );
		case ULE: return raw( ULT, 1, a->b, a->a );
		case SLT: return raw( SLE, 1, a->b, a->a );
		case SLE: return raw( SLT, 1, a->b, a->a );
		case RLT: return raw( RLE, 1, a->b, a->a );
		case RLE: return raw( RLT, 1, a->b, a->a );
		default: return raw( XOR, 1, a, T() );
		}
	}
	E pushLeaf( E t, int depth, const std::function<E( E )>& f ) {
		std::unordered_map<E, E> memo;
		std::function<E( E )> rec = [&]( E x ) -> E {
			if ( x->k == CONST ) return f( x );
			auto it = memo.find( x ); if ( it != memo.end() ) return it->second;
			E r = Ite( x->a, rec( x->b ), rec( x->c ) );
			return memo[ x ] = r;
		};
		return rec( t );
	}
	E bin( K k, E a, E b ) {
		switch ( k ) {
		case ADD: return Add( a, b ); case SUB: return Sub( a, b ); case MUL: return Mul( a, b );
		case AND: return And( a, b ); case OR: return Or( a, b ); case XOR: return Xor( a, b );
		case SHL: return Shl( a, b ); case LSHR: return LShr( a, b ); case ASHR: return AShr( a, b );
		case UDIV: return UDiv( a, b ); case UREM: return URem( a, b ); case SDIV: return SDiv( a, b ); case SREM: return SRem( a, b );
		case EQ: return Eq( a, b ); case ULT: return Ult( a, b ); case ULE: return Ule( a, b ); case SLT: return Slt( a, b ); case SLE: return Sle( a, b );
		default: throw Unsupported( "bin" );
		}
	}
	bool leafBin( K k, E a, E b, E& out ) {
		if ( a->k == ITE && a->leaf && isC( b ) ) { out = pushLeaf( a, 0, [&]( E x ) { return bin( k, x, b ); } ); return true; }
		if ( b->k == ITE && b->leaf && isC( a ) ) { out = pushLeaf( b, 0, [&]( E x ) { return bin( k, a, x ); } ); return true; }
		return false;
	}
	static void noreal( E a, E b ) { if ( a->real || b->real ) throw Unsupported( "bit operation on a real-mode value" ); }
	// sums as a list of terms with coefficients (sorted by id), to let terms cancel
	struct Lin { std::vector<std::pair<E, u128>> t; u128 c = 0; };
	bool lin( E e, u128 k, Lin& l, unsigned depth = 0 ) {
		if ( isC( e ) ) { l.c += k * e->val; return true; }
		if ( depth < 24 ) {
			if ( e->k == ADD ) return lin( e->a, k, l, depth + 1 ) && lin( e->b, k, l, depth + 1 );
			if ( e->k == SUB ) return lin( e->a, k, l, depth + 1 ) && lin( e->b, (u128)0 - k, l, depth + 1 );
			if ( e->k == MUL && isC( e->b ) ) return lin( e->a, k * e->b->val, l, depth + 1 );
		}
		if ( l.t.size() >= 16 ) return false;
		l.t.push_back( { e, k } ); return true;
	}
	size_t linMerge( Lin& l, unsigned w ) {
		size_t before = l.t.size(); u128 m = maskw( w );
		std::stable_sort( l.t.begin(), l.t.end(), []( auto& x, auto& y ) { return x.first->id < y.first->id; } );
		std::vector<std::pair<E, u128>> r;
		for ( auto& p : l.t ) if ( !r.empty() && r.back().first == p.first ) r.back().second += p.second; else r.push_back( p );
		l.t.clear(); for ( auto& p : r ) if ( p.second & m ) l.t.push_back( { p.first, p.second & m } );
		l.c &= m; return before - l.t.size();
	}
	E linBuild( const Lin& l, unsigned w ) {
		E r = nullptr; u128 m = maskw( w );
		auto term = [&]( E e, u128 k ) { return k == 1 ? e : Mul( e, C( w, k ) ); };
		for ( auto& p : l.t ) if ( p.second <= m / 2 || w == 1 ) r = r ? raw( ADD, w, std::min( r, term( p.first, p.second ), byId ), std::max( r, term( p.first, p.second ), byId ) ) : term( p.first, p.second );
		for ( auto& p : l.t ) if ( !( p.second <= m / 2 || w == 1 ) ) r = raw( SUB, w, r ? r : C( w, 0 ), term( p.first, ( (u128)0 - p.second ) & m ) );
		if ( !r ) return C( w, l.c );
		return l.c ? raw( ADD, w, r, C( w, l.c ) ) : r;
	}
	static bool byId( E x, E y ) { return x->id < y->id; }
	bool linCombine( E a, E b, u128 kb, E& out ) {
		auto sum = []( E e ) { return e->k == ADD || e->k == SUB; };
		if ( a->w == 1 || !( sum( a ) || sum( b ) ) ) return false;
		Lin l; if ( !lin( a, 1, l ) || !lin( b, kb, l ) ) return false;
		if ( !linMerge( l, a->w ) ) return false;
		out = linBuild( l, a->w ); return true;
	}
	E Add( E a, E b ) {
		noreal( a, b );
		if ( isC( a ) ) std::swap( a, b );
		if ( isC( a ) ) return C( a->w, a->val + b->val );
		if ( isC( b ) && b->val == 0 ) return a;
		if ( a->w == 1 ) return Xor( a, b );
		if ( isC( b ) && a->k == ADD && isC( a->b ) ) return Add( a->a, C( a->w, a->b->val + b->val ) );
		E o; if ( leafBin( ADD, a, b, o ) ) return o;
		if ( a->k == ADD && isC( a->b ) && !isC( b ) ) return Add( Add( a->a, b ), a->b );
		if ( b->k == ADD && isC( b->b ) ) return Add( Add( a, b->a ), b->b );
		if ( a->k == SUB && a->b == b ) return a->a;
		if ( b->k == SUB && b->b == a ) return b->a;
		if ( linCombine( a, b, 1, o ) ) return o;
		if ( !isC( b ) && a->id > b->id ) std::swap( a, b );
		return raw( ADD, a->w, a, b );
	}
	E Sub( E a, E b ) {
		noreal( a, b );
		if ( isC( b ) ) return Add( a, C( a->w, (u128)0 - b->val ) );
		if ( a == b ) return C( a->w, 0 );
		if ( a->w == 1 ) return Xor( a, b );
		if ( a->k == ADD && a->a == b ) return a->b;
		if ( a->k == ADD && a->b == b ) return a->a;
		if ( a->k == ADD && isC( a->b ) ) return Add( Sub( a->a, b ), a->b );
		if ( b->k == ADD && isC( b->b ) ) return Add( Sub( a, b->a ), C( a->w, (u128)0 - b->b->val ) );
		if ( b->k == ADD && b->a == a ) return Sub( C( a->w, 0 ), b->b );
		if ( b->k == ADD && b->b == a ) return Sub( C( a->w, 0 ), b->a );
		E o; if ( leafBin( SUB, a, b, o ) ) return o;
		if ( linCombine( a, b, (u128)0 - 1, o ) ) return o;
		return raw( SUB, a->w, a, b );
	}
	E Mul( E a, E b ) {
		noreal( a, b );
		if ( isC( a ) ) std::swap( a, b );
		if ( isC( a ) ) return C( a->w, a->val * b->val );
		if ( isC( b ) && b->val == 0 ) return b;
		if ( isC( b ) && b->val == 1 ) return a;
		if ( a->w == 1 ) return And( a, b );
		if ( isC( b ) && ( b->val & ( b->val - 1 ) ) == 0 ) { unsigned s = 0; while ( ( (u128)1 << s ) != b->val ) ++s; return Shl( a, C( a->w, s ) ); }
		E o; if ( leafBin( MUL, a, b, o ) ) return o;
		if ( !isC( b ) && a->id > b->id ) std::swap( a, b );
		return raw( MUL, a->w, a, b );
	}
	E UDiv( E a, E b ) {
		noreal( a, b );
		if ( isC( a ) && isC( b ) && b->val ) return C( a->w, a->val / b->val );
		if ( isC( b ) && b->val == 1 ) return a;
		if ( isC( b ) && b->val && ( b->val & ( b->val - 1 ) ) == 0 ) { unsigned s = 0; while ( ( (u128)1 << s ) != b->val ) ++s; return LShr( a, C( a->w, s ) ); }
		if ( isC( b ) && b->val ) { E o; if ( leafBin( UDIV, a, b, o ) ) return o; }
		return raw( UDIV, a->w, a, b );
	}
	E URem( E a, E b ) {
		noreal( a, b );
		if ( isC( a ) && isC( b ) && b->val ) return C( a->w, a->val % b->val );
		if ( isC( b ) && b->val && ( b->val & ( b->val - 1 ) ) == 0 ) return And( a, C( a->w, b->val - 1 ) );
		if ( isC( b ) && b->val ) { E o; if ( leafBin( UREM, a, b, o ) ) return o; }
		return raw( UREM, a->w, a, b );
	}
	E SDiv( E a, E b ) {
		noreal( a, b );
		if ( isC( a ) && isC( b ) && b->val ) return C( a->w, (u128)( sextv( a->val, a->w ) / sextv( b->val, b->w ) ) );
		if ( isC( b ) && b->val == 1 ) return a;
		if ( isC( b ) && b->val ) { E o; if ( leafBin( SDIV, a, b, o ) ) return o; }
		return raw( SDIV, a->w, a, b );
	}
	E SRem( E a, E b ) {
		noreal( a, b );
		if ( isC( a ) && isC( b ) && b->val ) return C( a->w, (u128)( sextv( a->val, a->w ) % sextv( b->val, b->w ) ) );
		if ( isC( b ) && b->val ) { E o; if ( leafBin( SREM, a, b, o ) ) return o; }
		return raw( SREM, a->w, a, b );
	}
	E And( E a, E b ) {
		noreal( a, b );
		if ( isC( a ) ) std::swap( a, b );
		if ( isC( a ) ) return C( a->w, a->val & b->val );
		if ( isC( b ) ) {
			if ( b->val == 0 ) return b;
			if ( b->val == maskw( a->w ) ) return a;
			E o; if ( leafBin( AND, a, b, o ) ) return o;
			u128 m = b->val;
			if ( ( m & ( m + 1 ) ) == 0 ) { unsigned n = 0; while ( m >> n ) ++n; return ZExt( Extract( a, 0, n ), a->w ); }
			if ( a->k == AND && isC( a->b ) ) return And( a->a, C( a->w, a->b->val & b->val ) );
			if ( a->k == ZEXT ) return ZExt( And( a->a, C( a->a->w, m ) ), a->w );
		}
		if ( a == b ) return a;
		if ( a->w == 1 ) {
			if ( a == Not( b ) ) return F();
			if ( a->k == AND && ( a->a == b || a->b == b ) ) return a;
			if ( b->k == AND && ( b->a == a || b->b == a ) ) return b;
			// EQ(x,c1) & EQ(x,c2)
			if ( a->k == EQ && b->k == EQ && a->a == b->a && isC( a->b ) && isC( b->b ) ) return F();
		}
		if ( !isC( b ) && a->id > b->id ) std::swap( a, b );
		return raw( AND, a->w, a, b );
	}
	E Or( E a, E b ) {
		noreal( a, b );
		if ( isC( a ) ) std::swap( a, b );
		if ( isC( a ) ) return C( a->w, a->val | b->val );
		if ( isC( b ) ) {
			if ( b->val == 0 ) return a;
			if ( b->val == maskw( a->w ) ) return b;
			E o; if ( leafBin( OR, a, b, o ) ) return o;
		}
		if ( a == b ) return a;
		if ( a->w == 1 ) {
			if ( a == Not( b ) ) return T();
			if ( a->k == OR && ( a->a == b || a->b == b ) ) return a;
			if ( b->k == OR && ( b->a == a || b->b == a ) ) return b;
		}
		// disjoint concat/zext or: zext(x) | (y << k)  ->  concat
		if ( a->k == CONCAT && isC( a->b ) && a->b->val == 0 && b->k == ZEXT && b->a->w <= a->b->w ) return Concat( a->a, ZExt( b->a, a->b->w ) );
		if ( b->k == CONCAT && isC( b->b ) && b->b->val == 0 && a->k == ZEXT && a->a->w <= b->b->w ) return Concat( b->a, ZExt( a->a, b->b->w ) );
		if ( !isC( b ) && a->id > b->id ) std::swap( a, b );
		return raw( OR, a->w, a, b );
	}
	E Xor( E a, E b ) {
		noreal( a, b );
		if ( isC( a ) ) std::swap( a, b );
		if ( isC( a ) ) return C( a->w, a->val ^ b->val );
		if ( isC( b ) && b->val == 0 ) return a;
		if ( a == b ) return C( a->w, 0 );
		if ( a->w == 1 && isC( b ) ) return Not( a );
		if ( isC( b ) ) { E o; if ( leafBin( XOR, a, b, o ) ) return o; }
		if ( isC( b ) && a->k == XOR && isC( a->b ) ) return Xor( a->a, C( a->w, a->b->val ^ b->val ) );
		if ( !isC( b ) && a->id > b->id ) std::swap( a, b );
		return raw( XOR, a->w, a, b );
	}
	E Shl( E a, E b ) {
		if ( !isC( b ) ) noreal( a, b );
		if ( isC( b ) ) {
			if ( b->val >= a->w ) return C( a->w, 0 );
			unsigned s = (unsigned)b->val;
			if ( s == 0 ) return a;
			if ( isC( a ) ) return C( a->w, a->val << s );
			return Concat( Extract( a, 0, a->w - s ), C( s, 0 ) );
		}
		return raw( SHL, a->w, a, b );
	}
	E LShr( E a, E b ) {
		if ( !isC( b ) ) noreal( a, b );
		if ( isC( b ) ) {
			if ( b->val >= a->w ) return C( a->w, 0 );
			unsigned s = (unsigned)b->val;
			if ( s == 0 ) return a;
			if ( isC( a ) ) return C( a->w, a->val >> s );
			return ZExt( Extract( a, s, a->w - s ), a->w );
		}
		return raw( LSHR, a->w, a, b );
	}
	E AShr( E a, E b ) {
		noreal( a, b );
		if ( isC( b ) ) {
			unsigned s = b->val >= a->w ? a->w - 1 : (unsigned)b->val;
			if ( s == 0 ) return a;
			if ( isC( a ) ) return C( a->w, (u128)( sextv( a->val, a->w ) >> s ) );
			return SExt( Extract( a, s, a->w - s ), a->w );
		}
		return raw( ASHR, a->w, a, b );
	}
	E Eq( E a, E b ) {
		if ( a->real || b->real ) return REq( a, b );
		if ( a == b ) return T();
		if ( isC( a ) ) std::swap( a, b );
		if ( isC( a ) ) return B( a->val == b->val );
		if ( isC( b ) ) {
			u128 v = b->val;
			if ( a->w == 1 ) return v ? a : Not( a );
			switch ( a->k ) {
			case ZEXT: if ( v >> a->a->w ) return F(); return Eq( a->a, C( a->a->w, v ) );
			case SEXT: if ( ( (u128)sextv( v & maskw( a->a->w ), a->a->w ) & maskw( a->w ) ) != v ) return F(); return Eq( a->a, C( a->a->w, v ) );
			case ADD: if ( isC( a->b ) ) return Eq( a->a, C( a->w, v - a->b->val ) ); break;
			case SUB: if ( v == 0 ) return Eq( a->a, a->b ); if ( isC( a->a ) ) return Eq( a->b, C( a->w, a->a->val - v ) ); break;
			case XOR: if ( isC( a->b ) ) return Eq( a->a, C( a->w, v ^ a->b->val ) ); if ( v == 0 ) return Eq( a->a, a->b ); break;
			case OR: if ( v == 0 ) return And( Eq( a->a, b ), Eq( a->b, b ) ); break;
			case CONCAT: return And( Eq( a->a, C( a->a->w, v >> a->b->w ) ), Eq( a->b, C( a->b->w, v ) ) );
			case ITE:
				if ( a->leaf ) return pushLeaf( a, 0, [&]( E x ) { return B( x->val == v ); } );
				if ( isC( a->b ) || isC( a->c ) ) return Ite( a->a, Eq( a->b, b ), Eq( a->c, b ) );
				break;
			default: break;
			}
		}
		else {
			if ( a->w == 1 ) return Not( raw( XOR, 1, a->id < b->id ? a : b, a->id < b->id ? b : a ) );
			if ( a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w ) return Eq( a->a, b->a );
			if ( a->k == SEXT && b->k == SEXT && a->a->w == b->a->w ) return Eq( a->a, b->a );
			if ( a->k == CONCAT && b->k == CONCAT && a->a->w == b->a->w ) return And( Eq( a->a, b->a ), Eq( a->b, b->b ) );
			if ( a->k == ADD || a->k == SUB || b->k == ADD || b->k == SUB ) {
				Lin l;
				if ( lin( a, 1, l ) && lin( b, (u128)0 - 1, l ) && linMerge( l, a->w ) ) {
					if ( l.t.empty() ) return B( l.c == 0 );
					Lin p, n; u128 m = maskw( a->w );
					for ( auto& x : l.t ) if ( x.second <= m / 2 ) p.t.push_back( x ); else n.t.push_back( { x.first, ( (u128)0 - x.second ) & m } );
					n.c = ( (u128)0 - l.c ) & m;
					return Eq( linBuild( p, a->w ), linBuild( n, a->w ) );
				}
			}
			if ( a->k == ADD && b->k == ADD ) {
				if ( a->a == b->a ) return Eq( a->b, b->b );
				if ( a->b == b->b ) return Eq( a->a, b->a );
			}
			if ( a->id > b->id ) std::swap( a, b );
		}
		Range x, y; if ( ( a->k == ADD || a->k == SUB || a->k == ZEXT || b->k == ADD || b->k == SUB || b->k == ZEXT ) && ranges( a, b, x, y ) && ( x.hi < y.lo || y.hi < x.lo ) ) return F();
		return raw( EQ, 1, a, b );
	}
	static u128 umaxOf( E a ) { // cheap upper bound
		switch ( a->k ) {
		case CONST: return a->val;
		case ZEXT: return umaxOf( a->a );
		case ITE: { u128 x = a->b->k == CONST || a->b->k == ZEXT ? umaxOf( a->b ) : maskw( a->w ), y = a->c->k == CONST || a->c->k == ZEXT ? umaxOf( a->c ) : maskw( a->w ); return std::max( x, y ); }
		default: return maskw( a->w );
		}
	}
	// signed interval of a term; sums that may wrap have the full range
	struct Range { i128 lo, hi; };
	static Range full( unsigned w ) { return { -( (i128)1 << ( w - 1 ) ), ( (i128)1 << ( w - 1 ) ) - 1 }; }
	static Range srange( E a, int& budget ) {
		Range f = full( a->w ), x, y;
		if ( a->k == CONST ) { i128 v = sextv( a->val, a->w ); return { v, v }; }
		if ( --budget < 0 ) return f;
		auto fit = [&]( i128 lo, i128 hi ) { return lo >= f.lo && hi <= f.hi ? Range{ lo, hi } : f; };
		switch ( a->k ) {
		case ZEXT: x = srange( a->a, budget ); return x.lo >= 0 ? x : Range{ 0, (i128)maskw( a->a->w ) };
		case SEXT: return srange( a->a, budget );
		case ADD: x = srange( a->a, budget ); y = srange( a->b, budget ); return fit( x.lo + y.lo, x.hi + y.hi );
		case SUB: x = srange( a->a, budget ); y = srange( a->b, budget ); return fit( x.lo - y.hi, x.hi - y.lo );
		case ITE: x = srange( a->b, budget ); y = srange( a->c, budget ); return { std::min( x.lo, y.lo ), std::max( x.hi, y.hi ) };
		case AND: if ( isC( a->b ) && a->b->val <= (u128)f.hi ) return { 0, (i128)a->b->val }; return f;
		default: return f;
		}
	}
	static bool ranges( E a, E b, Range& x, Range& y ) {
		if ( a->w > 64 || a->w < 2 ) return false;
		int budget = 48; x = srange( a, budget ); y = srange( b, budget ); return true;
	}
	static bool nonneg( E a ) { return a->w > 1 && umaxOf( a ) < ( (u128)1 << ( a->w - 1 ) ); }
	E Ult( E a, E b ) {
		noreal( a, b );
		if ( a == b ) return F();
		if ( isC( a ) && isC( b ) ) return B( a->val < b->val );
		if ( isC( b ) ) {
			if ( b->val == 0 ) return F();
			if ( b->val == 1 ) return Eq( a, C( a->w, 0 ) );
			if ( umaxOf( a ) < b->val ) return T();
			if ( a->k == ZEXT ) return Ult( a->a, C( a->a->w, b->val ) );
			if ( a->k == ITE && a->leaf ) { E o; leafBin( ULT, a, b, o ); return o; }
		}
		if ( isC( a ) ) {
			if ( a->val == maskw( a->w ) ) return F();
			if ( a->val >= umaxOf( b ) ) return F();
			if ( a->val == 0 ) return Not( Eq( b, a ) );
			if ( b->k == ZEXT ) return Ult( C( b->a->w, a->val ), b->a );
			if ( b->k == ITE && b->leaf ) { E o; leafBin( ULT, a, b, o ); return o; }
		}
		if ( a->w == 1 ) return And( Not( a ), b );
		if ( a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w ) return Ult( a->a, b->a );
		Range x, y; if ( ranges( a, b, x, y ) && x.lo >= 0 && y.lo >= 0 ) { if ( x.hi < y.lo ) return T(); if ( x.lo >= y.hi ) return F(); }
		return raw( ULT, 1, a, b );
	}
	E Ule( E a, E b ) {
		noreal( a, b );
		if ( a == b ) return T();
		if ( isC( a ) || isC( b ) || a->w == 1 || ( a->k == ZEXT && b->k == ZEXT ) ) return Not( Ult( b, a ) );
		Range x, y; if ( ranges( a, b, x, y ) && x.lo >= 0 && y.lo >= 0 ) { if ( x.hi <= y.lo ) return T(); if ( x.lo > y.hi ) return F(); }
		return raw( ULE, 1, a, b );
	}
	E Slt( E a, E b ) {
		noreal( a, b );
		if ( a == b ) return F();
		if ( isC( a ) && isC( b ) ) return B( sextv( a->val, a->w ) < sextv( b->val, b->w ) );
		if ( a->w == 1 ) return And( a, Not( b ) );
		if ( nonneg( a ) && nonneg( b ) ) return Ult( a, b );
		u128 sb = (u128)1 << ( a->w - 1 );
		if ( isC( b ) ) {
			if ( b->val == sb ) return F();
			if ( nonneg( a ) && ( b->val & sb ) ) return F();
			if ( a->k == SEXT ) {
				i128 v = sextv( b->val, b->w ); unsigned iw = a->a->w;
				i128 mx = ( (i128)1 << ( iw - 1 ) ) - 1, mn = -( (i128)1 << ( iw - 1 ) );
				if ( v > mx ) return T(); if ( v <= mn ) return F();
				return Slt( a->a, C( iw, (u128)v ) );
			}
			if ( a->k == ITE && a->leaf ) { E o; leafBin( SLT, a, b, o ); return o; }
		}
		if ( isC( a ) ) {
			if ( a->val == sb - 1 ) return F();
			if ( nonneg( b ) && ( a->val & sb ) ) return T();
			if ( b->k == SEXT ) {
				i128 v = sextv( a->val, a->w ); unsigned iw = b->a->w;
				i128 mx = ( (i128)1 << ( iw - 1 ) ) - 1, mn = -( (i128)1 << ( iw - 1 ) );
				if ( v >= mx ) return F(); if ( v < mn ) return T();
				return Slt( C( iw, (u128)v ), b->a );
			}
			if ( b->k == ITE && b->leaf ) { E o; leafBin( SLT, a, b, o ); return o; }
		}
		if ( a->k == SEXT && b->k == SEXT && a->a->w == b->a->w ) return Slt( a->a, b->a );
		Range x, y; if ( ranges( a, b, x, y ) ) { if ( x.hi < y.lo ) return T(); if ( x.lo >= y.hi ) return F(); }
		return raw( SLT, 1, a, b );
	}
	E Sle( E a, E b ) { return Not( Slt( b, a ) ); }
	E Ite( E c, E t, E f ) {
		if ( isC( c ) ) return c->val ? t : f;
		if ( t == f ) return t;
		if ( isNot( c ) ) return Ite( c->a, f, t );
		if ( t->w == 1 && !t->real ) {
			if ( isC( t ) ) return t->val ? Or( c, f ) : And( Not( c ), f );
			if ( isC( f ) ) return f->val ? Or( Not( c ), t ) : And( c, t );
			if ( t == c ) return Or( c, f );
			if ( f == c ) return And( c, t );
		}
		if ( t->k == ITE && t->a == c ) t = t->b;
		if ( f->k == ITE && f->a == c ) f = f->c;
		if ( t == f ) return t;
		return raw( ITE, t->w, c, t, f );
	}
	E ZExt( E a, unsigned w ) {
		if ( a->w == w ) return a;
		if ( isC( a ) ) return C( w, a->val );
		if ( a->k == ZEXT ) a = a->a;
		if ( a->k == ITE && a->leaf ) return pushLeaf( a, 0, [&]( E x ) { return C( w, x->val ); } );
		return raw( ZEXT, w, a );
	}
	E SExt( E a, unsigned w ) {
		noreal( a, a );
		if ( a->w == w ) return a;
		if ( isC( a ) ) return C( w, (u128)sextv( a->val, a->w ) );
		if ( a->k == SEXT ) a = a->a;
		if ( a->k == ZEXT ) return ZExt( a->a, w );
		if ( a->k == ITE && a->leaf ) return pushLeaf( a, 0, [&]( E x ) { return C( w, (u128)sextv( x->val, x->w ) ); } );
		return raw( SEXT, w, a );
	}
	E Extract( E a, unsigned lo, unsigned w ) {
		if ( lo == 0 && w == a->w ) return a;
		if ( isC( a ) ) return C( w, a->val >> lo );
		if ( a->real ) return raw( EXTRACT, w, a, 0, 0, lo );
		switch ( a->k ) {
		case EXTRACT: return Extract( a->a, (unsigned)a->val + lo, w );
		case CONCAT:
			if ( lo + w <= a->b->w ) return Extract( a->b, lo, w );
			if ( lo >= a->b->w ) return Extract( a->a, lo - a->b->w, w );
			return Concat( Extract( a->a, 0, lo + w - a->b->w ), Extract( a->b, lo, a->b->w - lo ) );
		case ZEXT:
			if ( lo >= a->a->w ) return C( w, 0 );
			if ( lo + w <= a->a->w ) return Extract( a->a, lo, w );
			return ZExt( Extract( a->a, lo, a->a->w - lo ), w );
		case SEXT:
			if ( lo + w <= a->a->w ) return Extract( a->a, lo, w );
			if ( lo == 0 && w > a->a->w ) return SExt( a->a, w );
			break;
		case ITE: if ( a->leaf || a->hr || a->b->k == CONST || a->c->k == CONST ) return Ite( a->a, Extract( a->b, lo, w ), Extract( a->c, lo, w ) ); break;
		case AND: return And( Extract( a->a, lo, w ), Extract( a->b, lo, w ) );
		case OR: return Or( Extract( a->a, lo, w ), Extract( a->b, lo, w ) );
		case XOR: return Xor( Extract( a->a, lo, w ), Extract( a->b, lo, w ) );
		case ADD: if ( lo == 0 ) return Add( Extract( a->a, lo, w ), Extract( a->b, lo, w ) ); break;
		case SUB: if ( lo == 0 ) return Sub( Extract( a->a, lo, w ), Extract( a->b, lo, w ) ); break;
		case MUL: if ( lo == 0 ) return Mul( Extract( a->a, lo, w ), Extract( a->b, lo, w ) ); break;
		default: break;
		}
		return raw( EXTRACT, w, a, 0, 0, lo );
	}
	E Concat( E h, E l ) { // h is the high part
		if ( isC( h ) && isC( l ) ) return C( h->w + l->w, ( h->val << l->w ) | l->val );
		if ( h->k == EXTRACT && l->k == EXTRACT && h->a == l->a && (unsigned)h->val == (unsigned)l->val + l->w ) return Extract( l->a, (unsigned)l->val, h->w + l->w );
		if ( l->k == CONCAT ) {
			E hh = l->a;
			if ( ( isC( h ) && isC( hh ) ) || ( h->k == EXTRACT && hh->k == EXTRACT && h->a == hh->a && (unsigned)h->val == (unsigned)hh->val + hh->w ) )
				return Concat( Concat( h, hh ), l->b );
		}
		// the low bits of a sum are narrowed to a sum of low bits: recognise them
		if ( h->k == EXTRACT && !h->a->real && (unsigned)h->val >= l->w && ( l->k == ADD || l->k == SUB || l->k == MUL || l->k == ITE || l->k == VAR ) && Extract( h->a, (unsigned)h->val - l->w, l->w ) == l ) return Extract( h->a, (unsigned)h->val - l->w, h->w + l->w );
		if ( isC( h ) && h->val == 0 && !l->real && !( l->k == EXTRACT && l->a->real ) ) return ZExt( l, h->w + l->w );
		if ( h->k == EXTRACT && h->a == l && !l->real ) {} // e.g. sext pattern, left as is
		if ( h->k == EXTRACT && l->k == VAR && h->a == l ) {}
		return raw( CONCAT, h->w + l->w, h, l );
	}
	// ---------- floating point (ieee) ----------
	bool fold2( K k, E a, E b, E& out ) {
		if ( !isC( a ) || !isC( b ) ) return false;
		if ( a->w == 64 ) {
			double x = asD( a->val ), y = asD( b->val );
			switch ( k ) {
			case FADD: out = C( 64, fromD( x + y ) ); return true; case FSUB: out = C( 64, fromD( x - y ) ); return true;
			case FMUL: out = C( 64, fromD( x * y ) ); return true; case FDIV: out = C( 64, fromD( x / y ) ); return true;
			case FREM: out = C( 64, fromD( fmod( x, y ) ) ); return true;
			case FEQ: out = B( x == y ); return true; case FLT: out = B( x < y ); return true; case FLE: out = B( x <= y ); return true;
			default: return false;
			}
		}
		if ( a->w == 32 ) {
			float x = asF( a->val ), y = asF( b->val );
			switch ( k ) {
			case FADD: out = C( 32, fromF( x + y ) ); return true; case FSUB: out = C( 32, fromF( x - y ) ); return true;
			case FMUL: out = C( 32, fromF( x * y ) ); return true; case FDIV: out = C( 32, fromF( x / y ) ); return true;
			case FREM: out = C( 32, fromF( fmodf( x, y ) ) ); return true;
			case FEQ: out = B( x == y ); return true; case FLT: out = B( x < y ); return true; case FLE: out = B( x <= y ); return true;
			default: return false;
			}
		}
		return false;
	}
	E FBin( K k, E a, E b ) {
		if ( a->w != 32 && a->w != 64 ) throw Unsupported( "fp width" );
		E o; if ( fold2( k, a, b, o ) ) return o;
		if ( ( k == FADD || k == FMUL || k == FEQ ) && a->id > b->id ) std::swap( a, b ); // commutative (NaN payloads are not modelled)
		bool cmp = k == FEQ || k == FLT || k == FLE;
		return raw( k, cmp ? 1 : a->w, a, b );
	}
	E FNan( E a ) { if ( isC( a ) ) return B( a->w == 64 ? std::isnan( asD( a->val ) ) : std::isnan( asF( a->val ) ) ); return raw( FNAN, 1, a ); }
	E FNeg( E a ) { if ( isC( a ) ) return C( a->w, a->val ^ ( (u128)1 << ( a->w - 1 ) ) ); if ( a->k == FNEG ) return a->a; return raw( FNEG, a->w, a ); }
	E FAbs( E a ) { if ( isC( a ) ) return C( a->w, a->val & ( maskw( a->w - 1 ) ) ); return raw( FABS, a->w, a ); }
	E FSqrt( E a ) { if ( isC( a ) ) return a->w == 64 ? C( 64, fromD( sqrt( asD( a->val ) ) ) ) : C( 32, fromF( sqrtf( asF( a->val ) ) ) ); return raw( FSQRT, a->w, a ); }
	// mode 0: nearest-even, 1: to zero, 2: down, 3: up, 4: nearest-away
	static double rintm( double x, unsigned m ) { switch ( m ) { case 0: return nearbyint( x ); case 1: return trunc( x ); case 2: return floor( x ); case 3: return ceil( x ); default: return round( x ); } }
	E FRint( E a, unsigned m ) { if ( isC( a ) ) return a->w == 64 ? C( 64, fromD( rintm( asD( a->val ), m ) ) ) : C( 32, fromF( (float)rintm( asF( a->val ), m ) ) ); return raw( FRINT, a->w, a, 0, 0, m ); }
	static u128 f2si( double d, unsigned w ) { // out of range: x86 integer-indefinite for 32/64
		d = trunc( d );
		if ( !( d >= -ldexp( 1, w - 1 ) && d < ldexp( 1, w - 1 ) ) ) return (u128)1 << ( w - 1 );
		return (u128)(i128)d & maskw( w );
	}
	static u128 f2ui( double d, unsigned w ) {
		d = trunc( d );
		if ( !( d > -1.0 && d < ldexp( 1, w ) ) ) return (u128)1 << ( w - 1 );
		return (u128)d & maskw( w );
	}
	E FToI( E a, unsigned w, bool sg ) {
		if ( isC( a ) ) { double d = a->w == 64 ? asD( a->val ) : (double)asF( a->val ); return C( w, sg ? f2si( d, w ) : f2ui( d, w ) ); }
		return raw( sg ? FTOSI : FTOUI, w, a );
	}
	static u128 i2f( u128 v, unsigned iw, unsigned fw, bool sg ) {
		if ( sg ) { i128 x = sextv( v, iw ); return fw == 64 ? fromD( (double)x ) : fromF( (float)x ); }
		return fw == 64 ? fromD( (double)v ) : fromF( (float)v );
	}
	E IToF( E a, unsigned fw, bool sg ) { if ( isC( a ) ) return C( fw, i2f( a->val, a->w, fw, sg ) ); return raw( sg ? SITOF : UITOF, fw, a ); }
	E FToF( E a, unsigned w ) {
		if ( a->w == w ) return a;
		if ( isC( a ) ) return w == 64 ? C( 64, fromD( (double)asF( a->val ) ) ) : C( 32, fromF( (float)asD( a->val ) ) );
		if ( a->k == FTOF && a->a->w == w && w == 32 ) return a->a; // float -> double -> float
		return raw( FTOF, w, a );
	}
	// ---------- real mode ----------
	static double cd( E a ) { return a->w == 64 ? asD( a->val ) : (double)asF( a->val ); }
	E cr( unsigned w, double d ) { return w == 64 ? C( 64, fromD( d ) ) : C( 32, fromF( (float)d ) ); }
	static bool isv( E a, double v ) { return isC( a ) && cd( a ) == v; }
	bool exact( E a, E b, double r ) { return std::isfinite( r ) && std::fabs( r ) < 1e15 && ( a->w == 64 || (double)(float)r == r ); }
	E RBin( K k, E a, E b ) {
		if ( a->w != b->w ) throw Unsupported( "real width" );
		if ( isC( a ) && !std::isfinite( cd( a ) ) ) throw Unsupported( "non-finite constant in real arithmetic" );
		if ( isC( b ) && !std::isfinite( cd( b ) ) ) throw Unsupported( "non-finite constant in real arithmetic" );
		if ( isC( a ) && isC( b ) ) {
			double x = cd( a ), y = cd( b );
			if ( k == RADD ) { double r = x + y; if ( exact( a, b, r ) && r - x == y && r - y == x ) return cr( a->w, r ); }
			if ( k == RSUB ) { double r = x - y; if ( exact( a, b, r ) && x - r == y && r + y == x ) return cr( a->w, r ); }
			if ( k == RMUL ) { double r = x * y; if ( exact( a, b, r ) && fma( x, y, -r ) == 0 ) return cr( a->w, r ); }
			if ( k == RDIV && y != 0 ) { double r = x / y; if ( exact( a, b, r ) && fma( r, y, -x ) == 0 ) return cr( a->w, r ); }
		}
		switch ( k ) {
		case RADD: if ( isv( a, 0 ) ) return b; if ( isv( b, 0 ) ) return a; if ( a->id > b->id ) std::swap( a, b ); break;
		case RSUB: if ( isv( b, 0 ) ) return a; if ( a == b ) return cr( a->w, 0 ); if ( isv( a, 0 ) && b->k == RSUB && isv( b->a, 0 ) ) return b->b; break;
		case RMUL: if ( isv( a, 0 ) ) return cr( a->w, 0 ); if ( isv( b, 0 ) ) return cr( a->w, 0 ); if ( isv( a, 1 ) ) return b; if ( isv( b, 1 ) ) return a; if ( a->id > b->id ) std::swap( a, b ); break;
		case RDIV: if ( isv( b, 1 ) ) return a; if ( isv( b, 0 ) ) throw Unsupported( "real division by constant zero" ); break;
		default: break;
		}
		return raw( k, a->w, a, b, 0, 0, true );
	}
	E RNeg( E a ) { return isC( a ) ? cr( a->w, -cd( a ) + 0.0 ) : RBin( RSUB, cr( a->w, 0 ), a ); }
	E REq( E a, E b ) { if ( a == b ) return T(); if ( isC( a ) && isC( b ) ) return B( cd( a ) == cd( b ) ); if ( a->id > b->id ) std::swap( a, b ); return raw( REQ, 1, a, b ); }
	E RLt( E a, E b ) { if ( a == b ) return F(); if ( isC( a ) && isC( b ) ) return B( cd( a ) < cd( b ) );
		if ( isC( b ) && std::isinf( cd( b ) ) ) return B( cd( b ) > 0 ); if ( isC( a ) && std::isinf( cd( a ) ) ) return B( cd( a ) < 0 ); return raw( RLT, 1, a, b ); }
	E RLe( E a, E b ) { return Not( RLt( b, a ) ); }
	E RToI( E a, unsigned w ) { if ( isC( a ) ) return C( w, f2si( cd( a ), w ) ); return raw( RTOI, w, a ); } // truncation
	E IToR( E a, unsigned fw, bool sg ) { if ( isC( a ) ) return C( fw, i2f( a->val, a->w, fw, sg ) ); return raw( ITOR, fw, a, 0, 0, sg, true ); }
};

extern Exprs X;

struct Model { uint64_t id; std::vector<u128> v; };

// concrete evaluation under a model; only for expressions without reals
inline u128 evalE( E e, const Model& m ) {
	if ( e->k == CONST ) return e->val;
	if ( e->mid == m.id ) return e->mval;
	u128 r = 0, mk = maskw( e->w );
	auto A = [&] { return evalE( e->a, m ); }; auto Bv = [&] { return evalE( e->b, m ); };
	auto fd = [&]( E x ) { u128 v = evalE( x, m ); return x->w == 64 ? asD( v ) : (double)asF( v ); };
	auto fr = [&]( unsigned w, double d ) { return w == 64 ? fromD( d ) : fromF( (float)d ); };
	switch ( e->k ) {
	case VAR: r = (uint64_t)e->val < m.v.size() ? m.v[ (uint64_t)e->val ] : 0; break;
	case ADD: r = A() + Bv(); break; case SUB: r = A() - Bv(); break; case MUL: r = A() * Bv(); break;
	case UDIV: { u128 d = Bv(); r = d ? A() / d : mk; break; }
	case UREM: { u128 d = Bv(); r = d ? A() % d : A(); break; }
	case SDIV: { i128 d = sextv( Bv(), e->w ), n = sextv( A(), e->w ); r = d ? (u128)( n / d ) : ( n < 0 ? 1 : mk ); break; }
	case SREM: { i128 d = sextv( Bv(), e->w ), n = sextv( A(), e->w ); r = d ? (u128)( n % d ) : (u128)n; break; }
	case AND: r = A() & Bv(); break; case OR: r = A() | Bv(); break; case XOR: r = A() ^ Bv(); break;
	case SHL: { u128 s = Bv(); r = s >= e->w ? 0 : A() << (unsigned)s; break; }
	case LSHR: { u128 s = Bv(); r = s >= e->w ? 0 : A() >> (unsigned)s; break; }
	case ASHR: { u128 s = Bv(); if ( s >= e->w ) s = e->w - 1; r = (u128)( sextv( A(), e->w ) >> (unsigned)s ); break; }
	case EQ: r = A() == Bv(); break; case ULT: r = A() < Bv(); break; case ULE: r = A() <= Bv(); break;
	case SLT: r = sextv( A(), e->a->w ) < sextv( Bv(), e->a->w ); break; case SLE: r = sextv( A(), e->a->w ) <= sextv( Bv(), e->a->w ); break;
	case ITE: r = A() ? evalE( e->b, m ) : evalE( e->c, m ); break;
	case ZEXT: r = A(); break; case SEXT: r = (u128)sextv( A(), e->a->w ); break;
	case EXTRACT: r = A() >> (unsigned)e->val; break;
	case CONCAT: r = ( A() << e->b->w ) | Bv(); break;
	case FADD: r = e->w == 64 ? fromD( asD( A() ) + asD( Bv() ) ) : fromF( asF( A() ) + asF( Bv() ) ); break;
	case FSUB: r = e->w == 64 ? fromD( asD( A() ) - asD( Bv() ) ) : fromF( asF( A() ) - asF( Bv() ) ); break;
	case FMUL: r = e->w == 64 ? fromD( asD( A() ) * asD( Bv() ) ) : fromF( asF( A() ) * asF( Bv() ) ); break;
	case FDIV: r = e->w == 64 ? fromD( asD( A() ) / asD( Bv() ) ) : fromF( asF( A() ) / asF( Bv() ) ); break;
	case FREM: r = fr( e->w, fmod( fd( e->a ), fd( e->b ) ) ); break;
	case FNEG: r = A() ^ ( (u128)1 << ( e->w - 1 ) ); break; case FABS: r = A() & maskw( e->w - 1 ); break;
	case FSQRT: r = e->w == 64 ? fromD( sqrt( asD( A() ) ) ) : fromF( sqrtf( asF( A() ) ) ); break;
	case FRINT: r = fr( e->w, Exprs::rintm( fd( e->a ), (unsigned)e->val ) ); break;
	case FEQ: r = fd( e->a ) == fd( e->b ); break; case FLT: r = fd( e->a ) < fd( e->b ); break; case FLE: r = fd( e->a ) <= fd( e->b ); break;
	case FNAN: r = std::isnan( fd( e->a ) ); break;
	case FTOSI: r = Exprs::f2si( fd( e->a ), e->w ); break; case FTOUI: r = Exprs::f2ui( fd( e->a ), e->w ); break;
	case SITOF: r = Exprs::i2f( A(), e->a->w, e->w, true ); break; case UITOF: r = Exprs::i2f( A(), e->a->w, e->w, false ); break;
	case FTOF: r = e->w == 64 ? fromD( (double)asF( A() ) ) : fromF( (float)asD( A() ) ); break;
	default: throw Unsupported( "evaluation of a real-mode expression" );
	}
	r &= mk;
	e->mid = m.id; e->mval = r;
	return r;
}
