// Query layer: independence slicing, caching and translation of expressions to Z3.
#pragma once
#include "expr.h"
#include <z3++.h>
#include <chrono>
#include <memory>
#include <optional>

inline double now() { return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count(); }

enum Res { UNSAT, SAT, UNKNOWN };

struct Solver {
	z3::context ctx;
	z3::solver bv, fpS;
	std::vector<Z3_ast> tb, tv, tf, tr; // bool / bv / fp / real translations, by expr id
	std::vector<Z3_ast> varAst;
	uint64_t queries = 0, cacheHits = 0, solverCalls = 0, nUnknown = 0; double solverTime = 0, maxTime = 0;
	unsigned timeoutMs = 60000;
	std::map<uint32_t, uint64_t> dummy;
	std::string dumpDir;

	Solver() : bv( mk( "QF_BV" ) ), fpS( mk( "QF_BVFP" ) ) {}
	z3::solver mk( const char* logic ) { return z3::solver( ctx, logic ); }
	z3::solver mkSimple() { return z3::solver( ctx, z3::solver::simple() ); }

	Z3_ast get( std::vector<Z3_ast>& t, E e ) { return e->id < t.size() ? t[ e->id ] : nullptr; }
	Z3_ast put( std::vector<Z3_ast>& t, E e, z3::expr x ) {
		if ( e->id >= t.size() ) t.resize( e->id * 2 + 64, nullptr );
		Z3_inc_ref( ctx, x ); t[ e->id ] = x; return x;
	}
	z3::expr wrap( Z3_ast a ) { return z3::expr( ctx, a ); }
	z3::sort fs( unsigned w ) { return w == 64 ? z3::sort( ctx, Z3_mk_fpa_sort_64( ctx ) ) : z3::sort( ctx, Z3_mk_fpa_sort_32( ctx ) ); }
	z3::expr rm( unsigned m ) {
		switch ( m ) {
		case 0: return wrap( Z3_mk_fpa_rne( ctx ) ); case 1: return wrap( Z3_mk_fpa_rtz( ctx ) ); case 2: return wrap( Z3_mk_fpa_rtn( ctx ) );
		case 3: return wrap( Z3_mk_fpa_rtp( ctx ) ); default: return wrap( Z3_mk_fpa_rna( ctx ) );
		}
	}
	z3::expr bvc( unsigned w, u128 v ) {
		if ( w <= 64 ) return ctx.bv_val( (uint64_t)v, w );
		return z3::concat( ctx.bv_val( (uint64_t)( v >> 64 ), w - 64 ), ctx.bv_val( (uint64_t)v, 64 ) );
	}
	z3::expr realc( E e ) {
		double d = Exprs::cd( e );
		if ( !std::isfinite( d ) ) throw Unsupported( "non-finite constant in real arithmetic" );
		int ex; double m = frexp( d, &ex ); // d = m * 2^ex
		int64_t mi = (int64_t)ldexp( m, 53 ); ex -= 53;
		while ( mi && !( mi & 1 ) && ex < 0 ) { mi /= 2; ++ex; }
		z3::expr r = ctx.real_val( std::to_string( mi ).c_str() );
		if ( mi == 0 ) return r;
		auto p2 = []( int n ) { std::string s = "1"; for ( int i = 0; i < n; ++i ) { int c = 0; for ( int j = (int)s.size() - 1; j >= 0; --j ) { int x = ( s[ j ] - '0' ) * 2 + c; s[ j ] = '0' + x % 10; c = x / 10; } if ( c ) s = "1" + s; } return s; };
		if ( ex > 0 ) { // multiply decimal string
			r = ctx.real_val( std::to_string( mi ).c_str() ) * ctx.real_val( p2( ex ).c_str() );
			return r.simplify();
		}
		return ctx.real_val( ( std::to_string( mi ) + "/" + p2( -ex ) ).c_str() );
	}
	z3::expr varOf( E e ) {
		unsigned id = (unsigned)e->val;
		if ( id >= varAst.size() ) varAst.resize( id * 2 + 16, nullptr );
		if ( !varAst[ id ] ) {
			std::string n = "v" + std::to_string( id );
			z3::expr x = e->real ? ctx.real_const( n.c_str() ) : ctx.bv_const( n.c_str(), e->w );
			Z3_inc_ref( ctx, x ); varAst[ id ] = x;
		}
		return wrap( varAst[ id ] );
	}
	z3::expr toBool( E e ) {
		if ( Z3_ast c = get( tb, e ) ) return wrap( c );
		z3::expr r( ctx );
		switch ( e->k ) {
		case CONST: r = ctx.bool_val( e->val != 0 ); break;
		case AND: r = toBool( e->a ) && toBool( e->b ); break;
		case OR: r = toBool( e->a ) || toBool( e->b ); break;
		case XOR: r = Exprs::isNot( e ) ? !toBool( e->a ) : ( toBool( e->a ) != toBool( e->b ) ); break;
		case EQ: r = e->a->w == 1 ? toBool( e->a ) == toBool( e->b ) : toBV( e->a ) == toBV( e->b ); break;
		case ULT: r = z3::ult( toBV( e->a ), toBV( e->b ) ); break;
		case ULE: r = z3::ule( toBV( e->a ), toBV( e->b ) ); break;
		case SLT: r = toBV( e->a ) < toBV( e->b ); break;
		case SLE: r = toBV( e->a ) <= toBV( e->b ); break;
		case ITE: r = z3::ite( toBool( e->a ), toBool( e->b ), toBool( e->c ) ); break;
		case FEQ: r = wrap( Z3_mk_fpa_eq( ctx, toFP( e->a ), toFP( e->b ) ) ); break;
		case FLT: r = wrap( Z3_mk_fpa_lt( ctx, toFP( e->a ), toFP( e->b ) ) ); break;
		case FLE: r = wrap( Z3_mk_fpa_leq( ctx, toFP( e->a ), toFP( e->b ) ) ); break;
		case FNAN: r = wrap( Z3_mk_fpa_is_nan( ctx, toFP( e->a ) ) ); break;
		case REQ: r = toReal( e->a ) == toReal( e->b ); break;
		case RLT: r = toReal( e->a ) < toReal( e->b ); break;
		case RLE: r = toReal( e->a ) <= toReal( e->b ); break;
		default: r = toBV( e ) == ctx.bv_val( 1, 1 ); break;
		}
		put( tb, e, r );
		return r;
	}
	z3::expr toBV( E e ) {
		if ( Z3_ast c = get( tv, e ) ) return wrap( c );
		z3::expr r( ctx );
		if ( e->real ) throw Unsupported( "bits of a real-mode value" );
		switch ( e->k ) {
		case CONST: r = bvc( e->w, e->val ); break;
		case VAR: r = varOf( e ); break;
		case ADD: r = toBV( e->a ) + toBV( e->b ); break;
		case SUB: r = toBV( e->a ) - toBV( e->b ); break;
		case MUL: r = toBV( e->a ) * toBV( e->b ); break;
		case UDIV: r = z3::udiv( toBV( e->a ), toBV( e->b ) ); break;
		case SDIV: r = toBV( e->a ) / toBV( e->b ); break;
		case UREM: r = z3::urem( toBV( e->a ), toBV( e->b ) ); break;
		case SREM: r = z3::srem( toBV( e->a ), toBV( e->b ) ); break;
		case SHL: r = z3::shl( toBV( e->a ), toBV( e->b ) ); break;
		case LSHR: r = z3::lshr( toBV( e->a ), toBV( e->b ) ); break;
		case ASHR: r = z3::ashr( toBV( e->a ), toBV( e->b ) ); break;
		case ZEXT: r = z3::zext( toBV( e->a ), e->w - e->a->w ); break;
		case SEXT: r = z3::sext( toBV( e->a ), e->w - e->a->w ); break;
		case EXTRACT: r = toBV( e->a ).extract( (unsigned)e->val + e->w - 1, (unsigned)e->val ); break;
		case CONCAT: r = z3::concat( toBV( e->a ), toBV( e->b ) ); break;
		case ITE: r = z3::ite( toBool( e->a ), toBV( e->b ), toBV( e->c ) ); break;
		case AND: if ( e->w > 1 ) { r = toBV( e->a ) & toBV( e->b ); break; } goto b2v;
		case OR: if ( e->w > 1 ) { r = toBV( e->a ) | toBV( e->b ); break; } goto b2v;
		case XOR: if ( e->w > 1 ) { r = toBV( e->a ) ^ toBV( e->b ); break; } goto b2v;
		case FTOSI: r = wrap( Z3_mk_fpa_to_sbv( ctx, rm( 1 ), toFP( e->a ), e->w ) ); break;
		case FTOUI: r = wrap( Z3_mk_fpa_to_ubv( ctx, rm( 1 ), toFP( e->a ), e->w ) ); break;
		case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FNEG: case FABS: case FSQRT: case FRINT: case SITOF: case UITOF: case FTOF:
			r = wrap( Z3_mk_fpa_to_ieee_bv( ctx, toFP( e ) ) ); break;
		case RTOI: {
			z3::expr x = toReal( e->a );
			z3::expr fl = wrap( Z3_mk_real2int( ctx, x ) );
			z3::expr nx = -x;
			z3::expr i = z3::ite( x >= ctx.real_val( 0 ), fl, -wrap( Z3_mk_real2int( ctx, nx ) ) );
			r = wrap( Z3_mk_int2bv( ctx, e->w, i ) ); break;
		}
		default: b2v: r = z3::ite( toBool( e ), ctx.bv_val( 1, 1 ), ctx.bv_val( 0, 1 ) ); break;
		}
		put( tv, e, r );
		return r;
	}
	z3::expr toFP( E e ) {
		if ( Z3_ast c = get( tf, e ) ) return wrap( c );
		z3::expr r( ctx );
		auto f1 = [&]( E x ) { return toFP( x ); };
		switch ( e->k ) {
		case FADD: r = wrap( Z3_mk_fpa_add( ctx, rm( 0 ), f1( e->a ), f1( e->b ) ) ); break;
		case FSUB: r = wrap( Z3_mk_fpa_sub( ctx, rm( 0 ), f1( e->a ), f1( e->b ) ) ); break;
		case FMUL: r = wrap( Z3_mk_fpa_mul( ctx, rm( 0 ), f1( e->a ), f1( e->b ) ) ); break;
		case FDIV: r = wrap( Z3_mk_fpa_div( ctx, rm( 0 ), f1( e->a ), f1( e->b ) ) ); break;
		case FREM: throw Unsupported( "symbolic fmod" );
		case FNEG: r = wrap( Z3_mk_fpa_neg( ctx, f1( e->a ) ) ); break;
		case FABS: r = wrap( Z3_mk_fpa_abs( ctx, f1( e->a ) ) ); break;
		case FSQRT: r = wrap( Z3_mk_fpa_sqrt( ctx, rm( 0 ), f1( e->a ) ) ); break;
		case FRINT: r = wrap( Z3_mk_fpa_round_to_integral( ctx, rm( (unsigned)e->val ), f1( e->a ) ) ); break;
		case SITOF: r = wrap( Z3_mk_fpa_to_fp_signed( ctx, rm( 0 ), toBV( e->a ), fs( e->w ) ) ); break;
		case UITOF: r = wrap( Z3_mk_fpa_to_fp_unsigned( ctx, rm( 0 ), toBV( e->a ), fs( e->w ) ) ); break;
		case FTOF: r = wrap( Z3_mk_fpa_to_fp_float( ctx, rm( 0 ), f1( e->a ), fs( e->w ) ) ); break;
		case ITE: r = z3::ite( toBool( e->a ), f1( e->b ), f1( e->c ) ); break;
		default: r = wrap( Z3_mk_fpa_to_fp_bv( ctx, toBV( e ), fs( e->w ) ) ); break;
		}
		put( tf, e, r );
		return r;
	}
	z3::expr toReal( E e ) {
		if ( Z3_ast c = get( tr, e ) ) return wrap( c );
		z3::expr r( ctx );
		switch ( e->k ) {
		case CONST: r = realc( e ); break;
		case VAR: if ( !e->real ) throw Unsupported( "bit variable used as a real" ); r = varOf( e ); break;
		case RADD: r = toReal( e->a ) + toReal( e->b ); break;
		case RSUB: r = toReal( e->a ) - toReal( e->b ); break;
		case RMUL: r = toReal( e->a ) * toReal( e->b ); break;
		case RDIV: r = toReal( e->a ) / toReal( e->b ); break;
		case ITE: r = z3::ite( toBool( e->a ), toReal( e->b ), toReal( e->c ) ); break;
		case ITOR: r = z3::to_real( wrap( Z3_mk_bv2int( ctx, toBV( e->a ), e->val != 0 ) ) ); break;
		default: throw Unsupported( "expression used as a real" );
		}
		put( tr, e, r );
		return r;
	}

	struct VH { size_t operator()( const std::vector<E>& v ) const { uint64_t h = v.size(); for ( E e : v ) { h ^= e->id + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 ); h *= 0xff51afd7ed558ccdull; h ^= h >> 31; } return h; } };
	struct Entry { Res r; std::vector<std::pair<uint32_t, u128>> m; std::vector<std::pair<uint32_t, std::string>> rm; };
	std::unordered_map<std::vector<E>, Entry, VH> cache;

	// slice: constraints transitively sharing variables with q
	void slice( const std::vector<E>& cs, E q, std::vector<E>& out ) {
		std::vector<char> used( cs.size(), 0 );
		uint32_t vs = q->vs; bool ch = true;
		auto inter = [&]( uint32_t a, uint32_t b ) {
			if ( a == 0 || b == 0 ) return false; if ( a == b ) return true;
			auto &x = X.vsets[ a ], &y = X.vsets[ b ];
			size_t i = 0, j = 0;
			while ( i < x.size() && j < y.size() ) { if ( x[ i ] == y[ j ] ) return true; if ( x[ i ] < y[ j ] ) ++i; else ++j; }
			return false;
		};
		while ( ch ) {
			ch = false;
			for ( size_t i = 0; i < cs.size(); ++i )
				if ( !used[ i ] && inter( cs[ i ]->vs, vs ) ) { used[ i ] = 1; uint32_t n = X.vsUnion( vs, cs[ i ]->vs ); if ( n != vs ) { vs = n; ch = true; } }
		}
		for ( size_t i = 0; i < cs.size(); ++i ) if ( used[ i ] ) out.push_back( cs[ i ] );
	}
	// is cs && q satisfiable? On SAT, `patch` gets values for the variables of the slice.
	Res check( const std::vector<E>& cs, E q, const Entry** ent = nullptr ) {
		++queries;
		static Entry triv{ SAT, {}, {} }, trivU{ UNSAT, {}, {} };
		if ( q->k == CONST ) { if ( ent ) *ent = q->val ? &triv : &trivU; return q->val ? SAT : UNSAT; }
		std::vector<E> sl; slice( cs, q, sl );
		// first only the constraints over the variables of q: if these already exclude q, no others are needed
		auto subset = [&]( uint32_t a, uint32_t b ) { if ( a == b ) return true; auto &x = X.vsets[ a ], &y = X.vsets[ b ]; return std::includes( y.begin(), y.end(), x.begin(), x.end() ); };
		std::vector<E> own; for ( E c : sl ) if ( subset( c->vs, q->vs ) ) own.push_back( c );
		if ( own.size() < sl.size() && X.vsets[ q->vs ].size() <= 2 && !q->hr && !q->fp ) {
			own.push_back( q );
			std::sort( own.begin(), own.end(), []( E a, E b ) { return a->id < b->id; } );
			own.erase( std::unique( own.begin(), own.end() ), own.end() );
			auto it = cache.find( own );
			if ( it == cache.end() ) it = cache.emplace( own, solve( own ) ).first; else ++cacheHits;
			if ( it->second.r == UNSAT ) { if ( ent ) *ent = &it->second; return UNSAT; }
		}
		sl.push_back( q );
		std::sort( sl.begin(), sl.end(), []( E a, E b ) { return a->id < b->id; } );
		sl.erase( std::unique( sl.begin(), sl.end() ), sl.end() );
		auto it = cache.find( sl );
		if ( it != cache.end() ) { ++cacheHits; if ( ent ) *ent = &it->second; return it->second.r; }
		Entry en = solve( sl );
		if ( en.r == UNKNOWN ) ++nUnknown;
		auto& slot = cache[ sl ]; slot = std::move( en );
		if ( ent ) *ent = &slot;
		return slot.r;
	}
	Entry solve( const std::vector<E>& sl ) {
		++solverCalls;
		double t0 = now();
		Entry en{ UNKNOWN, {}, {} };
		bool hasfp = false, hasr = false; uint32_t vs = 0;
		for ( E e : sl ) { hasfp |= e->fp; hasr |= e->hr; vs = X.vsUnion( vs, e->vs ); }
		auto attempt = [&]( z3::solver& s, bool incremental, unsigned to ) {
			z3::params p( ctx ); p.set( "timeout", to ); s.set( p );
			if ( incremental ) s.push();
			for ( E e : sl ) s.add( toBool( e ) );
			z3::check_result r = s.check();
			if ( r == z3::unsat ) en.r = UNSAT;
			else if ( r == z3::sat ) {
				en.r = SAT;
				z3::model m = s.get_model();
				for ( uint32_t v : X.vsets[ vs ] ) {
					if ( v >= varAst.size() || !varAst[ v ] ) continue;
					z3::expr x = m.eval( wrap( varAst[ v ] ), true );
					if ( X.vars[ v ].real ) { en.rm.push_back( { v, x.is_algebraic() ? Z3_get_numeral_decimal_string( ctx, x, 18 ) : Z3_get_numeral_decimal_string( ctx, x, 30 ) } ); }
					else {
						u128 val = 0;
						if ( X.vars[ v ].w <= 64 ) { uint64_t u = 0; Z3_get_numeral_uint64( ctx, x, &u ); val = u; }
						else { uint64_t h = 0, l = 0; Z3_get_numeral_uint64( ctx, x.extract( X.vars[ v ].w - 1, 64 ).simplify(), &h ); Z3_get_numeral_uint64( ctx, x.extract( 63, 0 ).simplify(), &l ); val = ( (u128)h << 64 ) | l; }
						en.m.push_back( { v, val } );
					}
				}
			}
			if ( incremental ) s.pop();
		};
		if ( !dumpDir.empty() ) {
			z3::solver s( ctx ); for ( E e : sl ) s.add( toBool( e ) );
			FILE* f = fopen( ( dumpDir + "/q" + std::to_string( solverCalls ) + ".smt2" ).c_str(), "w" ); if ( f ) { fputs( s.to_smt2().c_str(), f ); fclose( f ); }
		}
		if ( hasr ) {
			z3::solver s( ctx, "QF_NRA" ); bool bvmix = false;
			try { attempt( s, false, timeoutMs / 2 ); } catch ( z3::exception& ) { bvmix = true; en.r = UNKNOWN; }
			if ( en.r == UNKNOWN ) { z3::solver s2( ctx ); try { attempt( s2, false, timeoutMs / 2 ); } catch ( z3::exception& ) { en.r = UNKNOWN; } }
			(void)bvmix;
		}
		else if ( hasfp ) {
			z3::solver s = ( z3::tactic( ctx, "simplify" ) & z3::tactic( ctx, "propagate-values" ) & z3::tactic( ctx, "solve-eqs" ) & z3::tactic( ctx, "fpa2bv" ) & z3::tactic( ctx, "simplify" ) & z3::tactic( ctx, "propagate-values" ) & z3::tactic( ctx, "max-bv-sharing" ) & z3::tactic( ctx, "bit-blast" ) & z3::tactic( ctx, "sat" ) ).mk_solver();
			try { attempt( s, false, timeoutMs ); } catch ( z3::exception& ) { en.r = UNKNOWN; }
		}
		else {
			try { attempt( bv, true, std::min( timeoutMs, 10000u ) ); } catch ( z3::exception& ) { en.r = UNKNOWN; bv = mk( "QF_BV" ); }
			if ( en.r == UNKNOWN ) {
				z3::solver s = ( z3::tactic( ctx, "simplify" ) & z3::tactic( ctx, "propagate-values" ) & z3::tactic( ctx, "solve-eqs" ) & z3::tactic( ctx, "elim-uncnstr" ) & z3::tactic( ctx, "simplify" ) & z3::tactic( ctx, "max-bv-sharing" ) & z3::tactic( ctx, "bit-blast" ) & z3::tactic( ctx, "sat" ) ).mk_solver();
				try { attempt( s, false, timeoutMs ); } catch ( z3::exception& ) { en.r = UNKNOWN; }
			}
		}
		double dt = now() - t0; solverTime += dt; maxTime = std::max( maxTime, dt );
		return en;
	}
};
