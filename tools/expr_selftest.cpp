// random test of the term simplifier of the executor (development aid, not a check):
// every constructor is compared with its definition on concrete values
// g++ -std=c++17 -O2 -Iengine tools/expr_selftest.cpp -o /tmp/expr_selftest
#include "../engine/expr.h"
#include <random>
#include <cstdio>
int main( int c, char** v )
{
	std::mt19937_64 r( c > 1 ? atoi( v[ 1 ] ) : 1 ); Exprs X; int rounds = c > 2 ? atoi( v[ 2 ] ) : 3000; uint64_t mid = 1;
	for ( int q = 0; q < rounds; ++q ) {
		unsigned ws[] = { 1, 8, 16, 32, 64 }; std::vector<E> pool; Model m{ ++mid, {} };
		// values are small or special often, so that the corner cases happen
		auto val = [&]( unsigned w ) -> u128 { u128 x = r(); switch ( r() % 5 ) { case 0: x = r() % 4; break; case 1: x = (u128)0 - ( r() % 4 ); break; case 2: x = (u128)1 << ( w - 1 ); break; default: break; } return x & maskw( w ); };
		std::vector<u128> pv; // value of every pool member by definition
		for ( unsigned w : ws ) for ( int i = 0; i < 3; ++i ) { E e = X.var( w, "v" ); unsigned id = (unsigned)e->val; if ( id >= m.v.size() ) m.v.resize( id + 1 ); m.v[ id ] = val( w ); pool.push_back( e ); pv.push_back( m.v[ id ] ); }
		for ( unsigned w : ws ) for ( int i = 0; i < 2; ++i ) { u128 x = val( w ); pool.push_back( X.C( w, x ) ); pv.push_back( x ); }
		for ( int s = 0; s < 60; ++s ) {
			size_t i = r() % pool.size(); E a = pool[ i ]; u128 av = pv[ i ]; std::vector<size_t> same; for ( size_t j = 0; j < pool.size(); ++j ) if ( pool[ j ]->w == a->w ) same.push_back( j );
			size_t j = same[ r() % same.size() ]; E b = pool[ j ]; u128 bv = pv[ j ]; unsigned w = a->w; u128 mk = maskw( w ); i128 as = sextv( av, w ), bs = sextv( bv, w ); E e; u128 x; int k = (int)( r() % 26 );
			switch ( k ) {
			case 0: case 20: case 21: e = X.Add( a, b ); x = av + bv; break; case 1: case 22: case 23: e = X.Sub( a, b ); x = av - bv; break; case 2: e = X.Mul( a, b ); x = av * bv; break;
			case 3: e = X.And( a, b ); x = av & bv; break; case 4: e = X.Or( a, b ); x = av | bv; break; case 5: e = X.Xor( a, b ); x = av ^ bv; break;
			case 6: if ( !bv ) continue; e = X.UDiv( a, b ); x = av / bv; break; case 7: if ( !bv ) continue; e = X.URem( a, b ); x = av % bv; break;
			case 8: if ( !bv || w == 1 ) continue; e = X.SDiv( a, b ); x = (u128)( as / bs ); break; case 9: if ( !bv || w == 1 ) continue; e = X.SRem( a, b ); x = (u128)( as % bs ); break;
			case 10: case 11: case 12: { if ( w == 1 ) continue; unsigned n = (unsigned)( r() % w ); E ce = X.C( w, n ); if ( k == 10 ) { e = X.Shl( a, ce ); x = av << n; } else if ( k == 11 ) { e = X.LShr( a, ce ); x = av >> n; } else { e = X.AShr( a, ce ); x = (u128)( as >> n ); } break; }
			case 13: case 24: e = X.Eq( a, b ); x = av == bv; w = 1; break; case 14: e = X.Ult( a, b ); x = av < bv; w = 1; break; case 15: e = X.Slt( a, b ); x = as < bs; w = 1; break;
			case 16: { size_t z = r() % pool.size(); if ( pool[ z ]->w != 1 ) continue; e = X.Ite( pool[ z ], a, b ); x = pv[ z ] ? av : bv; break; }
			case 17: { unsigned nw = ws[ r() % 5 ]; if ( nw <= w ) continue; if ( r() & 1 ) { e = X.ZExt( a, nw ); x = av; } else { e = X.SExt( a, nw ); x = (u128)as; } w = nw; break; }
			case 18: { unsigned nw = ws[ r() % 5 ]; if ( nw >= w ) continue; unsigned lo = (unsigned)( r() % ( w - nw + 1 ) ); if ( r() & 1 ) lo = lo / 8 * 8; e = X.Extract( a, lo, nw ); x = av >> lo; w = nw; break; }
			case 19: if ( w > 32 || w < 8 ) continue; e = X.Concat( a, b ); x = av << w | bv; w *= 2; break;
			// as a value is stored and loaded again: bytes are concatenated
			case 25: { if ( w < 16 ) continue; e = X.Extract( a, w - 8, 8 ); for ( int o = (int)w - 16; o >= 0; o -= 8 ) e = X.Concat( e, X.Extract( a, (unsigned)o, 8 ) ); x = av; break; }
			default: continue;
			}
			x &= maskw( w );
			if ( e->w != w || evalE( e, m ) != x ) { printf( "MISMATCH op %d width %u round %d: %llx expected %llx\n", k, w, q, (unsigned long long)evalE( e, m ), (unsigned long long)x ); return 1; }
			pool.push_back( e ); pv.push_back( x );
		}
	}
	puts( "ok" );
}
