// dynarray, handles, handle_vector and collections
#include "sym.h"
#include <vector>
#include <algorithm>
#include "xo/container/dynarray.h"
#include "xo/container/handle_vector.h"
#include "xo/container/collection.h"
#include "xo/container/collection_ic.h"
using namespace xo;

template< typename A > static bool same( A& a, const std::vector< int >& w )
{
	bool ok = a.size() == w.size() && a.empty() == w.empty();
	for ( size_t i = 0; ok && i < w.size(); ++i ) ok = a[ i ] == w[ i ] && a.at( i ) == w[ i ];
	size_t n = 0; if ( ok ) for ( auto it = a.begin(); it != a.end(); ++it ) { ok = ok && n < w.size() && *it == w[ n ]; ++n; }
	return ok && n == w.size();
}

//@ h_dynarray quick(n=3,ops=3) thorough(n=3,ops=4)
HARNESS( h_dynarray )
{
	int mx = (int)sym_param( "n", 3 ), ops = (int)sym_param( "ops", 3 );
	int n = sym_pick( "n", 0, mx ), v = sym_int( "v" );
	dynarray< int > a( n, v ), b; std::vector< int > wa( n, v ), wb;
	for ( int o = 0; o < ops; ++o ) {
		switch ( sym_choice( 8, "op" ) ) {
		case 0: b = a; wb = wa; break;
		case 1: b = std::move( a ); wb = wa; wa.clear(); for ( auto it = a.begin(); it != a.end(); ++it ) wa.push_back( *it ); break; // a is left with some valid content
		case 2: { dynarray< int > c( a ); a.clear(); a = c; break; }
		case 3: { dynarray< int > c( std::move( a ) ); CHECK_MSG( a.empty() && a.size() == 0, "empty after move" ); b = std::move( c ); wb = wa; wa.clear(); break; }
		case 4: { int s = sym_pick( "size", 0, mx ), x = sym_int( "x" ); a.resize( s, x ); wa.assign( s, x ); break; }
		case 5: if ( !wa.empty() ) { int x = sym_int( "x" ); size_t i = (size_t)sym_choice( (uint32_t)wa.size(), "i" ); a[ i ] = x; wa[ i ] = x; } break;
		case 6: { const auto& self = a; a = self; break; }
		default: { int x = sym_int( "x" ); b.assign( x ); std::fill( wb.begin(), wb.end(), x ); std::swap( a, b ); wa.swap( wb ); break; }
		}
	}
	CHECK_MSG( same( a, wa ) && same( b, wb ), "size and elements" );
	CHECK_MSG( ( a == b ) == ( wa == wb ) && ( a != b ) == ( wa != wb ), "equality" );
	CHECK_MSG( throws( [&] { a.at( wa.size() ); } ), "at checks the index" );
	sym_reach( "end" );
}

//@ h_handles quick(ops=4) thorough(ops=5)
HARNESS( h_handles )
{
	handle_vector< int > v; std::vector< int > w; using H = handle< int >; using S = handle_span< int >;
	int ops = (int)sym_param( "ops", 4 );
	for ( int o = 0; o < ops; ++o ) {
		int x = sym_int( "x", 0, 9 ); size_t i = w.empty() ? 0 : (size_t)sym_choice( (uint32_t)w.size(), "i" );
		switch ( sym_choice( 4, "op" ) ) {
		case 0: { auto h = v.push_back( x ); CHECK_MSG( h && h.value() == w.size() && v[ h ] == x, "handle of the new element" ); w.push_back( x ); break; }
		case 1: { auto h = v.emplace_back( x ); CHECK( h == v.back_handle() && v.contains( h ) ); w.push_back( x ); break; }
		case 2: if ( !w.empty() ) { H h{ uint32( i ) }; CHECK( v.erase( h ).value() == i ); w.erase( w.begin() + i ); } break;
		default: if ( !w.empty() ) { size_t e = i + sym_choice( (uint32_t)( w.size() - i + 1 ), "e" ); v.erase( S( H( uint32( i ) ), H( uint32( e ) ) ) ); w.erase( w.begin() + i, w.begin() + e ); } break;
		}
	}
	const auto& c = v;
	bool ok = v.size() == w.size() && v.span().size() == w.size() && v.span().empty() == w.empty() && v.end_handle().value() == w.size();
	size_t n = 0; for ( auto h : c.span() ) { ok = ok && n < w.size() && c[ h ] == w[ n ] && *c.iter( h ) == w[ n ] && c.handle_from_iterator( c.begin() + n ) == h && c.contains( h ); ++n; }
	CHECK_MSG( ok && n == w.size(), "elements by handle" );
	CHECK_MSG( !H() && !c.contains( H() ) && !c.contains( c.end_handle() ) && !c.handle_from_iterator( c.end() ), "invalid handles" );
	for ( size_t k = 0; k < w.size(); ++k ) { H h{ uint32( k ) }; v[ h ] ^= 1; w[ k ] ^= 1; *v.iter( h ) ^= 2; w[ k ] ^= 2; ok = ok && *h.iter( w ) == w[ k ] && *h.iter( c ) == w[ k ]; }
	if ( !w.empty() ) ok = ok && H::back( w ) == v.back_handle() && H::end( w ) == v.end_handle() && v.front() == w.front() && c.back() == w.back() && c.span( ++c.span_begin() ).size() == w.size() - 1 && c.span( c.span_end() ).empty();
	CHECK_MSG( ok, "elements by handle" );
	if ( !w.empty() ) { size_t b = (size_t)sym_choice( (uint32_t)w.size(), "b" ); int z = w.back(); S part( H{ uint32( b ) }, v.back_handle() ); auto g = v.find( part, z ); size_t j = std::find( w.begin() + b, w.end() - 1, z ) - w.begin(); CHECK_MSG( bool( g ) == ( j + 1 < w.size() ) && ( !g || g.value() == j ), "find in part of the elements" ); v.pop_back(); w.pop_back(); CHECK_MSG( v.size() == w.size(), "pop" ); }
	int q = sym_int( "q", 0, 9 ); auto f = v.find( q ); size_t i = std::find( w.begin(), w.end(), q ) - w.begin();
	CHECK_MSG( bool( f ) == ( i < w.size() ) && ( !f || f.value() == i ), "find" );
	sym_reach( "end" );
}

//@ h_moved quick()
HARNESS( h_moved )
{
	// handles that are updated after removal keep referring to the same element
	using H = handle< int >; using S = handle_span< int >;
	handle_vector< int > v; for ( int i = 0; i < 5; ++i ) v.push_back( i );
	unsigned b = sym_pick( "b", 0, 5 ), e = sym_pick( "e", 0, 5 ), x = sym_pick( "x", 0, 5 );
	sym_assume( b <= e );
	H h = x < 5 ? H( x ) : H(); H k = h; bool removed = x >= b && x < e;
	S moved = v.span( S::iterator( e ) ); // what comes after the removed elements
	CHECK( moved.contains( h ) == ( x < 5 && x >= e ) && moved.size() == 5 - e && moved.empty() == ( e == 5 ) );
	S mid{ H( b ), H( e ) }; CHECK_MSG( mid.is_beyond( h ) == ( x >= e ) && mid.contains( h ) == removed && mid.empty() == ( b == e ) && S().empty() && S().size() == 0, "in and beyond a span" ); unsigned count = b; for ( H y : mid ) CHECK_MSG( y.value() == count++, "handles of a span" ); CHECK_MSG( count == e, "handles of a span" );
	auto nb = S::iterator( v.erase( S( H( b ), H( e ) ) ) );
	update_moved_handle( h, moved, nb );
	if ( x == 5 ) CHECK_MSG( !h, "invalid handles stay invalid" );
	else if ( !removed ) CHECK_MSG( v.contains( h ) && v[ h ] == (int)x, "same element" );
	H c( k ); CHECK( c == k && ( c != k ) == false && bool( c ) == ( x < 5 ) ); H m( std::move( k ) ); CHECK( m == c && !k ); m = H(); CHECK( !m );
	H y( b ), z( e ); CHECK_MSG( ( y < z ) == ( b < e ) && ( y == z ) == ( b == e ) && ( y != z ) == ( b != e ) && handle< char >( y ).value() == b, "handles compare like their values" ); z.reset(); CHECK( !z && z == H() ); auto it = mid.begin(), old = it++; CHECK( *old == y && it.value() == b + 1 && ( it == mid.end() ) == ( e == b + 1 ) && ( it != mid.end() ) == ( e != b + 1 ) );
	sym_reach( removed ? "removed" : x == 5 ? "invalid" : "kept" );
}

//@ h_collection quick(ops=4) thorough(ops=5)
HARNESS( h_collection )
{
	collection< uint32, int, char > c; collection_ic< uint32, int, char > d;
	std::vector< int > wi; std::vector< char > wc;
	int ops = (int)sym_param( "ops", 4 );
	for ( int o = 0; o < ops; ++o )
		switch ( sym_choice( 4, "op" ) ) {
		case 0: { const int x = sym_int( "x" ); auto h = c.push_back( x ); auto i = d.push_back( x ); CHECK_MSG( h.value() == wi.size() && i.value() == wi.size() && c[ h ] == x && d[ i ] == x, "index of the new element" ); wi.push_back( x ); break; }
		case 1: { const char x = sym< char >( "x" ); auto h = c.push_back( x ); auto i = d.push_back( x ); CHECK( h.value() == wc.size() && i == d.back_index< char >() && c[ h ] == x && c.get_handle( c[ h ] ) == h && d.get_index( d[ i ] ) == i ); wc.push_back( x ); break; }
		case 2: if ( !wi.empty() ) { size_t i = (size_t)sym_choice( (uint32_t)wi.size(), "i" ); c.erase( handle< int >( uint32( i ) ) ); auto r = d.erase( index_class< int >( uint32( i ) ) ); CHECK_MSG( r.value() == i, "erase gives the index of the next element" ); wi.erase( wi.begin() + i ); } break;
		default: { const int x = sym_int( "x" ); auto h = c.push_back( int( x ) ); c[ h ] ^= 1; d.push_back( int( x ) ); d[ d.back_index< int >() ] ^= 1; wi.push_back( x ^ 1 ); break; }
		}
	bool ok = c.get_vec< int >().size() == wi.size() && d.get_vec< int >() == wi && c.get_vec< char >().size() == wc.size() && d.get_vec< char >() == wc;
	for ( uint32 i = 0; ok && i < wi.size(); ++i ) ok = c[ handle< int >( i ) ] == wi[ i ];
	for ( uint32 i = 0; ok && i < wc.size(); ++i ) ok = c[ handle< char >( i ) ] == wc[ i ];
	CHECK_MSG( ok, "elements per type" );
	size_t n = 0; auto sp = d.get_index_span< int >(); for ( auto i = sp.begin(); i != sp.end(); ++i ) { ok = ok && d[ i ] == wi[ n ]; ++n; }
	CHECK_MSG( ok && n == wi.size() && sp.size() == n && sp.empty() == wi.empty(), "span of indices" );
	c.clear(); d.clear(); CHECK( c.get_vec< int >().empty() && c.get_vec< char >().empty() && d.get_vec< int >().empty() );
	sym_reach( "end" );
}
