// console plots
#include "sym.h"
#include <vector>
#include <string>
#include <sstream>
#include <limits>
#include <cmath>
#include "xo/numerical/console_plot.h"
using std::string; using std::vector;
static vector< string > plot( vector< std::function< double( double ) > > f, double lo, double hi, int w, int h )
{
	std::stringbuf b; auto* old = std::cout.rdbuf( &b ); bool t = throws( [&] { xo::console_plot< double >( f, lo, hi, w, h ); } ); std::cout.rdbuf( old ); CHECK_MSG( !t, "a plot does not fail" );
	vector< string > l( 1 ); for ( char c : b.str() ) if ( c == '\n' ) l.push_back( "" ); else l.back() += c;
	CHECK_MSG( l.back().empty(), "ends with a line end" ); l.pop_back(); return l;
}
static const char marks[] = { char( 219 ), char( 178 ), char( 177 ), char( 176 ) };

// one mark per column, at the row of its value
static void check( const vector< string >& l, const vector< double >& y, const vector< int >& cover, int w, int h, char mark, double lo, double hi )
{
	for ( int x = 0; x < w; ++x ) {
		int n = 0, row = 0; for ( int r = 0; r < h; ++r ) if ( l[ r ][ x ] == mark ) { ++n; row = r; }
		if ( cover[ x ] ) continue;
		CHECK_MSG( n == 1, "one mark in every column" );
		double e = ( h - 1 ) * ( hi - y[ x ] ) - row * ( hi - lo ), half = ( hi - lo ) / 2; // rows from the top, times the range
		int ok = e <= half; ok &= e >= -half; CHECK_MSG( ok, "the mark is in the row of its value" );
	}
}

// one function, with arbitrary values in all columns
//@ h_values real quick(w=2,h=3; w=3,h=3) thorough(w=3,h=4; w=2,h=6)
HARNESS( h_values )
{
	int w = (int)sym_param( "w", 3 ), h = (int)sym_param( "h", 3 ); vector< double > y; double lo = 0, hi = 0;
	for ( int i = 0; i < w; ++i ) { double v = sym_real( "y" ); sym_assume( v > -3 && v < 3 ); y.push_back( v ); if ( i == 0 || v < lo ) lo = v; if ( i == 0 || v > hi ) hi = v; }
	bool flat = sym_req( lo, hi ); if ( !flat ) sym_assume( hi - lo > 1 );
	int i = 0; vector< double > at; auto l = plot( { [&]( double x ) { at.push_back( x ); return y[ i++ % w ]; } }, -1, 3, w, h );
	CHECK_MSG( (int)l.size() == h, "height" ); for ( auto& s : l ) CHECK_MSG( (int)s.size() == w, "width" );
	for ( int k = 0; k < w; ++k ) CHECK_MSG( (int)at.size() == w && sym_req( ( at[ k ] + 1 ) * ( w - 1 ), 4 * k ), "columns are evenly spaced from the smallest to the largest x" );
	vector< int > none( w ); if ( flat ) { for ( int x = 0; x < w; ++x ) { int n = 0; for ( int r = 0; r < h; ++r ) n += l[ r ][ x ] == marks[ 0 ]; CHECK_MSG( n == 1, "a constant function has one mark in every column" ); } }
	else check( l, y, none, w, h, marks[ 0 ], lo, hi );
	sym_reach( flat ? "flat" : "values" );
}

// several functions: later ones are on top, each has its own mark
//@ h_functions quick(n=2,w=3,h=3) thorough(n=3,w=2,h=4; n=2,w=3,h=4)
HARNESS( h_functions )
{
	int n = (int)sym_param( "n", 2 ), w = (int)sym_param( "w", 3 ), h = (int)sym_param( "h", 3 ); vector< vector< double > > y( n ); double lo = 1e9, hi = -1e9; int vals[] = { -7, 0, 5, -2 };
	for ( auto& f : y ) for ( int i = 0; i < w; ++i ) { double v = vals[ sym_pick( "y", 0, 2 + ( n < 3 ) ) ]; f.push_back( v ); lo = v < lo ? v : lo; hi = v > hi ? v : hi; }
	sym_assume( hi > lo ); vector< std::function< double( double ) > > f; for ( auto& v : y ) f.push_back( [&v]( double x ) { return v[ int( x + 0.5 ) ]; } );
	auto l = plot( f, 0, w - 1, w, h ); CHECK_MSG( (int)l.size() == h, "height" ); for ( auto& s : l ) CHECK_MSG( (int)s.size() == w, "width" );
	for ( int k = 0; k < n; ++k ) {
		vector< int > cover( w ); for ( int x = 0; x < w; ++x ) for ( int j = k + 1; j < n; ++j ) { double a = ( y[ k ][ x ] - y[ j ][ x ] ) * ( h - 1 ), s = hi - lo; if ( a < s && -a < s ) cover[ x ] = 1; }
		check( l, y[ k ], cover, w, h, marks[ k ], lo, hi );
	}
	for ( int x = 0; x < w; ++x ) { int a = 0; for ( int r = 0; r < h; ++r ) for ( int k = 0; k < n; ++k ) a += l[ r ][ x ] == marks[ k ]; CHECK_MSG( a >= 1 && a <= n, "marks in a column" ); }
	sym_reach( "end" );
}

// more functions than marks: every function is drawn, and those next to each other can be told apart
//@ h_many quick(n=6) thorough(n=10)
HARNESS( h_many )
{
	int n = sym_pick( "n", 4, (int)sym_param( "n", 6 ) ), w = sym_pick( "w", 2, 4 ); bool down = sym_pick( "down", 0, 1 ); vector< std::function< double( double ) > > f; for ( int i = 0; i < n; ++i ) f.push_back( [=]( double ) { return down ? -i : i; } );
	auto l = plot( f, 1, 2, w, n ); CHECK_MSG( (int)l.size() == n, "height" ); string row; for ( auto& s : l ) { CHECK_MSG( (int)s.size() == w && s == string( size_t( w ), s[ 0 ] ) && string( marks, 4 ).find( s[ 0 ] ) != string::npos, "a row for every function" ); row += s[ 0 ]; }
	for ( int i = 1; i < n; ++i ) CHECK_MSG( row[ i ] != row[ i - 1 ], "different marks" ); sym_reach( "end" );
}

// sizes and ranges that can not be plotted are refused
//@ h_refused quick()
HARNESS( h_refused )
{
	int w = sym_pick( "w", -1, 3 ); int h = sym_pick( "h", -1, 3 ); int lo = sym_pick( "lo", -1, 1 ); int hi = sym_pick( "hi", -1, 1 ); int calls = 0;
	auto l = plot( { [&]( double x ) { ++calls; return x; } }, lo, hi, w, h ); bool ok = w > 1 && h > 1 && lo < hi;
	CHECK_MSG( ok ? (int)l.size() == h && calls >= w : l.size() == 1 && calls == 0, "only a plot with a size and a range is drawn" );
	sym_reach( ok ? "drawn" : "refused" );
}
