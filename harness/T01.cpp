// time values
#include "sym.h"
#include "xo/time/time.h"
#include "xo/time/date.h"
#include "xo/time/interval_checker.h"
#include "xo/string/string_cast.h"
#include <string>
using xo::time; using xo::date;
using ll = long long;

// equal but for the rounding of the constants in the code
static bool near( double a, double b ) { double d = a - b, m = 1e-9 * ( b < 0 ? -b : b ); return ( d <= m ) & ( d >= -m ); }
static ll nano( const char* name ) { return sym<int64_t>( name ); }

//@ h_order quick() thorough()
HARNESS( h_order )
{
	ll a = nano( "a" ), b = nano( "b" ); const ll big = ll( 1 ) << 62; sym_assume( a >= -big && a < big && b >= -big && b < big );
	time x( a ), y( b );
	CHECK_MSG( x.nanoseconds() == a && time().nanoseconds() == 0 && time().is_zero() && x.is_zero() == ( a == 0 ), "nanoseconds" );
	CHECK_MSG( ( x < y ) == ( a < b ) && ( x <= y ) == ( a <= b ) && ( x > y ) == ( a > b ) && ( x >= y ) == ( a >= b ) && ( x == y ) == ( a == b ) && ( x != y ) == ( a != b ), "order" );
	CHECK_MSG( ( x + y ).nanoseconds() == a + b && ( x - y ).nanoseconds() == a - b && ( -x ).nanoseconds() == -a, "sum and difference" );
	time z = x; time* r = &( z += y ); CHECK_MSG( r == &z && z == x + y, "+=" );
	z = x; r = &( z -= y ); CHECK_MSG( r == &z && z == x - y, "-=" );
	time d = xo::distance( x, y ); CHECK_MSG( d.nanoseconds() == ( a > b ? a - b : b - a ) && d == xo::distance( y, x ) && d >= time(), "distance" );
	z.reset(); CHECK_MSG( z.is_zero(), "reset" );
	sym_reach( "end" );
}

//@ h_divide quick(d=5) thorough(d=12)
HARNESS( h_divide )
{
	ll a = nano( "a" ); int n = sym_pick( "n", 1, (int)sym_param( "d", 5 ) ); time x( a );
	ll q = a / n;
	CHECK_MSG( ( x / size_t( n ) ).nanoseconds() == q, "divided by a number" );
	time z = x; time* r = &( z /= size_t( n ) ); CHECK_MSG( r == &z && z.nanoseconds() == q, "divided in place" );
	CHECK_MSG( ( x / n ).nanoseconds() == q && ( x / -n ).nanoseconds() == ( n == 1 ? ll( 0 - (unsigned long long)a ) : -q ), "divided by an int" );
	sym_assume( a < ( 1ll << 58 ) && a > -( 1ll << 58 ) );
	CHECK_MSG( ( x * n ).nanoseconds() == a * n && ( x * -n ).nanoseconds() == -( a * n ), "multiplied" );
	sym_reach( "end" );
}

//@ h_scale real quick(r=2) thorough(r=12)
HARNESS( h_scale )
{
	// around a number of nanoseconds that is chosen, all fractions are covered
	int k = sym_pick( "unit", 0, 2 ); double f = k == 0 ? 1e9 : k == 1 ? 1e6 : 1, r = (double)sym_param( "r", 2 );
	double bases[] = { 0, 1e9, -1e9, 123456789, -1500000, 3600e9 }; double base = bases[ sym_pick( "base", 0, 5 ) ], x = sym_real( "x" ); sym_assume( ( x >= -r ) & ( x <= r ) );
	double s = ( base + x ) / f;
	time t = k == 0 ? xo::time_from_seconds( s ) : k == 1 ? xo::time_from_milliseconds( s ) : xo::time_from_nanoseconds( s );
	double e = double( t.nanoseconds() ) - ( base + x );
	CHECK_MSG( e <= 0.51 && e >= -0.51, "the nearest number of nanoseconds" );
	sym_reach( s < 0 ? "negative" : "positive" );
}

//@ h_units quick() thorough()
HARNESS( h_units )
{
	ll a = sym<signed char>( "a" ); time t( a ); double ab = double( a );
	CHECK_MSG( near( t.secondsd() * 1e9, ab ) && near( t.milliseconds() * 1e6, ab ), "units" );
	CHECK_MSG( t.nanosecondsd() == ab && t.seconds< double >() == t.secondsd() && t.secondsf() == t.seconds< float >() && t.secondsf() == float( t.secondsd() ) && t.millisecondsf() == float( t.milliseconds() ), "units" );
	sym_reach( "end" );
}

//@ h_ratio quick() thorough()
HARNESS( h_ratio )
{
	ll a = sym<signed char>( "a" ); time t( a ); double ab = double( a );
	double b = sym_pick( "b", 0, 1 ) ? 8 : -3; ll bi = (ll)b; time u( bi );
	CHECK_MSG( near( ( t / u ) * b, ab ) && near( t * u, ab * b ), "ratio and product of times" );
	CHECK_MSG( ( t / 2.5 ).nanoseconds() * 5 <= 2 * a + 4 && ( t / 2.5 ).nanoseconds() * 5 >= 2 * a - 4, "divided by a number" );
	CHECK_MSG( ( t * 2.5 ).nanoseconds() * 2 <= 5 * a + 1 && ( t * 2.5 ).nanoseconds() * 2 >= 5 * a - 1, "multiplied by a number" );
	sym_reach( "end" );
}

//@ h_from_int real quick() thorough()
HARNESS( h_from_int )
{
	int s = sym<signed char>( "s" );
	CHECK_MSG( xo::time_from_nanoseconds( s ).nanoseconds() == s, "nanoseconds" );
	CHECK_MSG( xo::time_from_milliseconds( s ).nanoseconds() == s * 1000000ll, "milliseconds" );
	CHECK_MSG( xo::time_from_seconds( s ).nanoseconds() == s * 1000000000ll, "seconds" );
	sym_reach( s < 0 ? "negative" : "positive" );
}

//@ h_literals quick() thorough()
HARNESS( h_literals )
{
	using namespace xo::time_literals; unsigned n = sym<unsigned char>( "n" ); unsigned long long N = n; ll k = n;
	CHECK_MSG( xo::operator ""_ns( N ).nanoseconds() == k && xo::operator ""_ms( N ).nanoseconds() == k * 1000000 && xo::operator ""_s( N ) == xo::operator ""_ms( N * 1000 ), "small units" );
	CHECK_MSG( xo::operator ""_minute( N ) == xo::operator ""_s( N * 60 ) && xo::operator ""_hour( N ) == xo::operator ""_minute( N * 60 ) && xo::operator ""_day( N ) == xo::operator ""_hour( N * 24 ) && xo::operator ""_year( N ) == xo::operator ""_day( N * 365 ), "large units" );
	CHECK_MSG( ( 3_s ).nanoseconds() == 3000000000ll, "literal" );
	sym_reach( "end" );
}

//@ h_interval quick(n=3) thorough(n=5)
HARNESS( h_interval )
{
	ll i = nano( "interval" ); sym_assume( i >= 0 && i < ( 1ll << 40 ) ); xo::interval_checker c{ time( i ) };
	int n = (int)sym_param( "n", 3 ); ll last = 0;
	for ( int k = 0; k < n; ++k ) {
		ll t = nano( "t" ); sym_assume( t >= 0 && t < ( 1ll << 50 ) );
		bool due = t - last >= i;
		CHECK_MSG( c.check( time( t ) ) == due, "true when the interval has passed since the last time it was" );
		if ( due ) last = t;
	}
	sym_reach( "end" );
}

static void digits( std::string& s, const char* name, int n, int& v ) { v = 0; for ( int i = 0; i < n; ++i ) { unsigned char c = sym<unsigned char>( name ); sym_assume( ( c >= '0' ) & ( c <= '9' ) ); s += char( c ); v = v * 10 + c - '0'; } }

//@ h_date quick() thorough()
HARNESS( h_date )
{
	int sep = sym_pick( "separator", 0, 2 ), ny = sym_pick( "digits", 1, 4 ), y, m, d; std::string s; const char* c[] = { "-", ".", "/" };
	digits( s, "y", ny, y ); s += c[ sep ]; digits( s, "m", sym_pick( "month digits", 1, 2 ), m ); s += c[ sep ]; digits( s, "d", 2, d );
	date v; bool ok = xo::from_str( s, v );
	int bad = sym_pick( "bad", 0, 3 ); if ( bad ) { std::string t = bad == 1 ? std::string( "x" ) + c[ sep ] + "1" + c[ sep ] + "2" : bad == 2 ? std::string( "3" ) + c[ sep ] + "x" + c[ sep ] + "2" : std::string( "3" ) + c[ sep ] + "1" + c[ sep ] + "x"; CHECK_MSG( !xo::from_str( t, v ), "three numbers are needed" ); sym_reach( "end" ); return; }
	CHECK_MSG( ok && v.year == y && v.month == m && v.day == d, "year, month and day" );
	if ( sym_bool( "more" ) ) { s += c[ sep ]; s += "1"; date w; CHECK_MSG( !xo::from_str( s, w ), "three numbers are needed" ); }
	sym_reach( "end" );
}

//@ h_date_str quick(k=3) thorough(k=6)
HARNESS( h_date_str )
{
	int years[] = { 2024, 0, 7, 9999, 123, 1970 }, months[] = { 1, 12, 9, 10, 3, 5 }; date v; int k = (int)sym_param( "k", 3 );
	v.year = years[ sym_pick( "year", 0, k - 1 ) ]; v.month = months[ sym_pick( "month", 0, k - 1 ) ]; v.day = sym_pick( "day", 1, 31 );
	std::string s = to_str( v ); date w;
	CHECK_MSG( s.size() == 10 && s[ 4 ] == '-' && s[ 7 ] == '-', "year, month and day as text" );
	CHECK_MSG( from_str( s, w ) && w.year == v.year && w.month == v.month && w.day == v.day, "what was written is read" );
	sym_reach( "end" );
}

//@ h_time_str quick() thorough()
HARNESS( h_time_str )
{
	int hours[] = { 0, 1, 25 }, h = hours[ sym_pick( "hours", 0, 2 ) ], m = sym_pick( "minutes", 0, 2 ) * 29 + 1, s = sym_pick( "seconds", 0, 3 ) * 19 + 1; if ( sym_pick( "no minutes", 0, 1 ) ) m = 0;
	ll ns = sym_pick( "fraction", 0, 1 ) ? 250000000 : 0; time t( ( h * 3600ll + m * 60 + s ) * 1000000000ll + ns );
	auto two = []( int v ) { return std::string( 1, char( '0' + v / 10 ) ) + char( '0' + v % 10 ); };
	auto num = [&]( int v ) { return v < 10 ? std::string( 1, char( '0' + v ) ) : two( v ); };
	std::string want = h ? num( h ) + ":" + two( m ) + ":" + two( s ) : m ? num( m ) + ":" + two( s ) : s >= 10 ? "0:" + two( s ) : num( s ) + ( ns ? ".250" : ".000" );
	CHECK_MSG( to_str( t ) == want, "hours, minutes and seconds" );
	if ( !h && !m ) CHECK_MSG( to_str( t, 0 ) == "0:" + two( s ) && to_str( t, 2, 100.0 ) == num( s ) + ( ns ? ".25" : ".00" ), "decimals" );
	time u; if ( !h && !m && s < 10 ) CHECK_MSG( from_str( to_str( t ), u ) && u == t, "seconds are read" );
	sym_reach( "end" );
}
