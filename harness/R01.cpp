// R01: a counting range yields first, first+step, ... while below last, each exactly once and without accumulated error.
#include "rational.hpp"
#include <string>
#include "core/core.hpp"
#include "mc.hpp"
#include <cmath>
using core::range;

template< typename R, typename W >
void compare( mc::Ctx & m, R const & r, std::vector<W> const & want, std::string const & name )
{
    // by range-for, twice (a range can be traversed again)
    for ( int pass = 0; pass < 2; ++pass )
    {
        size_t i = 0; bool ok = true; std::string got;
        for ( auto v : r ) { if ( i >= want.size() || W( v ) != want[i] ) { ok = false; got = mc::cat( " item ", i, " is ", W( v ) ); } ++i; if ( i > want.size() + 3 ) break; }
        m.step( i + 1 );
        m.check( ok && i == want.size(), "range", [&]{ return mc::cat( name, " yields ", i, " items, expected ", want.size(), got ); } );
    }
    // by explicit iterators: pre- and post-increment, dereference and arrow, copies are independent positions
    auto it = r.begin(), last = r.end(); size_t i = 0; bool ok = true;
    for ( ; it != last && i <= want.size(); ++i )
    {
        ok = ok && i < want.size() && W( *it ) == want[i] && W( *it.operator->() ) == want[i] && !( it == last );
        auto keep = it;
        if ( i % 2 ) ++it; else { auto old = it++; ok = ok && i < want.size() && W( *old ) == want[i]; }
        ok = ok && i < want.size() && W( *keep ) == want[i] && ( i + 1 >= want.size() || W( *it ) == want[ i + 1 ] );
    }
    ok = ok && i == want.size() && it == last && W( *r.begin() ) == ( want.empty() ? W( *r.begin() ) : want[0] );
    m.check( ok, "range-iterators", [&]{ return mc::cat( name, " traversed by iterators: ", i, " items, expected ", want.size() ); } );
    m.sample( [&]{ return mc::cat( name, " -> ", want.size(), " items" ); } );
}

// all ranges of a type of 8 bits, also those that end at its limit; ranges at the limits of the wider types
template< typename T > void bytes( char const * name )
{
    mc::explore( mc::cat( "bytes ", name ), 1, [&]( mc::Ctx & m )
    {
        const int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
        static const std::vector<int> some = { 1, 2, 3, 5, 10, 16, 50, 64, 99, 100, 127, 128, 200, 254, 255 };
        int a = lo + m.choose( 256 ), s; if ( m.thorough ) s = 1 + m.choose( hi ); else { s = m.pick( some ); if ( s > hi ) throw mc::Prune{}; }
        for ( int b = lo; b <= hi; ++b )
        {
            int want = a, n = 0; bool ok = true;
            for ( T v : range( T( a ), T( b ), T( s ) ) ) { ok = ok && int( v ) == want && want < b; want += s; ++n; if ( !ok || n > 300 ) break; }
            if ( ok ) { int k = 0, v = a; auto r = range( T( a ), T( b ), T( s ) ); for ( auto it = r.begin(), end = r.end(); it != end && k <= n; ++k, v += s ) ok = ok && int( *it++ ) == v; ok = ok && k == n; }
            m.step( mc::u64( n + 1 ) ); m.check( ok && want >= b, "bytes", [&]{ return mc::cat( "range of ", name, " (", a, ",", b, ",", s, ") goes wrong after ", n, " items, or ends early" ); } );
        }
        m.state( mc::mix( mc::u64( a + 1000 ), mc::u64( s ) ) );
    } );
}
template< typename T > void limits( char const * name )
{
    mc::explore( mc::cat( "limits ", name ), 1, [&]( mc::Ctx & m )
    {
        using Big = __int128; const Big lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
        Big width = hi - lo; static const int parts[] = { 2, 3, 5, 7, 100 };
        Big s = m.choose( 2 ) ? Big( 1 + m.choose( 12 ) ) : width / 2 / parts[ m.choose( 5 ) ] - m.choose( 3 );
        if ( s > hi || s < 1 ) throw mc::Prune{};
        Big b = m.choose( 2 ) ? hi - m.choose( 6 ) : lo + width / 2 + m.choose( 3 ) * s; int n = m.choose( 14 ); Big a = b - n * s + m.choose( 3 );
        if ( b > hi || a < lo || a > hi ) throw mc::Prune{};
        Big want = a; int k = 0; bool ok = true;
        for ( T v : range( T( a ), T( b ), T( s ) ) ) { ok = ok && Big( v ) == want && want < b; want += s; ++k; if ( !ok || k > 40 ) break; }
        m.step( mc::u64( k + 1 ) ); m.state( mc::mix( mc::u64( a ), mc::mix( mc::u64( b ), mc::u64( s ) ) ) );
        m.check( ok && want >= b, "limits", [&]{ return mc::cat( "range of ", name, " (", double( a ), ",", double( b ), ",", double( s ), ") with the last at ", double( hi - b ), " below the limit goes wrong after ", k, " items, or ends early" ); } );
        // counting by one up to the limit
        if ( s == 1 ) { want = a; k = 0; ok = true; for ( T v : range( T( a < b ? a : b ), T( b ) ) ) { ok = ok && Big( v ) == want && want < b; want += 1; ++k; if ( !ok || k > 40 ) break; } m.check( ok && ( a >= b || want == b ), "limits", [&]{ return mc::cat( "range of ", name, " (", double( a ), ",", double( b ), ") goes wrong after ", k, " items" ); } ); }
    } );
}
// values of all sizes
template< typename T > void sizes( char const * name )
{
    mc::explore( mc::cat( "sizes ", name ), 1, [&]( mc::Ctx & m )
    {
        static const std::vector<int> wide = { -1000, -300, -60, -30, -20, -10, 10, 20, 30, 60, 300, 900 }, narrow = { -120, -60, -30, -20, -10, 10, 20, 30, 60, 110 };
        const int e = m.pick( sizeof( T ) == 4 ? narrow : wide ); static const std::vector<double> step = { 1, 0.5, 3, 0.375 };
        const double s = m.pick( step ), a = ( m.choose( 13 ) - 6 ) * 0.25; const int n = m.choose( 12 ), end = m.choose( 4 ); const double bit = std::ldexp( s, sizeof( T ) == 4 ? -14 : -30 );
        std::vector<double> want; for ( int i = 0; i < n + ( end == 3 ); ++i ) want.push_back( std::ldexp( a + i * s, e ) );
        m.state( mc::mix( mc::hash_double( s + 100 * a ), mc::u64( n * 4000 + e ) ) );
        double f = std::ldexp( a, e ), l = std::ldexp( a + n * s - ( end == 1 && n ? s / 4 : end == 2 && n ? bit : end == 3 ? -bit : 0 ), e ), t = std::ldexp( s, e );
        compare( m, range( T( f ), T( l ), T( t ) ), want, mc::cat( name, " range(", f, ",", l, ",", t, ")" ) );
        { int i = 0; bool ok = true; for ( auto v : range( T( f ) ).step( T( t ) ) ) { ok = ok && double( v ) == std::ldexp( a + i * s, e ); if ( ++i == 20 ) break; } m.check( ok && i == 20, "sizes-infinite", [&]{ return mc::cat( name, " range(", f, ").step(", t, ") goes wrong" ); } ); }
        // counting by one far from zero
        if ( e > 0 && e <= ( sizeof( T ) == 4 ? 20 : 50 ) && s == 1 ) { std::vector<double> one; for ( int i = 0; i < n; ++i ) one.push_back( f + i ); compare( m, range( T( f ), T( f + n ) ), one, mc::cat( name, " range(", f, ",", f + n, ")" ) ); }
    } );
}

MC_MAIN(
    bytes<unsigned char>( "unsigned char" ); bytes<signed char>( "signed char" );
    limits<short>( "short" ); limits<unsigned short>( "unsigned short" ); limits<int>( "int" ); limits<unsigned>( "unsigned" ); limits<long>( "long" ); limits<unsigned long long>( "unsigned long long" );
    sizes<double>( "double" ); sizes<float>( "float" );
    mc::explore( "long", 1, []( mc::Ctx & m )
    {
        int n = m.choose( 6 ) * 20000 + m.choose( 3 ); int a = m.choose( 3 ) - 1; int s = 1 + m.choose( 3 ); long k = 0, bad = 0; m.state( mc::mix( mc::u64( n ), mc::u64( 4 * a + s + 10 ) ) );
        for ( int v : range( a, a + n * s, s ) ) { bad += v != a + k * s; ++k; } m.check( k == n && !bad, "long", [&]{ return mc::cat( "range(", a, ",", a + n * s, ",", s, ") yields ", k, " items, ", bad, " of them wrong" ); } ); m.step( mc::u64( k ) ); k = bad = 0;
        for ( int v : range( a, a + n ) ) { bad += v != a + k; ++k; } m.check( k == n && !bad, "long", [&]{ return mc::cat( "range(", a, ",", a + n, ") yields ", k, " items, ", bad, " of them wrong" ); } ); k = bad = 0;
        for ( double v : range( a * .25, a * .25 + n * ( s * .125 ), s * .125 ) ) { bad += v != a * .25 + double( k ) * ( s * .125 ); ++k; } m.check( k == n && !bad, "long", [&]{ return mc::cat( "real range from ", a * .25, " by ", s * .125, " yields ", k, " items of ", n, ", ", bad, " of them wrong" ); } );
        m.step( mc::u64( 2 * k ) );
    } );
    mc::explore( "more steps than a float can count", 1, []( mc::Ctx & m )
    {   // from below zero every value is a float, though the number of steps taken is not
        static const std::vector<double> step = { 1, 0.5, 0.0078125, 4096 }; const double s = m.pick( step ), q = m.choose( 3 ) * 0.25; const int above = 3 + 14 * m.choose( 2 ); m.state( mc::mix( mc::hash_double( s + q ), mc::u64( above ) ) );
        const float first = float( -16777216 * s ), last = float( ( above - q ) * s ); long k = 0, bad = 0; const long n = 16777216 + above, most = n + 40;
        for ( float v : range( first, last, float( s ) ) ) { bad += double( v ) != first + double( k ) * s; if ( ++k > most ) break; }
        m.step( mc::u64( k ) ); m.check( k == n && !bad, "many-steps", [&]{ return mc::cat( "float range(", first, ",", last, ",", s, ") yields ", k > most ? "more than " : "", k, " items of ", n, ", ", bad, " of them wrong" ); } );
        if ( s == 1 && q == 0 )
        {   // values get wider apart than the step: each to its nearest, and the end is reached
            const double t = above * 1e-7, end = t * 17500000.5; k = bad = 0; const double ft = float( t );
            for ( float v : range( 0.f, float( end ), float( t ) ) ) { const double e = double( k ) * ft; bad += std::fabs( v - e ) > 2.5e-7 * e; if ( ++k > 17500100 ) break; }
            m.step( mc::u64( k ) ); m.check( std::labs( k - 17500000 ) < 20 && !bad, "many-steps", [&]{ return mc::cat( "float range(0,", end, ",", t, ") yields ", k, " items of 17500000, ", bad, " of them wrong" ); } );
            k = bad = 0; for ( float v : range( first ).step( 1.f ) ) { bad += double( v ) != first + double( k ); if ( ++k >= n ) break; } m.check( k == n && !bad, "many-steps", [&]{ return mc::cat( "endless float range from ", first, ": ", bad, " of ", k, " values are wrong" ); } );
        }
    } );
    mc::explore( "first to last", 1, []( mc::Ctx & m )
    {
        int lim = m.thorough ? 120 : 40; int a = m.choose( 2 * lim + 1 ) - lim; int n = m.choose( 2 * lim + 1 );
        std::vector<int> want; for ( int v = a; v < a + n; ++v ) want.push_back( v );
        m.state( mc::mix( mc::u64( a + 1000 ), mc::u64( n ) ) );
        compare( m, range( a, a + n ), want, mc::cat( "range(", a, ",", a + n, ")" ) );
        std::vector<long> wl( want.begin(), want.end() ); compare( m, range( a, long( a + n ) ), wl, mc::cat( "range(", a, ",", a + n, "L)" ) );
        std::vector<double> wd( want.begin(), want.end() ); compare( m, range( a, double( a + n ) ), wd, mc::cat( "range(", a, ",", a + n, ".0)" ) );
        if ( a >= 0 && a + n < 128 ) { std::vector<unsigned> wu( want.begin(), want.end() ); compare( m, range( unsigned( a ), unsigned( a + n ) ), wu, mc::cat( "range(", a, "u,", a + n, "u)" ) );
                        std::vector<int> wc( want.begin(), want.end() ); compare( m, range( (signed char)( a ), (signed char)( a + n ) ), wc, mc::cat( "range of bytes(", a, ",", a + n, ")" ) ); }
    } );
    mc::explore( "first to last by step", 1, []( mc::Ctx & m )
    {
        int lim = m.thorough ? 60 : 20; int a = m.choose( 2 * lim + 1 ) - lim; int b = m.choose( 2 * lim + 1 ) - lim; int s = m.choose( lim ) + 1;
        std::vector<int> want; for ( int v = a; v < b; v += s ) want.push_back( v );
        m.state( mc::mix( mc::mix( mc::u64( a + 1000 ), mc::u64( b + 1000 ) ), mc::u64( s ) ) );
        compare( m, range( a, b, s ), want, mc::cat( "range(", a, ",", b, ",", s, ")" ) );
        std::vector<double> wd( want.begin(), want.end() ); compare( m, range( double( a ), b, s ), wd, mc::cat( "range(", a, ".0,", b, ",", s, ")" ) );
    } );
    mc::explore( "fractional steps", 1, []( mc::Ctx & m )
    {
        static const std::vector<double> step = { 0.5, 0.25, 0.1, 0.01, 1.0 / 3, 0.7, 1e-3 };
        double s = m.pick( step ); int a = m.choose( 5 ) - 2; int n = m.choose( m.thorough ? 200 : 40 ) * ( m.thorough ? 37 : 7 );
        double last = a + ( n + 0.5 ) * s;            // away from a rounding boundary: n + 1 items
        auto r = range( a, last, s ); int i = 0; bool ok = true; double worst = 0;
        for ( double v : r ) { double e = std::fabs( v - ( a + i * s ) ); worst = std::max( worst, e ); ok = ok && e <= 4e-16 * ( std::fabs( double( a ) ) + i * s + 1 ); ++i; if ( i > n + 5 ) break; }
        m.step( mc::u64( i ) ); m.state( mc::mix( mc::hash_double( s ), mc::u64( n ) ) );
        m.check( i == n + 1, "fraction-count", [&]{ return mc::cat( "range(", a, ",", last, ",", s, ") yields ", i, " items, expected ", n + 1 ); } );
        m.check( ok, "fraction-drift", [&]{ return mc::cat( "range(", a, ",", last, ",", s, ") is off by up to ", worst ); } );
        auto judge = [&]( char const * way, int count, double off ) { m.check( count == n + 1, "fraction-count", [&]{ return mc::cat( "range(", a, ",", last, ",", s, ") ", way, " yields ", count, " items, expected ", n + 1 ); } ); m.check( off <= 1, "fraction-drift", [&]{ return mc::cat( "range(", a, ",", last, ",", s, ") ", way, " drifts" ); } ); };
        auto off = [&]( double v, int k ) { return std::fabs( v - ( a + k * s ) ) / ( 4e-16 * ( std::fabs( double( a ) ) + k * s + 1 ) ); };
        { int k = 0; double w = 0; for ( auto it = r.begin(), end = r.end(); it != end && k <= n + 5; ++k ) w = std::max( w, off( *it++, k ) ); judge( "by post-increment", k, w ); }
        { int k = 0; double w = 0; for ( auto it = r.begin(), end = r.end(); !( it == end ) && k <= n + 5; ++k ) { w = std::max( w, off( *it, k ) ); if ( k % 3 ) it++; else it = ++it; auto other = it; ++other; other++; } judge( "by iterator copies", k, w ); }
        { int k = 0; double w = 0; auto e = range( double( a ) ).step( s ); auto it = e.begin(); for ( ; k <= n; ++k ) w = std::max( w, off( k % 2 ? *it++ : *it, k ) ), k % 2 ? it : ++it; judge( "without end", k, w ); }
        // floats, same thing (long runs show accumulated error)
        if ( n < 2000 ) { float fs = float( s ); auto rf = range( float( a ), float( last ), fs ); int k = 0; float wf = 0; for ( float v : rf ) { wf = std::max( wf, std::fabs( v - float( a + k * double( fs ) ) ) ); ++k; if ( k > n + 5 ) break; }
            m.step( mc::u64( k ) ); m.check( std::abs( k - ( n + 1 ) ) <= ( n > 1000 ) && wf <= 3e-7f * ( std::fabs( float( a ) ) + float( n ) * fs + 1 ), "fraction-drift", [&]{ return mc::cat( "float range(", a, ",", last, ",", fs, ") yields ", k, " items, expected ", n + 1, ", off by ", wf ); } ); }
    } );
    mc::explore( "exact steps", 1, []( mc::Ctx & m )
    {   // dyadic steps hit last exactly: last itself is excluded
        static const std::vector<double> step = { 0.5, 0.25, 0.125, 1, 2, 0.75 };
        double s = m.pick( step ); double a = ( m.choose( 9 ) - 4 ) * 0.25; int n = m.choose( 30 );
        std::vector<double> want; for ( int i = 0; i < n; ++i ) want.push_back( a + i * s );
        m.state( mc::mix( mc::hash_double( s + 100 ), mc::u64( n ) ) );
        compare( m, range( a, a + n * s, s ), want, mc::cat( "range(", a, ",", a + n * s, ",", s, ")" ) );
        std::vector<float> wf( want.begin(), want.end() ); compare( m, range( float( a ), float( a + n * s ), float( s ) ), wf, mc::cat( "float range(", a, ",", a + n * s, ",", s, ")" ) );
    } );
    mc::explore( "mixed types", 1, []( mc::Ctx & m )
    {   // whole and fractional bounds and steps of different types count in the type that holds them all
        int a = m.choose( 9 ) - 4; int n = m.choose( 13 ); double q = m.choose( 4 ) * 0.25; m.state( mc::mix( mc::u64( a + 100 ), mc::u64( n * 4 + q * 4 ) ) );
        auto list = []( double first, double last, double step ) { std::vector<double> w; for ( int i = 0; first + i * step < last; ++i ) w.push_back( first + i * step ); return w; };
        auto name = [&]( char const * t, double f, double l, double s ) { return mc::cat( t, " range(", f, ",", l, ",", s, ")" ); };
        double la = a + n + q, fa = a + q; int li = a + n;
        double lw = li, fw = a; auto by1 = list( a, li, 1 );       // without a step, last is a whole number of steps away
        compare( m, range( a, lw ), by1, name( "int, double:", a, lw, 1 ) ); compare( m, range( fw, li ), by1, name( "double, int:", fw, li, 1 ) );
        compare( m, range( a, float( lw ) ), by1, name( "int, float:", a, lw, 1 ) ); compare( m, range( float( fw ), li ), by1, name( "float, int:", fw, li, 1 ) );
        compare( m, range( float( fa ), fa + n ), list( fa, fa + n, 1 ), name( "float, double:", fa, fa + n, 1 ) ); compare( m, range( fa, float( fa + n ) ), list( fa, fa + n, 1 ), name( "double, float:", fa, fa + n, 1 ) );
        { long long c2 = 2147483640LL + a; std::vector<long long> y; for ( long long v = c2; v < c2 + 12; ++v ) y.push_back( v ); compare( m, range( int( c2 ), c2 + 12 ), y, "int, long long" ); }
        compare( m, range( a, la, 2 ), list( a, la, 2 ), name( "int, double, int:", a, la, 2 ) ); compare( m, range( fa, li, 2 ), list( fa, li, 2 ), name( "double, int, int:", fa, li, 2 ) );
        double s = q + 0.5; compare( m, range( a, li, s ), list( a, li, s ), name( "int, int, double:", a, li, s ) ); compare( m, range( a, li, float( s ) ), list( a, li, s ), name( "int, int, float:", a, li, s ) );
        compare( m, range( a, la, s ), list( a, la, s ), name( "int, double, double:", a, la, s ) ); compare( m, range( fa, li, s ), list( fa, li, s ), name( "double, int, double:", fa, li, s ) ); compare( m, range( fa, la, 2 ), list( fa, la, 2 ), name( "double, double, int:", fa, la, 2 ) );
        // beyond what the narrower type can hold
        int b = 30000 + a; std::vector<int> w; for ( int v = b; v < b + 5000; v += 250 ) w.push_back( v ); compare( m, range( short( b ), b + 5000, 250 ), w, "short, int" ); compare( m, range( short( b ), b + 5000, short( 250 ) ), w, "short, int, short" );
        long long c = 2147483000LL + a; std::vector<long long> x; for ( long long v = c; v < c + 2000; v += 100 ) x.push_back( v ); compare( m, range( int( c ), c + 2000, 100 ), x, "int, long long" );
    } );
    mc::explore( "without end", 1, []( mc::Ctx & m )
    {
        int a = m.choose( 41 ) - 20; int s = m.choose( 9 ); int n = m.thorough ? 100000 : 3000;
        auto judge = [&]( auto const & r, double first, double st, char const * what ) { int i = 0; bool ok = true; for ( auto v : r ) { ok = ok && double( v ) == first + st * i; if ( ++i == n ) break; } m.step( mc::u64( i ) ); m.check( ok && i == n, "infinite", [&]{ return mc::cat( what, " from ", first, " by ", st, ": ended or went wrong within ", i ); } ); };
        m.state( mc::mix( mc::u64( a + 100 ), mc::u64( s ) ) );
        if ( s == 0 ) { judge( range( a ), a, 1, "range" ); judge( range( double( a ) ), a, 1, "real range" ); }
        else { judge( range( a ).step( s ), a, s, "stepped range" ); judge( range( a * 0.5 ).step( s * 0.25 ), a * 0.5, s * 0.25, "real stepped range" ); judge( range( a ).step( 7 ).step( s ), a, s, "re-stepped range" ); }
    } );
)
