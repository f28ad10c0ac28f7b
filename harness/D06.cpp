// D06: the ready-made low- and high-pass filters stream the design they are named after, each instance on its own.
#include "magnitudes.hpp"
template< typename T > Coef ideal( bool high, ld f, ld fs, ld Q )
{
    ld K = std::tan( PI_L * f / fs ), n = 1 / ( 1 + K / Q + K * K ), b0 = ( high ? 1 : K * K ) * n;
    return { double( b0 ), double( ( high ? -2 : 2 ) * b0 ), double( b0 ), double( 2 * ( K * K - 1 ) * n ), double( ( 1 - K / Q + K * K ) * n ) };
}
template< typename T > struct Both
{   // the filter under test, low or high, with its reference
    bool high; dsp::Lpf<T> lo; dsp::Hpf<T> hi; Difference<ld> ref;
    Both( bool h, double f, double fs, double Q ) : high( h ), lo( T( f ), T( fs ), T( Q ) ), hi( T( f ), T( fs ), T( Q ) ) { Coef c = ideal<T>( h, T( f ), T( fs ), T( Q ) ); ref.c = { c.b0, c.b1, c.b2, c.a1, c.a2 }; }
    double step( double x ) { return high ? double( hi( T( x ) ) ) : double( lo( T( x ) ) ); }
};
template< typename T >
void streams( mc::Ctx & c, char const * t, ld tol )
{
    mc::explore( mc::cat( "two filters, interleaved ", t ), 2, [&]( mc::Ctx & m )
    {
        static const double fr[] = { 0.01, 0.1, 0.25, 0.4 }, Qs[] = { 0.5, 0.70710678118654752, 4 }, in[] = { 1, -1, 0 };
        double f = fr[ m.choose( 4 ) ], Q = Qs[ m.choose( 3 ) ]; int h = m.choose( 2 );
        Both<T> a( h, f * 1000, 1000, Q ), b( m.choose( 2 ), 0.2, 1, 1 );
        std::string hist; int len = m.thorough ? 7 : 6;
        for ( int n = 0; n < len; ++n )
        {
            int k = m.choose( 2 ); double x = in[ m.choose( 3 ) ]; hist += mc::cat( " ", "ab"[k], x );
            Both<T> & u = k ? b : a; ld y = u.ref.step( x ); double g = u.step( x ); m.step(); m.state( mc::mix( mc::hash_double( double( y ) ), mc::u64( k ) ) );
            m.check( close( g, y, tol ), "stream", [&]{ return mc::cat( t, " f/fs=", f, " Q=", Q, h ? " high" : " low", " after", hist, ": ", g, " expected ", double( y ) ); } );
        }
        Both<T> cp( b ); ld y = Difference<ld>( b.ref ).step( 1 ); double g = cp.step( 1 ); m.check( close( g, y, tol ), "copy", [&]{ return mc::cat( t, " copy after", hist, ": ", g, " expected ", double( y ) ); } );
        g = b.step( 1 ); m.check( close( g, b.ref.step( 1 ), tol ), "copy-original", [&]{ return mc::cat( t, " original after copying", hist, ": ", g ); } );
        m.sample( [&]{ return hist; } );
    } );
    mc::explore( mc::cat( "what passes and what does not ", t ), 1, [&]( mc::Ctx & m )
    {
        static const std::vector<double> fr = { 0.005, 0.02, 0.1, 0.2, 0.25, 0.3, 0.4, 0.45 }, Qs = { 0.5, 0.70710678118654752, 1, 3 }, rate = { 1, 48000 }; double f = m.pick( fr ), Q = m.pick( Qs ), fs = m.pick( rate ); bool high = m.choose( 2 );
        auto ends = [&]( ld at, ld want )
        {   // amplitude of the last 1000 samples at that frequency (a whole number of periods)
            Both<T> u( high, f * fs, fs, Q ); ld re = 0, im = 0; int n = m.thorough ? 40000 : 12000;
            for ( int i = 0; i < n; ++i ) { ld ph = 2 * PI_L * std::fmod( at * i, 1.0L ); double y = u.step( double( std::cos( ph ) ) ); if ( i >= n - 1000 ) { re += y * std::cos( ph ); im += y * std::sin( ph ); } }
            m.step( mc::u64( n ) ); ld g = std::hypot( re, im ) / ( at == 0 || at == 0.5L ? 1000 : 500 ); m.state( mc::mix( 4, mc::hash_double( double( g ) ) ) );
            m.check( std::fabs( g - want ) < ( sizeof(T) == 4 ? 5e-3L : 1e-7L ), "pass", [&]{ return mc::cat( t, high ? " high" : " low", " pass f/fs=", f, " Q=", Q, ": amplitude ", double( g ), " at ", double( at ), " expected ", double( want ) ); } );
        };
        ends( 0, high ? 0 : 1 ); ends( 0.5L, high ? 1 : 0 ); ends( f, Q );
    } );
}
// the unit of the signal and the unit of time do not matter: powers of two scale exactly
template< typename T >
void units( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "units ", t ), 2, [&]( mc::Ctx & m )
    {
        static const double fr[] = { 0.01, 0.1, 0.25, 0.4 }, Qs[] = { 0.5, 0.70710678118654752, 4 }, in[] = { 1, 0, -3 };
        double f = fr[ m.choose( 4 ) ], Q = Qs[ m.choose( 3 ) ]; bool h = m.choose( 2 ), time = m.choose( 2 ); int e = m.pick( sizes<T>() );
        Both<T> a( h, f * 1000, 1000, Q ), s( h, time ? std::ldexp( f * 1000, e ) : f * 1000, time ? std::ldexp( 1000, e ) : 1000, Q );
        for ( int n = 0; n < 6; ++n )
        {
            double x = in[ m.choose( n ? 3 : 2 ) ], g = a.step( x ), r = s.step( time ? x : std::ldexp( x, e ) ), want = time ? g : std::ldexp( g, e ); m.step( 2 ); m.state( mc::mix( mc::hash_double( r ), mc::u64( time ) ) );
            m.check( r == want, "unit", [&]{ return mc::cat( t, " f/fs=", f, " Q=", Q, h ? " high" : " low", " with the unit of ", time ? "time" : "the signal", " changed by 2^", e, ", output ", n, ": ", r, " expected ", want ); } );
        }
        m.sample( [&]{ return mc::cat( "f/fs=", f, " 2^", e ); } );
    } );
}
// long runs, extreme designs and many filters at once
template< typename T >
void longer( mc::Ctx & c, char const * t, ld tol )
{
    mc::explore( mc::cat( "long runs ", t ), 2, [&]( mc::Ctx & m )
    {
        static const std::vector<double> fr = { 0.002, 0.01, 0.1, 0.25, 0.3, 0.4, 0.49 }, Qs = { 0.02, 0.1, 0.5, 0.70710678118654752, 4, 30 }; static const int lens[] = { 300, 1100, 5000, 70000 };
        double f = m.pick( fr ), Q = m.pick( Qs ); bool h = m.choose( 2 ); int pattern = m.choose( 4 ), len = lens[ m.choose( 4 ) ]; if ( len > 5000 && !m.thorough && ( f != 0.1 || Q > 4 || Q < 0.6 ) ) throw mc::Prune{};
        if ( sizeof(T) == 4 && ( f < 0.1 || f > 0.35 || Q > 5 || Q < 0.5 ) ) throw mc::Prune{};             // rounding dominates
        Both<T> a( h, f * 48000, 48000, Q ), o( !h, 0.2, 1, 1 ); ld most = 1;
        for ( int n = 0; n < len; ++n )
        {
            double x = pattern == 0 ? 1 : pattern == 1 ? ( n % 2 ? -1 : 1 ) : pattern == 2 ? double( n == 0 ) : n % 500 == 3 ? 2.5 : n > len / 2 ? 0.0 : 0.125 * ( n % 7 );
            ld y = a.ref.step( x ); double g = a.step( x ); m.step(); most = std::max( most, std::fabs( y ) ); if ( n % 3 == 0 ) o.step( 100 );
            m.check( close( g, y, tol * most * ( f < 0.1 ? 1e3L : 1 ) * std::max<ld>( 1, Q ) ), "long", [&]{ return mc::cat( t, " f/fs=", f, " Q=", Q, h ? " high" : " low", " pattern ", pattern, ", output ", n, ": ", g, " expected ", double( y ) ); } );
        }
        Both<T> cp( a ), as( h, 0.3, 1, 2 ); // copies made late, and what happens to one is nothing to the other
        double g = cp.step( 1 ); a.step( 7 ); ld y = cp.ref.step( 1 ); m.check( close( g, y, tol * most * ( f < 0.1 ? 1e3L : 1 ) * std::max<ld>( 1, Q ) ), "late-copy", [&]{ return mc::cat( t, " f/fs=", f, " Q=", Q, h ? " high" : " low", ": a copy after ", len, " inputs gives ", g, " expected ", double( y ) ); } );
        m.state( mc::mix( mc::hash_double( f + 3 * Q ), mc::u64( ( len * 4 + pattern ) * 2 + h ) ) );
    } );
    mc::explore( mc::cat( "many filters ", t ), 1, [&]( mc::Ctx & m )
    {
        static const int ns[] = { 2, 3, 5, 9, 17, 33, 65, 130, 300 }; int n = ns[ m.choose( 9 ) ], same = m.choose( 3 ), order = m.choose( 2 ), len = 6;
        std::vector<Both<T>> v; for ( int i = 0; i < n; ++i ) v.emplace_back( same == 2 ? i & 1 : i % 3 == 0, same ? 100 : 10 + i % 97 * 4, 1000, same ? 0.75 : 0.5 + i % 13 * 0.25 );
        auto go = [&]( int i, int j ) { double x = ( i * 7 + j * 3 ) % 11 - 5, g = v[i].step( x ); ld y = v[i].ref.step( x ); m.step(); m.check( close( g, y, tol * 100 ), "many", [&]{ return mc::cat( t, " filter ", i, " of ", n, ", output ", j, ": ", g, " expected ", double( y ) ); } ); };
        if ( order ) for ( int j = 0; j < len; ++j ) for ( int i = 0; i < n; ++i ) go( i, j ); else for ( int i = n - 1; i >= 0; --i ) for ( int j = 0; j < len; ++j ) go( i, j );
        m.state( mc::u64( n * 6 + same * 2 + order ) );
    } );
}
MC_MAIN( auto & c = mc::ctx(); streams<double>( c, "double", 1e-12L ); streams<float>( c, "float", 2e-5L ); longer<double>( c, "double", 1e-11L ); longer<float>( c, "float", 2e-5L ); units<double>( c, "double" ); units<float>( c, "float" ); )
