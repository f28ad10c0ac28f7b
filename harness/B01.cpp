// B01: every realization of a biquad computes the difference equation of its coefficients, for every input sequence.
#include "dsp_common.hpp"
#include "magnitudes.hpp"
#include "num/fixed-point.hpp"

static const std::vector<Coef> bases = { { 1, 0, 0, 0, 0 }, { 0.5, -1, 1.5, -0.5, 0.5 }, { 0, 1, 0, 1, -1 }, { 1, 2, 1, -1.5, 0.5 } };
static const std::vector<double> values = { 0, 1, -1, 0.5, -2, 1.5 };

template< typename T > double todbl( T x ) { return double( x ); }
template< typename T, int I, int F > double todbl( num::fixed_point<T,I,F> x ) { return x.as_double(); }

// short sequences, where every intermediate value is exactly representable: exact comparison
template< typename T, typename S >
void exact( mc::Ctx & c, char const * t, bool integral, double limit, int len, int dev )
{
    mc::explore( mc::cat( "difference equation ", t ), 2, [&]( mc::Ctx & m )
    {
        Coef k = family( m, bases, dev, values );
        if ( integral ) for ( double v : { k.b0, k.b1, k.b2, k.a1, k.a2 } ) if ( v != std::floor( v ) ) throw mc::Prune{};
        using Q = dsp::BiQuadT<T,S>;
        Q q0 = biquad<T,S>( k ), q1 = q0, q2 = q0;
        Difference<double> ref{ k }, inner{ { 1, 0, 0, k.a1, k.a2 } };
        static const double in[3] = { 1, 0, -3 };
        std::string h;
        for ( int n = 0; n < len; ++n )
        {
            double x = in[ m.choose( 3 ) ];
            double y = ref.step( x ), w = inner.step( x );
            if ( std::fabs( y ) > limit || std::fabs( w ) > limit ) throw mc::Prune{};
            double g0 = todbl( q0.step( T( x ) ) ), g1 = todbl( q1.step_df2( T( x ) ) ), g2 = todbl( q2.step_df2_transposed( T( x ) ) );
            m.step( 3 ); m.state( mc::mix( mc::hash_double( y ), mc::hash_double( w ) ) );
            auto d = [&]( char const * f, double g ) { return mc::cat( f, " ", t, ": ", show( k ), ": output ", n, " is ", g, " expected ", y ); };
            m.check( g0 == y, "step", [&]{ return d( "step", g0 ); } );
            m.check( g1 == y, "step-df2", [&]{ return d( "direct form 2", g1 ); } );
            m.check( g2 == y, "step-df2-transposed", [&]{ return d( "transposed direct form 2", g2 ); } );
        }
        m.sample( [&]{ return mc::cat( show( k ), " last output ", ref.y1 ); } );
    } );
}

// long runs of stable filters under every short periodic input, against the recursion in extended precision
template< typename T >
void longrun( mc::Ctx & c, char const * t, double tol )
{
    mc::explore( mc::cat( "long runs ", t ), 2, [&]( mc::Ctx & m )
    {
        static const double radius[] = { 0, 0.5, 0.9, 0.984375 }; static const double cosine[] = { 1, 0.5, 0, -0.875 };
        double r = radius[ m.choose( 4 ) ], cs = cosine[ m.choose( 4 ) ];
        static const double bs[][3] = { { 1, 0, 0 }, { 0.25, 0.5, 0.25 }, { 1, -2, 1 }, { 0, 0, -0.75 } };
        auto b = bs[ m.choose( 4 ) ];
        Coef k{ b[0], b[1], b[2], double( T( -2 * r * cs ) ), double( T( r * r ) ) };
        double in[3]; int period = m.choose( 3 ) + 1; for ( int i = 0; i < period; ++i ) in[i] = m.choose( 3 ) - 1;
        const int steps = b == bs[0] && r == 0.9 && period == 3 && in[0] == 1 && in[1] == 0 ? 70000 : m.thorough ? 20000 : 1500;
        auto q0 = biquad<T>( k ), q1 = q0, q2 = q0; Difference<ld> ref{ { k.b0, k.b1, k.b2, k.a1, k.a2 } };
        for ( int n = 0; n < steps; ++n )
        {
            ld y = ref.step( in[ n % period ] );
            double g0 = q0.step( T( in[ n % period ] ) ), g1 = q1.step_df2( T( in[ n % period ] ) ), g2 = q2.step_df2_transposed( T( in[ n % period ] ) );
            m.step( 3 );
            ld lim = tol / ( ( 1 - r ) * ( 1 - r ) * ( 1 - r ) );
            if ( n % 100 == 0 ) m.state( mc::hash_double( double( y ) ) );
            m.check( close( g0, y, lim ) && close( g1, y, lim ) && close( g2, y, lim ), "long-run", [&]{ return mc::cat( t, " ", show( k ), " step ", n, ": ", g0, " ", g1, " ", g2, " expected ", double( y ) ); } );
        }
    } );
}

// only numerator coefficients given: a pure finite response
template< typename T >
void fir( mc::Ctx & c )
{
    mc::explore( "no recursive part", 1, [&]( mc::Ctx & m )
    {
        using Q = dsp::BiQuadT<T>;
        double b[3]; for ( auto & v : b ) v = m.pick( values );
        Q q0( typename Q::B{ T( b[0] ), T( b[1] ), T( b[2] ) } ), q2 = q0; Q z; Difference<double> ref{ { b[0], b[1], b[2], 0, 0 } };
        for ( int n = 0; n < 6; ++n )
        {
            double x = n < 4 ? m.choose( 3 ) - 1 : 0, y = ref.step( x );
            double g0 = q0.step( T( x ) ), g2 = q2.step_df2_transposed( T( x ) ), gz = z.step( T( x ) );
            m.step( 3 ); m.state( mc::mix( 77, mc::hash_double( y ) ) );
            m.check( g0 == y && g2 == y && gz == 0, "fir", [&]{ return mc::cat( "b=", b[0], ",", b[1], ",", b[2], " step ", n, ": ", g0, ",", g2, " expected ", y, "; default filter gives ", gz ); } );
        }
    } );
}

// complex signals and coefficients: a rotating input through rotated coefficients is the real recursion, rotated
inline void complexes( mc::Ctx & c )
{
    mc::explore( "difference equation, complex", 2, [&]( mc::Ctx & m )
    {
        using Z = std::complex<double>; using Q = dsp::BiQuadT<Z>;
        static const std::vector<Z> val = { 0, 1, { 0, 1 }, { -1, 0.5 }, { 0.5, -2 } };
        Z k[5] = { { 1, 1 }, 0, { 0, -1 }, { 0.5, 0 }, { 0, 0.5 } };
        int from = 0; for ( int n = 0; n < 2 && from < 5; ++n ) { int i = m.choose( 6 - from ); if ( !i ) break; Z v = m.pick( val ); if ( v == k[ from + i - 1 ] ) throw mc::Prune{}; k[ from + i - 1 ] = v; from += i; }
        Q q0( typename Q::B{ k[0], k[1], k[2] }, typename Q::A{ k[3], k[4] } ), q1 = q0, q2 = q0;
        Z x1, x2, y1, y2; static const Z in[3] = { { 1, 0 }, { 0, 0 }, { -3, 1 } };
        for ( int n = 0; n < 5; ++n )
        {
            Z x = in[ m.choose( 3 ) ], y = k[0] * x + k[1] * x1 + k[2] * x2 - k[3] * y1 - k[4] * y2; x2 = x1; x1 = x; y2 = y1; y1 = y;
            Z g0 = q0.step( x ), g1 = q1.step_df2( x ), g2 = q2.step_df2_transposed( x ); m.step( 3 ); m.state( mc::mix( mc::hash_double( y.real() ), mc::hash_double( y.imag() ) ) );
            m.check( g0 == y && g1 == y && g2 == y, "step-complex", [&]{ return mc::cat( "coefficients ", k[0], k[1], k[2], k[3], k[4], " output ", n, ": ", g0, " ", g1, " ", g2, " expected ", y ); } );
        }
    } );
}

// signals and gains of every size: the output scales with them exactly; coefficients of every size
template< typename T >
void magnitudes( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "sizes ", t ), 2, [&]( mc::Ctx & m )
    {
        Coef k = family( m, bases, m.thorough ? 2 : 1, values ), s = k; bool gain = m.choose( 2 ); int e = m.pick( sizes<T>() );
        if ( gain ) { s.b0 = std::ldexp( s.b0, e ); s.b1 = std::ldexp( s.b1, e ); s.b2 = std::ldexp( s.b2, e ); }
        auto q0 = biquad<T>( k ), q1 = q0, q2 = q0, s0 = biquad<T>( s ), s1 = s0, s2 = s0; static const double in[3] = { 1, 0, -3 };
        for ( int n = 0; n < 4; ++n )
        {
            T x = T( in[ m.choose( 3 ) ] ), xs = gain ? x : T( std::ldexp( x, e ) );
            T g[3] = { q0.step( x ), q1.step_df2( x ), q2.step_df2_transposed( x ) }, h[3] = { s0.step( xs ), s1.step_df2( xs ), s2.step_df2_transposed( xs ) };
            m.step( 6 ); m.state( mc::mix( mc::hash_double( h[0] ), mc::u64( gain ) ) );
            for ( int i = 0; i < 3; ++i ) m.check( h[i] == T( std::ldexp( g[i], e ) ), "scale", [&]{ return mc::cat( t, " ", show( k ), ": with ", gain ? "gain" : "input", " times 2^", e, ", output ", n, " of realization ", i, " is ", h[i], ", without ", g[i] ); } );
        }
        m.sample( [&]{ return mc::cat( show( k ), " 2^", e ); } );
    } );
    mc::explore( mc::cat( "coefficient sizes ", t ), 2, [&]( mc::Ctx & m )
    {
        Coef k = family( m, bases, 2, coefficients<T>() ); auto q0 = biquad<T>( k ), q1 = q0, q2 = q0; Majorant r( k ); static const double in[3] = { 1, 0, -3 };
        for ( int n = 0; n < 4; ++n )
        {
            double x = n < 3 ? in[ m.choose( n ? 3 : 2 ) ] : 0; r.step( x );
            T g[3] = { q0.step( T( x ) ), q1.step_df2( T( x ) ), q2.step_df2_transposed( T( x ) ) };
            m.step( 3 ); m.state( mc::hash_double( double( r.y ) ) );
            for ( int i = 0; i < 3; ++i ) m.check( r.near<T>( g[i] ), "coefficient-size", [&]{ return mc::cat( t, " ", show( k ), ": output ", n, " of realization ", i, " is ", g[i], " expected ", double( r.y ) ); } );
        }
    } );
}

MC_MAIN(
    auto & c = mc::ctx(); int d = c.thorough ? 4 : 3;
    exact<double,double>( c, "double", false, 1e9, c.thorough ? 7 : 6, d );
    exact<float,float>( c, "float", false, 30000, 5, d );
#ifndef PLAIN_TYPES
    exact<int,int>( c, "int", true, 1e6, 6, 3 );
    exact<double,float>( c, "double with float coefficients", false, 1e9, 5, 2 );
    exact<num::fixed_point<std::int32_t,16>,num::fixed_point<std::int32_t,16>>( c, "fixed point 16.15", false, 4000, 5, d );
    complexes( c );
#endif
    magnitudes<double>( c, "double" ); magnitudes<float>( c, "float" );
    longrun<double>( c, "double", 1e-12 ); longrun<float>( c, "float", 1e-4 );
    fir<double>( c ); 
)
