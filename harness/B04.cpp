// B04: the reported frequency response is what the running filter does to a sinusoid.
#include "dsp_common.hpp"

template< typename T >
void formula( mc::Ctx & c, char const * t )
{
    static const std::vector<Coef> bases = { { 1, 0, 0, 0, 0 }, { 0.5, -1, 1.5, -0.5, 0.5 }, { 0.25, 0.5, 0.25, 1, -0.25 } };
    static const std::vector<double> values = { 0, 1, -0.5, 2, 0.75 };
    mc::explore( mc::cat( "transfer function on the unit circle ", t ), 2, [&]( mc::Ctx & m )
    {
        Coef k = family( m, bases, m.thorough ? 3 : 2, values );
        auto q = biquad<T>( k );
        static const double near[] = { 1e-3, 1e-5, 1e-8, 0.4999, 0.50001, -1e-4, 1.125, -3.25 };
        for ( int i = -16; i < 57; ++i )
        {
            ld f = i <= 48 ? i / 64.0L : T( near[ i - 49 ] );
            if ( denominator( k, f ) < 1e-3L ) continue;
            std::complex<double> g( response( q, T( f ) ) ); cld w = transfer( k, f );
            ld tol = ( sizeof(T) == 4 ? 3e-5L : 1e-12L ) * ( 1 + std::abs( w ) ) / std::min<ld>( 1, denominator( k, f ) );
            m.step(); m.state( mc::mix( mc::hash_double( double( w.real() ) ), mc::hash_double( double( w.imag() ) ) ) );
            m.check( close( g.real(), w.real(), tol ) && close( g.imag(), w.imag(), tol ), "response", [&]{ return mc::cat( t, " ", show( k ), " at ", double( f ), ": ", g, " expected ", w ); } );
        }
        m.sample( [&]{ return show( k ); } );
    } );
}

// run the filter: steady-state output for a sinusoid, every phase of the period compared
void running( mc::Ctx & c )
{
    mc::explore( "running filter against reported response", 2, [&]( mc::Ctx & m )
    {
        static const double rad[] = { 0, 0.5, 0.875 }, cs[] = { 1, 0.25, -0.75 };
        double r = rad[ m.choose( 3 ) ], co = cs[ m.choose( 3 ) ];
        static const double bs[][3] = { { 1, 0, 0 }, { 0.25, 0.5, 0.25 }, { 1, -2, 1 }, { 0.5, 0, -0.75 }, { 0, 0, 1 } };
        auto b = bs[ m.choose( 5 ) ]; Coef k{ b[0], b[1], b[2], -2 * r * co, r * r };
        int period = m.choose( m.thorough ? 24 : 12 ) + 1, cyc = m.choose( 1 + period / 2 ), form = m.choose( 2 );
        auto q = biquad<double>( k ); const int steps = 600;
        auto H = response( q, double( cyc ) / period );
        for ( int n = 0; n < steps + period; ++n )
        {
            double x = std::cos( 2 * M_PI * double( cyc * n % period ) / period );
            double y = form ? q.step_df2_transposed( x ) : q.step( x );
            m.step();
            if ( n < steps ) continue;
            double want = std::real( H * std::polar( 1.0, 2 * M_PI * double( cyc * n % period ) / period ) );
            m.state( mc::hash_double( want ) );
            m.check( std::fabs( y - want ) < 1e-9 * ( 1 + std::abs( H ) ), "sinusoid", [&]{ return mc::cat( show( k ), " ", cyc, "/", period, " output ", y, " predicted from the response ", want ); } );
        }
    } );
}

MC_MAIN( auto & c = mc::ctx(); formula<double>( c, "double" ); formula<float>( c, "float" ); running( c ); )
