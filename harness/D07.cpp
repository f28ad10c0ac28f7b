// D07: decibel and frequency conversions.
#include "dsp_common.hpp"
MC_MAIN(
    mc::explore( "decibels to factors and back", 1, []( mc::Ctx & m )
    {
        double db = m.choose( m.thorough ? 24001 : 2401 ) / ( m.thorough ? 200.0 : 20.0 ); m.step( 6 ); m.state( mc::hash_double( db ) );
        auto rel = []( double g, ld w, ld tol ) { return std::fabs( ld( g ) - w ) <= tol * std::fabs( w ); };
        ld P = std::pow( 10.0L, ld( db ) / 10 ); ld V = std::pow( 10.0L, ld( db ) / 20 );
        m.check( rel( dsp::dbP_factor( db ), P, 1e-13L ) && rel( dsp::dbP_factor( -db ), P, 1e-13L ), "power-factor", [&]{ return mc::cat( db, " dB as a power factor: ", dsp::dbP_factor( db ), " expected ", double( P ) ); } );
        m.check( rel( dsp::dbV_factor( db ), V, 1e-13L ) && rel( dsp::dbV_factor( -db ), V, 1e-13L ), "amplitude-factor", [&]{ return mc::cat( db, " dB as an amplitude factor: ", dsp::dbV_factor( db ), " expected ", double( V ) ); } );
        m.check( rel( dsp::dbV_factor( float( db ) ), std::pow( 10.0L, ld( float( db ) ) / 20 ), 3e-6L ) && rel( dsp::dbP_factor( float( db ) ), std::pow( 10.0L, ld( float( db ) ) / 10 ), 6e-6L ), "float-factor", [&]{ return mc::cat( db, " dB: ", dsp::dbV_factor( float( db ) ) ); } );
        m.check( std::fabs( dsp::dbV( dsp::dbV_factor( db ), 1 ) - db ) < 1e-10 && std::fabs( dsp::dbP( dsp::dbP_factor( db ), 1 ) - db ) < 1e-10, "factor-round-trip", [&]{ return mc::cat( db, " dB comes back as ", dsp::dbV( dsp::dbV_factor( db ), 1 ), " and ", dsp::dbP( dsp::dbP_factor( db ), 1 ) ); } );
        m.sample( [&]{ return mc::cat( db ); } );
    } );
    mc::explore( "ratios to decibels", 1, []( mc::Ctx & m )
    {
        double a = std::exp2( ( m.choose( 81 ) - 40 ) / 2.0 ); double b = std::exp2( ( m.choose( 41 ) - 20 ) / 2.0 ); m.step( 4 ); m.state( mc::mix( mc::hash_double( a ), mc::hash_double( b ) ) );
        ld w = 10 * std::log10( ld( a ) / ld( b ) );
        m.check( std::fabs( dsp::dbP( a, b ) - w ) < 1e-11 && std::fabs( dsp::dbV( a, b ) - 2 * w ) < 1e-11, "ratio", [&]{ return mc::cat( a, "/", b, ": ", dsp::dbP( a, b ), " and ", dsp::dbV( a, b ), " dB" ); } );
        m.check( std::fabs( dsp::dbP( float( a ), float( b ) ) - w ) < 1e-3 && std::fabs( dsp::dbV( float( a ), float( b ) ) - 2 * w ) < 1e-3, "ratio-float", [&]{ return mc::cat( a, "/", b, ": ", dsp::dbP( float( a ), float( b ) ) ); } );
        int i = m.choose( 20 ) + 1; for ( int j = 1; j <= 20; ++j ) m.check( std::fabs( dsp::dbV( i, j ) - 20 * std::log10( double( i ) / j ) ) < 1e-4 && std::fabs( dsp::dbP( i, j ) - 10 * std::log10( double( i ) / j ) ) < 1e-4, "ratio-int", [&]{ return mc::cat( i, "/", j, ": ", dsp::dbV( i, j ), " ", dsp::dbP( i, j ) ); } );
        m.check( std::fabs( dsp::dbV( i, 1 ) - 20 * std::log10( double( i ) ) ) < 1e-4 && std::fabs( dsp::dbP( i, 1 ) - 10 * std::log10( double( i ) ) ) < 1e-4, "ratio-int", [&]{ return mc::cat( i, ": ", dsp::dbV( i, 1 ) ); } );
    } );
    mc::explore( "far ends", 1, []( mc::Ctx & m )
    {   // very large and very small powers, and decibels next to nothing
        int i = m.choose( 121 ) - 60, j = m.choose( 121 ) - 60; double a = std::ldexp( 1.25, 7 * i ), b = std::ldexp( 1, 7 * j ); m.step( 2 ); m.state( mc::mix( mc::hash_double( a ), mc::hash_double( b ) ) );
        ld w = 10 * std::log10( ld( a ) / ld( b ) ); m.check( std::fabs( dsp::dbP( a, b ) - w ) < 1e-12L * ( 10 + std::fabs( w ) ) && std::fabs( dsp::dbV( a, b ) - 2 * w ) < 2e-12L * ( 10 + std::fabs( w ) ), "ratio", [&]{ return mc::cat( a, "/", b, ": ", dsp::dbP( a, b ), " and ", dsp::dbV( a, b ), " dB" ); } );
        if ( j == 0 )
        {
            double db = i == 0 ? 0 : i < 0 ? std::ldexp( 1, i ) : 40.0 * i; ld P = std::pow( 10.0L, ld( db ) / 10 ), V = std::pow( 10.0L, ld( db ) / 20 ); m.step( 2 );
            m.check( std::fabs( dsp::dbP_factor( db ) - P ) <= 1e-13L * ( 1 + db ) * P && std::fabs( dsp::dbV_factor( db ) - V ) <= 1e-13L * ( 1 + db ) * V, "far-factor", [&]{ return mc::cat( db, " dB: ", dsp::dbP_factor( db ), " and ", dsp::dbV_factor( db ) ); } );
        }
    } );
    mc::explore( "pre-warping", 1, []( mc::Ctx & m )
    {
        static const std::vector<double> rate = { 1, 100, 48000, 0.01, 1e9, 1e-6 }; double fs = m.pick( rate ); int at = m.choose( 503 ); static const double low[] = { 1e-4, 1e-6, 1e-9, 0.4999 }; double f = at < 499 ? at / 1000.0 : low[ at - 499 ]; m.step( 3 ); m.state( mc::mix( 5, mc::hash_double( f ) ) );
        ld w = std::tan( PI_L * ld( f * fs ) / ld( fs ) ); double g = dsp::prewarp( f * fs, fs );
        m.check( std::fabs( g - w ) <= 1e-12L * ( w + w * w ), "prewarp", [&]{ return mc::cat( f * fs, " of ", fs, ": ", g, " expected ", double( w ) ); } );
        m.check( std::fabs( dsp::prewarp( float( f ), 1.0f ) - std::tan( PI_L * ld( float( f ) ) ) ) <= 1e-6L * ( 1 + w * w ), "prewarp-float", [&]{ return mc::cat( f, ": ", dsp::prewarp( float( f ), 1.0f ) ); } );
        {   // parameters of different types: as precise as the wider one
            float ff = float( f ); ld wf = std::tan( PI_L * ld( ff ) ), wr = std::tan( PI_L * ld( f ) / 3 ); double g1 = dsp::prewarp( ff, 1.0 ), g2 = dsp::prewarp( f, 3.0f ), g3 = dsp::prewarp( f, 3 );
            m.check( std::fabs( g1 - wf ) <= 1e-12L * ( 1 + wf * wf ) && std::fabs( g2 - wr ) <= 1e-12L * ( 1 + wr * wr ) && std::fabs( g3 - wr ) <= 1e-12L * ( 1 + wr * wr ), "prewarp-mixed", [&]{ return mc::cat( f, ": ", g1, " ", g2, " ", g3, " expected ", double( wf ), " ", double( wr ) ); } );
        }
        int i = m.choose( 49 ); m.check( std::fabs( dsp::prewarp( i, 100 ) - std::tan( M_PI * i / 100 ) ) <= 1e-5 * ( 1 + std::pow( std::tan( M_PI * i / 100 ), 2 ) ), "prewarp-int", [&]{ return mc::cat( i, "/100: ", dsp::prewarp( i, 100 ) ); } );
    } );
)
