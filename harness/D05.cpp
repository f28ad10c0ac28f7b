// D05: one-pole designs: unity at the end they pass, monotone towards the end they attenuate, high pass the mirror of low pass,
// the knee moving with the requested frequency.
#include "dsp_common.hpp"
#include "dsp/onepole-design.hpp"
#include "dsp/onepole-io.hpp"
using dsp::FilterResponse;

static ld mag( double b0, double a1, ld g ) { return std::abs( transfer( { b0, 0, 0, a1, 0 }, g ) ); }

template< FilterResponse R, typename F, typename S >
void judge( mc::Ctx & m, F f, S fs, char const * t )
{
    const bool high = R == FilterResponse::high_pass;
    auto co = dsp::onepole_design<R>( f, fs ); auto q = dsp::make_onepole( co ); using T = typename decltype( co )::value_type;
    double b0 = q.coeff_b().b0, a1 = q.coeff_a().a1; ld tol = sizeof(T) == 4 ? 1e-5L : 1e-11L;
    auto in = [&]{ return mc::cat( high ? "high" : "low", " pass ", t, " f=", f, " fs=", fs, " b0=", b0, " a1=", a1 ); };
    m.step(); m.state( mc::mix( mc::hash_double( b0 ), mc::hash_double( a1 ) ) );
    m.check( co.b.b0 == q.coeff_b().b0 && co.a.a1 == q.coeff_a().a1 && q.state().v1 == T(0), "make-onepole", in );
    m.check( std::fabs( a1 ) < 1 && q.is_stable() && std::abs( std::complex<double>( q.poles().s0 ) ) < 1, "stable", in );
    m.check( std::fabs( mag( b0, a1, high ? 0.5L : 0 ) - 1 ) < tol * 100 , "unity", [&]{ return in() + mc::cat( ": magnitude ", double( mag( b0, a1, high ? 0.5L : 0 ) ), " where it passes" ); } );
    ld prev = 2; bool mono = true; for ( int i = 0; i <= 64; ++i ) { ld g = ( high ? 64 - i : i ) / 128.0L, h = mag( b0, a1, g ); mono = mono && h < prev; prev = h; std::complex<double> r( response( q, T( g ) ) ); m.check( std::fabs( std::abs( r ) - h ) < tol * 1000, "response", [&]{ return in() + mc::cat( " response at ", double( g ), ": ", r ); } ); }
    m.check( mono, "monotone", [&]{ return in() + ": not monotone"; } );
    // what a running filter makes of the steady input it passes
    T y = 0; auto run = q; for ( int i = 0; i < 6000; ++i ) y = run.step( T( high && i % 2 ? -1 : 1 ) ); m.step( 6000 );
    if ( std::pow( std::fabs( a1 ), 6000 ) < 1e-13 ) m.check( std::fabs( std::fabs( double( y ) ) - 1 ) < tol * 1e4, "running", [&]{ return in() + mc::cat( ": settles at ", y ); } );
}
static ld half_power( double b0, double a1, bool high )      // frequency where the power is half, by bisection (0.5 / 0 if never)
{
    ld lo = 0, hi = 0.5L; for ( int i = 0; i < 60; ++i ) { ld g = ( lo + hi ) / 2; bool above = mag( b0, a1, high ? 0.5L - g : g ) > std::sqrt( 0.5L ); ( above ? lo : hi ) = g; }
    return high ? 0.5L - lo : lo;
}

MC_MAIN(
    mc::explore( "low and high pass", 1, []( mc::Ctx & m )
    {
        static const std::vector<double> rate = { 1, 100, 48000, 0.01, 1e9, 1e-6 }; double fs = m.pick( rate ); static const double low[] = { 1e-3, 1e-4, 1e-6, 0.4995 }; int at = m.choose( 53 ); double f = ( at < 49 ? ( at + 0.5 ) / 100 : low[ at - 49 ] ) * fs;
        judge<FilterResponse::low_pass>( m, f, fs, "double" ); judge<FilterResponse::high_pass>( m, f, fs, "double" );
        if ( f / fs > 0.02 && f / fs < 0.48 ) { judge<FilterResponse::low_pass>( m, float( f ), float( fs ), "float" ); judge<FilterResponse::high_pass>( m, float( f ), fs, "mixed" ); }
        int k = m.choose( 47 ) + 1; judge<FilterResponse::low_pass>( m, k, 100, "int" ); judge<FilterResponse::high_pass>( m, k, 100, "int" ); 
    } );
    mc::explore( "whole-number parameters", 1, []( mc::Ctx & m )
    {
        static const std::vector<int> rate = { 7, 10, 33, 97, 250, 1000, 8000, 44100, 48000, 1 << 20 }; int fs = m.pick( rate ); int i = m.choose( 11 ) + 1; int f = std::max( 1, int( fs * 0.04 * i ) );
        auto same = [&]( auto a, auto b, auto c ) { m.step( 3 ); m.state( mc::mix( 31, mc::hash_double( a.a.a1 ) ) ); bool ok = std::fabs( double( a.a.a1 ) - c.a.a1 ) < 1e-5 && std::fabs( double( a.b.b0 ) - c.b.b0 ) < 1e-5 && std::fabs( double( b.a.a1 ) - c.a.a1 ) < 1e-5 && std::fabs( double( b.b.b0 ) - c.b.b0 ) < 1e-5; 
            m.check( ok, "whole-numbers", [&]{ return mc::cat( "f=", f, " fs=", fs, ": a1=", a.a.a1, " b0=", a.b.b0, ", mixed a1=", b.a.a1, ", real a1=", c.a.a1, " b0=", c.b.b0 ); } ); };
        same( dsp::onepole_design<FilterResponse::low_pass>( f, fs ), dsp::onepole_design<FilterResponse::low_pass>( float( f ), fs ), dsp::onepole_design<FilterResponse::low_pass>( double( f ), double( fs ) ) );
        // one double among the two: as precise as doubles, also where the value is no float
        auto close = [&]( auto got, auto want, char const * t ) { m.step( 2 ); m.check( std::fabs( double( got.a.a1 ) - want.a.a1 ) < 1e-12 && std::fabs( double( got.b.b0 ) - want.b.b0 ) < 1e-12, "mixed-precision", [&]{ return mc::cat( t, " f=", f, " fs=", fs, ": a1=", got.a.a1, " b0=", got.b.b0, " expected a1=", want.a.a1, " b0=", want.b.b0 ); } ); };
        auto mixed = [&]( auto r, char const * t )
        {
            constexpr auto R = decltype( r )::value; double xs = fs + 0.1, x = f + 0.01; std::string n = t;
            close( dsp::onepole_design<R>( float( f ), xs ), dsp::onepole_design<R>( double( f ), xs ), ( n + ", float and double" ).c_str() ); close( dsp::onepole_design<R>( f, xs ), dsp::onepole_design<R>( double( f ), xs ), ( n + ", int and double" ).c_str() );
            close( dsp::onepole_design<R>( x, float( fs ) ), dsp::onepole_design<R>( x, double( fs ) ), ( n + ", double and float" ).c_str() ); close( dsp::onepole_design<R>( x, fs ), dsp::onepole_design<R>( x, double( fs ) ), ( n + ", double and int" ).c_str() ); close( dsp::onepole_design<R>( long( f ), xs ), dsp::onepole_design<R>( double( f ), xs ), ( n + ", long and double" ).c_str() );
        };
        mixed( std::integral_constant<FilterResponse, FilterResponse::low_pass>{}, "low pass" ); mixed( std::integral_constant<FilterResponse, FilterResponse::high_pass>{}, "high pass" );
        same( dsp::onepole_design<FilterResponse::high_pass>( f, fs ), dsp::onepole_design<FilterResponse::high_pass>( f, double( fs ) ), dsp::onepole_design<FilterResponse::high_pass>( double( f ), double( fs ) ) );
    } );
    mc::explore( "mirror, scale and order", 1, []( mc::Ctx & m )
    {
        int n = m.thorough ? 2000 : 400; double f = ( m.choose( n - 1 ) + 1 ) / ( 2.0 * n ); static const std::vector<double> rate = { 100, 48000, 0.5 }; double fs = m.pick( rate );
        auto lp = dsp::onepole_design<FilterResponse::low_pass>( f, 1.0 ); auto hp = dsp::onepole_design<FilterResponse::high_pass>( 0.5 - f, 1.0 ); auto sc = dsp::onepole_design<FilterResponse::low_pass>( f * fs, fs ); auto hs = dsp::onepole_design<FilterResponse::high_pass>( ( 0.5 - f ) * fs, fs ); m.step( 4 ); m.state( mc::mix( 8, mc::hash_double( lp.a.a1 ) ) );
        auto d = [&]{ return mc::cat( "f/fs=", f, ": low b0=", lp.b.b0, " a1=", lp.a.a1, ", mirrored high b0=", hp.b.b0, " a1=", hp.a.a1, ", scaled low b0=", sc.b.b0, " a1=", sc.a.a1 ); };
        m.check( std::fabs( lp.a.a1 + hp.a.a1 ) < 1e-12 && std::fabs( lp.b.b0 - hp.b.b0 ) < 1e-12, "mirror", d );
        m.check( std::fabs( lp.a.a1 - sc.a.a1 ) < 1e-12 && std::fabs( lp.b.b0 - sc.b.b0 ) < 1e-12 && std::fabs( hp.a.a1 - hs.a.a1 ) < 1e-12, "scale", d );
        m.check( lp.a.a1 < 0 && hp.a.a1 > 0, "side", d );
        // a larger frequency passes more
        double g = f + 0.25 / n; auto up = dsp::onepole_design<FilterResponse::low_pass>( g, 1.0 ); auto hu = dsp::onepole_design<FilterResponse::high_pass>( g, 1.0 ); auto hd = dsp::onepole_design<FilterResponse::high_pass>( f, 1.0 );
        m.check( up.a.a1 > lp.a.a1 && up.b.b0 > lp.b.b0 && hu.a.a1 > hd.a.a1 && hu.b.b0 < hd.b.b0, "order", d );
        ld knee = half_power( lp.b.b0, lp.a.a1, false ); ld next = half_power( up.b.b0, up.a.a1, false ); if ( next < 0.499L ) m.check( next > knee, "knee", d );
    } );
)
