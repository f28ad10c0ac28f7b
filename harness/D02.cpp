// D02: shelving and peaking equalizers reach the requested gain where they should, leave the rest alone, and cut is the inverse of boost.
#include "dsp_common.hpp"
using dsp::FilterResponse;

template< FilterResponse R > cld boosted( cld s, ld V, ld Q )
{
    const ld r2 = std::sqrt( 2.0L ), v2 = std::sqrt( 2 * V );
    if ( R == FilterResponse::low_shelf )  return ( s * s + v2 * s + V ) / ( s * s + r2 * s + ld( 1 ) );
    if ( R == FilterResponse::high_shelf ) return ( V * s * s + v2 * s + ld( 1 ) ) / ( s * s + r2 * s + ld( 1 ) );
    return ( s * s + V / Q * s + ld( 1 ) ) / ( s * s + s / Q + ld( 1 ) );
}
template< FilterResponse R, typename T >
void judge( mc::Ctx & m, T db, T f, T fs, T Q, char const * kind )
{
    auto co = dsp::biquad_design<R>( db, f, fs, Q ); auto bq = dsp::make_biquad( co ); auto a = bq.coeff_a(); auto b = bq.coeff_b();
    Coef k{ double( b.b0 ), double( b.b1 ), double( b.b2 ), double( a.a1 ), double( a.a2 ) };
    auto in = [&]{ return mc::cat( kind, sizeof(T) == 4 ? " float" : "", " ", db, " dB f=", f, " fs=", fs, " Q=", Q, " (", show( k ), ")" ); };
    m.step(); m.state( mc::mix( mc::hash_double( k.a1 + 3 * k.b0 ), mc::hash_double( k.b1 + 2 * k.a2 ) ) );
    ld V = std::pow( 10.0L, std::fabs( ld( db ) ) / 20 ), W0 = std::tan( PI_L * ld( f ) / ld( fs ) );
    for ( int i = 0; i <= 33; ++i )
    {
        ld g = i <= 32 ? i / 64.0L : ld( f ) / ld( fs );
        cld w = i == 32 ? cld( R == FilterResponse::high_shelf ? V : ld( 1 ) ) : boosted<R>( cld( 0, std::tan( PI_L * g ) / W0 ), V, Q );
        if ( db < 0 ) w = cld( 1 ) / w;
        cld h = transfer( k, g ); ld tol = ( sizeof(T) == 4 ? 4e-6L : 1e-13L ) * ( 1 + std::abs( w ) ) * ( 1 + V ) / std::min<ld>( 1, denominator( k, g ) );
        m.check( std::abs( h - w ) <= tol, "shelf-response", [&]{ return mc::cat( in(), " at ", double( g ), ": ", h, " expected ", w ); } );
    }
    m.check( bq.is_stable(), "shelf-stable", in );
    // gain in dB at the named points, by the library's own response
    auto gain = [&]( ld at ) { return 20 * std::log10( std::abs( std::complex<double>( response( bq, T( at ) ) ) ) ); };
    ld at_dc = R == FilterResponse::low_shelf ? ld( db ) : 0, at_ny = R == FilterResponse::high_shelf ? ld( db ) : 0, tol = sizeof(T) == 4 ? 2e-2L : 1e-6L;
    auto slack = [&]( ld at ) { return tol + ( sizeof(T) == 4 ? 0 : 4e-14L * ( 1 + V ) / std::min<ld>( 1, denominator( k, at ) ) ); };      // rounding of the coefficients, where numerator or denominator nearly vanish
    m.check( std::fabs( gain( 0 ) - at_dc ) < slack( 0 ) && std::fabs( gain( 0.5L ) - at_ny ) < slack( 0.5L ), "shelf-gain", [&]{ return mc::cat( in(), ": ", gain( 0 ), " dB at DC, ", gain( 0.5L ), " dB at half the sample rate" ); } );
    if ( R == FilterResponse::peak_band_eq ) m.check( std::fabs( gain( ld( f ) / ld( fs ) ) - ld( db ) ) < slack( ld( f ) / ld( fs ) ), "peak-gain", [&]{ return mc::cat( in(), ": ", gain( ld( f ) / ld( fs ) ), " dB at the center" ); } );
    m.sample( in );
}
template< FilterResponse R >
void kind( mc::Ctx & c, char const * name )
{
    static const std::vector<double> fr = { 0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.4, 0.45, 0.49, 0.001, 1e-4, 0.499 }, Qs = { 0.5, 0.70710678118654752, 1, 3, 10, 0.05, 100, 1e-3, 1e4 }, rate = { 1, 48000 }, far = { 0.05, -0.05, 1e-3, -1e-3, 30, -30, 48, -48, 90, -90 };
    mc::explore( mc::cat( name, " designs" ), 1, [&]( mc::Ctx & m )
    {
        double db = m.choose( 2 ) ? m.pick( far ) : m.thorough ? ( m.choose( 161 ) - 80 ) * 0.5 : ( m.choose( 33 ) - 16 ) * 1.5, f = m.pick( fr ), Q = m.pick( Qs ), fs = m.pick( rate );
        judge<R,double>( m, db, f * fs, fs, Q, name );
        if ( f >= 0.05 && f <= 0.4 && Q <= 3 && Q >= 0.05 && std::fabs( db ) <= 24 ) judge<R,float>( m, float( db ), float( f * fs ), float( fs ), float( Q ), name );
    } );
}
// whole-number and mixed parameters: the design of their real values
template< FilterResponse R >
void typings( mc::Ctx & c, char const * name )
{
    mc::explore( mc::cat( name, " designs from whole numbers" ), 1, [&]( mc::Ctx & m )
    {
        static const std::vector<int> rate = { 7, 100, 1000, 44100, 48000, 1 << 20 }; int fs = m.pick( rate ), f = std::max( 1, fs * ( 4 + m.choose( 11 ) * 4 ) / 100 ), db = m.choose( m.thorough ? 61 : 25 ) * ( m.thorough ? 1 : 3 ) - ( m.thorough ? 30 : 36 ), Q = m.choose( 4 ) + 1;
        auto want = dsp::biquad_design<R>( double( db ), double( f ), double( fs ), double( Q ) );
        auto same = [&]( auto got, double tol, char const * t )
        {
            m.step(); double big = 1; for ( double v : { want.b.b0, want.b.b1, want.b.b2 } ) big = std::max( big, std::fabs( v ) );
            double e = 0; for ( double v : { got.b.b0 - want.b.b0, got.b.b1 - want.b.b1, got.b.b2 - want.b.b2, got.a.a1 - want.a.a1, got.a.a2 - want.a.a2 } ) e = std::fabs( v ) > e || !( v == v ) ? std::fabs( v ) : e;
            m.check( e <= tol * big, "typing", [&]{ return mc::cat( name, " ", db, " dB f=", f, " fs=", fs, " Q=", Q, " as ", t, ": b=", got.b.b0, ",", got.b.b1, ",", got.b.b2, " a=", got.a.a1, ",", got.a.a2, " expected ", want.b.b0, ",", want.b.b1, ",", want.b.b2, " and ", want.a.a1, ",", want.a.a2 ); } );
        };
        m.state( mc::mix( mc::hash_double( want.b.b0 ), mc::hash_double( want.a.a1 ) ) );
        same( dsp::biquad_design<R>( db, f, fs, Q ), 1e-4, "int" ); same( dsp::biquad_design<R>( float( db ), f, fs, float( Q ) ), 1e-4, "float and int" ); same( dsp::biquad_design<R>( db, double( f ), fs, Q ), 1e-11, "int and double" );
        same( dsp::biquad_design<R>( double( db ), f, float( fs ), Q ), 1e-11, "double, int and float" ); same( dsp::biquad_design<R>( db, f, fs, double( Q ) ), 1e-11, "int with real Q" ); same( dsp::biquad_design<R>( db, f, double( fs ), Q ), 1e-11, "int with real rate" ); same( dsp::biquad_design<R>( double( db ), f, fs, float( Q ) ), 1e-11, "int and float with real gain" ); same( dsp::biquad_design<R>( (signed char)( db ), (long) f, (long) fs, (short) Q ), 1e-4, "several integer types" );
    } );
}
MC_MAIN( auto & c = mc::ctx(); kind<FilterResponse::low_shelf>( c, "low shelf" ); kind<FilterResponse::high_shelf>( c, "high shelf" ); kind<FilterResponse::peak_band_eq>( c, "peak" ); typings<FilterResponse::low_shelf>( c, "low shelf" ); typings<FilterResponse::high_shelf>( c, "high shelf" ); typings<FilterResponse::peak_band_eq>( c, "peak" ); )
