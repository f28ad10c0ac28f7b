// D01: low-, high-, band-pass and band-stop designs have the second-order analog response at every frequency (pre-warped).
#include "dsp_common.hpp"
using dsp::FilterResponse;

struct Proto { ld n2, n1, n0; };     // numerator in s; the denominator is s^2 + s/Q + 1
template< FilterResponse R > Proto proto( ld Q );
template<> Proto proto<FilterResponse::low_pass>( ld ) { return { 0, 0, 1 }; }
template<> Proto proto<FilterResponse::high_pass>( ld ) { return { 1, 0, 0 }; }
template<> Proto proto<FilterResponse::band_pass>( ld Q ) { return { 0, 1 / Q, 0 }; }
template<> Proto proto<FilterResponse::band_stop>( ld ) { return { 1, 0, 1 }; }

template< FilterResponse R, typename D, typename F, typename S, typename QT >
void judge( mc::Ctx & m, D db, F f, S fs, QT Q, char const * kind, char const * t )
{
    auto co = dsp::biquad_design<R>( db, f, fs, Q ); using T = typename decltype( co )::value_type;
    auto bq = dsp::make_biquad( co ); auto a = bq.coeff_a(); auto b = bq.coeff_b();
    Coef k{ double( b.b0 ), double( b.b1 ), double( b.b2 ), double( a.a1 ), double( a.a2 ) };
    auto in = [&]{ return mc::cat( kind, " ", t, " f=", f, " fs=", fs, " Q=", Q, " (", show( k ), ")" ); };
    m.step(); m.state( mc::mix( mc::hash_double( k.a1 ), mc::hash_double( k.b1 + 2 * k.a2 ) ) );
    m.check( co.b.b0 == b.b0 && co.b.b1 == b.b1 && co.b.b2 == b.b2 && co.a.a1 == a.a1 && co.a.a2 == a.a2 && bq.state().v1 == T(0) && bq.state().v2 == T(0), "make-biquad", in );
    Proto p = proto<R>( Q ); ld W0 = std::tan( PI_L * ld( f ) / ld( fs ) );
    const bool flt = std::is_same_v<std::common_type_t<float, D, F, S, QT>, float>;     // as precise as the widest of the parameters
    for ( int i = 0; i <= 34; ++i )
    {
        ld g = i <= 32 ? i / 64.0L : i == 33 ? ld( f ) / ld( fs ) : ld( f ) / ld( fs ) / 2;
        cld w; ld den;
        if ( i == 32 ) { w = p.n2; }
        else { cld s( 0, std::tan( PI_L * g ) / W0 ); w = ( p.n2 * s * s + p.n1 * s + p.n0 ) / ( s * s + s / ld( Q ) + ld( 1 ) ); }
        den = denominator( k, g ); cld h = transfer( k, g );
        ld tol = ( flt ? 2e-6L : 1e-13L ) * ( 1 + std::abs( w ) ) / std::min<ld>( 1, den );
        m.check( std::abs( h - w ) <= tol, "design-response", [&]{ return mc::cat( in(), " at ", double( g ), ": ", h, " expected ", w ); } );
        std::complex<double> lib( dsp::response( bq, T( g ) ) );
        m.check( std::abs( cld( lib ) - w ) <= tol * ( flt ? 8 : 50 ), "design-reported-response", [&]{ return mc::cat( in(), " response at ", double( g ), ": ", lib, " expected ", w ); } );
    }
    // the named points
    m.check( bq.is_stable(), "design-stable", in );
    m.sample( in );
}

template< FilterResponse R >
void kind( mc::Ctx & c, char const * name )
{
    static const std::vector<double> fr = { 0.001, 0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.4, 0.45, 0.49, 0.02, 0.33, 0.375, 0.499, 1e-4, 1e-5 }, Qs = { 0.25, 0.5, 0.70710678118654752, 1, 2, 10, 0.6, 5, 50, 0.02, 300, 1e-3, 1e4 }, rate = { 1, 100, 48000, 44100.5, 0.01, 1e9, 1e-6 };
    mc::explore( mc::cat( name, " designs" ), 1, [&]( mc::Ctx & m )
    {
        double f = m.pick( fr ), Q = m.pick( Qs ), fs = m.pick( rate ), db = ( m.choose( 3 ) - 1 ) * 6.0;      // the gain has no part in these
        judge<R>( m, db, f * fs, fs, Q, name, "double" );
        if ( f >= 0.02 && f <= 0.45 && Q <= 5 && Q >= 0.02 ) { judge<R>( m, float( db ), float( f * fs ), float( fs ), float( Q ), name, "float" ); judge<R>( m, 0, f * fs, float( fs ) == fs ? float( fs ) : 1.0f, Q, name, "mixed" ); }
    } );
    mc::explore( mc::cat( name, " designs from whole numbers" ), 1, [&]( mc::Ctx & m )
    {
        int fs = 100 * ( m.choose( m.thorough ? 10 : 3 ) + 1 ), f = m.choose( 45 ) * fs / 100 + fs / 25, Q = m.choose( 4 ) + 1;
        judge<R>( m, 0, f, fs, Q, name, "int" ); judge<R>( m, 0, f, fs, double( Q ), name, "int with real Q" ); judge<R>( m, 0L, float( f ), fs, Q, name, "float and int" );
        judge<R>( m, 0, f, fs + 0.37, Q, name, "int with real rate" ); judge<R>( m, 0, f + 0.013, fs, float( Q ), name, "int and float with real frequency" ); judge<R>( m, 0.0, f, fs, Q, name, "int with real gain" ); judge<R>( m, 0, float( f ), float( fs ), Q + 0.1, name, "float with real Q" );
    } );
    if ( c.thorough ) mc::explore( mc::cat( name, " designs, fine grid" ), 1, [&]( mc::Ctx & m ) { double f = ( m.choose( 498 ) + 1 ) / 1000.0; double Q = std::exp2( ( m.choose( 41 ) - 12 ) / 4.0 ); judge<R>( m, 0.0, f * 8000, 8000.0, Q, name, "double" ); } );
}

MC_MAIN( auto & c = mc::ctx(); kind<FilterResponse::low_pass>( c, "low pass" ); kind<FilterResponse::high_pass>( c, "high pass" ); kind<FilterResponse::band_pass>( c, "band pass" ); kind<FilterResponse::band_stop>( c, "band stop" ); )
