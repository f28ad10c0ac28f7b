#ifndef VERIF_CHEB_COMMON_HPP
#define VERIF_CHEB_COMMON_HPP
#include "dsp_common.hpp"
#include "dsp/chebyshev-design.hpp"
using dsp::FilterResponse;

// Chebyshev polynomial magnitude |C_N(x)| for real x >= 0
inline ld chebyshev( int N, ld x ) { return x <= 1 ? std::fabs( std::cos( N * std::acos( x ) ) ) : std::cosh( N * std::acosh( x ) ); }

// the magnitude a type 1 / type 2 design of order N must have at frequency g (of the sample rate)
inline ld magnitude( int type, bool high, int N, ld fpass, ld fstop, ld ep, ld es, ld g )
{
    auto warp = [&]( ld f ) { ld t = std::tan( PI_L * f ); return high ? 1 / t : t; };
    if ( type == 1 )
    {
        if ( high ? g == 0 : g >= 0.5L ) return 0;
        ld W = high && g >= 0.5L ? 0 : warp( g ), c = chebyshev( N, W / warp( fpass ) );
        return 1 / std::sqrt( 1 + ep * ep * c * c );
    }
    bool origin = high ? g >= 0.5L : g == 0, far = high ? g == 0 : g >= 0.5L;
    if ( origin ) return 1;
    ld x = far ? 0 : warp( fstop ) / warp( g ), c = chebyshev( N, x );
    return std::isinf( c ) ? 1 : c / std::sqrt( c * c + es * es );
}

template< int TYPE, typename FS, typename FP, typename FT, typename AP, typename AS >
void design( mc::Ctx & m, bool high, FS fs, FP fpass, FT fstop, AP Apass, AS Astop, char const * t, int limit = 12, ld slack = 1 )
{
    auto kind = high ? FilterResponse::high_pass : FilterResponse::low_pass;
    ld ap = std::max( ld( Apass ), 0.01L ), as = std::max( ld( Astop ), 0.01L );
    ld ep = std::sqrt( std::pow( 10.0L, ap / 10 ) - 1 ), es = std::sqrt( std::pow( 10.0L, as / 10 ) - 1 );
    ld wp = std::tan( PI_L * ld( fpass ) / ld( fs ) ), ws = std::tan( PI_L * ld( fstop ) / ld( fs ) );
    ld nex = std::acosh( es / ep ) / std::acosh( high ? wp / ws : ws / wp );
    if ( !( nex > 0.01L ) || nex > ( std::is_same_v<std::common_type_t<float,FS,FP,FT,AP,AS>,float> ? 4 : limit ) || std::fabs( nex - std::round( nex ) ) < 1e-3L ) throw mc::Prune{};
    int N = int( std::ceil( nex ) );
    auto co = [&]{ if constexpr ( TYPE == 1 ) return dsp::chebyshev1_lp_hp( kind, fs, fpass, fstop, Apass, Astop ); else return dsp::chebyshev2_lp_hp( kind, fs, fpass, fstop, Apass, Astop ); }();
    using T = typename decltype( co )::value_type; const bool flt = std::is_same_v<std::common_type_t<float,FS,FP,FT,AP,AS>,float>;
    auto in = [&]{ return mc::cat( "chebyshev type ", TYPE, high ? " high" : " low", " pass ", t, " fs=", fs, " fpass=", fpass, " fstop=", fstop, " Apass=", Apass, " Astop=", Astop, " (order ", co.info.N, ")" ); };
    m.step(); m.state( mc::mix( mc::hash_double( double( ep ) ), mc::hash_double( double( nex ) ) ) );
    m.check( co.info.N == N, "order", [&]{ return in() + mc::cat( " expected order ", N ); } );
    m.check( co.a.size() == co.b.size() && int( co.size() ) == ( N + 1 ) / 2, "sections", [&]{ return in() + mc::cat( ": ", co.b.size(), " sections" ); } );
    auto q = dsp::make_biquad_cascade<32>( co );
    m.check( int( q.size() ) == int( co.size() ), "cascade-size", in );
    std::vector<Coef> ks; bool same = true;
    for ( int i = 0; i < int( q.size() ); ++i ) { auto a = q.coeff_a( i ); auto b = q.coeff_b( i ); auto & A = co.a[ size_t(i) ]; auto & B = co.b[ size_t(i) ]; same = same && a.a1 == A.a1 && a.a2 == A.a2 && b.b0 == B.b0 && b.b1 == B.b1 && b.b2 == B.b2; ks.push_back( { double( b.b0 ), double( b.b1 ), double( b.b2 ), double( a.a1 ), double( a.a2 ) } ); }
    m.check( same, "cascade-coefficients", in );
    // a cascade that has room for exactly these sections, and one with much room
    auto fits = [&]( auto cap )
    {
        constexpr int C = decltype( cap )::value; if ( C != int( co.size() ) && C < 100 ) return; auto x = dsp::make_biquad_cascade<C>( co ); bool ok = int( x.size() ) == int( co.size() ) && x.reserved() == C;
        for ( int i = 0; ok && i < int( x.size() ); ++i ) { auto a = x.coeff_a( i ); auto b = x.coeff_b( i ); auto & A = co.a[ size_t(i) ]; auto & B = co.b[ size_t(i) ]; ok = a.a1 == A.a1 && a.a2 == A.a2 && b.b0 == B.b0 && b.b1 == B.b1 && b.b2 == B.b2 && x.state( i ).v1 == T(0) && x.state( i ).v2 == T(0); }
        m.check( ok, "cascade-capacity", [&]{ return in() + mc::cat( " made into a cascade of capacity ", C ); } );
    };
    fits( std::integral_constant<int,1>{} ); fits( std::integral_constant<int,2>{} ); fits( std::integral_constant<int,3>{} ); fits( std::integral_constant<int,4>{} ); fits( std::integral_constant<int,5>{} ); fits( std::integral_constant<int,6>{} ); fits( std::integral_constant<int,300>{} );
    m.check( is_stable( q ), "stable", in );
    auto mag = [&]( ld g ) { ld h = 1; for ( auto & k : ks ) h *= std::abs( transfer( k, g ) ); return h; };
    ld tol = flt ? 5e-3L : 1e-8L * slack, fp = ld( fpass ) / ld( fs ), ft = ld( fstop ) / ld( fs );
    for ( int i = 0; i <= 68; ++i )
    {
        ld g = i <= 64 ? i / 128.0L : i == 65 ? fp : i == 66 ? ft : i == 67 ? fp * 0.5L : ( fp + ft ) / 2;
        ld w = magnitude( TYPE, high, N, fp, ft, ep, es, g ), h = mag( g );
        m.check( std::fabs( h - w ) <= tol, "magnitude", [&]{ return mc::cat( in(), " at ", double( g ), ": ", double( h ), " expected ", double( w ) ); } );
        ld lib = std::abs( std::complex<double>( response( q, T( g ) ) ) );
        m.check( std::fabs( lib - h ) <= tol * 4, "reported-magnitude", [&]{ return mc::cat( in(), " response at ", double( g ), ": ", double( lib ), " expected ", double( h ) ); } );
        // the specification itself, whatever the formula
        ld db = 20 * std::log10( std::max( h, 1e-30L ) ), eps = flt ? 0.05L : 1e-6L * slack;
        bool pass = high ? g >= fp : g <= fp, stop = high ? g <= ft : g >= ft;
        if ( pass ) m.check( db <= eps && db >= -ap - eps, "pass-band", [&]{ return mc::cat( in(), " at ", double( g ), " in the pass band: ", double( db ), " dB" ); } );
        if ( stop ) m.check( db <= -as + ( flt ? 0.5L : 1e-5L * slack ), "stop-band", [&]{ return mc::cat( in(), " at ", double( g ), " in the stop band: ", double( db ), " dB" ); } );
    }
    // the reported half-power frequency
    ld at3 = mag( ld( co.info.f3 ) / ld( fs ) );
    m.check( std::fabs( at3 - std::sqrt( 0.5L ) ) <= ( flt ? 1e-2L : 1e-6L * slack ), "half-power", [&]{ return mc::cat( in(), ": magnitude ", double( at3 ), " at the reported 3 dB frequency ", co.info.f3 ); } );
    // the running cascade agrees at DC and at half the sample rate
    ld y = 0; auto run = q; for ( int i = 0; i < 4000; ++i ) y = dsp::biquad_cascade::step( run, T( 1 ) ); ld w0 = mag( 0 );
    m.step( 4000 );
    ld settle = 0; for ( auto & k : ks ) { auto d = std::sqrt( cld( ld( k.a1 ) * k.a1 - 4 * k.a2 ) ); settle = std::max( { settle, std::abs( ( -ld( k.a1 ) + d ) / 2.0L ), std::abs( ( -ld( k.a1 ) - d ) / 2.0L ) } ); }
    if ( std::pow( settle, 4000 ) < 1e-13L ) m.check( std::fabs( std::fabs( y ) - w0 ) <= tol * 2, "running", [&]{ return mc::cat( in(), ": a constant settles at ", double( y ), " expected ", double( w0 ) ); } );
    m.sample( in );
}

template< int TYPE >
void all( mc::Ctx & c )
{
    static const std::vector<double> fr = { 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.48, 0.001 }, ap = { 0.01, 0.1, 0.5, 1, 2, 3, 4 }, as = { 5, 10, 20, 30, 40, 60, 80, 100 }, rate = { 1, 48000, 100, 1e9, 1e-6 };
    mc::explore( mc::cat( "type ", TYPE, " designs" ), 1, [&]( mc::Ctx & m )
    {
        double a = m.pick( fr ), b = m.pick( fr ); if ( a == b ) throw mc::Prune{};
        bool high = a > b;      // pass above stop
        double Ap = m.pick( ap ), As = m.pick( as ); if ( As <= Ap ) throw mc::Prune{};
        double fs = rate[ size_t( m.choose( m.thorough ? 5 : 2 ) ) ];
        design<TYPE>( m, high, fs, a * fs, b * fs, Ap, As, "double" );
    } );
    mc::explore( mc::cat( "type ", TYPE, " designs, whole and mixed parameters" ), 1, [&]( mc::Ctx & m )
    {
        static const int f[] = { 2, 5, 10, 18, 30, 44 }; int a = f[ m.choose( 6 ) ], b = f[ m.choose( 6 ) ]; if ( a == b ) throw mc::Prune{};
        int Ap = m.choose( 3 ) + 1, As = 10 * ( m.choose( 3 ) + 1 );
        int how = m.choose( 7 ); bool h = a > b;
        // one double among whole numbers or floats: as precise as doubles
        if ( how == 2 ) return design<TYPE>( m, h, 100.37, a, b, Ap, As, "real rate" );
        if ( how == 3 ) return design<TYPE>( m, h, 100, a + 0.013, b, Ap, float( As ), "real pass edge" );
        if ( how == 4 ) return design<TYPE>( m, h, 100, a, b + 0.013, float( Ap ), As, "real stop edge" );
        if ( how == 5 ) return design<TYPE>( m, h, 100, float( a ), b, Ap * 0.7, As, "real pass ripple" );
        if ( how == 6 ) return design<TYPE>( m, h, 100, a, b, Ap, As + 0.3, "real stop ripple" );
        if ( how ) design<TYPE>( m, h, 100, a, b, Ap, As, "int" ); else { design<TYPE>( m, a > b, 100, a, b, Ap * 0.5, As, "int with real ripple" ); design<TYPE>( m, a > b, 100.0, float( a ), b, float( Ap ), As, "mixed" ); }
    } );
    // parameters below the documented minimum ripple are raised to it
    mc::explore( mc::cat( "type ", TYPE, " least ripple" ), 1, [&]( mc::Ctx & m ) { static const double tiny[] = { 0, 0.001, -1, 0.0099 }; double p = tiny[ m.choose( 4 ) ], As = 20 + 10 * m.choose( 3 ); bool hi = m.choose( 2 ); design<TYPE>( m, hi, 100.0, hi ? 30.0 : 10.0, hi ? 10.0 : 30.0, p, As, "double" ); } );
    // steep filters: edges close together, orders up to 60
    mc::explore( mc::cat( "type ", TYPE, " steep designs" ), 1, [&]( mc::Ctx & m )
    {
        static const std::vector<double> at = { 0.05, 0.1, 0.2, 0.25, 0.3, 0.4 }, gap = { 0.2, 0.1, 0.05, 0.03, 0.02, 0.01, -0.2, -0.1, -0.05, -0.03, -0.02, -0.01 }, ripple = { 0.01, 0.5, 1, 3 }, stop = { 10, 20, 40, 60, 80, 100 };
        double a = m.pick( at ), b = a * ( 1 + m.pick( gap ) ), Ap = m.pick( ripple ), As = m.pick( stop ), fs = m.thorough && m.choose( 2 ) ? 48000 : 1; design<TYPE>( m, a > b, fs, a * fs, b * fs, Ap, As, "double", 60, 30 );
    } );
    if ( c.thorough ) mc::explore( mc::cat( "type ", TYPE, " designs, fine grid" ), 1, [&]( mc::Ctx & m )
    {
        int a = m.choose( 48 ) + 1, b = m.choose( 48 ) + 1; if ( a == b ) throw mc::Prune{}; double Ap = ( m.choose( 8 ) + 1 ) * 0.4, As = 8 + 9 * m.choose( 8 ); design<TYPE>( m, a > b, 100.0, double( a ), double( b ), Ap, As, "double" );
    } );
}
#endif
