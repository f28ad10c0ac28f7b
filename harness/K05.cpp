// K05: the estimator and the filters in fixed-point arithmetic stay as near to the true recursion as the rounding of their operations allows.
// The recursion is followed in long double together with a bound on what rounding each operation to the format may have added (running error analysis).
#include "fixed_kalman.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"

template< typename Fm, int M, int U > struct Run
{
    using X = typename Fm::X; using K = num::kalman<X,2,M,U>; Config<Rat> c; Bounded<Fm> r; K k;
    explicit Run( Config<Rat> const & c_ ) : c( c_ ), r( c_ ), k( fx<Fm>( dbl( c.dt ) ), fixed<Fm,2,2>( c.A ), fixed<Fm,2,U>( c.B ), fixed<Fm,M,2>( c.H ), fixed<Fm,2,2>( c.Q ), fixed<Fm,M,M>( c.Rn ), fixed<Fm,2,2>( c.P ), fixed<Fm,2,1>( c.x ) ) {}
    void update( mc::Ctx & m, Mx<Rat> const & u, Mx<Rat> const & z, int step )
    {
        r.update( bounded<Fm>( u ), bounded<Fm>( z ) ); k.update( fixed<Fm,U,1>( u ), fixed<Fm,M,1>( z ) ); m.step();
        auto x = k.system_state(); auto g = k.kalman_gain(); auto P = k.estimation_error_covariance();
        mc::u64 h = mc::u64( Fm::frac ); for ( int i = 0; i < 2; ++i ) h = mc::mix( h, mc::u64( x( i, 0 ).underlying_value() ) ); for ( int i = 0; i < 4; ++i ) h = mc::mix( h, mc::u64( P( i / 2, i % 2 ).underlying_value() ) ); m.state( h );
        m.check( within<Fm>( r.K, g ), "gain", [&]{ return mc::cat( "step ", step, ": gain", list<Fm>( r.K, g ), " for ", show( c ) ); } );
        m.check( within<Fm>( r.x, x ), "state", [&]{ return mc::cat( "step ", step, ": state", list<Fm>( r.x, x ), " for ", show( c ) ); } );
        m.check( within<Fm>( r.P, P ), "covariance", [&]{ return mc::cat( "step ", step, ": covariance", list<Fm>( r.P, P ), " for ", show( c ) ); } );
        m.check( within<Fm>( r.t, k.time() ), "time", [&]{ return mc::cat( "step ", step, ": time ", double( val<Fm>( k.time() ) ), ", not ", double( r.t.v ) ); } );
        m.check( P( 0, 1 ) == P( 1, 0 ), "asymmetric", [&]{ return mc::cat( "step ", step, ": covariance", list<Fm>( r.P, P ), " for ", show( c ) ); } );
    }
};

template< typename Fm, int M, int U > void estimator( char const * name )
{
    mc::explore( mc::cat( "estimator models ", name, " M=", M, " U=", U ), 3, [&]( mc::Ctx & m )
    {
        auto cfg = base( m.choose( 3 ), M, U ); deviate( m, cfg, m.thorough ? 4 : 3, few, 0 );
        if ( !psd( cfg.Q ) || !psd( cfg.P ) || cfg.Rn(0,0) < 0 || ( M == 2 && !psd( cfg.Rn ) ) ) throw mc::Prune{};
        auto us = controls( U ); auto zs = measurements( M ); static const int hist[4][2] = { {1,2}, {0,1}, {2,2}, {1,0} };
        try { Run<Fm,M,U> r( cfg ); for ( int s = 0; s < 4; ++s ) r.update( m, us[hist[s][0]], zs[hist[s][1]], s ); } catch ( Lost const & ) { throw mc::Prune{}; }
        m.sample( [&]{ return show( cfg ); } );
    } );
    mc::explore( mc::cat( "estimator histories ", name, " M=", M, " U=", U ), 3, [&]( mc::Ctx & m )
    {
        auto cfg = base( m.choose( 3 ), M, U ); auto us = controls( U ); auto zs = measurements( M );
        try { Run<Fm,M,U> r( cfg ); for ( int s = 0; s < (m.thorough ? 5 : 4); ++s ) { auto & u = m.pick( us ); auto & z = m.pick( zs ); r.update( m, u, z, s ); } } catch ( Lost const & ) { throw mc::Prune{}; }
    } );
}
// the same estimator for a long time: it neither drifts nor locks up
template< typename Fm > void settled( char const * name )
{
    mc::explore( mc::cat( "long runs ", name ), 2, [&]( mc::Ctx & m )
    {   // a tracker with correlated noise; every constant control and measured slope of a list
        Config<Rat> c( 1, 1 ); c.dt = 1; c.A.v = { 1, q(1,4), 0, 1 }; c.B.v = { q(1,32), q(1,4) }; c.H.v = { 1, 0 }; c.Q.v = { q(1,8), q(1,16), q(1,16), q(1,4) }; c.Rn.v = { q( 1 + 3 * m.choose( 4 ), 2 ) }; c.P.v = { 1, 0, 0, 1 }; c.x.v = { 0, 0 };
        Rat u = q( m.choose( 5 ) - 2, 4 ), z = q( m.choose( 5 ) - 2, 2 ); RefKalman<L> r( [&]{ Config<L> o( 1, 1 ); auto cp = []( Mx<L> & d, Mx<Rat> const & s ) { for ( int i = 0; i < s.n * s.m; ++i ) d.v[i] = dbl( s.v[i] ); }; o.dt = 1; cp( o.A, c.A ); cp( o.B, c.B ); cp( o.H, c.H ); cp( o.Q, c.Q ); cp( o.Rn, c.Rn ); cp( o.P, c.P ); cp( o.x, c.x ); return o; }() );
        Run<Fm,1,1> f( c ); Mx<L> ul( 1, 1 ), zl( 1, 1 ); ul(0,0) = dbl( u ); zl(0,0) = dbl( z );
        for ( int s = 0; s < ( u == q(1,4) && z == q(-1,2) ? 70000 : m.thorough ? 20000 : 2000 ); ++s )
        {
            r.update( ul, zl ); f.k.update( fixed<Fm,1,1>( vec( { u } ) ), fixed<Fm,1,1>( vec( { z } ) ) ); m.step(); auto x = f.k.system_state(); auto P = f.k.estimation_error_covariance(); L worst = 0;
            for ( int i = 0; i < 2; ++i ) worst = std::max( worst, std::fabs( val<Fm>( x( i, 0 ) ) - r.x( i, 0 ) ) ); for ( int i = 0; i < 4; ++i ) worst = std::max( worst, std::fabs( val<Fm>( P( i / 2, i % 2 ) ) - r.P.v[i] ) );
            if ( s % 20 == 0 ) m.state( hash_mx( r.x, hash_mx( r.P, mc::u64( Fm::frac ) ) ) );
            if ( getenv( "K05_SHOW" ) ) { static L most = 0; if ( worst > most ) { most = worst; fprintf( stderr, "%s %d %Lg ulp\n", name, s, worst / Fm::ulp() ); } }
            m.check( worst <= 64 * Fm::ulp(), "long-run", [&]{ return mc::cat( name, " control ", u, " measurement ", z, " step ", s, ": state ", double( val<Fm>( x( 0, 0 ) ) ), " ", double( val<Fm>( x( 1, 0 ) ) ), ", not ", double( r.x( 0, 0 ) ), " ", double( r.x( 1, 0 ) ) ); } );
            if ( worst > 64 * Fm::ulp() ) break;
        }
    } );
}

// ---- filters

static const std::vector<double> coefficients = { 0, 1, -1, 0.5, -0.75, 1.0 / 3, -1.6, 1.0 / 512 }, inputs = { 0, 1, -0.7, 0.3 };

template< typename Fm > struct Section       // the difference equation on its own inputs and outputs, with bounds in both realizations
{
    using N = Num<Fm>; N b[3], a[2], w1, w2, t1, t2;
    N step( N x ) { N w0 = x - a[0] * w1 - a[1] * w2, y = b[0] * w0 + b[1] * w1 + b[2] * w2; w2 = w1; w1 = w0; return y; }
    N transposed( N x ) { N y = b[0] * x + t1; t1 = b[1] * x - a[0] * y + t2; t2 = b[2] * x - a[1] * y; return y; }
};
template< typename Fm > void filters( char const * name )
{
    using X = typename Fm::X; using N = Num<Fm>; using Q = dsp::BiQuadT<X>;
    auto section = []( double const * k, Section<Fm> & s ) { for ( int i = 0; i < 3; ++i ) s.b[i] = quant<Fm>( k[i] ); for ( int i = 0; i < 2; ++i ) s.a[i] = quant<Fm>( k[3 + i] ); return Q( { fx<Fm>( k[0] ), fx<Fm>( k[1] ), fx<Fm>( k[2] ) }, { fx<Fm>( k[3] ), fx<Fm>( k[4] ) } ); };
    mc::explore( mc::cat( "biquads ", name ), 3, [&]( mc::Ctx & m )
    {
        double k[5] = { 0.4, -0.3, 0.2, -0.5, 0.25 }; int from = 0; for ( int n = 0; n < (m.thorough ? 4 : 3) && from < 5; ++n ) { int i = m.choose( 6 - from ); if ( !i ) break; k[from + i - 1] = m.pick( coefficients ); from += i; }
        try { Section<Fm> s; Q q0 = section( k, s ), q1 = q0, q2 = q0; for ( int n = 0; n < 5; ++n )
        {
            double in = n < 4 ? m.pick( inputs ) : 0; X x = fx<Fm>( in ); N y = s.step( N( quant<Fm>( in ) ) ), yt = s.transposed( N( quant<Fm>( in ) ) ); X g0 = q0.step( x ), g1 = q1.step_df2( x ), g2 = q2.step_df2_transposed( x );
            m.step( 3 ); m.state( mc::mix( mc::u64( Fm::frac ), mc::mix( mc::u64( g0.underlying_value() ), mc::u64( g2.underlying_value() ) ) ) );
            m.check( within( y, g0 ) && within( y, g1 ) && within( yt, g2 ), "biquad", [&]{ return mc::cat( name, " b=", k[0], ",", k[1], ",", k[2], " a=", k[3], ",", k[4], " output ", n, ": ", double( val<Fm>( g0 ) ), " ", double( val<Fm>( g1 ) ), " ", double( val<Fm>( g2 ) ), ", not ", double( y.v ), " +/- ", double( y.e ) ); } );
        } } catch ( Lost const & ) { throw mc::Prune{}; }
    } );
    mc::explore( mc::cat( "cascades ", name ), 3, [&]( mc::Ctx & m )
    {
        static double const kinds[][5] = { { 0.4, -0.3, 0.2, -0.5, 0.25 }, { 0.25, 0.5, 0.25, -0.3, -0.2 }, { 1, 0, -0.5, 0, 0 }, { 0.6, 0.1, 0, 0.7, 0 } };
        try { dsp::BiQuadCascadeT<X,4> c0, c1, c2; std::vector<Section<Fm>> s; int n = m.choose( 4 ); for ( int i = 0; i < n; ++i ) { Section<Fm> one; auto q = section( kinds[ m.choose( 4 ) ], one ); c0.append( q ); c1.append( q ); c2.append( q ); s.push_back( one ); }
        for ( int t = 0; t < (m.thorough ? 7 : 6); ++t )
        {
            double in = m.pick( inputs ); X x = fx<Fm>( in ); N y( quant<Fm>( in ) ), yt = y; for ( auto & q : s ) { y = q.step( y ); yt = q.transposed( yt ); } X g0 = step( c0, x ), g1 = step_df2( c1, x ), g2 = step_df2_transposed( c2, x );
            m.step( 3 ); m.state( mc::mix( mc::u64( Fm::frac + 100 ), mc::mix( mc::u64( g0.underlying_value() ), mc::u64( g2.underlying_value() ) ) ) );
            m.check( within( y, g0 ) && within( y, g1 ) && within( yt, g2 ), "cascade", [&]{ return mc::cat( name, " cascade of ", n, " output ", t, ": ", double( val<Fm>( g0 ) ), " ", double( val<Fm>( g1 ) ), " ", double( val<Fm>( g2 ) ), ", not ", double( y.v ), " +/- ", double( y.e ) ); } );
        } } catch ( Lost const & ) { throw mc::Prune{}; }
    } );
    mc::explore( mc::cat( "one-pole ", name ), 3, [&]( mc::Ctx & m )
    {
        try { using O = dsp::OnePoleT<X>; double b = m.pick( coefficients ), a = m.pick( coefficients ); O q( typename O::B{ fx<Fm>( b ) }, typename O::A{ fx<Fm>( a ) } ); N y( 0 ), bb( quant<Fm>( b ) ), aa( quant<Fm>( a ) ); for ( int t = 0; t < 6; ++t )
        {
            double in = m.pick( inputs ); y = N( quant<Fm>( in ) ) * bb - y * aa; X g = q.step( fx<Fm>( in ) ); m.step(); m.state( mc::mix( mc::u64( Fm::frac + 200 ), mc::u64( g.underlying_value() ) ) );
            m.check( within( y, g ), "one-pole", [&]{ return mc::cat( name, " b=", b, " a=", a, " output ", t, ": ", double( val<Fm>( g ) ), ", not ", double( y.v ), " +/- ", double( y.e ) ); } );
        } } catch ( Lost const & ) { throw mc::Prune{}; }
    } );
}
using i16 = std::int16_t; using i32 = std::int32_t;
MC_MAIN(
    settled<Format<i32,15>>( "int32 /2^15" ); settled<Format<i32,20>>( "int32 /2^20" ); settled<Format<i32,12>>( "int32 /2^12" );
    estimator<Format<i32,15>,1,1>( "int32 /2^15" ); estimator<Format<i32,15>,1,2>( "int32 /2^15" ); estimator<Format<i32,15>,2,1>( "int32 /2^15" ); estimator<Format<i32,15>,2,2>( "int32 /2^15" );
    estimator<Format<i32,20>,1,1>( "int32 /2^20" ); estimator<Format<i32,20>,2,2>( "int32 /2^20" ); estimator<Format<i16,8>,1,1>( "int16 /2^8" );
    filters<Format<i32,15>>( "int32 /2^15" ); filters<Format<i16,12>>( "int16 /2^12" ); filters<Format<i32,24>>( "int32 /2^24" );
)
