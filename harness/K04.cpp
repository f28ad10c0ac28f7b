// K04: a single measurement whose innovation covariance is zero leaves the prediction in force, a noise-free sensor is
// reproduced, and estimates stay finite, for every model and data.
#include "kalman_common.hpp"

template< typename T, int U >
void certain( mc::Ctx & c, char const * tname )
{
    mc::explore( mc::cat( "zero innovation covariance ", tname, " U=", U ), 4, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( 1, 1, U );
        static const std::vector<Rat> small = { 0, 1, -2 };
        static const std::vector<Rat> cov = { 0, 4 };
        for ( int i = 0; i < 4; ++i ) cfg.A.v[i] = m.pick( small );
        for ( int i = 0; i < 2; ++i ) cfg.H.v[i] = m.pick( small );
        cfg.Rn.v[0] = 0;
        cfg.P.v[0] = m.pick( cov ); cfg.P.v[3] = m.pick( cov ); cfg.P.v[1] = cfg.P.v[2] = cfg.P.v[0] * cfg.P.v[3] == 0 ? 0 : m.choose( 2 ) * 4;
        cfg.Q.v[0] = m.pick( cov ); cfg.Q.v[3] = m.pick( cov ); cfg.Q.v[1] = cfg.Q.v[2] = 0;
        auto us = controls( U ); auto zs = measurements( 1 );
        int ui = m.choose( int( us.size() ) ), zi = m.choose( 3 );
        auto k = make<T,1,U>( cfg ); RefKalman<Rat> r( cfg );
        bool seen = false;
        for ( int s = 0; s < 3; ++s )
        {
            r.update( us[ui], zs[zi] );
            k.update( to_impl<T,U,1>( us[ui] ), to_impl<T,1,1>( zs[zi] ) );
            m.step();
            auto x = k.system_state(); auto P = k.estimation_error_covariance(); auto K = k.kalman_gain();
            m.state( hash_mx( r.x, hash_mx( r.P, hash_mx( r.K ) ) ) );
            auto d = [&]{ return mc::cat( "step ", s, ": K=", show( K ), " x=", show( x ), " P=", show( P ), " expected K=", show( r.K ), " x=", show( r.x ), " P=", show( r.P ), " for ", show( cfg ), " u ", show( us[ui] ), " z ", show( zs[zi] ) ); };
            if ( r.zero_innovation )
            {
                seen = true;
                m.check( same( K, Mx<Rat>( 2, 1 ), 0 ), "gain-not-zero", d );
                m.check( same( x, r.xpred, 1e-9 ) && same( P, r.Ppred, 1e-9 ), "prediction-changed", d );
            }
            else if constexpr ( std::is_same_v<T,Rat> )
                m.check( same( x, r.x, 0 ) && same( P, r.P, 0 ), "after-degenerate-step", d );
            else break;       // rounding may leave a tiny non-zero covariance: the exact instance covers what follows
        }
        if ( !seen ) throw mc::Prune{};
        m.sample( [&]{ return mc::cat( show( cfg ), " -> x=", show( r.x ) ); } );
    } );
}


static Rat pow2( int e ) { Rat r = 1; for ( int i = 0; i < std::abs( e ); ++i ) r *= 2; return e < 0 ? Rat( 1 ) / r : r; }
static std::vector<Rat> const & amounts( bool wide )
{
    static const std::vector<Rat> w = { 1, pow2( -200 ), pow2( -60 ), pow2( -17 ), pow2( 17 ), pow2( 60 ), pow2( 200 ) }, n = { 1, pow2( -30 ), pow2( -10 ), pow2( 10 ), pow2( 30 ) };
    return wide ? w : n;
}
static Rat mag( Rat const & a ) { return a < 0 ? Rat( -a ) : a; }
static Rat most( Mx<Rat> const & a ) { Rat r = 0; for ( int i = 0; i < a.n * a.m; ++i ) if ( mag( a.v[i] ) > r ) r = mag( a.v[i] ); return r; }
template< typename T, int N, int M > bool within( num::matrix<T,N,M> const & a, Mx<Rat> const & b, Rat const & slack )
{
    for ( int i = 0; i < N * M; ++i )
    {
        if constexpr ( std::is_same_v<T,Rat> ) { if ( a( i ) != b.v[i] ) return false; }
        else { if ( !std::isfinite( a( i ) ) || mag( Rat( a( i ) ) - b.v[i] ) > slack ) return false; }
    }
    return true;
}
template< typename T > Rat precision() { return sizeof( T ) == 4 ? q( 1, 100000 ) : q( 1, 1000000000 ); }

// the reasons for which the innovation covariance is zero, with values of all sizes
template< typename T, int U >
void sizes( mc::Ctx & c, char const * tname )
{
    mc::explore( mc::cat( "zero innovation covariance, sizes ", tname, " U=", U ), 3, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( m.choose( 3 ), 1, U ); cfg.Rn.v[0] = 0;
        auto const & by = amounts( sizeof( T ) != 4 );
        int why = m.choose( 5 );
        auto clear = []( Mx<Rat> & a ) { for ( auto & v : a.v ) v = 0; };
        auto scale = []( Mx<Rat> & a, Rat const & f ) { for ( auto & v : a.v ) v *= f; };
        Rat fx = m.pick( by ), fP = m.pick( by );
        scale( cfg.x, fx ); scale( cfg.B, m.pick( by ) ); scale( cfg.P, fP ); scale( cfg.Q, fP );
        if      ( why == 0 ) clear( cfg.H );                                                            // measures nothing
        else if ( why == 1 ) { clear( cfg.P ); clear( cfg.Q ); scale( cfg.H, fP ); }                    // everything is known
        else if ( why == 2 ) { cfg.A.v = { cfg.A.v[0], 0, 0, cfg.A.v[3] }; cfg.H.v = { 3, 0 }; cfg.P.v = { 0, 0, 0, fP }; cfg.Q.v = { 0, 0, 0, fP }; }   // measures what is known
        else if ( why == 3 ) { cfg.A.v = { cfg.A.v[0], 0, 0, cfg.A.v[3] }; cfg.H.v = { 0, fP }; cfg.P.v = { fP, 0, 0, 0 }; clear( cfg.Q ); }
        else { cfg.A.v = { 1, 0, 0, 1 }; cfg.H.v = { 1, -1 }; cfg.P.v = { fP, fP, fP, fP }; cfg.Q = cfg.P; }                                             // the two states differ by a known amount
        auto us = controls( U ); auto zs = measurements( 1 );
        // so little noise that its reciprocal exceeds the type: nothing is known better for it
        if constexpr ( !std::is_same_v<T,Rat> ) if ( why < 3 && m.choose( 2 ) ) cfg.Rn.v[0] = Rat( std::numeric_limits<T>::denorm_min() ) * 3;
        auto k = make<T,1,U>( cfg ); RefKalman<Rat> r( cfg ); Rat slackx = 0, slackP = 0;
        for ( int s = 0; s < 3; ++s )
        {
            auto u = us[ 1 + ( s & 1 ) ], z = zs[ 1 + m.choose( 3 ) ]; for ( auto & v : u.v ) v *= fx; for ( auto & v : z.v ) v *= fx;
            slackx = slackx * 4 * most( cfg.A ) + precision<T>() * 4 * ( most( cfg.A ) * most( r.x ) + most( cfg.B ) * most( u ) );
            slackP = slackP * 8 * most( cfg.A ) * most( cfg.A ) + precision<T>() * 8 * ( most( cfg.A ) * most( cfg.A ) * most( r.P ) + most( cfg.Q ) );
            r.update( u, z ); k.update( to_impl<T,U,1>( u ), to_impl<T,1,1>( z ) ); m.step();
            auto x = k.system_state(); auto P = k.estimation_error_covariance(); auto K = k.kalman_gain();
            auto d = [&]{ return mc::cat( tname, " sizes, step ", s, ": K=", show( K ), " x=", show( x ), " P=", show( P ), " expected K=0 x=", dbl( r.xpred.v[0] ), ",", dbl( r.xpred.v[1] ), " reason ", why, " for ", show( cfg ) ); };
            m.check( within( K, Mx<Rat>( 2, 1 ), 0 ), "gain-not-zero", d );
            m.check( within( x, r.xpred, slackx ) && within( P, r.Ppred, slackP ), "prediction-changed", d );
            m.state( hash_mx( r.x, hash_mx( r.P ) ) );
        }
        m.sample( [&]{ return mc::cat( tname, " ", show( cfg ) ); } );
    } );
}

// a noise-free sensor: the corrected state reproduces its measurement, and is certain in that direction
template< typename T, int M, int U >
void noise_free( mc::Ctx & c, char const * tname )
{
    mc::explore( mc::cat( "noise-free sensor ", tname, " M=", M, " U=", U ), 3, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( m.choose( 3 ), M, U );
        static const std::vector<Rat> v = { 0, 1, -2, q(1,3), 50 };
        deviate( m, cfg, ( m.thorough ? 3 : 2 ) - ( M == 2 ), v, 0 );
        int which = M == 1 ? 1 : 1 + m.choose( 3 );           // the sensors without noise
        if ( which & 1 ) for ( int i = 0; i < M; ++i ) cfg.Rn.v[i] = cfg.Rn.v[ i * M ] = 0;
        if ( which & 2 ) for ( int i = 0; i < M; ++i ) cfg.Rn.v[ M + i ] = cfg.Rn.v[ i * M + 1 ] = 0;
        if ( !psd( cfg.Q ) || !psd( cfg.P ) || cfg.Rn(0,0) < 0 || ( M == 2 && !psd( cfg.Rn ) ) ) throw mc::Prune{};
        auto const & by = amounts( sizeof( T ) != 4 ); Rat fz = 1, fP = 1;
        if ( m.choose( 2 ) ) { fz = m.pick( by ); fP = m.pick( by ); for ( auto & e : cfg.P.v ) e *= fP; for ( auto & e : cfg.Q.v ) e *= fP; for ( auto & e : cfg.Rn.v ) e *= fP; for ( auto & e : cfg.x.v ) e *= fz; for ( auto & e : cfg.B.v ) e *= fz; if ( fz == 1 && fP == 1 ) throw mc::Prune{}; }
        auto us = controls( U ); auto zs = measurements( M );
        auto k = make<T,M,U>( cfg ); RefKalman<Rat> r( cfg );
        for ( int s = 0; s < 3; ++s )
        {
            auto z = zs[ size_t( s + 1 ) ]; for ( auto & e : z.v ) e *= fz;
            // how well conditioned the step is
            auto pred = add( mul( mul( cfg.A, r.P ), tr( cfg.A ) ), cfg.Q ); auto S = add( mul( mul( cfg.H, pred ), tr( cfg.H ) ), cfg.Rn );
            Rat det = M == 1 ? S(0,0) : S(0,0) * S(1,1) - S(0,1) * S(1,0), top = M == 1 ? Rat( most( pred ) * most( cfg.H ) * most( cfg.H ) ) : Rat( most( S ) * most( S ) );
            if ( det <= 0 || ( !std::is_same_v<T,Rat> && ( det * 1000 < top || ( s && !( cfg.Q.v[0] > 0 && cfg.Q.v[3] > 0 ) ) ) ) ) { if ( s ) break; throw mc::Prune{}; }
            r.update( us[s], z ); k.update( to_impl<T,U,1>( us[s] ), to_impl<T,M,1>( z ) ); m.step();
            auto x = k.system_state();
            Mx<Rat> hx( M, 1 ); for ( int i = 0; i < M; ++i ) { if ( !std::isfinite( double( dbl( x( 0 ) ) ) ) || !std::isfinite( double( dbl( x( 1 ) ) ) ) ) { hx.v[i] = pow2( 1000 ); continue; } hx.v[i] = cfg.H( i, 0 ) * Rat( x( 0 ) ) + cfg.H( i, 1 ) * Rat( x( 1 ) ); }
            Rat slack = precision<T>() * 1000 * ( most( cfg.H ) * ( most( r.x ) + most( r.xpred ) + most( r.K ) * ( most( z ) + most( cfg.H ) * most( r.xpred ) ) ) + most( z ) );
            auto d = [&]{ return mc::cat( tname, " noise-free, step ", s, ": x=", show( x ), " reproduces ", dbl( hx.v[0] ), " ", M == 2 ? dbl( hx.v[1] ) : 0, " instead of ", show( z ), " for ", show( cfg ) ); };
            for ( int i = 0; i < M; ++i ) if ( which >> i & 1 )
            {
                if constexpr ( std::is_same_v<T,Rat> ) m.check( hx.v[i] == z.v[i], "measurement-not-reproduced", d );
                else                                   m.check( mag( hx.v[i] - z.v[i] ) <= slack, "measurement-not-reproduced", d );
            }
            m.state( hash_mx( r.x, hash_mx( r.P ) ) );
        }
        m.sample( [&]{ return mc::cat( tname, " ", show( cfg ) ); } );
    } );
}

// many updates with a noise-free sensor: rounding leaves less and less of the covariance, estimates stay finite
template< typename T >
void finite( mc::Ctx & c, char const * tname )
{
    mc::explore( mc::cat( "finite ", tname ), 3, [&]( mc::Ctx & m )
    {
        static const std::vector<std::array<double,4>> dynamics = { { 1, 0, 0, 1 }, { 1, .1, 0, 1 }, { .9, 0, 0, .3 }, { .6, .8, -.8, .6 }, { 0, 0, 0, 0 }, { -1, 0, 0, 1 }, { .5, .25, -.5, .75 }, { 0, 1, -1, 0 } };
        static const std::vector<double> outputs = { 0, 1, -2, .1, 1. / 3 }; static const std::vector<double> covariance = { 0, 1, 4, .1, 1. / 3, 100 };
        auto const & a = m.pick( dynamics ); double h0 = m.pick( outputs ), h1 = m.pick( outputs ), p0 = m.pick( covariance ), p3 = m.pick( covariance );
        double p1 = 0; if ( p0 > 0 && p3 > 0 ) p1 = ( m.choose( 3 ) - 1 ) * .5 * std::sqrt( p0 * p3 );
        int noise = m.choose( 2 ); if ( noise && ( a[1] != 0 || a[2] != 0 ) && sizeof( T ) == 4 ) throw mc::Prune{};
        using K = num::kalman<T,2,1,1>; num::matrix<T,2,2> A( T( 0 ) ), Q( T( 0 ) ), P( T( 0 ) ); num::matrix<T,2,1> B( T( 0 ) ), x( T( 0 ) ); num::matrix<T,1,2> H( T( 0 ) ); num::matrix<T,1,1> R( T( 0 ) );
        for ( int i = 0; i < 4; ++i ) A( i ) = T( a[size_t( i )] );
        H( 0 ) = T( h0 ); H( 1 ) = T( h1 ); P( 0 ) = T( p0 ); P( 1 ) = P( 2 ) = T( p1 ); P( 3 ) = T( p3 ); if ( noise ) Q( 0 ) = Q( 3 ) = T( .01 ); B( 0 ) = T( 1 ); B( 1 ) = T( -2 ); x( 0 ) = T( 3 );
        K k( T( 1 ), A, B, H, Q, R, P, x );
        for ( int s = 0; s < 60; ++s )
        {
            k.update( num::matrix<T,1,1>( T( s % 3 - 1 ) ), num::matrix<T,1,1>( T( s * 7 % 5 - 2 ) ) ); m.step();
            auto X = k.system_state(); auto C = k.estimation_error_covariance(); auto G = k.kalman_gain();
            bool ok = true; for ( int i = 0; i < 2; ++i ) ok = ok && std::isfinite( X( i ) ) && std::isfinite( G( i ) ); for ( int i = 0; i < 4; ++i ) ok = ok && std::isfinite( C( i ) );
            m.check( ok, "not-finite", [&]{ return mc::cat( tname, " noise-free sensor, step ", s, ": x=", show( X ), " P=", show( C ), " K=", show( G ), " for A=", show( A ), " H=", show( H ), " P0=", show( P ), " Q=", show( Q ) ); } );
            if ( !ok ) break;
            if ( s % 20 == 0 ) { mc::u64 g = mc::hash_double( X( 0 ) ); for ( int i = 0; i < 4; ++i ) g = mc::mix( g, mc::hash_double( C( i ) ) ); m.state( g ); }
        }
        m.sample( [&]{ return mc::cat( tname, " A=", show( A ), " H=", show( H ), " -> x=", show( k.system_state() ) ); } );
    } );
}

MC_MAIN(
    auto & c = mc::ctx();
    certain<NUMTYPE,1>( c, "exact" ); certain<NUMTYPE,2>( c, "exact" );
    certain<double,1>( c, "double" ); certain<float,1>( c, "float" ); certain<double,2>( c, "double" );
    sizes<NUMTYPE,1>( c, "exact" ); sizes<double,1>( c, "double" ); sizes<float,2>( c, "float" );
    noise_free<NUMTYPE,1,1>( c, "exact" ); noise_free<NUMTYPE,2,2>( c, "exact" ); noise_free<double,1,1>( c, "double" ); noise_free<double,2,1>( c, "double" ); noise_free<float,1,2>( c, "float" );
    finite<double>( c, "double" ); finite<float>( c, "float" );
)
