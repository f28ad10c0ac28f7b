// K02: the error covariance stays symmetric and positive semidefinite, a measurement never increases it,
// and neither it nor the gain depends on the data.
#include "kalman_common.hpp"

static const std::vector<Rat> dev_values = { 0, 1, -1, 3, q(1,3), q(-5,2), q(1,1024), 1000003 };

template< typename T, int N > Mx<T> from_impl( num::matrix<T,N,N> const & a ) { Mx<T> r( N, N ); for ( int i = 0; i < N * N; ++i ) r.v[i] = a(i); return r; }

// every model near the bases: invariants after every step, exactly
template< int M, int U >
void models( mc::Ctx & c )
{
    mc::explore( mc::cat( "models M=", M, " U=", U ), 4, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( m.choose( 3 ), M, U );
        deviate( m, cfg, m.thorough ? 3 : 2, dev_values, 0 );
        if ( !psd( cfg.Q ) || !psd( cfg.P ) || cfg.Rn(0,0) < 0 || ( M == 2 && !psd( cfg.Rn ) ) ) throw mc::Prune{};
        auto us = controls( U ); auto zs = measurements( M );
        auto k = make<NUMTYPE,M,U>( cfg ), k2 = make<NUMTYPE,M,U>( cfg );
        Mx<Rat> P = cfg.P;
        constexpr bool exact = std::is_same_v<NUMTYPE,Rat>;
        for ( int s = 0; s < 3; ++s )
        {
            auto pred = add( mul( mul( cfg.A, P ), tr( cfg.A ) ), cfg.Q );
            auto S = add( mul( mul( cfg.H, pred ), tr( cfg.H ) ), cfg.Rn );
            if ( M == 1 ? S(0,0) == 0 : S(0,0) * S(1,1) == S(0,1) * S(1,0) ) throw mc::Prune{};
            k.update( to_impl<NUMTYPE,U,1>( us[s] ), to_impl<NUMTYPE,M,1>( zs[s] ) );
            k2.update( to_impl<NUMTYPE,U,1>( us[2 - s] ), to_impl<NUMTYPE,M,1>( zs[3 - s] ) );
            m.step( 2 );
            auto post = k.estimation_error_covariance(); auto K = k.kalman_gain();
            if constexpr ( exact )
            {
                auto p = from_impl( post );
                auto d = [&]{ return mc::cat( "step ", s, ": covariance ", show( post ), " predicted ", show( pred ), " for ", show( cfg ) ); };
                m.check( p(0,1) == p(1,0), "symmetric", d );
                m.check( psd( p ), "psd", d );
                m.check( psd( add( pred, p, -1 ) ), "not-increased", d );
                P = p;
            }
            else
            {   // rebuilt in a native type: keep to the reference covariance, with tolerance
                auto p = from_impl( post ); double sc = 1 + std::fabs( double( p.v[0] ) ) + std::fabs( double( p.v[3] ) );
                auto d = [&]{ return mc::cat( "step ", s, ": covariance ", show( post ), " for ", show( cfg ) ); };
                m.check( std::fabs( double( p(0,1) - p(1,0) ) ) <= 1e-6 * sc && p(0,0) >= -1e-6 * sc && p(1,1) >= -1e-6 * sc, "psd", d );
                RefKalman<Rat> r( cfg ); r.P = P; r.update( us[s], zs[s] ); P = r.P;
            }
            auto post2 = k2.estimation_error_covariance(); auto K2 = k2.kalman_gain();
            m.state( hash_mx( from_impl( post ) ) );
            for ( int i = 0; i < 4; ++i ) m.check( post(i) == post2(i), "covariance-depends-on-data", [&]{ return mc::cat( "step ", s, ": ", show( post ), " vs ", show( post2 ), " for ", show( cfg ) ); } );
            for ( int i = 0; i < 2 * M; ++i ) m.check( K(i) == K2(i), "gain-depends-on-data", [&]{ return mc::cat( "step ", s, ": ", show( K ), " vs ", show( K2 ), " for ", show( cfg ) ); } );
        }
        m.sample( [&]{ return mc::cat( show( cfg ), " -> P=", show( k.estimation_error_covariance() ) ); } );
    } );
}

// every assignment of data sequences: covariance and gain equal those of the all-zero data run
template< typename T, int M, int U >
void data( mc::Ctx & c, char const * tname )
{
    mc::explore( mc::cat( "data independence ", tname, " M=", M, " U=", U ), 3, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( m.choose( 3 ), M, U );
        auto us = controls( U ); auto zs = measurements( M );
        us.push_back( us[1] ); for ( int i = 0; i < U; ++i ) us.back().v[i] = -1000000;
        zs.push_back( zs[1] ); for ( int i = 0; i < M; ++i ) zs.back().v[i] = q( -1, 1024 );
        // sizes of the data: huge ones may leave the state beyond the format, the covariance is what it is
        static const std::vector<std::array<double,2>> sizes = { { 1, 1 }, { 1e-30, 1 }, { 1e9, 1e9 }, { 1e30, 1e-30 }, { 1, 1e30 } };
        const auto & both = m.pick( sizes ); const double size = both[0], sizex = both[1];
        for ( auto & u : us ) for ( auto & v : u.v ) v *= Rat( size );
        for ( auto & v : zs ) for ( auto & e : v.v ) e *= Rat( size );
        auto quiet = cfg; for ( auto & v : cfg.x.v ) v *= Rat( sizex );
        auto k = make<T,M,U>( cfg ), z = make<T,M,U>( quiet );
        for ( int s = 0; s < 3; ++s )
        {
            int ui = m.choose( int( us.size() ) ), zi = m.choose( int( zs.size() ) );
            k.update( to_impl<T,U,1>( us[ui] ), to_impl<T,M,1>( zs[zi] ) );
            z.update( to_impl<T,U,1>( us[0] ), to_impl<T,M,1>( zs[0] ) );
            m.step( 2 );
            auto a = k.estimation_error_covariance(), b = z.estimation_error_covariance(); auto ka = k.kalman_gain(), kb = z.kalman_gain();
            bool ok = true; for ( int i = 0; i < 4; ++i ) ok = ok && a(i) == b(i);
            m.check( ok, "covariance-depends-on-data", [&]{ return mc::cat( "step ", s, ": ", show( a ), " vs ", show( b ), " for ", show( cfg ) ); } );
            ok = true; for ( int i = 0; i < 2 * M; ++i ) ok = ok && ka(i) == kb(i);
            m.check( ok, "gain-depends-on-data", [&]{ return mc::cat( "step ", s, ": ", show( ka ), " vs ", show( kb ), " for ", show( cfg ) ); } );
            m.state( mc::mix( mc::hash_double( double( dbl( k.system_state()(0) ) ) ), mc::hash_double( double( dbl( k.system_state()(1) ) ) ) ) );
        }
    } );
}

// long runs in double: symmetric, non-negative, bounded by the prediction
template< int M, int U >
void lasso( mc::Ctx & c )
{
    mc::explore( mc::cat( "long runs M=", M, " U=", U ), 4, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( m.choose( 3 ), M, U ); const auto plain = show( cfg );
        static const std::vector<Rat> v = { 0, 1, q(1,2), q(1,1000), 50 };
        deviate( m, cfg, 1, v, 0 );
        static const std::vector<int> sizes = { 0, -200, -60, -24, 24, 60, 200 };
        const int e = m.pick( sizes ); const double by = std::ldexp( 1., e );
        if ( !psd( cfg.Q ) || !psd( cfg.P ) || cfg.Rn(0,0) <= 0 || ( M == 2 && ( !psd( cfg.Rn ) || cfg.Rn(0,0) * cfg.Rn(1,1) <= cfg.Rn(0,1) * cfg.Rn(1,0) ) ) ) throw mc::Prune{};
        auto us = controls( U ); auto zs = measurements( M );
        Config<double> cd( M, U ); cd.dt = dbl( cfg.dt );
        for ( int i = 0; i < 4; ++i ) { cd.A.v[i] = dbl( cfg.A.v[i] ); cd.B.v[i] = dbl( cfg.B.v[i] ); cd.H.v[i] = dbl( cfg.H.v[i] ); cd.Q.v[i] = by * dbl( cfg.Q.v[i] ); cd.Rn.v[i] = by * dbl( cfg.Rn.v[i] ); cd.P.v[i] = by * dbl( cfg.P.v[i] ); cd.x.v[i] = dbl( cfg.x.v[i] ); }
        auto k = make<double,M,U>( cd ), quiet = make<double,M,U>( cd );
        auto const & A = cd.A; auto const & Q = cd.Q;
        const int n = !e && show( cfg ) == plain ? 70000 : ( m.thorough ? 3000 : 400 ) / ( e ? 2 : 1 );
        for ( int s = 0; s < n; ++s )
        {
            auto before = from_impl( k.estimation_error_covariance() );
            auto pred = add( mul( mul( A, before ), tr( A ) ), Q );
            if ( pred(0,0) + pred(1,1) > 1e12 * by ) throw mc::Prune{};      // an unobserved mode runs away: outside what doubles can carry
            k.update( to_impl<double,U,1>( us[ s % 3 ] ), to_impl<double,M,1>( zs[ s % 4 ] ) );
            quiet.update( to_impl<double,U,1>( us[0] ), to_impl<double,M,1>( zs[0] ) );
            m.step( 2 );
            auto p = from_impl( k.estimation_error_covariance() ), p0 = from_impl( quiet.estimation_error_covariance() );
            bool same = true; for ( int i = 0; i < 4; ++i ) same = same && p.v[i] == p0.v[i];
            m.check( same, "covariance-depends-on-data", [&]{ return mc::cat( "long run step ", s, ": ", show( p ), " vs ", show( p0 ), " for ", show( cd ) ); } );
            double sc = std::fabs( pred(0,0) ) + std::fabs( pred(1,1) ) + 1e-12 * by, eps = 1e-7 * sc;
            auto d = [&]{ return mc::cat( "long run step ", s, ": covariance ", show( p ), " predicted ", show( pred ), " for ", show( cd ) ); };
            bool sym = std::fabs( p(0,1) - p(1,0) ) <= eps;
            bool pos = p(0,0) >= -eps && p(1,1) >= -eps && p(0,0) * p(1,1) - p(0,1) * p(1,0) >= -eps * sc;
            auto e = add( pred, p, -1 );
            bool le  = e(0,0) >= -eps && e(1,1) >= -eps && e(0,0) * e(1,1) - e(0,1) * e(1,0) >= -eps * sc;
            m.check( sym, "symmetric", d ); m.check( pos, "psd", d ); m.check( le, "not-increased", d );
            if ( !( sym && pos && le ) ) break;
            if ( s % 20 == 0 ) m.state( hash_mx( p ) );
        }
    } );
}

// covariances of all sizes, exactly
template< int M, int U >
void sizes( mc::Ctx & c )
{
    mc::explore( mc::cat( "sizes M=", M, " U=", U ), 4, [&]( mc::Ctx & m )
    {
        static const std::vector<Rat> v = { 0, 1, q(1,3), -2 };
        auto cfg = base_config( m.choose( 3 ), M, U );
        deviate( m, cfg, m.thorough ? 2 : 1, v, 0 );
        if ( !psd( cfg.Q ) || !psd( cfg.P ) || cfg.Rn(0,0) < 0 || ( M == 2 && !psd( cfg.Rn ) ) ) throw mc::Prune{};
        auto pow2 = []( int e ) { Rat r = 1; for ( int i = 0; i < std::abs( e ); ++i ) r *= 2; return e < 0 ? Rat( 1 ) / r : r; };
        static const std::vector<int> all = { 0, -120, -40, -20, 20, 40, 120 }, some = { 0, -120, -24, 24, 120 }; auto const & by = m.thorough ? all : some;
        Rat fP = pow2( m.pick( by ) ), fQ = pow2( m.pick( by ) ), fR = pow2( m.pick( by ) ), fd = pow2( m.pick( by ) );
        for ( auto & e : cfg.P.v ) e *= fP; for ( auto & e : cfg.Q.v ) e *= fQ; for ( auto & e : cfg.Rn.v ) e *= fR;
        auto us = controls( U ); auto zs = measurements( M );
        for ( auto & u : us ) for ( auto & e : u.v ) e *= fd;
        for ( auto & z : zs ) for ( auto & e : z.v ) e *= fd;
        auto k = make<Rat,M,U>( cfg ); Mx<Rat> P = cfg.P;
        for ( int s = 0; s < 2; ++s )
        {
            auto pred = add( mul( mul( cfg.A, P ), tr( cfg.A ) ), cfg.Q );
            auto S = add( mul( mul( cfg.H, pred ), tr( cfg.H ) ), cfg.Rn );
            if ( M == 1 ? S(0,0) == 0 : S(0,0) * S(1,1) == S(0,1) * S(1,0) ) throw mc::Prune{};
            k.update( to_impl<Rat,U,1>( us[ size_t( 1 + s ) ] ), to_impl<Rat,M,1>( zs[ size_t( 1 + s ) ] ) ); m.step();
            auto p = from_impl( k.estimation_error_covariance() );
            auto d = [&]{ return mc::cat( "sizes, step ", s, ": covariance ", dbl( p.v[0] ), " ", dbl( p.v[1] ), " ", dbl( p.v[2] ), " ", dbl( p.v[3] ), " predicted ", dbl( pred.v[0] ), " ", dbl( pred.v[1] ), " ", dbl( pred.v[3] ), " for ", show( cfg ) ); };
            m.check( p(0,1) == p(1,0), "symmetric", d );
            m.check( psd( p ), "psd", d );
            m.check( psd( add( pred, p, -1 ) ), "not-increased", d );
            m.state( hash_mx( p ) );
            P = p;
        }
    } );
}

MC_MAIN(
    auto & c = mc::ctx();
    models<1,1>( c ); models<2,1>( c ); models<1,2>( c ); models<2,2>( c );
    data<NUMTYPE,1,1>( c, "exact" ); data<NUMTYPE,2,2>( c, "exact" ); data<double,1,1>( c, "double" ); data<double,2,1>( c, "double" ); data<double,1,2>( c, "double" ); data<double,2,2>( c, "double" );
    if constexpr ( std::is_same_v<NUMTYPE,Rat> ) { sizes<1,1>( c ); sizes<2,2>( c ); }
    lasso<1,1>( c ); lasso<2,2>( c ); lasso<1,2>( c ); lasso<2,1>( c );
)
