// K01: every step of the estimator is the textbook predict/correct recursion, for every model and every history.
#include "kalman_common.hpp"

static const std::vector<Rat> dev_values = { 0, 1, -1, 2, q(1,3), q(-5,2), q(1,1024), 1000003 };

template< typename T, int M, int U >
void compare( mc::Ctx & m, num::kalman<T,2,M,U> const & k, RefKalman<Rat> const & r, double tol, char const * where, int step )
{
    auto x = k.system_state(); auto P = k.estimation_error_covariance(); auto K = k.kalman_gain();
    auto d = [&]( auto const & got, auto const & want ) { return mc::cat( where, " step ", step, ": got ", show( got ), " expected ", show( want ), " for ", show( r.c ) ); };
    m.state( hash_mx( r.x, hash_mx( r.P, hash_mx( r.K ) ) ) );
    if ( r.zero_innovation ) throw mc::Prune{};      // that case is K04's
    m.check( same( K, r.K, tol ), "gain",       [&]{ return d( K, r.K ); } );
    m.check( same( x, r.x, tol ), "state",      [&]{ return d( x, r.x ); } );
    m.check( same( P, r.P, tol ), "covariance", [&]{ return d( P, r.P ); } );
    m.check( std::fabs( double( dbl( k.time() ) ) - double( dbl( r.t ) ) ) <= 1e-6 * ( 1 + std::fabs( double( dbl( r.t ) ) ) ), "time", [&]{ return mc::cat( where, " step ", step, ": time ", dbl( k.time() ), " expected ", dbl( r.t ) ); } );
}

// all models within max_dev entry changes of a base, along fixed histories
template< int M, int U >
void models( mc::Ctx & c )
{
    mc::explore( mc::cat( "models M=", M, " U=", U ), 4, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( m.choose( 3 ), M, U );
        deviate( m, cfg, m.thorough ? 3 : 2, dev_values, 0 );
        if ( !psd( cfg.Q ) || !psd( cfg.P ) || cfg.Rn(0,0) < 0 || ( M == 2 && !psd( cfg.Rn ) ) ) throw mc::Prune{};
        auto us = controls( U ); auto zs = measurements( M );
        auto k = make<NUMTYPE,M,U>( cfg ); RefKalman<Rat> r( cfg );
        static const int hist[3][2] = { {1,2}, {0,1}, {2,3} };
        for ( int s = 0; s < 3; ++s )
        {
            try { r.update( us[ hist[s][0] ], zs[ hist[s][1] ] ); } catch ( Singular const & ) { throw mc::Prune{}; }
            k.update( to_impl<NUMTYPE,U,1>( us[ hist[s][0] ] ), to_impl<NUMTYPE,M,1>( zs[ hist[s][1] ] ) );
            m.step();
            compare( m, k, r, 1e-6, "models", s );
        }
        m.sample( [&]{ return mc::cat( show( cfg ), " -> x=", show( r.x ), " P=", show( r.P ) ); } );
    } );
}

// all input histories up to a length, for every base model
template< typename T, int M, int U >
void histories( mc::Ctx & c, char const * tname, int len )
{
    mc::explore( mc::cat( "histories ", tname, " M=", M, " U=", U ), 3, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( m.choose( 3 ), M, U );
        auto us = controls( U ); auto zs = measurements( M );
        auto k = make<T,M,U>( cfg ); RefKalman<Rat> r( cfg );
        std::string h;
        for ( int s = 0; s < len; ++s )
        {
            int ui = m.choose( int( us.size() ) ), zi = m.choose( int( zs.size() ) );
            r.update( us[ui], zs[zi] );
            k.update( to_impl<T,U,1>( us[ui] ), to_impl<T,M,1>( zs[zi] ) );
            m.step();
            compare( m, k, r, sizeof(T) == 4 ? 2e-2 : 1e-6, "histories", s );
            h += mc::cat( " u", ui, "z", zi );
        }
        m.sample( [&]{ return mc::cat( h, " -> x=", show( r.x ) ); } );
    } );
}

// every assignment of the four dynamics entries, and of the measurement row, over small domains
template< int M, int U >
void dense( mc::Ctx & c )
{
    mc::explore( mc::cat( "dense A,H M=", M, " U=", U ), 4, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( 1, M, U );
        static const std::vector<Rat> small = { 0, 1, -2 };
        for ( int i = 0; i < 4; ++i ) cfg.A.v[i] = m.pick( small );
        for ( int i = 0; i < 2 * M; ++i ) cfg.H.v[i] = m.pick( small );
        if ( m.thorough ) { cfg.x.v[0] = m.pick( small ); cfg.B.v[0] = m.pick( small ); }
        auto us = controls( U ); auto zs = measurements( M );
        auto k = make<NUMTYPE,M,U>( cfg ); RefKalman<Rat> r( cfg );
        for ( int s = 0; s < 2; ++s )
        {
            try { r.update( us[ 1 + s ], zs[ 2 - s ] ); } catch ( Singular const & ) { throw mc::Prune{}; }
            k.update( to_impl<NUMTYPE,U,1>( us[ 1 + s ] ), to_impl<NUMTYPE,M,1>( zs[ 2 - s ] ) );
            m.step();
            compare( m, k, r, 1e-6, "dense", s );
        }
    } );
}

// long runs under every periodic input of period 2, in double against long double
template< int M, int U >
void lasso( mc::Ctx & c )
{
    mc::explore( mc::cat( "long runs M=", M, " U=", U ), 3, [&]( mc::Ctx & m )
    {
        auto cfg = base_config( m.choose( 3 ), M, U );
        auto us = controls( U ); auto zs = measurements( M );
        int a[2][2]; for ( auto & p : a ) { p[0] = m.choose( int( us.size() ) ); p[1] = m.choose( int( zs.size() ) ); }
        using L = long double;
        Config<L> lc( M, U ); auto cp = []( Mx<L> & d, Mx<Rat> const & s ) { for ( int i = 0; i < s.n * s.m; ++i ) d.v[i] = dbl( s.v[i] ); };
        lc.dt = dbl( cfg.dt ); cp( lc.A, cfg.A ); cp( lc.B, cfg.B ); cp( lc.H, cfg.H ); cp( lc.Q, cfg.Q ); cp( lc.Rn, cfg.Rn ); cp( lc.P, cfg.P ); cp( lc.x, cfg.x );
        auto k = make<double,M,U>( cfg ); RefKalman<L> r( lc );
        const int n = a[0][0] == 1 && a[0][1] == 1 && a[1][0] == 0 && a[1][1] == 2 ? 70000 : m.thorough ? 5000 : 700;
        for ( int s = 0; s < n; ++s )
        {
            auto u = us[ a[s&1][0] ], z = zs[ a[s&1][1] ];
            Mx<L> ul( U, 1 ), zl( M, 1 ); cp( ul, u ); cp( zl, z );
            r.update( ul, zl );
            k.update( to_impl<double,U,1>( u ), to_impl<double,M,1>( z ) );
            m.step();
            auto bad = [&]( char const * w, auto const & got, auto const & want ) { return mc::cat( "long run step ", s, ": ", w, " got ", show( got ), " expected ", show( want ), " for ", show( cfg ) ); };
            auto x = k.system_state(); auto P = k.estimation_error_covariance(); auto K = k.kalman_gain();
            bool ok = true;
            if ( !same( K, r.K, 1e-6 ) ) { ok = false; m.violate( "gain",       bad( "gain", K, r.K ) ); }
            if ( !same( x, r.x, 1e-6 ) ) { ok = false; m.violate( "state",      bad( "state", x, r.x ) ); }
            if ( !same( P, r.P, 1e-6 ) ) { ok = false; m.violate( "covariance", bad( "covariance", P, r.P ) ); }
            if ( !ok ) break;
            if ( s % 50 == 0 ) m.state( hash_mx( r.x, hash_mx( r.P ) ) );
        }
    } );
}

// a change of units, by powers of two: the estimate, gain and covariance change units with the model, to the last bit
template< typename T, int M, int U >
void units( mc::Ctx & c, char const * tname )
{
    mc::explore( mc::cat( "units ", tname, " M=", M, " U=", U ), 3, [&]( mc::Ctx & m )
    {
        // what the unit is of: signals and covariances, signals only, or the single measurements, states, controls
        static const std::vector<int> wide = { -200, -100, -60, -30, -17, -6, 6, 17, 30, 60, 100, 200 }, narrow = { -15, -11, -6, 6, 11, 15 }, some = { 0, -200, -60, -17, 17, 60, 200 }, few = { 0, -15, 6, 15 };
        const bool dbl = sizeof( T ) == 8; int kind = m.choose( 5 ), e[2];
        if ( kind < 2 ) e[0] = e[1] = m.pick( dbl ? wide : narrow );
        else { for ( int & x : e ) x = m.pick( dbl ? some : few ); if ( ( kind == 2 && M == 1 ) || ( kind == 4 && U == 1 ) ) { if ( e[1] ) throw mc::Prune{}; } if ( !e[0] && !e[1] ) throw mc::Prune{}; }
        auto cfg = base_config( m.choose( 3 ), M, U );
        deviate( m, cfg, m.thorough ? 2 : 1, { 0, 1, -2, q(1,3) }, 0 );
        if ( !psd( cfg.Q ) || !psd( cfg.P ) || cfg.Rn(0,0) < 0 || ( M == 2 && !psd( cfg.Rn ) ) ) throw mc::Prune{};
        using V = typename num::kalman<T,2,M,U>;
        static const int none[2] = { 0, 0 };
        // element i,j in the units of row i times (or over) those of column j
        auto scaled = [&]( auto a, int const * row, int const * col, int sign ) { for ( int i = 0; i < a.rows(); ++i ) for ( int j = 0; j < a.columns(); ++j ) a( i, j ) = T( std::ldexp( a( i, j ), row[i] + sign * col[j] ) ); return a; };
        bool all = kind == 0, signals = kind == 1; int const * g = all || kind == 2 ? e : none, * d = all || kind == 3 ? e : none, * h = all || kind == 4 ? e : none, * add = signals ? e : none;
        T dt = conv<T>( cfg.dt ); auto A = to_impl<T,2,2>( cfg.A ); auto B = to_impl<T,2,U>( cfg.B ); auto H = to_impl<T,M,2>( cfg.H ); auto Q = to_impl<T,2,2>( cfg.Q ); auto R = to_impl<T,M,M>( cfg.Rn ); auto P = to_impl<T,2,2>( cfg.P ); auto x = to_impl<T,2,1>( cfg.x );
        V k( dt, A, B, H, Q, R, P, x ), s( std::ldexp( dt, e[0] ), scaled( A, d, d, -1 ), scaled( B, d, h, -1 ), scaled( H, g, d, -1 ), scaled( Q, d, d, 1 ), scaled( R, g, g, 1 ), scaled( P, d, d, 1 ), scaled( scaled( x, d, none, 1 ), add, none, 1 ) );
        auto us = controls( U ); auto zs = measurements( M );
        for ( int n = 0; n < 3; ++n )
        {
            auto u = to_impl<T,U,1>( us[ 1 + ( n & 1 ) ] ); auto z = to_impl<T,M,1>( zs[ size_t( 1 + m.choose( 2 ) + ( n & 1 ) ) ] );
            k.update( u, z ); s.update( scaled( scaled( u, h, none, 1 ), add, none, 1 ), scaled( scaled( z, g, none, 1 ), add, none, 1 ) ); m.step( 2 );
            // the gain takes the unit of the state over that of the measurement
            auto K = scaled( k.kalman_gain(), d, g, -1 ); auto X = scaled( scaled( k.system_state(), d, none, 1 ), add, none, 1 ); auto C = scaled( k.estimation_error_covariance(), d, d, 1 );
            auto eq = [&]( auto const & a, auto const & b ) { for ( int i = 0; i < a.rows() * a.columns(); ++i ) if ( !( a( i ) == b( i ) || ( a( i ) != a( i ) && b( i ) != b( i ) ) ) ) return false; return true; };
            static char const * const what[] = { "signals and covariances", "signals", "measurements", "state", "controls" };
            auto told = [&]( char const * w, auto const & got, auto const & want ) { return mc::cat( tname, " step ", n, " with the unit of ", what[kind], " changed by 2^", e[0], " and 2^", e[1], ": ", w, " ", show( got ), " expected ", show( want ), " for ", show( cfg ) ); };
            { mc::u64 h = mc::u64( kind ); for ( int i = 0; i < 4; ++i ) h = mc::mix( h, mc::hash_double( C( i ) ) ); m.state( h ); }
            if ( !std::isfinite( k.kalman_gain()( 0 ) ) ) throw mc::Prune{};
            // values so small that the format rounds them to its smallest units are not the same in other units
            auto lost = [&]( auto const & a ) { for ( int i = 0; i < a.rows() * a.columns(); ++i ) if ( a( i ) != 0 && std::fabs( a( i ) ) < std::ldexp( std::numeric_limits<T>::min(), 24 ) ) return true; return false; };
            if ( lost( k.estimation_error_covariance() ) || lost( s.estimation_error_covariance() ) || lost( k.kalman_gain() ) || lost( s.kalman_gain() ) ) throw mc::Prune{};
            m.check( s.time() == T( std::ldexp( k.time(), e[0] ) ), "unit-time", [&]{ return mc::cat( "time ", s.time(), " with a time step 2^", e[0], " times that which gives ", k.time() ); } );
            m.check( eq( s.kalman_gain(), K ), "unit-gain", [&]{ return told( "gain", s.kalman_gain(), K ); } );
            m.check( eq( s.system_state(), X ), "unit-state", [&]{ return told( "state", s.system_state(), X ); } );
            m.check( eq( s.estimation_error_covariance(), C ), "unit-covariance", [&]{ return told( "covariance", s.estimation_error_covariance(), C ); } );
        }
        m.sample( [&]{ return mc::cat( "unit ", kind, " 2^", e[0], ",", e[1], " ", show( cfg ) ); } );
    } );
}

MC_MAIN(
    auto & c = mc::ctx();
    int L = c.thorough ? 4 : 3;
    models<1,1>( c ); models<2,1>( c ); models<1,2>( c ); models<2,2>( c );
    histories<NUMTYPE,1,1>( c, "exact", L ); histories<NUMTYPE,2,1>( c, "exact", L ); histories<NUMTYPE,1,2>( c, "exact", L ); histories<NUMTYPE,2,2>( c, "exact", L );
    histories<double,1,1>( c, "double", L ); histories<double,2,2>( c, "double", L ); histories<double,1,2>( c, "double", L ); histories<double,2,1>( c, "double", L );
    dense<1,1>( c ); dense<2,2>( c );
    units<double,1,1>( c, "double" ); units<double,2,1>( c, "double" ); units<double,1,2>( c, "double" ); units<double,2,2>( c, "double" ); units<float,1,1>( c, "float" ); units<float,2,2>( c, "float" );
    lasso<1,1>( c ); lasso<2,2>( c ); lasso<1,2>( c ); lasso<2,1>( c );
)
