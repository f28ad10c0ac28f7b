// X02: the Kalman estimator on the microcontroller: the compiled firmware, instruction by instruction, against the textbook recursion in
// exact arithmetic where float can resolve it, and against the same estimator on the PC bit for bit everywhere.
#include "avrdev.hpp"
#include "kalman_common.hpp"
using namespace avr;

static const std::vector<Rat> few = { 0, 1, -1, 2, q(1,3), q(-5,2) };
using F = float;

// the uncertain start of the third base model in proportions that float can resolve
static Config<Rat> base( int which, int M, int U )
{
    auto c = base_config( which, M, U );
    if ( which == 2 ) { c.P(0,0) = c.P(1,1) = 16; for ( int i = 0; i < M; ++i ) c.Rn(i,i) = q( 1, 16 ); }
    return c;
}

template< int M, int U > struct Target
{
    Image const & im = image( "kalman" ); Mega & c = device( "kalman" ); u32 make_, update_, show_, copy_, in, u, z, out;
    Target()
    {
        std::string s = mc::cat( "_", M, U ); make_ = im.at( "make" + s ); update_ = im.at( "update" + s ); show_ = im.at( "show" + s ); copy_ = im.at( "copy" + s );
        in = im.at( "in" ); u = im.at( "u" ); z = im.at( "z" ); out = im.at( "out" );
    }
    void put( u32 a, int i, float f ) { u32 v; memcpy( &v, &f, 4 ); c.poke( a + 4 * i, v, 4 ); }
    float get( int i ) { u32 v = c.peek( out + 4 * i, 4 ); float f; memcpy( &f, &v, 4 ); return f; }
    void run( u32 f, int k ) { u16 sp = c.sp(); c.enter( f ); c.data[24] = u8( k ); c.run(); if ( c.sp() != sp ) throw Fault( "stack" ); }
    void all( Mx<Rat> const & a, int & i ) { for ( int k = 0; k < a.n * a.m; ++k ) put( in, i++, float( dbl( a.v[k] ) ) ); }
    void make( int k, Config<Rat> const & f ) { int i = 0; put( in, i++, float( dbl( f.dt ) ) ); all( f.A, i ); all( f.B, i ); all( f.H, i ); all( f.Q, i ); all( f.Rn, i ); all( f.P, i ); all( f.x, i ); run( make_, k ); run( show_, k ); }
    void update( int k, Mx<Rat> const & a, Mx<Rat> const & b ) { for ( int i = 0; i < U; ++i ) put( u, i, float( dbl( a.v[i] ) ) ); for ( int i = 0; i < M; ++i ) put( z, i, float( dbl( b.v[i] ) ) ); run( update_, k ); }
    // x, K, P, t as last shown
    std::vector<float> shown() { std::vector<float> v; for ( int i = 0; i < 2 + 2 * M + 4 + 1; ++i ) v.push_back( get( i ) ); return v; }
};
template< int M, int U > Target<M,U> & target() { static Target<M,U> t; return t; }

template< int M, int U > std::vector<float> shown( num::kalman<float,2,M,U> const & k )
{
    std::vector<float> v; auto x = k.system_state(); auto K = k.kalman_gain(); auto P = k.estimation_error_covariance();
    for ( int i = 0; i < 2; ++i ) v.push_back( x( i, 0 ) );
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < M; ++j ) v.push_back( K( i, j ) );
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) v.push_back( P( i, j ) );
    v.push_back( k.time() ); return v;
}
static std::vector<double> shown( RefKalman<Rat> const & r )
{
    std::vector<double> v; for ( auto * a : { &r.x, &r.K, &r.P } ) for ( int i = 0; i < a->n * a->m; ++i ) v.push_back( double( dbl( a->v[i] ) ) );
    v.push_back( double( dbl( r.t ) ) ); return v;
}
template< typename V > std::string list( V const & v ) { std::string t; for ( auto x : v ) t += mc::cat( " ", x ); return t; }
template< typename A, typename B > bool near( A const & a, B const & b, int from, int to, double tol )
{
    double s = 1; for ( int i = from; i < to; ++i ) s = std::max( s, std::fabs( double( b[i] ) ) );
    for ( int i = from; i < to; ++i ) if ( !( std::fabs( double( a[i] ) - double( b[i] ) ) <= tol * s ) ) return false;
    return true;
}

struct Truth    // the recursion, exact, and in float to see how much of it float can resolve
{
    RefKalman<Rat> r; RefKalman<float> f; bool sharp = true; Mx<float> alt { 2, 2 };     // alt: covariance as (1 - K H) P
    static Config<float> cast( Config<Rat> const & c )
    {
        Config<float> o( c.M, c.U ); auto cp = []( Mx<float> & d, Mx<Rat> const & s ) { for ( int i = 0; i < s.n * s.m; ++i ) d.v[i] = float( dbl( s.v[i] ) ); };
        o.dt = float( dbl( c.dt ) ); cp( o.A, c.A ); cp( o.B, c.B ); cp( o.H, c.H ); cp( o.Q, c.Q ); cp( o.Rn, c.Rn ); cp( o.P, c.P ); cp( o.x, c.x ); return o;
    }
    explicit Truth( Config<Rat> const & c ) : r( c ), f( cast( c ) ) {}
    void update( Mx<Rat> const & u, Mx<Rat> const & z )
    {
        Mx<float> uf( u.n, 1 ), zf( z.n, 1 ); for ( int i = 0; i < u.n; ++i ) uf.v[i] = float( dbl( u.v[i] ) ); for ( int i = 0; i < z.n; ++i ) zf.v[i] = float( dbl( z.v[i] ) );
        try { r.update( u, z ); f.update( uf, zf ); auto kh = mul( f.K, f.c.H ); for ( int i = 0; i < 4; ++i ) kh.v[i] = (i % 3 == 0 ? 1.0f : 0.0f) - kh.v[i]; alt = mul( kh, f.Ppred ); } catch ( Singular const & ) { throw mc::Prune{}; }
        for ( auto p : { std::make_pair( &r.x, &f.x ), std::make_pair( &r.P, &f.P ), std::make_pair( &r.K, &f.K ), std::make_pair( &r.P, &alt ) } )
        {
            double s = 1; for ( int i = 0; i < p.first->n * p.first->m; ++i ) s = std::max( s, std::fabs( double( dbl( p.first->v[i] ) ) ) );
            for ( int i = 0; i < p.first->n * p.first->m; ++i ) if ( !( std::fabs( double( dbl( p.first->v[i] ) ) - p.second->v[i] ) <= 1e-4 * s ) ) sharp = false;
        }
    }
};

template< int M, int U > void judge( mc::Ctx & m, std::vector<float> const & got, std::vector<float> const & pc, Truth const & t, int step )
{
    m.step(); mc::u64 h = mc::u64( M * 4 + U ); for ( auto x : got ) { u32 b; memcpy( &b, &x, 4 ); h = mc::mix( h, b ); } m.state( h );
    auto d = [&]( char const * who, auto const & want ) { return mc::cat( "step ", step, ": x K P t =", list( got ), ", ", who, list( want ), " for ", show( t.r.c ) ); };
    if ( t.r.zero_innovation ) return;
    if ( t.sharp )
    {
        auto want = shown( t.r ); int e = 2 + 2 * M;
        m.check( near( got, want, 0, 2, 2e-3 ), "state", [&]{ return d( "not", want ); } );
        m.check( near( got, want, 2, e, 2e-3 ), "gain", [&]{ return d( "not", want ); } );
        m.check( near( got, want, e, e + 4, 2e-3 ), "covariance", [&]{ return d( "not", want ); } );
        m.check( near( got, want, e + 4, e + 5, 1e-5 ), "time", [&]{ return d( "not", want ); } );
        m.check( near( got, pc, 0, e + 5, 2e-3 ), "pc", [&]{ return d( "on the PC", pc ); } );
    }
}

template< int M, int U > void models( mc::Ctx & ctx )
{
    mc::explore( mc::cat( "models M=", M, " U=", U ), 4, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        auto cfg = base( m.choose( 3 ), M, U );
        deviate( m, cfg, m.thorough && M * U == 1 ? 3 : 2, few, 0 );
        if ( !psd( cfg.Q ) || !psd( cfg.P ) || cfg.Rn(0,0) < 0 || ( M == 2 && !psd( cfg.Rn ) ) ) throw mc::Prune{};
        auto us = controls( U ); auto zs = measurements( M ); auto & t = target<M,U>();
        t.make( 0, cfg ); Truth r( cfg ); auto k = make<float,M,U>( cfg );
        { auto got = t.shown(); int e = 2 + 2 * M; auto want = shown( r.r ); m.check( near( got, want, 0, e + 5, 1e-5 ), "initial", [&]{ return mc::cat( list( got ), " not", list( want ) ); } ); }
        static const int hist[3][2] = { {1,2}, {0,1}, {2,3} };
        for ( int s = 0; s < 3; ++s )
        {
            auto & uu = us[ hist[s][0] ]; auto & zz = zs[ hist[s][1] ];
            r.update( uu, zz ); k.update( to_impl<float,U,1>( uu ), to_impl<float,M,1>( zz ) ); t.update( 0, uu, zz );
            if ( r.r.zero_innovation ) throw mc::Prune{};
            judge<M,U>( m, t.shown(), shown( k ), r, s );
        }
        m.sample( [&]{ return mc::cat( show( cfg ), " ->", list( t.shown() ) ); } );
    } ); } );
    mc::explore( mc::cat( "two estimators M=", M, " U=", U ), 3, [&]( mc::Ctx & m ) { guarded( m, [&]
    {   // every interleaving of updates (two symbols), reading and copying of two estimators
        auto & t = target<M,U>(); auto us = controls( U ); auto zs = measurements( M ); Config<Rat> const c[2] = { base( 0, M, U ), base( 1, M, U ) };
        std::vector<Truth> r = { Truth( c[0] ), Truth( c[1] ) }; std::vector<num::kalman<float,2,M,U>> k; int who[2] = { 0, 1 }; (void) who;
        k.push_back( make<float,M,U>( c[0] ) ); k.push_back( make<float,M,U>( c[1] ) ); std::vector<int> of = { 0, 1 };
        std::vector<std::vector<std::pair<int,int>>> past( 2 ); int model[2] = { 0, 1 };
        t.make( 0, c[0] ); t.make( 1, c[1] );
        auto replay = [&]( int i ) { Truth x( c[ model[i] ] ); auto y = make<float,M,U>( c[ model[i] ] ); for ( auto & p : past[i] ) { x.update( us[p.first], zs[p.second] ); y.update( to_impl<float,U,1>( us[p.first] ), to_impl<float,M,1>( zs[p.second] ) ); } return std::make_pair( x, shown( y ) ); };
        for ( int s = 0; s < (m.thorough ? 6 : 4); ++s )
        {
            int i = m.choose( 2 ); int op = m.choose( 4 );
            if ( op < 2 ) { past[i].push_back( { 1 + op, 3 - op } ); t.update( i, us[1 + op], zs[3 - op] ); }
            else if ( op == 2 ) t.run( t.show_, i );
            else { past[i] = past[1 - i]; model[i] = model[1 - i]; t.run( t.copy_, i ); t.run( t.show_, i ); }
            auto w = replay( i ); judge<M,U>( m, t.shown(), w.second, w.first, s );
        }
    } ); } );
}

template< int M, int U > void histories( mc::Ctx & ctx )
{
    mc::explore( mc::cat( "histories M=", M, " U=", U ), 3, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        auto cfg = base( m.choose( 3 ), M, U ); auto us = controls( U ); auto zs = measurements( M ); auto & t = target<M,U>();
        t.make( 1, cfg ); Truth r( cfg ); auto k = make<float,M,U>( cfg );
        for ( int s = 0; s < (m.thorough ? 4 : 3); ++s )
        {
            auto & uu = m.pick( us ); auto & zz = m.pick( zs );
            r.update( uu, zz ); k.update( to_impl<float,U,1>( uu ), to_impl<float,M,1>( zz ) ); t.update( 1, uu, zz );
            judge<M,U>( m, t.shown(), shown( k ), r, s );
        }
    } ); } );
}

template< int M, int U > void lasso( mc::Ctx & ctx )
{
    mc::explore( mc::cat( "long runs M=", M, " U=", U ), 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        auto cfg = base( m.choose( 3 ), M, U ); auto us = controls( U ); auto zs = measurements( M ); auto & t = target<M,U>();
        int a[2][2]; for ( auto & p : a ) { p[0] = m.choose( int( us.size() ) - 1 ); p[1] = m.choose( 2 ); }
        using L = long double; Config<L> lc( M, U ); auto cp = []( Mx<L> & d, Mx<Rat> const & s ) { for ( int i = 0; i < s.n * s.m; ++i ) d.v[i] = dbl( s.v[i] ); };
        lc.dt = dbl( cfg.dt ); cp( lc.A, cfg.A ); cp( lc.B, cfg.B ); cp( lc.H, cfg.H ); cp( lc.Q, cfg.Q ); cp( lc.Rn, cfg.Rn ); cp( lc.P, cfg.P ); cp( lc.x, cfg.x );
        t.make( 0, cfg ); RefKalman<L> r( lc );
        for ( int s = 0; s < (m.thorough ? 1500 : 250); ++s )
        {
            auto & uu = us[a[s & 1][0]]; auto & zz = zs[a[s & 1][1]]; Mx<L> ul( U, 1 ), zl( M, 1 ); cp( ul, uu ); cp( zl, zz );
            r.update( ul, zl ); t.update( 0, uu, zz ); m.step(); auto got = t.shown(); std::vector<double> want;
            for ( auto * x : { &r.x, &r.K, &r.P } ) for ( int i = 0; i < x->n * x->m; ++i ) want.push_back( double( x->v[i] ) );
            want.push_back( double( r.t ) ); int e = 2 + 2 * M; bool ok = std::fabs( got.back() - want.back() ) <= (s + 4) * 6e-8 * (1 + want.back()) && near( got, want, 0, 2, 2e-2 ) && near( got, want, 2, e, 2e-2 ) && near( got, want, e, e + 4, 2e-2 );
            if ( s % 25 == 0 ) m.state( hash_mx( r.x, hash_mx( r.P ) ) );
            m.check( ok, "long-run", [&]{ return mc::cat( "step ", s, ": x K P t =", list( got ), ", not", list( want ), " for ", show( cfg ) ); } );
            if ( !ok ) break;
        }
    } ); } );
}

// more updates than 16 bits count, each judged
template< int M, int U > void far_runs( mc::Ctx & ctx )
{
    mc::explore( mc::cat( "far runs M=", M, " U=", U ), 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        auto cfg = base( m.choose( m.thorough ? 3 : 2 ), M, U ); auto us = controls( U ); auto zs = measurements( M ); auto & t = target<M,U>(); cfg.dt = q( 1, 8 );
        size_t in = size_t( m.choose( m.thorough ? 4 : M == 1 ? 2 : 1 ) ); auto & uu = us[in & 1]; auto & zz = zs[in / 2 ^ (in & 1)]; int n = m.thorough ? 140000 : 33500;
        using L = long double; Config<L> lc( M, U ); auto cp = []( Mx<L> & d, Mx<Rat> const & s ) { for ( int i = 0; i < s.n * s.m; ++i ) d.v[i] = dbl( s.v[i] ); };
        lc.dt = dbl( cfg.dt ); cp( lc.A, cfg.A ); cp( lc.B, cfg.B ); cp( lc.H, cfg.H ); cp( lc.Q, cfg.Q ); cp( lc.Rn, cfg.Rn ); cp( lc.P, cfg.P ); cp( lc.x, cfg.x );
        t.make( 0, cfg ); RefKalman<L> r( lc ); Mx<L> ul( U, 1 ), zl( M, 1 ); cp( ul, uu ); cp( zl, zz );
        for ( int s = 0; s < n; ++s )
        {
            r.update( ul, zl ); t.update( 0, uu, zz ); m.step(); auto got = t.shown(); std::vector<double> want;
            for ( auto * x : { &r.x, &r.K, &r.P } ) for ( int i = 0; i < x->n * x->m; ++i ) want.push_back( double( x->v[i] ) );
            want.push_back( double( r.t ) ); int e = 2 + 2 * M; bool ok = std::fabs( got.back() - want.back() ) <= (s + 4) * 6e-8 * (1 + want.back()) && near( got, want, 0, 2, 2e-2 ) && near( got, want, 2, e, 2e-2 ) && near( got, want, e, e + 4, 2e-2 );
            if ( s % 1000 == 0 ) m.state( hash_mx( r.x, mc::mix( mc::u64( s ), hash_mx( r.P ) ) ) );
            m.check( ok, "far-run", [&]{ return mc::cat( "step ", s, ": x K P t =", list( got ), ", not", list( want ), " for ", show( cfg ) ); } );
            if ( !ok ) break;
        }
    } ); } );
}

MC_MAIN(
    far_runs<1,1>( mc::ctx() ); far_runs<2,2>( mc::ctx() ); if ( mc::ctx().thorough ) { far_runs<1,2>( mc::ctx() ); far_runs<2,1>( mc::ctx() ); }
    lasso<1,1>( mc::ctx() ); lasso<1,2>( mc::ctx() ); lasso<2,1>( mc::ctx() ); lasso<2,2>( mc::ctx() );
    models<1,1>( mc::ctx() ); models<1,2>( mc::ctx() ); models<2,1>( mc::ctx() ); models<2,2>( mc::ctx() );
    histories<1,1>( mc::ctx() ); histories<1,2>( mc::ctx() ); histories<2,1>( mc::ctx() ); histories<2,2>( mc::ctx() );
)
