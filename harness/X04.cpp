// X04: the Kalman estimator in fixed-point arithmetic on the microcontroller: the compiled firmware, instruction by instruction, against the same
// estimator on the PC bit for bit, and against the recursion within the rounding of its operations.
#include "avrdev.hpp"
#include "fixed_kalman.hpp"
using namespace avr;

template< typename Fm, int M, int U > struct Target
{
    using X = typename Fm::X; using R = typename X::rep; enum { W = sizeof( R ) }; static inline char const * fw = sizeof( R ) == 2 ? "kalman-fixed-16" : "kalman-fixed-32";
    Image const & im = image( fw ); Mega & c = device( fw ); u32 make_, update_, show_, copy_, in, u, z, out;
    Target()
    {
        std::string s = mc::cat( "_", M, U ); make_ = im.at( "make" + s ); update_ = im.at( "update" + s ); show_ = im.at( "show" + s ); copy_ = im.at( "copy" + s );
        in = im.at( "in" ); u = im.at( "u" ); z = im.at( "z" ); out = im.at( "out" );
    }
    void put( u32 a, int i, Rat v ) { c.poke( a + W * i, u32( fx<Fm>( dbl( v ) ).underlying_value() ), W ); }
    void run( u32 f, int k ) { u16 sp = c.sp(); c.enter( f ); c.data[24] = u8( k ); c.run(); if ( c.sp() != sp ) throw Fault( "stack" ); }
    void all( Mx<Rat> const & a, int & i ) { for ( int k = 0; k < a.n * a.m; ++k ) put( in, i++, a.v[k] ); }
    void make( int k, Config<Rat> const & f ) { int i = 0; put( in, i++, f.dt ); all( f.A, i ); all( f.B, i ); all( f.H, i ); all( f.Q, i ); all( f.Rn, i ); all( f.P, i ); all( f.x, i ); run( make_, k ); run( show_, k ); }
    void update( int k, Mx<Rat> const & a, Mx<Rat> const & b ) { for ( int i = 0; i < U; ++i ) put( u, i, a.v[i] ); for ( int i = 0; i < M; ++i ) put( z, i, b.v[i] ); run( update_, k ); }
    std::vector<long> shown() { std::vector<long> v; for ( int i = 0; i < 2 + 2 * M + 4 + 1; ++i ) v.push_back( R( c.peek( out + W * i, W ) ) ); return v; }     // x, K, P, t as last shown
};
template< typename Fm, int M, int U > Target<Fm,M,U> & target() { static Target<Fm,M,U> t; return t; }

template< typename Fm, int M, int U > struct Pc
{
    using X = typename Fm::X; num::kalman<X,2,M,U> k;
    explicit Pc( Config<Rat> const & c ) : k( fx<Fm>( dbl( c.dt ) ), fixed<Fm,2,2>( c.A ), fixed<Fm,2,U>( c.B ), fixed<Fm,M,2>( c.H ), fixed<Fm,2,2>( c.Q ), fixed<Fm,M,M>( c.Rn ), fixed<Fm,2,2>( c.P ), fixed<Fm,2,1>( c.x ) ) {}
    void update( Mx<Rat> const & u, Mx<Rat> const & z ) { k.update( fixed<Fm,U,1>( u ), fixed<Fm,M,1>( z ) ); }
    std::vector<long> shown() const
    {
        std::vector<long> v; auto x = k.system_state(); auto K = k.kalman_gain(); auto P = k.estimation_error_covariance();
        for ( int i = 0; i < 2; ++i ) v.push_back( x( i, 0 ).underlying_value() );
        for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < M; ++j ) v.push_back( K( i, j ).underlying_value() );
        for ( int i = 0; i < 4; ++i ) v.push_back( P( i / 2, i % 2 ).underlying_value() );
        v.push_back( k.time().underlying_value() ); return v;
    }
};
static std::string list( std::vector<long> const & v ) { std::string t; for ( auto x : v ) t += mc::cat( " ", x ); return t; }
template< typename Fm > std::vector<Num<Fm>> wanted( Bounded<Fm> const & r ) { std::vector<Num<Fm>> v; for ( auto * a : { &r.x, &r.K, &r.P } ) v.insert( v.end(), a->v.begin(), a->v.begin() + a->n * a->m ); v.push_back( r.t ); return v; }

template< typename Fm > void judge( mc::Ctx & m, std::vector<long> const & got, std::vector<long> const & pc, Bounded<Fm> const & r, int M, int step, Config<Rat> const & c )
{
    m.step(); mc::u64 h = mc::u64( Fm::frac * 8 + M ); for ( auto x : got ) h = mc::mix( h, mc::u64( x ) ); m.state( h );
    m.check( got == pc, "pc", [&]{ return mc::cat( "step ", step, ": x K P t =", list( got ), ", on the PC", list( pc ), " (/2^", Fm::frac, ") for ", show( c ) ); } );
    auto w = wanted( r ); int const e = 2 + 2 * M;
    for ( int i = 0; i < int( w.size() ); ++i )
    {
        L v = std::ldexp( L( got[i] ), -Fm::frac );
        m.check( std::fabs( v - w[i].v ) <= 2 * w[i].e + 2 * Fm::ulp(), i < 2 ? "state" : i < e ? "gain" : i < e + 4 ? "covariance" : "time",
                 [&]{ return mc::cat( "step ", step, ": ", double( v ), ", not ", double( w[i].v ), " +/- ", double( w[i].e ), " (item ", i, " of x K P t) for ", show( c ) ); } );
    }
}

template< typename Fm, int M, int U > void estimator( char const * name, bool deep )
{
    mc::explore( mc::cat( "models ", name, " M=", M, " U=", U ), 4, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        auto cfg = base( m.choose( 3 ), M, U ); deviate( m, cfg, m.thorough && deep ? 3 : 2, few, 0 );
        if ( !psd( cfg.Q ) || !psd( cfg.P ) || cfg.Rn(0,0) < 0 || ( M == 2 && !psd( cfg.Rn ) ) ) throw mc::Prune{};
        auto us = controls( U ); auto zs = measurements( M ); auto & t = target<Fm,M,U>(); static const int hist[3][2] = { {1,2}, {0,1}, {2,2} };
        try
        {
            Bounded<Fm> r( cfg ); Pc<Fm,M,U> p( cfg ); t.make( 0, cfg );
            m.check( t.shown() == p.shown(), "initial", [&]{ return mc::cat( list( t.shown() ), ", on the PC", list( p.shown() ), " for ", show( cfg ) ); } );
            for ( int s = 0; s < 3; ++s ) { auto & u = us[hist[s][0]]; auto & z = zs[hist[s][1]]; r.update( bounded<Fm>( u ), bounded<Fm>( z ) ); p.update( u, z ); t.update( 0, u, z ); judge( m, t.shown(), p.shown(), r, M, s, cfg ); }
        } catch ( Lost const & ) { throw mc::Prune{}; }
        m.sample( [&]{ return mc::cat( show( cfg ), " ->", list( t.shown() ) ); } );
    } ); } );
    mc::explore( mc::cat( "two estimators ", name, " M=", M, " U=", U ), 3, [&]( mc::Ctx & m ) { guarded( m, [&]
    {   // every interleaving of updates (two symbols), reading and copying of two estimators; the PC's are rebuilt from their own history
        auto us = controls( U ); auto zs = measurements( M ); auto & t = target<Fm,M,U>(); Config<Rat> const c[2] = { base( 0, M, U ), base( 1, M, U ) }; int model[2] = { 0, 1 }; std::vector<int> past[2];
        t.make( 0, c[0] ); t.make( 1, c[1] );
        try { for ( int s = 0; s < (m.thorough ? 6 : 4); ++s )
        {
            int i = m.choose( 2 ), op = m.choose( 4 );
            if ( op < 2 ) { past[i].push_back( op ); t.update( i, us[1 + op], zs[2 - op] ); } else if ( op == 2 ) t.run( t.show_, i ); else { past[i] = past[1 - i]; model[i] = model[1 - i]; t.run( t.copy_, i ); t.run( t.show_, i ); }
            auto & f = c[ model[i] ]; Bounded<Fm> r( f ); Pc<Fm,M,U> p( f ); for ( int o : past[i] ) { r.update( bounded<Fm>( us[1 + o] ), bounded<Fm>( zs[2 - o] ) ); p.update( us[1 + o], zs[2 - o] ); }
            judge( m, t.shown(), p.shown(), r, M, s, f );
        } } catch ( Lost const & ) { throw mc::Prune{}; }
    } ); } );
}
template< typename Fm > void settled( char const * name )
{
    mc::explore( mc::cat( "long runs ", name ), 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        Config<Rat> c( 1, 1 ); c.dt = q( 1, 256 ); c.A.v = { 1, q(1,4), 0, 1 }; c.B.v = { q(1,32), q(1,4) }; c.H.v = { 1, 0 }; c.Q.v = { q(1,8), q(1,16), q(1,16), q(1,4) }; c.Rn.v = { q( 1 + 3 * m.choose( 4 ), 2 ) }; c.P.v = { 1, 0, 0, 1 }; c.x.v = { 0, 0 };
        auto u = vec( { q( m.choose( 5 ) - 2, 4 ) } ), z = vec( { q( m.choose( 5 ) - 2, 2 ) } ); auto & t = target<Fm,1,1>(); Pc<Fm,1,1> p( c ); t.make( 0, c );
        for ( int s = 0; s < (m.thorough ? 2000 : 200); ++s )
        {
            p.update( u, z ); t.update( 0, u, z ); m.step(); auto got = t.shown(), pc = p.shown(); mc::u64 h = 0; for ( auto x : got ) h = mc::mix( h, mc::u64( x ) ); m.state( mc::mix( h, Fm::frac ) );
            m.check( got == pc, "long-run", [&]{ return mc::cat( "step ", s, ": x K P t =", list( got ), ", on the PC", list( pc ), " (/2^", Fm::frac, ")" ); } ); if ( got != pc ) break;
        }
    } ); } );
}
// more updates than 16 bits count; a time step of one unit of the format, so that the time stays within it
template< typename Fm > void far_runs( char const * name )
{
    mc::explore( mc::cat( "far runs ", name ), 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        bool wide = sizeof( typename Fm::X::rep ) == 4;
        Config<Rat> c( 1, 1 ); c.dt = wide ? q( 1, 1 << Fm::frac ) : Rat( 0 ); c.A.v = { 1, q(1,4), 0, 1 }; c.B.v = { q(1,32), q(1,4) }; c.H.v = { 1, 0 }; c.Q.v = { q(1,8), q(1,16), q(1,16), q(1,4) }; c.Rn.v = { q( 1 + 3 * m.choose( 2 ), 2 ) }; c.P.v = { 1, 0, 0, 1 }; c.x.v = { 0, 0 };
        int in = m.choose( m.thorough ? 4 : wide ? 2 : 1 ); auto u = vec( { q( in % 2 - 1, 4 ) } ), z = vec( { q( (in / 2 ^ in % 2) + 1, 2 ) } ); auto & t = target<Fm,1,1>(); Pc<Fm,1,1> p( c ); t.make( 0, c );
        for ( int s = 0; s < (m.thorough ? 140000 : 33500); ++s )
        {
            p.update( u, z ); t.update( 0, u, z ); m.step(); auto got = t.shown(), pc = p.shown(); if ( s % 1000 == 0 ) { mc::u64 h = mc::u64( s ); for ( auto x : got ) h = mc::mix( h, mc::u64( x ) ); m.state( mc::mix( h, Fm::frac ) ); }
            m.check( got == pc, "far-run", [&]{ return mc::cat( "step ", s, ": x K P t =", list( got ), ", on the PC", list( pc ), " (/2^", Fm::frac, ")" ); } ); if ( got != pc ) break;
        }
    } ); } );
}
MC_MAIN(
    far_runs<Format<std::int32_t,15>>( "int32 /2^15" ); far_runs<Format<std::int16_t,8>>( "int16 /2^8" );
    { using Fm = Format<std::int32_t,15>; settled<Fm>( "int32 /2^15" ); estimator<Fm,1,1>( "int32 /2^15", true ); estimator<Fm,1,2>( "int32 /2^15", false ); estimator<Fm,2,1>( "int32 /2^15", false ); estimator<Fm,2,2>( "int32 /2^15", false ); }
    { using Fm = Format<std::int16_t,8>; settled<Fm>( "int16 /2^8" ); estimator<Fm,1,1>( "int16 /2^8", true ); estimator<Fm,2,2>( "int16 /2^8", false ); }
)
