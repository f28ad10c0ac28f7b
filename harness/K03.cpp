// K03: estimators do not influence each other, observers do not disturb, time is the number of updates times the step.
#include "kalman_common.hpp"
#include "preempt.hpp"
#include <memory>
#include <map>
#include <sys/wait.h>
#include <unistd.h>

template< typename T, int M, int U >
struct Snap
{
    T t; num::matrix<T,2,1> x; num::matrix<T,2,2> P; num::matrix<T,2,M> K;
    explicit Snap( num::kalman<T,2,M,U> const & k ) : t( k.time() ), x( k.system_state() ), P( k.estimation_error_covariance() ), K( k.kalman_gain() ) {}
    bool operator==( Snap const & o ) const
    {
        auto eq = []( auto const & a, auto const & b ) { for ( int i = 0; i < a.size(); ++i ) if ( !( a(i) == b(i) ) ) return false; return true; };
        return t == o.t && eq( x, o.x ) && eq( P, o.P ) && eq( K, o.K );
    }
    std::string text() const { return mc::cat( "t=", t, " x=", show( x ), " P=", show( P ), " K=", show( K ) ); }
    mc::u64 hash() const { mc::u64 h = mc::hash_double( double( dbl( t ) ) ); for ( int i = 0; i < 2; ++i ) h = mc::mix( h, mc::hash_double( double( dbl( x(i) ) ) ) ); for ( int i = 0; i < 4; ++i ) h = mc::mix( h, mc::hash_double( double( dbl( P(i) ) ) ) ); return h; }
};

// What an estimator of each model reports after every history up to a length, computed in a process of its own in which
// no other estimator ever existed: state shared between estimators (or left behind by earlier ones) cannot reach it.
template< typename F >
std::map<std::string,std::string> in_own_process( F compute )
{
    int fd[2]; if ( pipe( fd ) ) abort();
    fflush( nullptr ); pid_t p = fork();
    if ( p == 0 )
    {
        close( fd[0] ); FILE * f = fdopen( fd[1], "w" );
        compute( [&]( std::string const & k, std::string const & v ) { fprintf( f, "%s|%s\n", k.c_str(), v.c_str() ); } );
        fclose( f ); _exit( 0 );
    }
    close( fd[1] ); FILE * f = fdopen( fd[0], "r" ); std::map<std::string,std::string> r; std::string line; int c;
    while ( ( c = fgetc( f ) ) != EOF ) { if ( c != '\n' ) { line += char( c ); continue; } auto b = line.find( '|' ); r[ line.substr( 0, b ) ] = line.substr( b + 1 ); line.clear(); }
    fclose( f ); int st; waitpid( p, &st, 0 );
    return r;
}

// Operation sequences over two estimators and a third that can be copied from either; the oracle of each estimator is
// a fresh estimator fed with that estimator's own history alone.
template< typename T, int M, int U >
void interleave( mc::Ctx & c, char const * tname, int depth )
{
    using K = num::kalman<T,2,M,U>;
    std::map<std::string,std::string> alone[2];
    for ( int k = 0; k < 2; ++k ) alone[k] = in_own_process( [&]( auto put )
    {
        Config<Rat> cfg = base_config( k, M, U ); auto us = controls( U ); auto zs = measurements( M );
        std::vector<std::string> todo{ "" };
        for ( size_t i = 0; i < todo.size(); ++i )
        {
            K e = make<T,M,U>( cfg ); for ( char s : todo[i] ) e.update( to_impl<T,U,1>( us[ s == '1' ? 1 : 2 ] ), to_impl<T,M,1>( zs[ s == '1' ? 2 : 1 ] ) );
            put( todo[i], Snap<T,M,U>( e ).text() );
            if ( int( todo[i].size() ) < depth ) { todo.push_back( todo[i] + "0" ); todo.push_back( todo[i] + "1" ); }
        }
    } );
    mc::explore( mc::cat( "interleavings ", tname, " M=", M, " U=", U ), 2, [&]( mc::Ctx & m )
    {
        Config<Rat> cfg[2] = { base_config( 0, M, U ), base_config( 1, M, U ) };
        auto us = controls( U ); auto zs = measurements( M );
        std::unique_ptr<K> e[3]; int model[3] = { 0, 1, -1 }; std::vector<int> hist[3];
        e[0].reset( new K( make<T,M,U>( cfg[0] ) ) ); e[1].reset( new K( make<T,M,U>( cfg[1] ) ) );
        auto apply = [&]( K & k, int sym ) { k.update( to_impl<T,U,1>( us[ sym ? 1 : 2 ] ), to_impl<T,M,1>( zs[ sym ? 2 : 1 ] ) ); m.step(); };
        auto verify = [&]( char const * why )
        {
            for ( int i = 0; i < 3; ++i ) if ( e[i] )
            {
                K solo = make<T,M,U>( cfg[ model[i] ] );
                for ( int s : hist[i] ) apply( solo, s );
                Snap<T,M,U> a( *e[i] ), b( solo );
                m.check( a == b, "isolation", [&]{ std::string h; for ( int s : hist[i] ) h += char( '0' + s ); return mc::cat( why, ": estimator ", i, " with own history [", h, "]: ", a.text(), " but alone: ", b.text() ); } );
                std::string h; for ( int s : hist[i] ) h += char( '0' + s );
                m.check( a.text() == alone[ model[i] ][ h ], "shared-state", [&]{ return mc::cat( why, ": estimator ", i, " with own history [", h, "]: ", a.text(), " but in a process of its own: ", alone[ model[i] ][ h ] ); } );
                m.state( a.hash() );
            }
        };
        verify( "before any update" );
        for ( int d = 0; d < depth; ++d )
        {
            int op = m.choose( e[2] ? 10 : 8 );
            if      ( op <= 1 ) { apply( *e[0], op );     hist[0].push_back( op ); }
            else if ( op <= 3 ) { apply( *e[1], op - 2 ); hist[1].push_back( op - 2 ); }
            else if ( op == 4 ) { for ( int i = 0; i < 2; ++i ) { Snap<T,M,U> a( *e[i] ), b( *e[i] ); m.check( a == b, "observer", [&]{ return mc::cat( "two reads differ: ", a.text(), " / ", b.text() ); } ); } }
            else if ( op == 5 ) { e[2].reset( new K( *e[0] ) ); model[2] = model[0]; hist[2] = hist[0]; m.step(); }
            else if ( op == 6 ) { e[2].reset( new K( *e[1] ) ); model[2] = model[1]; hist[2] = hist[1]; m.step(); }
            else if ( op == 7 ) { e[0].reset(); e[0].reset( new K( make<T,M,U>( cfg[0] ) ) ); hist[0].clear(); m.step(); }
            else                { apply( *e[2], op - 8 ); hist[2].push_back( op - 8 ); }
        }
        verify( "at the end" );
    } );
}

// the elapsed time, and that changing the constructor's arguments or the update's arguments afterwards has no effect
template< typename T >
void timing( mc::Ctx & c, char const * tname )
{
    mc::explore( mc::cat( "time and argument ownership ", tname ), 2, [&]( mc::Ctx & m )
    {
        using K = num::kalman<T,2,1,1>;
        static const std::vector<Rat> dts = { 0, 1, q(1,2), q(1,10), q(1,1000), 60, -1, q(1,3), q(1,1000000000), 86400, 1000000000 };
        auto cfg = base_config( m.choose( 3 ), 1, 1 );
        cfg.dt = m.pick( dts );
        int n = m.choose( 14 ); static const int counts[] = { 0, 1, 2, 3, 5, 8, 13, 100, 255, 256, 257, 1000, 5000, 70000 }; n = counts[n];
        if ( std::is_same_v<T,Rat> && n > 13 ) throw mc::Prune{};
        int order = m.choose( 2 );
        auto A = to_impl<T,2,2>( cfg.A ); auto B = to_impl<T,2,1>( cfg.B ); auto H = to_impl<T,1,2>( cfg.H ); auto Q = to_impl<T,2,2>( cfg.Q );
        auto R = to_impl<T,1,1>( cfg.Rn ); auto P = to_impl<T,2,2>( cfg.P ); auto x = to_impl<T,2,1>( cfg.x ); T dt = conv<T>( cfg.dt );
        K k( dt, A, B, H, Q, R, P, x ), ref( dt, A, B, H, Q, R, P, x );
        num::matrix<T,1,1> u( T( 1 ) ), z( T( 2 ) );
        for ( int s = 0; s < n; ++s )
        {
            if ( order )
            {   // scribble over everything the estimator was given
                A(0) = T(99); B(0) = T(-99); H(0) = T(77); Q(0) = T(5); R(0) = T(1000); P(0) = T(-3); x(0) = T(12345); dt = T(4);
            }
            num::matrix<T,1,1> u2( u ), z2( z );
            k.update( u2, z2 );
            m.check( u2(0) == u(0) && z2(0) == z(0), "arguments-modified", [&]{ return mc::cat( "update changed its arguments at step ", s ); } );
            u2(0) = T( 55 ); z2(0) = T( 66 );
            ref.update( u, z );
            m.step( 2 );
        }
        Snap<T,1,1> a( k ), b( ref );
        m.check( a == b, "argument-ownership", [&]{ return mc::cat( "after ", n, " updates: ", a.text(), " expected ", b.text() ); } );
        m.state( a.hash() );
        double want = double( n ) * dbl( cfg.dt ), got = double( dbl( k.time() ) );
        double tol = std::is_same_v<T,Rat> ? 1e-12 : ( sizeof(T) == 4 ? 1e-4 + 6e-8 * n : 1e-9 );
        m.check( std::fabs( got - want ) <= tol * std::fabs( want ), "time", [&]{ return mc::cat( "time ", got, " expected ", want, " after ", n, " updates of ", cfg.dt ); } );
        m.sample( [&]{ return mc::cat( n, " updates, dt ", cfg.dt, " -> ", a.text() ); } );
    } );
}

// two estimators whose models differ in one entry only, updated in every order; each keeps to the recursion of its own model
template< typename T, int M, int U >
void siblings( mc::Ctx & c, char const * tname )
{
    mc::explore( mc::cat( "siblings ", tname, " M=", M, " U=", U ), 3, [&]( mc::Ctx & m )
    {
        Config<Rat> a = base_config( m.choose( std::is_same_v<T,Rat> ? 3 : 2 ), M, U ), b = a;     // the third resolves too little in floating point
        auto ea = entries( b ); auto & slot = ea[ size_t( m.choose( int( ea.size() ) ) ) ];
        static const std::vector<Rat> v = { 0, 1, q(1,3), 7, q(1,1048576), 1048576 };
        Rat to = v[ size_t( m.choose( std::is_same_v<T,Rat> ? 6 : 4 ) ) ]; if ( *slot[0] == to ) throw mc::Prune{}; for ( auto p : slot ) *p = to;
        if ( !psd( b.Q ) || !psd( b.P ) || b.Rn(0,0) < 0 || ( M == 2 && !psd( b.Rn ) ) ) throw mc::Prune{};
        auto us = controls( U ); auto zs = measurements( M );
        auto ka = make<T,M,U>( a ), kb = make<T,M,U>( b ); RefKalman<Rat> ra( a ), rb( b ); int na = 0, nb = 0; const int len = m.thorough ? 3 : 2; bool alike = m.choose( 2 );
        std::string order;
        while ( na < len || nb < len )
        {
            bool first = nb == len || ( na < len && m.choose( 2 ) == 0 ); order += first ? 'a' : 'b';
            auto & k = first ? ka : kb; auto & r = first ? ra : rb; int s = first ? na++ : nb++; if ( !first && !alike ) s += 1;
            try { r.update( us[ size_t( 1 + s % 2 ) ], zs[ size_t( 1 + s % 3 ) ] ); } catch ( Singular & ) { throw mc::Prune{}; }
            k.update( to_impl<T,U,1>( us[ size_t( 1 + s % 2 ) ] ), to_impl<T,M,1>( zs[ size_t( 1 + s % 3 ) ] ) ); m.step();
            auto told = [&]{ return mc::cat( tname, " siblings in order ", order, ": x=", show( k.system_state() ), " P=", show( k.estimation_error_covariance() ), " K=", show( k.kalman_gain() ), " expected x=", show( r.x ), " P=", show( r.P ), " K=", show( r.K ), " for ", show( first ? a : b ), " beside ", show( first ? b : a ) ); };
            m.check( same( k.system_state(), r.x, 1e-5 ) && same( k.estimation_error_covariance(), r.P, 1e-5 ) && same( k.kalman_gain(), r.K, 1e-5 ) && std::fabs( double( dbl( k.time() ) ) - double( dbl( r.t ) ) ) < 1e-6, "isolation", told );
            m.state( hash_mx( r.x, hash_mx( r.P ) ) );
        }
        m.sample( [&]{ return mc::cat( tname, " ", order, " ", show( b ) ); } );
    } );
}

// any number of estimators alive, or gone by the time one is constructed; many updates before and between
template< typename T, int M, int U >
void many( mc::Ctx & c, char const * tname )
{
    using K = num::kalman<T,2,M,U>;
    auto run = []( K & k, int from, int n ) { auto us = controls( U ); auto zs = measurements( M ); for ( int i = from; i < from + n; ++i ) k.update( to_impl<T,U,1>( us[ size_t( i ) % us.size() ] ), to_impl<T,M,1>( zs[ size_t( i ) % zs.size() ] ) ); };
    static const int lengths[] = { 0, 1, 2, 3, 10, 100, 300 };
    auto model = []( int i ) { auto cfg = base_config( i % 3, M, U ); Rat f = 1; for ( int j = 0; j < i % 5; ++j ) f *= 64; for ( auto & v : cfg.P.v ) v *= f; for ( auto & v : cfg.Rn.v ) v /= f; cfg.dt *= f; return cfg; };
    std::map<std::string,std::string> alone[15];
    for ( int i = 0; i < 15; ++i ) alone[i] = in_own_process( [&]( auto put ) { for ( int n : lengths ) { K k = make<T,M,U>( model( i ) ); run( k, 0, n ); put( std::to_string( n ), Snap<T,M,U>( k ).text() ); } } );
    mc::explore( mc::cat( "many ", tname, " M=", M, " U=", U ), 2, [&]( mc::Ctx & m )
    {
        static const int counts[] = { 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 100, 257 };
        const int n = counts[ m.choose( 13 ) ], gone = counts[ m.choose( 13 ) ] - 1, len = lengths[ m.choose( 7 ) ], order = m.choose( 4 );
        if ( !m.thorough && n * len > 10000 ) throw mc::Prune{};
        for ( int i = 0; i < gone; ++i ) { K k = make<T,M,U>( model( i + 1 ) ); run( k, 0, 2 ); }
        std::vector<std::unique_ptr<K>> e; for ( int i = 0; i < n; ++i ) e.emplace_back( new K( make<T,M,U>( model( i ) ) ) );
        if      ( order == 0 ) for ( int s = 0; s < len; ++s ) for ( int i = 0; i < n; ++i ) run( *e[ size_t( i ) ], s, 1 );
        else if ( order == 1 ) for ( int s = 0; s < len; ++s ) for ( int i = n; i-- > 0; ) run( *e[ size_t( i ) ], s, 1 );
        else if ( order == 2 ) for ( int i = 0; i < n; ++i ) run( *e[ size_t( i ) ], 0, len );
        else { std::vector<std::unique_ptr<K>> moved; for ( auto & k : e ) { run( *k, 0, len / 2 ); moved.emplace_back( new K( *k ) ); } e.swap( moved ); moved.clear(); for ( int i = n; i-- > 0; ) run( *e[ size_t( i ) ], len / 2, len - len / 2 ); }
        m.step( mc::u64( n ) * mc::u64( len ) );
        for ( int i = 0; i < n; ++i )
        {
            Snap<T,M,U> s( *e[ size_t( i ) ] ); m.state( s.hash() );
            m.check( s.text() == alone[ i % 15 ][ std::to_string( len ) ], "shared-state", [&]{ return mc::cat( tname, ": estimator ", i, " of ", n, " after ", gone, " others, ", len, " updates in order ", order, ": ", s.text(), " but in a process of its own: ", alone[ i % 15 ][ std::to_string( len ) ] ); } );
        }
    } );
}

// an estimator preempted at any operation of an update by another one, as by another thread or an interrupt
template< int M, int U > void preemption( char const * title )
{
    using E = num::kalman<Preempt,2,M,U>; std::vector<Task> tasks; static const char * const names[] = { "first update of one model", "later update of one model", "first update of another", "later update of another", "construction of one", "construction of another", "observing and copying one", "an update without noise" };
    auto report = []( E const & e ) { Values v; v.push_back( e.time().v ); auto x = e.system_state(); auto P = e.estimation_error_covariance(); auto K = e.kalman_gain(); for ( auto const & y : x ) v.push_back( y.v ); for ( auto const & y : P ) v.push_back( y.v ); for ( auto const & y : K ) v.push_back( y.v ); return v; };
    for ( int i = 0; i < 8; ++i ) tasks.push_back( { names[i], [=]() -> std::function<Values()>
    {
        int which = i < 2 || i == 4 || i == 6 ? 0 : i == 7 ? 2 : 1; auto cfg = base_config( which, M, U ); auto us = controls( U ); auto zs = measurements( M );
        auto u = to_impl<Preempt,U,1>( us[ size_t( which + 1 ) % us.size() ] ); auto z = to_impl<Preempt,M,1>( zs[ size_t( i + 1 ) % zs.size() ] );
        if ( i == 4 || i == 5 ) return [=]{ auto e = make<Preempt,M,U>( cfg ); return report( e ); };
        auto e = std::make_shared<E>( make<Preempt,M,U>( cfg ) ); if ( i == 1 || i == 3 || i == 6 ) for ( int n = 0; n < 3; ++n ) e->update( u, to_impl<Preempt,M,1>( zs[ size_t( n ) % zs.size() ] ) );
        if ( i == 6 ) return [=]{ auto c = *e; return report( c ); };
        return [=]{ e->update( u, z ); return report( *e ); };
    } } );
    preempted( title, tasks );
}

MC_MAIN(
    if constexpr ( std::is_same_v<NUMTYPE,Rat> ) { preemption<1,1>( "1 measurement, 1 control" ); preemption<2,2>( "2 measurements, 2 controls" ); preemption<2,1>( "2 measurements, 1 control" ); preemption<1,2>( "1 measurement, 2 controls" ); }
    auto & c = mc::ctx();
    interleave<double,1,1>( c, "double", c.thorough ? 6 : 5 ); interleave<double,2,2>( c, "double", c.thorough ? 6 : 5 );
    interleave<float,1,2>( c, "float", c.thorough ? 6 : 4 ); interleave<NUMTYPE,1,1>( c, "exact", c.thorough ? 4 : 3 );
    siblings<NUMTYPE,1,1>( c, "exact" ); siblings<NUMTYPE,2,2>( c, "exact" ); siblings<double,1,2>( c, "double" ); siblings<double,2,1>( c, "double" );
    many<double,1,1>( c, "double" ); many<double,2,2>( c, "double" ); many<float,1,1>( c, "float" );
    timing<double>( c, "double" ); timing<float>( c, "float" ); timing<NUMTYPE>( c, "exact" );
)
