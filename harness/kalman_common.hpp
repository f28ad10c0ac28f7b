// Reference for num::kalman: the textbook recursion on plain arrays, in exact rationals (or long double for long runs).
#ifndef VERIF_KALMAN_COMMON_HPP
#define VERIF_KALMAN_COMMON_HPP
#include "mc.hpp"
#include "rational.hpp"
#include "dsp/kalman.hpp"
#include <array>
#include <cmath>
#include <stdexcept>

#ifndef NUMTYPE
# define NUMTYPE Rat
#endif

// plain dense matrix of the reference, sizes up to 2x2:
template< typename R >
struct Mx
{
    int n = 0, m = 0; std::array<R,4> v{};
    Mx( int n_ = 0, int m_ = 0 ) : n(n_), m(m_) {}
    R & operator()( int i, int j ) { return v[ i * m + j ]; }
    R const & operator()( int i, int j ) const { return v[ i * m + j ]; }
};
template< typename R > Mx<R> mul( Mx<R> const & a, Mx<R> const & b )
{
    Mx<R> r( a.n, b.m );
    for ( int i = 0; i < a.n; ++i ) for ( int j = 0; j < b.m; ++j ) { R s = 0; for ( int k = 0; k < a.m; ++k ) s += a(i,k) * b(k,j); r(i,j) = s; }
    return r;
}
template< typename R > Mx<R> tr( Mx<R> const & a ) { Mx<R> r( a.m, a.n ); for ( int i = 0; i < a.n; ++i ) for ( int j = 0; j < a.m; ++j ) r(j,i) = a(i,j); return r; }
template< typename R > Mx<R> add( Mx<R> const & a, Mx<R> const & b, int sign = 1 ) { Mx<R> r( a.n, a.m ); for ( int i = 0; i < a.n * a.m; ++i ) { if ( sign > 0 ) r.v[i] = a.v[i] + b.v[i]; else r.v[i] = a.v[i] - b.v[i]; } return r; }

struct Singular {};

// X S = Y  =>  X = Y S^-1;  scalar zero S gives X = 0 (the documented degenerate case), singular 2x2 is outside the domain
template< typename R > Mx<R> rdiv( Mx<R> const & y, Mx<R> const & s )
{
    Mx<R> inv( s.n, s.n );
    if ( s.n == 1 ) { if ( s(0,0) != 0 ) inv(0,0) = R(1) / s(0,0); else inv(0,0) = 0; }
    else
    {
        R det = s(0,0) * s(1,1) - s(0,1) * s(1,0);
        if ( det == 0 ) throw Singular{};
        inv(0,0) = s(1,1) / det; inv(0,1) = -s(0,1) / det; inv(1,0) = -s(1,0) / det; inv(1,1) = s(0,0) / det;
    }
    return mul( y, inv );
}

template< typename R >
struct Config
{
    int M, U;
    R dt; Mx<R> A, B, H, Q, Rn, P, x;
    Config( int M_, int U_ ) : M(M_), U(U_), dt(1), A(2,2), B(2,U_), H(M_,2), Q(2,2), Rn(M_,M_), P(2,2), x(2,1) {}
};

template< typename R >
struct RefKalman
{
    Config<R> c; Mx<R> P, x, K, Ppred, xpred; R t = 0; bool zero_innovation = false;
    RefKalman( Config<R> const & c_ ) : c(c_), P(c_.P), x(c_.x), K(2,c_.M) {}
    void update( Mx<R> const & u, Mx<R> const & z )
    {
        t += c.dt;
        x = add( mul( c.A, x ), mul( c.B, u ) );
        P = add( mul( mul( c.A, P ), tr( c.A ) ), c.Q );
        Ppred = P; xpred = x;
        auto pht = mul( P, tr( c.H ) );
        auto s = add( mul( c.H, pht ), c.Rn );
        zero_innovation = s.n == 1 && s(0,0) == 0;
        K = rdiv( pht, s );
        x = add( x, mul( K, add( z, mul( c.H, x ), -1 ) ) );
        P = add( P, mul( mul( K, c.H ), P ), -1 );
    }
};

template< typename T, typename R > T conv( R const & r ) { if constexpr ( std::is_same_v<T,R> ) return r; else return static_cast<T>( dbl( r ) ); }
template< typename T, int N, int M, typename R >
num::matrix<T,N,M> to_impl( Mx<R> const & a ) { num::matrix<T,N,M> r( T(0) ); for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) r( i, j ) = conv<T>( a(i,j) ); return r; }

template< typename T, int M, int U, typename R >
num::kalman<T,2,M,U> make( Config<R> const & c )
{
    return num::kalman<T,2,M,U>( conv<T>( c.dt ), to_impl<T,2,2>( c.A ), to_impl<T,2,U>( c.B ), to_impl<T,M,2>( c.H ), to_impl<T,2,2>( c.Q ),
        to_impl<T,M,M>( c.Rn ), to_impl<T,2,2>( c.P ), to_impl<T,2,1>( c.x ) );
}

template< typename R > std::string show( Mx<R> const & a ) { std::string s = "["; for ( int i = 0; i < a.n * a.m; ++i ) { if ( i ) s += i % a.m ? " " : "; "; s += mc::cat( a.v[i] ); } return s + "]"; }
template< typename T, int N, int M > std::string show( num::matrix<T,N,M> const & a ) { std::string s = "["; for ( int i = 0; i < N * M; ++i ) { if ( i ) s += i % M ? " " : "; "; s += mc::cat( a(i) ); } return s + "]"; }
template< typename R > std::string show( Config<R> const & c )
{ return mc::cat( "dt=", c.dt, " A=", show(c.A), " B=", show(c.B), " H=", show(c.H), " Q=", show(c.Q), " R=", show(c.Rn), " P0=", show(c.P), " x0=", show(c.x) ); }

// equality: exact for rationals, otherwise within tol relative to the magnitudes involved
template< typename T, int N, int M, typename R >
bool same( num::matrix<T,N,M> const & a, Mx<R> const & b, double tol )
{
    if constexpr ( std::is_same_v<T,R> ) { for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) if ( a(i,j) != b(i,j) ) return false; }
    else
    {
        double s = 1; for ( int i = 0; i < N * M; ++i ) s = std::max( s, std::fabs( double( dbl( b.v[i] ) ) ) );
        for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) if ( !( std::fabs( double( a(i,j) ) - double( dbl( b(i,j) ) ) ) <= tol * s ) ) return false;
    }
    return true;
}

template< typename R > mc::u64 hash_mx( Mx<R> const & a, mc::u64 h = 7 ) { for ( int i = 0; i < a.n * a.m; ++i ) { double d = double( dbl( a.v[i] ) ); h = mc::mix( h, mc::hash_double( d ) ); } return h; }

template< typename R > bool psd( Mx<R> const & p ) { return p(0,0) >= 0 && p(1,1) >= 0 && p(0,1) == p(1,0) && p(0,0) * p(1,1) - p(0,1) * p(1,0) >= 0; }

// entry list of a configuration: every independent scalar (symmetric matrices by their three entries)
template< typename R >
std::vector<std::vector<R*>> entries( Config<R> & c, bool covariances = true )
{
    std::vector<std::vector<R*>> e;
    for ( int i = 0; i < 4; ++i ) e.push_back( { &c.A.v[i] } );
    for ( int i = 0; i < 2 * c.U; ++i ) e.push_back( { &c.B.v[i] } );
    for ( int i = 0; i < 2 * c.M; ++i ) e.push_back( { &c.H.v[i] } );
    e.push_back( { &c.Q.v[0] } ); e.push_back( { &c.Q.v[1], &c.Q.v[2] } ); e.push_back( { &c.Q.v[3] } );
    e.push_back( { &c.P.v[0] } ); e.push_back( { &c.P.v[1], &c.P.v[2] } ); e.push_back( { &c.P.v[3] } );
    if ( c.M == 1 ) e.push_back( { &c.Rn.v[0] } );
    else { e.push_back( { &c.Rn.v[0] } ); e.push_back( { &c.Rn.v[1], &c.Rn.v[2] } ); e.push_back( { &c.Rn.v[3] } ); }
    e.push_back( { &c.x.v[0] } ); e.push_back( { &c.x.v[1] } ); e.push_back( { &c.dt } );
    return e;
}

inline Rat q( long n, long d = 1 ) { return Rat( n ) / Rat( d ); }

// base models: constant-velocity tracker, an oscillator with correlated noise, a dense asymmetric model, an uncertain start
inline Config<Rat> base_config( int which, int M, int U )
{
    Config<Rat> c( M, U );
    auto set = []( Mx<Rat> & m, std::vector<Rat> v ) { for ( size_t i = 0; i < v.size() && i < m.v.size(); ++i ) m.v[i] = v[i]; };
    switch ( which )
    {
    case 0: c.dt = q(1,10); set( c.A, { 1, q(1,10), 0, 1 } ); set( c.B, U == 1 ? std::vector<Rat>{ q(1,200), q(1,10) } : std::vector<Rat>{ q(1,200), 0, 0, q(1,10) } );
            set( c.H, M == 1 ? std::vector<Rat>{ 1, 0 } : std::vector<Rat>{ 1, 0, 0, 1 } );
            set( c.Q, { q(1,100), 0, 0, q(1,100) } ); set( c.Rn, M == 1 ? std::vector<Rat>{ 10 } : std::vector<Rat>{ 10, 0, 0, 4 } );
            set( c.P, { 1, 0, 0, 1 } ); set( c.x, { 0, 0 } ); break;
    case 1: c.dt = 2; set( c.A, { q(1,2), -1, 1, q(3,4) } ); set( c.B, U == 1 ? std::vector<Rat>{ -3, 2 } : std::vector<Rat>{ -3, 2, q(1,2), 5 } );
            set( c.H, M == 1 ? std::vector<Rat>{ 2, -1 } : std::vector<Rat>{ 2, -1, 3, q(1,2) } );
            set( c.Q, { 2, 1, 1, 3 } ); set( c.Rn, M == 1 ? std::vector<Rat>{ q(1,3) } : std::vector<Rat>{ 2, q(-1,2), q(-1,2), q(1,3) } );
            set( c.P, { 5, -2, -2, 4 } ); set( c.x, { 7, -11 } ); break;
    case 2: c.dt = 1; set( c.A, { 1, 0, 0, 1 } ); set( c.B, {} );
            set( c.H, M == 1 ? std::vector<Rat>{ 0, 1 } : std::vector<Rat>{ 0, 1, 1, 0 } );
            set( c.Q, {} ); set( c.Rn, M == 1 ? std::vector<Rat>{ q(1,10000) } : std::vector<Rat>{ q(1,10000), 0, 0, q(1,10000) } );
            set( c.P, { 1000000, 0, 0, 1000000 } ); set( c.x, { 1, 1 } ); break;
    }
    return c;
}

inline Mx<Rat> vec( std::vector<Rat> v ) { Mx<Rat> m( int( v.size() ), 1 ); for ( size_t i = 0; i < v.size(); ++i ) m.v[i] = v[i]; return m; }

// control / measurement alphabets:
inline std::vector<Mx<Rat>> controls( int U )
{ return U == 1 ? std::vector<Mx<Rat>>{ vec({0}), vec({1}), vec({-2}) } : std::vector<Mx<Rat>>{ vec({0,0}), vec({1,-2}), vec({0,3}) }; }
inline std::vector<Mx<Rat>> measurements( int M )
{ return M == 1 ? std::vector<Mx<Rat>>{ vec({0}), vec({1}), vec({q(-3,2)}), vec({100}) } : std::vector<Mx<Rat>>{ vec({0,0}), vec({1,1}), vec({q(-3,2),2}), vec({0,100}) }; }

// apply up to `max_dev` entry changes, chosen exhaustively (positions ascending), to c
template< typename F >
int deviate( mc::Ctx & m, Config<Rat> & c, int max_dev, std::vector<Rat> const & values, F )
{
    auto e = entries( c );
    int from = 0, n = 0;
    for ( ; n < max_dev && from < int( e.size() ); ++n )
    {
        int k = m.choose( int( e.size() ) - from + 1 );        // 0: no further change
        if ( k == 0 ) break;
        auto & slot = e[ from + k - 1 ];
        auto const & v = values[ m.choose( int( values.size() ) ) ];
        if ( *slot[0] == v ) throw mc::Prune{};                 // same configuration reached with fewer changes
        for ( auto p : slot ) *p = v;
        from += k;
    }
    return n;
}

#endif
