// fixed_kalman.hpp - fixed-point formats, the Kalman recursion with a bound on the rounding of its operations, and models within the formats' reach.
#ifndef VERIF_FIXED_KALMAN_HPP
#define VERIF_FIXED_KALMAN_HPP

#include "kalman_common.hpp"
#include "num/fixed-point.hpp"
#include <algorithm>

using L = long double;
struct Lost {};                                  // the format cannot hold, or cannot resolve, what the recursion needs

template< typename T, int F > struct Format { using X = num::fixed_point<T,std::numeric_limits<T>::digits - F,F>; static constexpr int frac = F; static L ulp() { return std::ldexp( L( 1 ), -F ); } static L top() { return std::ldexp( L( 1 ), std::numeric_limits<T>::digits - F ); } };
template< typename Fm > typename Fm::X fx( L v ) { using X = typename Fm::X; return X( X::construct, typename X::rep( std::llround( std::ldexp( v, Fm::frac ) ) ) ); }
template< typename Fm > L val( typename Fm::X x ) { return std::ldexp( L( x.underlying_value() ), -Fm::frac ); }
template< typename Fm > L quant( L v ) { return val<Fm>( fx<Fm>( v ) ); }

// value with a bound on its error
template< typename Fm > struct Num
{
    L v = 0, e = 0;
    Num() {} Num( L v_, L e_ = 0 ) : v( v_ ), e( e_ ) { if ( !(std::fabs( v ) + e < Fm::top() / 4) ) throw Lost{}; }
    friend Num operator+( Num a, Num b ) { return { a.v + b.v, a.e + b.e }; }
    friend Num operator-( Num a, Num b ) { return { a.v - b.v, a.e + b.e }; }
    friend Num operator*( Num a, Num b ) { return { a.v * b.v, std::fabs( a.v ) * b.e + a.e * std::fabs( b.v ) + a.e * b.e + Fm::ulp() }; }
    friend Num operator/( Num a, Num b ) { L d = std::fabs( b.v ) - b.e; if ( !(d > 0) ) throw Lost{}; L q = a.v / b.v; return { q, (a.e + std::fabs( q ) * b.e) / d + Fm::ulp() }; }
    Num & operator+=( Num b ) { return *this = *this + b; }
};
template< typename Fm > Mx<Num<Fm>> bounded( Mx<Rat> const & a ) { Mx<Num<Fm>> r( a.n, a.m ); for ( int i = 0; i < a.n * a.m; ++i ) r.v[i] = Num<Fm>( quant<Fm>( dbl( a.v[i] ) ) ); return r; }
template< typename Fm, int N, int M > num::matrix<typename Fm::X,N,M> fixed( Mx<Rat> const & a ) { using X = typename Fm::X; num::matrix<X,N,M> r( X( 0 ) ); for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) r( i, j ) = fx<Fm>( dbl( a( i, j ) ) ); return r; }

template< typename Fm > struct Bounded
{
    using N = Num<Fm>; using Mat = Mx<N>; Mat A, B, H, Q, R, P, x, K; N t, dt;
    explicit Bounded( Config<Rat> const & c ) : A( bounded<Fm>( c.A ) ), B( bounded<Fm>( c.B ) ), H( bounded<Fm>( c.H ) ), Q( bounded<Fm>( c.Q ) ), R( bounded<Fm>( c.Rn ) ), P( bounded<Fm>( c.P ) ), x( bounded<Fm>( c.x ) ), K( 2, c.M ), dt( quant<Fm>( dbl( c.dt ) ) ) {}
    static Mat inverse( Mat const & s )
    {
        Mat r( s.n, s.n );
        if ( s.n == 1 ) { r(0,0) = N( 1 ) / s(0,0); return r; }
        N d = N( 1 ) / (s(0,0) * s(1,1) - s(0,1) * s(1,0));
        r(0,0) = d * s(1,1); r(0,1) = N( 0 ) - d * s(0,1); r(1,0) = N( 0 ) - d * s(1,0); r(1,1) = d * s(0,0); return r;
    }
    void update( Mat const & u, Mat const & z )
    {
        t = t + dt; x = add( mul( A, x ), mul( B, u ) ); P = add( mul( mul( A, P ), tr( A ) ), Q );
        K = mul( mul( P, tr( H ) ), inverse( add( mul( mul( H, P ), tr( H ) ), R ) ) );
        x = add( x, mul( K, add( z, mul( H, x ), -1 ) ) );
        auto kh = mul( K, H ); for ( int i = 0; i < 4; ++i ) kh.v[i] = N( i % 3 == 0 ? 1 : 0 ) - kh.v[i];
        P = mul( kh, P ); for ( auto & p : P.v ) p.e += Fm::ulp(); P(0,1).e = P(1,0).e = std::max( P(0,1).e, P(1,0).e );    // kept symmetric, from either half or both
        for ( auto * m : { &x, &K, &P } ) for ( int i = 0; i < m->n * m->m; ++i ) if ( m->v[i].e > 0.25L * std::max( L( 1 ), std::fabs( m->v[i].v ) ) ) throw Lost{};
    }
};
template< typename Fm > bool within( Num<Fm> w, typename Fm::X got ) { return std::fabs( val<Fm>( got ) - w.v ) <= 2 * w.e + 2 * Fm::ulp(); }
template< typename Fm, int N, int M > bool within( Mx<Num<Fm>> const & w, num::matrix<typename Fm::X,N,M> const & g ) { for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) if ( !within( w( i, j ), g( i, j ) ) ) return false; return true; }
template< typename Fm, int N, int M > std::string list( Mx<Num<Fm>> const & w, num::matrix<typename Fm::X,N,M> const & g ) { std::string s; for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) s += mc::cat( " ", double( val<Fm>( g( i, j ) ) ), " (", double( w( i, j ).v ), " +/- ", double( w( i, j ).e ), ")" ); return s; }

// the third base model starts uncertain, in proportions the format can hold
inline Config<Rat> base( int which, int M, int U ) { auto c = base_config( which, M, U ); if ( which == 2 ) { c.P(0,0) = c.P(1,1) = 16; for ( int i = 0; i < M; ++i ) c.Rn(i,i) = q( 1, 16 ); } if ( which == 1 ) { for ( auto * a : { &c.Q, &c.P } ) for ( auto & x : a->v ) x = x / Rat( 4 ); } return c; }
static const std::vector<Rat> few = { 0, 1, -1, 2, q(1,3), q(-5,2) };

#endif
