// Kalman estimators in fixed-point arithmetic on the microcontroller: two of each kind, built and updated from the outside through `in`, `u` and `z`
#include "dsp/kalman.hpp"
#include "num/fixed-point.hpp"
#include <stddef.h>
#include <stdint.h>
inline void * operator new( size_t, void * p ) noexcept { return p; }
#define FN extern "C" __attribute__((used, noinline))
#ifndef KF_T
# define KF_T int32_t
# define KF_F 15
#endif
using X = num::fixed_point<KF_T,int( 8 * sizeof( KF_T ) ) - 1 - KF_F>;      // numbers pass as their representation
extern "C" { __attribute__((used)) KF_T in[48], u[2], z[2], out[16]; }
template< int N, int M > num::matrix<X,N,M> take( KF_T const * & p ) { num::matrix<X,N,M> m( X( 0 ) ); for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) m( i, j ) = X( X::construct, *p++ ); return m; }
template< int N, int M > void give( KF_T * & p, num::matrix<X,N,M> const & m ) { for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) *p++ = m( i, j ).underlying_value(); }
template< int M, int U > struct Pair
{
    using K = num::kalman<X,2,M,U>;
    alignas( K ) unsigned char store[2][sizeof( K )];
    K & at( uint8_t k ) { return *reinterpret_cast<K *>( store[k] ); }
    void make( uint8_t k )
    {
        KF_T const * p = in; X const dt( X::construct, *p++ );
        auto A = take<2,2>( p ); auto B = take<2,U>( p ); auto H = take<M,2>( p ); auto Q = take<2,2>( p ); auto R = take<M,M>( p ); auto P = take<2,2>( p ); auto x = take<2,1>( p );
        new( store[k] ) K( dt, A, B, H, Q, R, P, x );
    }
    void update( uint8_t k ) { KF_T const * p = u; KF_T const * q = z; auto uu = take<U,1>( p ); auto zz = take<M,1>( q ); at( k ).update( uu, zz ); show( k ); }
    void show( uint8_t k ) { KF_T * p = out; give( p, at( k ).system_state() ); give( p, at( k ).kalman_gain() ); give( p, at( k ).estimation_error_covariance() ); *p++ = at( k ).time().underlying_value(); }
    void copy( uint8_t k ) { new( store[k] ) K( at( 1 - k ) ); }
};
#define KIND( M, U ) static Pair<M,U> p##M##U; \
    FN void make_##M##U( uint8_t k ) { p##M##U.make( k ); } FN void update_##M##U( uint8_t k ) { p##M##U.update( k ); } FN void show_##M##U( uint8_t k ) { p##M##U.show( k ); } FN void copy_##M##U( uint8_t k ) { p##M##U.copy( k ); }
KIND( 1, 1 ) KIND( 1, 2 ) KIND( 2, 1 ) KIND( 2, 2 )
int main() { for (;;) ; }
