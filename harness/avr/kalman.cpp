// Kalman estimators on the microcontroller: two of each kind, built and updated from the outside through `in`, `u` and `z`
#include "dsp/kalman.hpp"
#include <stddef.h>
#include <stdint.h>
inline void * operator new( size_t, void * p ) noexcept { return p; }
#define FN extern "C" __attribute__((used, noinline))
extern "C" { __attribute__((used)) float in[48], u[2], z[2], out[16]; }
template< int N, int M > num::matrix<float,N,M> take( float const * & p ) { num::matrix<float,N,M> m( 0 ); for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) m( i, j ) = *p++; return m; }
template< int N, int M > void give( float * & p, num::matrix<float,N,M> const & m ) { for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) *p++ = m( i, j ); }
template< int M, int U > struct Pair
{
    using K = num::kalman<float,2,M,U>;
    alignas( K ) unsigned char store[2][sizeof( K )];
    K & at( uint8_t k ) { return *reinterpret_cast<K *>( store[k] ); }
    void make( uint8_t k )
    {
        float const * p = in; float const dt = *p++;
        auto A = take<2,2>( p ); auto B = take<2,U>( p ); auto H = take<M,2>( p ); auto Q = take<2,2>( p ); auto R = take<M,M>( p ); auto P = take<2,2>( p ); auto x = take<2,1>( p );
        new( store[k] ) K( dt, A, B, H, Q, R, P, x );
    }
    void update( uint8_t k ) { float const * p = u; float const * q = z; auto uu = take<U,1>( p ); auto zz = take<M,1>( q ); at( k ).update( uu, zz ); show( k ); }
    void show( uint8_t k ) { float * p = out; give( p, at( k ).system_state() ); give( p, at( k ).kalman_gain() ); give( p, at( k ).estimation_error_covariance() ); *p++ = at( k ).time(); }
    void copy( uint8_t k ) { new( store[k] ) K( at( 1 - k ) ); }
};
#define KIND( M, U ) static Pair<M,U> p##M##U; \
    FN void make_##M##U( uint8_t k ) { p##M##U.make( k ); } FN void update_##M##U( uint8_t k ) { p##M##U.update( k ); } FN void show_##M##U( uint8_t k ) { p##M##U.show( k ); } FN void copy_##M##U( uint8_t k ) { p##M##U.copy( k ); }
KIND( 1, 1 ) KIND( 1, 2 ) KIND( 2, 1 ) KIND( 2, 2 )
int main() { for (;;) ; }
