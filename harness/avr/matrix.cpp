// matrices on the microcontroller; operands come in through `a` and `b`, results leave through `r`
#include "num/matrix.hpp"
#include "num/fixed-point.hpp"
#include <stdint.h>
#include <string.h>
#define FN extern "C" __attribute__((used, noinline))
extern "C" { __attribute__((used)) uint8_t a[64], b[64], r[64]; }
using num::matrix;
using fx = num::fixed_point<int16_t, 9, 6>;
template< typename T > T get( uint8_t const * p, int i ) { T v; memcpy( &v, p + i * sizeof( T ), sizeof( T ) ); return v; }
template< typename T > void put( int i, T v ) { memcpy( r + i * sizeof( T ), &v, sizeof( T ) ); }
template< typename T, int N, int M > matrix<T,N,M> load( uint8_t const * p ) { matrix<T,N,M> m( T( 0 ) ); for ( int i = 0; i < N * M; ++i ) m.at( i ) = get<T>( p, i ); return m; }
template< typename T, int N, int M > void store( matrix<T,N,M> const & m ) { for ( int i = 0; i < N * M; ++i ) put<T>( i, m.at( i ) ); }
template< typename T > void store( T v ) { put<T>( 0, v ); }
#define OP( n, t, T, N, M, e ) FN void n##_##t##_##N##M() { using X = matrix<T,N,M>; X A = load<T,N,M>( a ); X B = load<T,N,M>( b ); T v = get<T>( b, 0 ); (void) A; (void) B; (void) v; store( e ); }
#define SHAPE( t, T, N, M ) \
    OP( add, t, T, N, M, A + B ) OP( sub, t, T, N, M, A - B ) OP( addv, t, T, N, M, A + v ) OP( vadd, t, T, N, M, v + A ) OP( subv, t, T, N, M, A - v ) OP( mulv, t, T, N, M, A * v ) OP( vmul, t, T, N, M, v * A ) \
    FN void copy_##t##_##N##M() { matrix<T,N,M> A = load<T,N,M>( a ); matrix<T,N,M> B( A ); A = load<T,N,M>( b ); matrix<T,N,M> C( T( 0 ) ); C = B; B = A; store( C ); } \
    FN void cells_##t##_##N##M() { matrix<T,N,M> A( T( 0 ) ); int k = 0; for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) A( i, j ) = get<T>( a, k++ ); k = 0; for ( auto x : A ) put<T>( k++, x ); } \
    FN void paths_##t##_##N##M() { matrix<T,N,M> A( T( 0 ) ); int k = 0; for ( auto & x : A ) x = get<T>( a, k++ ); matrix<T,N,M> const & B = A; for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) { T x = B( i, j ); if ( x == B.at( i, j ) && x == B.at( i * M + j ) && x == B[ i * M + j ] && x == B( i * M + j ) && x == A( i, j ) && x == A.at( i, j ) && x == A[ i * M + j ] && &A( i * M + j ) == &A.at( i, j ) ) put<T>( i * M + j, x ); } } \
    FN void fill_##t##_##N##M() { matrix<T,N,M> A( get<T>( a, 0 ) ); store( A ); } \
    FN void list_##t##_##N##M() { matrix<T,N,M> A{ get<T>( a, 0 ), get<T>( a, 1 ) }; matrix<T,N,M> B; B = { get<T>( b, 0 ), get<T>( b, 1 ) }; store( A + B ); } \
    FN uint16_t dims_##t##_##N##M() { matrix<T,N,M> A( T( 0 ) ); return A.rows() | A.columns() << 4 | A.size() << 8; }
#define TWO( n, t, T, N, M, K, L, e ) FN void n##_##t() { auto A = load<T,N,M>( a ); auto B = load<T,K,L>( b ); (void) A; (void) B; store( e ); }
#define TYPE( t, T ) \
    SHAPE( t, T, 1, 2 ) SHAPE( t, T, 2, 1 ) SHAPE( t, T, 2, 2 ) SHAPE( t, T, 2, 3 ) SHAPE( t, T, 3, 3 ) \
    TWO( mm2, t, T, 2, 2, 2, 2, A * B ) TWO( mm3, t, T, 3, 3, 3, 3, A * B ) TWO( rc, t, T, 1, 2, 2, 1, A * B ) TWO( cr, t, T, 2, 1, 1, 2, A * B ) TWO( rc3, t, T, 1, 3, 3, 1, A * B ) TWO( cr3, t, T, 3, 1, 1, 3, A * B ) \
    TWO( rm, t, T, 1, 2, 2, 2, A * B ) TWO( mc, t, T, 2, 2, 2, 1, A * B ) TWO( rm3, t, T, 1, 3, 3, 3, A * B ) TWO( rm23, t, T, 1, 2, 2, 3, A * B ) TWO( rm32, t, T, 1, 3, 3, 2, A * B ) TWO( mc3, t, T, 3, 3, 3, 1, A * B ) \
    TWO( trc, t, T, 2, 1, 1, 1, num::transposed( A ) ) TWO( trr, t, T, 1, 2, 1, 1, num::transposed( A ) ) TWO( trm, t, T, 2, 2, 1, 1, num::transposed( A ) ) \
    TWO( one, t, T, 1, 1, 1, 1, A * B ) TWO( onev, t, T, 1, 1, 1, 1, A + B( 0 ) ) TWO( vone, t, T, 1, 1, 1, 1, B( 0 ) - A ) TWO( eye2, t, T, 1, 1, 1, 1, (num::eye<T,2>()) ) TWO( eye3, t, T, 1, 1, 1, 1, (num::eye<T,3>()) )
// one image for each element type, to fit the memory
#define APPLY( ... ) TYPE( __VA_ARGS__ )
APPLY( ELEMENT )
#ifdef REAL
FN void inv_f() { store( num::inverted( load<float,2,2>( a ) ) ); }
FN void invs_f() { store( num::inverted( get<float>( a, 0 ) ) ); }
#endif
int main() { for (;;) ; }
