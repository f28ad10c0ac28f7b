#ifndef VERIF_MATRIX_COMMON_HPP
#define VERIF_MATRIX_COMMON_HPP
#include "mc.hpp"
#include "rational.hpp"
#include "num/matrix.hpp"
#include <array>
#include <vector>
#include <cmath>
#include <type_traits>

// the model of a matrix: rows x columns of exact numbers
template< typename T > struct Ref { int n, m; std::vector<T> v; Ref( int n_, int m_ ) : n(n_), m(m_), v( size_t(n_*m_), T(0) ) {} T & operator()( int i, int j ) { return v[i*m+j]; } T const & operator()( int i, int j ) const { return v[i*m+j]; } };

template< typename T, int N, int M > Ref<T> toref( num::matrix<T,N,M> const & a ) { Ref<T> r( N, M ); for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) r(i,j) = a(i,j); return r; }
template< typename T, int N, int M > num::matrix<T,N,M> impl( std::vector<T> const & v ) { num::matrix<T,N,M> r( T(0) ); for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) r(i,j) = v[ size_t(i*M+j) ]; return r; }

template< typename T > std::string show( Ref<T> const & a ) { std::string s = mc::cat( a.n, "x", a.m, "[" ); for ( size_t i = 0; i < a.v.size(); ++i ) { if ( i ) s += int(i) % a.m ? " " : "; "; s += mc::cat( a.v[i] ); } return s + "]"; }
template< typename T, int N, int M > std::string show( num::matrix<T,N,M> const & a ) { return show( toref( a ) ); }
template< typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>> > std::string show( T v ) { return mc::cat( v ); }
// an edited library need not support a class type as element: the build falls back to -DPLAIN_TYPES
#ifdef PLAIN_TYPES
# define IF_EXACT( ... )
#else
# define IF_EXACT( ... ) __VA_ARGS__
#endif
inline std::string show( Rat const & v ) { return mc::cat( v ); }

template< typename T > mc::u64 hash_ref( Ref<T> const & a ) { mc::u64 h = 3; for ( auto & x : a.v ) { double d; if constexpr ( std::is_same_v<T,Rat> ) d = dbl( x ); else d = double( x ); h = mc::mix( h, mc::hash_double( d ) ); } return h; }

template< typename T, int N, int M >
bool equals( num::matrix<T,N,M> const & a, Ref<T> const & b )
{
    if ( b.n != N || b.m != M || a.rows() != N || a.columns() != M ) return false;
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) if ( !( a(i,j) == b(i,j) ) ) return false;
    return true;
}
template< typename T, typename = std::enable_if_t<!std::is_class_v<T> || std::is_same_v<T,Rat>> > bool equals( T const & a, Ref<T> const & b ) { return b.n == 1 && b.m == 1 && a == b(0,0); }

// judge an operation: result against the reference, operands unchanged
#define JUDGE( m, name, expr, want, ... ) \
    do { auto got_ = ( expr ); (m).step(); (m).state( mc::mix( mc::u64( __LINE__ ), hash_ref( want ) ) ); \
         (m).check( equals( got_, want ), name, [&]{ return mc::cat( name, ": got ", show( got_ ), " expected ", show( want ), " for ", __VA_ARGS__ ); } ); } while ( 0 )
#endif
