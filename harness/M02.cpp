// M02: transposition swaps indices (and is its own inverse, and reverses products), identity is neutral.
#include "matrix_common.hpp"
#include <memory>
using num::matrix; using num::transposed; using num::eye;

template< typename T > Ref<T> rt( Ref<T> const & a ) { Ref<T> r( a.m, a.n ); for ( int i = 0; i < a.n; ++i ) for ( int j = 0; j < a.m; ++j ) r(j,i) = a(i,j); return r; }
template< typename T > std::vector<T> alphabet() { return { T(0), T(1), T(-1), T(7), T(-100) }; }
template<> std::vector<Rat> alphabet() { return { 0, 1, -1, Rat(1)/3, Rat(-1000000007)/2 }; }
template<> std::vector<double> alphabet() { return { 0, 1, -0.5, 1e300, -1048576.25 }; }
template<> std::vector<long double> alphabet() { return { 0, 1.0L / 3, -0.5L, 1e300L, 9223372036854775807.0L }; }
template<> std::vector<float> alphabet() { return { 0, 1.0f / 3, 16777215, -1e30f, 1e-40f }; }
template<> std::vector<int> alphabet() { return { 0, 1, -1, 2147483647, -16777217 }; }
template<> std::vector<unsigned> alphabet() { return { 0, 1, 4294967295u, 70000, 2147483649u }; }
template<> std::vector<long long> alphabet() { return { 0, 1, -1, 9007199254740993LL, -9223372036854775807LL }; }

template< typename T, int N, int M >
void transpose( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "transpose ", t, " ", N, "x", M ), 2, [&]( mc::Ctx & m )
    {
        static const auto al = alphabet<T>();
        std::vector<T> v( N * M );
        if ( N * M <= 5 ) { for ( auto & x : v ) x = al[ size_t( m.choose( int( al.size() ) ) ) ]; }
        else
        {   // dense base with all changes of at most 3 entries
            for ( int i = 0; i < N * M; ++i ) v[ size_t(i) ] = T( i + 1 );
            int from = 0;
            for ( int n = 0; n < 3 && from < N * M; ++n ) { int k = m.choose( N * M - from + 1 ); if ( k == 0 ) break; v[ size_t( from + k - 1 ) ] = al[ size_t( m.choose( int( al.size() ) ) ) ]; from += k; }
        }
        auto a = impl<T,N,M>( v ); auto ra = toref( a );
        auto in = [&]{ return mc::cat( "A=", show( ra ) ); };
        JUDGE( m, "transposed", transposed( a ), rt( ra ), in() );
        JUDGE( m, "transposed-twice", transposed( transposed( a ) ), ra, in() );
        auto b = a; if constexpr ( N == M ) { b = transposed( b ); JUDGE( m, "A=transposed(A)", b, rt( ra ), in() ); }
        m.check( equals( a, ra ), "operand-modified", in );
        m.sample( in );
    } );
}

// transposed(A*B) == transposed(B)*transposed(A), A*I == I*A == A for every small A, B
template< typename T >
void identities2( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "2x2 identities ", t ), 2, [&]( mc::Ctx & m )
    {
        static const int dom[] = { 0, 1, -2, 3, 5 };
        const int nd = m.thorough ? 5 : 4;
        std::vector<T> v( 8 ); for ( auto & x : v ) x = T( dom[ m.choose( nd ) ] );
        auto a = impl<T,2,2>( { v.begin(), v.begin() + 4 } ), b = impl<T,2,2>( { v.begin() + 4, v.end() } );
        auto ra = toref( a ), rb = toref( b );
        Ref<T> p( 2, 2 ); for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) for ( int k = 0; k < 2; ++k ) p(i,j) = p(i,j) + ra(i,k) * rb(k,j);
        auto in = [&]{ return mc::cat( "A=", show( ra ), " B=", show( rb ) ); };
        auto e = eye<T,2>();
        JUDGE( m, "transposed(A*B)", transposed( a * b ), rt( p ), in() );
        JUDGE( m, "transposed(B)*transposed(A)", transposed( b ) * transposed( a ), rt( p ), in() );
        JUDGE( m, "A*I", a * e, ra, in() );
        JUDGE( m, "I*A", e * a, ra, in() );
    } );
}

template< typename T, int N >
void identity( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "identity ", t, " ", N ), 1, [&]( mc::Ctx & m )
    {
        // created twice, with the first scribbled over in between: every identity is fresh
        int k = m.choose( N * N + 1 );
        auto e = eye<T,N>();
        Ref<T> want( N, N ); for ( int i = 0; i < N; ++i ) want(i,i) = T(1);
        auto in = [&]{ return mc::cat( "N=", N ); };
        JUDGE( m, "eye", e, want, in() );
        if ( k < N * N ) e(k) = T(42);
        auto f = eye<T,N>();
        JUDGE( m, "eye-again", f, want, in() );
        if constexpr ( N > 1 )
        {
            matrix<T,N,1> x( T(0) ); matrix<T,1,N> y( T(0) ); for ( int i = 0; i < N; ++i ) { x(i) = T( i + 1 - 2 * ( k == i ) ); y(i) = T( 10 * i - ( k == i ) ); }
            auto rx = toref( x ), ry = toref( y );
            JUDGE( m, "I*x", f * x, rx, in() ); JUDGE( m, "y*I", y * f, ry, in() );
        }
    } );
}

// the identity is neutral for elements of every size
template< typename T, int N > void neutral( char const * t )
{
    mc::explore( mc::cat( "identity with elements of all sizes, ", t, " ", N ), 1, []( mc::Ctx & m )
    {
        static const auto al = alphabet<T>(); std::vector<T> v( N * N ); for ( int i = 0; i < N * N; ++i ) v[ size_t(i) ] = i < 4 ? m.pick( al ) : T( i );
        auto a = impl<T,N,N>( v ); auto x = impl<T,N,1>( { v.begin(), v.begin() + N } ); auto y = impl<T,1,N>( { v.begin() + 1, v.begin() + 1 + N } ); auto ra = toref( a ), rx = toref( x ), ry = toref( y ); auto e = eye<T,N>(); auto in = [&]{ return mc::cat( "A=", show( ra ) ); };
        JUDGE( m, "A*I", a * e, ra, in() ); JUDGE( m, "I*A", e * a, ra, in() ); JUDGE( m, "I*x", e * x, rx, in() ); JUDGE( m, "y*I", y * e, ry, in() ); m.check( equals( a, ra ) && equals( x, rx ) && equals( y, ry ), "operand-modified", in );
    } );
}
template< typename T, int N > void lines( char const * t )
{
    mc::explore( mc::cat( "long transpose ", t, " ", N ), 1, []( mc::Ctx & m )
    {
        std::vector<T> v( N ); for ( int i = 0; i < N; ++i ) v[ size_t(i) ] = T( i * 7 % 113 - 50 ); int k = m.choose( 9 ); size_t pos = size_t( k == 8 ? N : k * ( N - 1 ) / 7 ); if ( k < 8 ) v[pos] = T( 120 );
        auto a = std::make_unique<matrix<T,N,1>>( impl<T,N,1>( v ) ); auto b = std::make_unique<matrix<T,1,N>>( impl<T,1,N>( v ) ); auto ra = toref( *a ), rb = toref( *b ); m.step( 4 ); m.state( mc::mix( mc::u64( N ), pos ) );
        m.check( equals( transposed( *a ), rb ) && equals( transposed( *b ), ra ) && equals( transposed( transposed( *a ) ), ra ) && equals( transposed( transposed( *b ) ), rb ) && equals( *a, ra ) && equals( *b, rb ), "transposed", [&]{ return mc::cat( N, " elements, element ", pos, " changed" ); } );
    } );
}
template< typename T, int N > void big( char const * t )
{
    mc::explore( mc::cat( "large identity ", t, " ", N ), 1, []( mc::Ctx & m )
    {
        std::vector<T> v( N * N ); for ( int i = 0; i < N * N; ++i ) v[ size_t(i) ] = T( i * 7 % 113 - 50 ); int k = m.choose( 9 ); size_t pos = size_t( k == 8 ? N * N : k * ( N * N - 1 ) / 7 ); if ( k < 8 ) v[pos] = T( 120 );
        auto a = std::make_unique<matrix<T,N,N>>( impl<T,N,N>( v ) ); auto ra = toref( *a ); Ref<T> want( N, N ); for ( int i = 0; i < N; ++i ) want(i,i) = T( 1 ); auto const & e = eye<T,N>(); m.step( 4 ); m.state( mc::mix( mc::u64( N ), pos ) );
        m.check( equals( e, want ) && equals( e * e, want ), "eye", [&]{ return mc::cat( "identity of ", N ); } ); m.check( equals( *a * e, ra ) && equals( e * *a, ra ), "A*I", [&]{ return mc::cat( N, "x", N, ", element ", pos, " changed" ); } );
    } );
}

MC_MAIN(
    lines<int,9>( "int" ); lines<double,16>( "double" ); lines<float,17>( "float" );
    IF_EXACT( lines<int,33>( "int" ); lines<int,100>( "int" ); lines<int,255>( "int" ); lines<int,256>( "int" ); lines<double,257>( "double" ); lines<int,1000>( "int" ); lines<int,32768>( "int" ); lines<int,65536>( "int" ); lines<int,70000>( "int" ); )
    big<int,5>( "int" ); big<double,8>( "double" ); big<float,9>( "float" ); big<int,12>( "int" ); big<double,16>( "double" ); big<int,17>( "int" );
    IF_EXACT( big<int,33>( "int" ); big<int,130>( "int" ); )
    auto & c = mc::ctx();
    transpose<int,2,2>( c, "int" ); transpose<double,2,2>( c, "double" ); IF_EXACT( transpose<Rat,2,2>( c, "exact" ); ) transpose<float,2,2>( c, "float" );
    transpose<long long,2,2>( c, "long long" ); transpose<unsigned,2,2>( c, "unsigned" ); transpose<long double,2,2>( c, "long double" ); transpose<std::int16_t,2,2>( c, "int16" ); transpose<float,1,4>( c, "float" ); transpose<float,4,1>( c, "float" ); transpose<long long,1,3>( c, "long long" ); transpose<long long,3,1>( c, "long long" ); transpose<long double,1,2>( c, "long double" ); transpose<long double,2,1>( c, "long double" ); transpose<unsigned,1,2>( c, "unsigned" ); transpose<unsigned,2,1>( c, "unsigned" );
    neutral<int,2>( "int" ); neutral<long long,2>( "long long" ); neutral<unsigned,2>( "unsigned" ); neutral<double,2>( "double" ); neutral<float,2>( "float" ); neutral<long double,2>( "long double" ); neutral<double,3>( "double" ); neutral<int,3>( "int" ); neutral<std::int16_t,2>( "int16" ); neutral<long long,3>( "long long" );
    transpose<int,1,2>( c, "int" ); transpose<int,2,1>( c, "int" ); transpose<double,1,3>( c, "double" ); transpose<double,3,1>( c, "double" );
    transpose<int,1,5>( c, "int" ); transpose<int,5,1>( c, "int" ); transpose<double,8,1>( c, "double" ); transpose<double,1,8>( c, "double" );
    identities2<int>( c, "int" ); identities2<double>( c, "double" );
    identity<int,1>( c, "int" ); identity<int,2>( c, "int" ); identity<double,3>( c, "double" ); identity<double,4>( c, "double" ); identity<float,2>( c, "float" ); IF_EXACT( identity<Rat,2>( c, "exact" ); ) identity<int,7>( c, "int" );
)
