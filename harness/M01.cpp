// M01: matrix arithmetic is linear algebra, operands are left alone, aliasing is harmless.
#pragma GCC optimize( "wrapv" )     // numbers of all sizes are multiplied before it is known that the product fits
#include "matrix_common.hpp"
#include <memory>
#include "preempt.hpp"
using num::matrix; using num::colvec; using num::rowvec;

template< typename T > Ref<T> rmul( Ref<T> const & a, Ref<T> const & b )
{ Ref<T> r( a.n, b.m ); for ( int i = 0; i < a.n; ++i ) for ( int j = 0; j < b.m; ++j ) for ( int k = 0; k < a.m; ++k ) r(i,j) = r(i,j) + a(i,k) * b(k,j); return r; }
template< typename T, typename F > Ref<T> zip( Ref<T> const & a, Ref<T> const & b, F f ) { Ref<T> r( a.n, a.m ); for ( size_t i = 0; i < r.v.size(); ++i ) r.v[i] = T( f( a.v[i], b.v[i] ) ); return r; }
template< typename T, typename F > Ref<T> each( Ref<T> const & a, F f ) { Ref<T> r( a.n, a.m ); for ( size_t i = 0; i < r.v.size(); ++i ) r.v[i] = T( f( a.v[i] ) ); return r; }

// element values of a whole family of operands: every operand within max_dev entry changes of a dense base
template< typename T >
void fill( mc::Ctx & m, std::vector<T> & v, int base, int max_dev, std::vector<T> const & values )
{
    static const int dense[2][32] = { { 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32 },
                                      { 3,-1,4,-1,5,-9,2,-6,5,3,-5,8,-9,7,9,-3,2,3,-8,4,6,-2,6,4,-3,3,8,-3,2,7,-9,5 } };
    for ( size_t i = 0; i < v.size(); ++i ) v[i] = base == 2 ? T(0) : T( dense[base][i] );
    size_t from = 0;
    for ( int n = 0; n < max_dev && from < v.size(); ++n )
    {
        int k = m.choose( int( v.size() - from ) + 1 );
        if ( k == 0 ) break;
        v[ from + k - 1 ] = values[ size_t( m.choose( int( values.size() ) ) ) ];
        from += size_t(k);
    }
}

template< typename T > std::vector<T> alphabet() { return { T(0), T(1), T(-1), T(7), T(-100) }; }
template<> std::vector<double> alphabet() { return { 0, 1, -1, 0.375, -1048576 }; }
template<> std::vector<float> alphabet() { return { 0, 1, -1, 0.375f, -1024 }; }
template<> std::vector<Rat> alphabet() { return { 0, 1, -1, Rat(1)/3, Rat(-1000000007)/2 }; }
// numbers that only the whole type holds; their sums (products) are exact
template< typename T > std::vector<T> wide( bool product )
{
    if constexpr ( std::is_same_v<T,int> ) return product ? std::vector<T>{ 0, 1, -1, 12345, -20011 } : std::vector<T>{ 0, 1, -16777217, 12345, 1073741823 };
    else if constexpr ( std::is_same_v<T,long long> ) return product ? std::vector<T>{ 0, 1, -1, 1000000007LL, -1200000011LL } : std::vector<T>{ 0, 1, -9007199254740993LL, 1000000007LL, 4611686018427387903LL };
    else if constexpr ( std::is_unsigned_v<T> ) return { 0, 1, T(-1), T( T(-1) / 3 ), T( T(-1) / 2 + 2 ) };
    else if constexpr ( std::is_same_v<T,double> ) return { 0, 1, -0.375, 4194305, -33554433 };
    else if constexpr ( std::is_same_v<T,long double> ) return { 0, 1, -0.5L, 1073741825, -536870913 };
    else return { T(0), T(1), T(-1), T(7), T(-100) };
}
template<> std::vector<std::int8_t> alphabet() { return { 0, 1, -1, 2, -3 }; }

template< typename T, int N, int M >
void elementwise( mc::Ctx & c, char const * t, bool whole = false )
{
    mc::explore( mc::cat( "elementwise ", t, whole ? " of all sizes " : " ", N, "x", M ), 2, [&]( mc::Ctx & m )
    {
        std::vector<T> v( 2 * N * M ); const auto al = whole ? wide<T>( false ) : alphabet<T>();
        fill( m, v, m.choose( 3 ), m.thorough ? 3 : 2, al );
        T s = al[ size_t( m.choose( int( al.size() ) ) ) ];
        auto a = impl<T,N,M>( { v.begin(), v.begin() + N*M } ), b = impl<T,N,M>( { v.begin() + N*M, v.end() } );
        auto ra = toref( a ), rb = toref( b );
        auto in = [&]{ return mc::cat( "A=", show( ra ), " B=", show( rb ), " v=", s ); };
        auto add = []( T x, T y ) { return x + y; }; auto sub = []( T x, T y ) { return x - y; };
        if constexpr ( N*M != 1 ) JUDGE( m, "A+B", a + b, zip( ra, rb, add ), in() );
        JUDGE( m, "A-B", a - b, zip( ra, rb, sub ), in() );
        if constexpr ( N*M != 1 ) JUDGE( m, "A+A", a + a, zip( ra, ra, add ), in() );
        JUDGE( m, "A-A", a - a, zip( ra, ra, sub ), in() );
        auto padd = each( ra, [&]( T x ) { return x + s; } ), psub = each( ra, [&]( T x ) { return x - s; } ), pmul = each( ra, [&]( T x ) { return x * s; } );
        JUDGE( m, "A+v", a + s, padd, in() );
        JUDGE( m, "v+A", s + a, padd, in() );
        JUDGE( m, "A-v", a - s, psub, in() );
        bool fits = true; if constexpr ( std::is_integral_v<T> && std::is_signed_v<T> ) for ( T x : ra.v ) { T p; fits = fits && !__builtin_mul_overflow( x, s, &p ); }
        if ( fits ) { JUDGE( m, "A*v", a * s, pmul, in() ); JUDGE( m, "v*A", s * a, pmul, in() ); }
        if constexpr ( N*M == 1 ) JUDGE( m, "v-A1x1", s - a, each( ra, [&]( T x ) { return s - x; } ), in() );
        else
        {
            matrix<T,1,1> one( s );
            JUDGE( m, "A+B1x1", a + one, padd, in() );
            JUDGE( m, "B1x1+A", one + a, padd, in() );
            if constexpr ( N != 1 ) if ( fits ) { JUDGE( m, "A*B1x1", a * one, pmul, in() ); JUDGE( m, "B1x1*A", one * a, pmul, in() ); }
            m.check( one(0) == s, "operand-modified", in );
        }
        // compound use through assignment to an operand
        auto x = a; x = x - b; JUDGE( m, "A=A-B", x, zip( ra, rb, sub ), in() );
        if ( fits ) { x = a; x = x * s; JUDGE( m, "A=A*v", x, pmul, in() ); }
        m.check( equals( a, ra ) && equals( b, rb ), "operand-modified", in );
        m.sample( [&]{ return in(); } );
    } );
}

template< typename T, int N >
void products( mc::Ctx & c, char const * t, bool whole = false )
{
    mc::explore( mc::cat( "products ", t, whole ? " of all sizes " : " ", N ), 2, [&]( mc::Ctx & m )
    {
        std::vector<T> v( 2 * N * N ); const auto al = whole ? wide<T>( true ) : alphabet<T>();
        fill( m, v, m.choose( 3 ), m.thorough && N < 4 ? 3 : 2, al );
        auto a = impl<T,N,N>( { v.begin(), v.begin() + N*N } ), b = impl<T,N,N>( { v.begin() + N*N, v.end() } );
        colvec<T,N> col = impl<T,N,1>( { v.begin() + N*N, v.begin() + N*N + N } ); rowvec<T,N> row = impl<T,1,N>( { v.end() - N, v.end() } );
        auto ra = toref( a ), rb = toref( b ), rc = toref( col ), rr = toref( row );
        auto in = [&]{ return mc::cat( "A=", show( ra ), " B=", show( rb ), " col=", show( rc ), " row=", show( rr ) ); };
        JUDGE( m, "A*B", a * b, rmul( ra, rb ), in() );
        JUDGE( m, "A*A", a * a, rmul( ra, ra ), in() );
        if constexpr ( N > 1 )
        {
            JUDGE( m, "A*col", a * col, rmul( ra, rc ), in() );
            JUDGE( m, "row*A", row * a, rmul( rr, ra ), in() );
            JUDGE( m, "row*col", row * col, rmul( rr, rc ), in() );
            JUDGE( m, "col*row", col * row, rmul( rc, rr ), in() );
            auto x = col; x = a * x; JUDGE( m, "x=A*x", x, rmul( ra, rc ), in() );
            auto y = row; y = y * a; JUDGE( m, "y=y*A", y, rmul( rr, ra ), in() );
        }
        auto z = a; z = z * b; JUDGE( m, "A=A*B", z, rmul( ra, rb ), in() );
        z = b; z = a * z; JUDGE( m, "B=A*B", z, rmul( ra, rb ), in() );
        if constexpr ( N > 1 ) { z = a; z = a * b + z * z - b; JUDGE( m, "A*B+A*A-B", z, zip( zip( rmul( ra, rb ), rmul( ra, ra ), []( T x, T y ) { return T( x + y ); } ), rb, []( T x, T y ) { return T( x - y ); } ), in() ); }
        m.check( equals( a, ra ) && equals( b, rb ) && equals( col, rc ) && equals( row, rr ), "operand-modified", in );
        m.sample( [&]{ return in(); } );
    } );
}

// real elements of every size: results scale exactly with powers of two of either operand, and with both at once
template< typename T, int N, int M >
void sizes( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "sizes ", t, " ", N, "x", M ), 2, [&]( mc::Ctx & m )
    {
        static const int wide[] = { -300, -120, -60, -30, -12, 12, 30, 60, 120, 300 }, narrow[] = { -40, -24, -12, 12, 24, 40 };
        auto power = [&]{ int i = m.choose( sizeof(T) == 8 ? 11 : 7 ); return i == 0 ? 0 : sizeof(T) == 8 ? wide[i-1] : narrow[i-1]; };
        int e = power(), f = power();
        std::vector<T> v( 2 * N * M ); static const auto al = alphabet<T>(); fill( m, v, m.choose( 2 ), m.thorough ? 2 : 1, al );
        auto times = []( auto a, int by ) { if constexpr ( std::is_arithmetic_v<decltype( a )> ) a = std::ldexp( a, by ); else for ( auto & x : a ) x = std::ldexp( x, by ); return a; };
        auto ref = []( auto const & a ) { if constexpr ( std::is_arithmetic_v<std::decay_t<decltype( a )>> ) { Ref<T> r( 1, 1 ); r(0,0) = a; return r; } else return toref( a ); };
        auto a = impl<T,N,M>( { v.begin(), v.begin() + N*M } ), b = impl<T,N,M>( { v.begin() + N*M, v.end() } ), as = times( a, e ), bs = times( b, e ); T s = v[0], ss = std::ldexp( s, f ), se = std::ldexp( s, e );
        auto in = [&]{ return mc::cat( "A=", show( a ), " B=", show( b ), " v=", s, " scaled by 2^", e, " and 2^", f ); };
        #define SCALED( name, got, want, by ) JUDGE( m, name, got, ref( times( want, by ) ), in() )
        SCALED( "A-B", as - bs, a - b, e ); SCALED( "A-v", as - se, a - s, e ); SCALED( "A*v", as * ss, a * s, e + f ); SCALED( "v*A", ss * as, s * a, e + f );
        if constexpr ( N * M > 1 )
        {
            SCALED( "A+B", as + bs, a + b, e ); SCALED( "A+v", as + se, a + s, e ); SCALED( "v+A", se + as, s + a, e );
            rowvec<T,N> r = impl<T,1,N>( { v.begin(), v.begin() + N } ); SCALED( "row*A", times( r, f ) * as, r * a, e + f );
            if constexpr ( N == M )
            {
                colvec<T,N> x = impl<T,N,1>( { v.end() - N, v.end() } ); auto bf = times( b, f );
                SCALED( "A*B", as * bf, a * b, e + f ); SCALED( "A*col", as * times( x, f ), a * x, e + f ); SCALED( "col*row", times( x, f ) * times( r, e ), x * r, e + f );
                T d = times( r, e ) * times( x, f ), w = std::ldexp( r * x, e + f ); m.check( d == w, "row*col", [&]{ return mc::cat( "row*col: ", d, " expected ", w, " for ", in() ); } );
            }
        }
        m.sample( in );
    } );
}

// a row times a matrix of another shape
template< typename T, int N, int M >
void row_product( mc::Ctx & c, char const * t, bool whole = false )
{
    mc::explore( mc::cat( "row products ", t, whole ? " of all sizes " : " ", N, "x", M ), 2, [&]( mc::Ctx & m )
    {
        std::vector<T> v( N + N * M ); const auto al = whole ? wide<T>( true ) : alphabet<T>();
        fill( m, v, m.choose( 3 ), m.thorough || whole ? 4 - 2 * whole : 3, al );
        rowvec<T,N> row = impl<T,1,N>( { v.begin(), v.begin() + N } ); auto a = impl<T,N,M>( { v.begin() + N, v.end() } );
        auto rr = toref( row ), ra = toref( a ); auto in = [&]{ return mc::cat( "row=", show( rr ), " A=", show( ra ) ); };
        JUDGE( m, "row*A", row * a, rmul( rr, ra ), in() );
        m.check( equals( a, ra ) && equals( row, rr ), "operand-modified", in );
        m.sample( [&]{ return in(); } );
    } );
}

// every 2x2 product over a small domain
void dense2( mc::Ctx & c )
{
    mc::explore( "all 2x2 products over {-1,0,2}", 2, [&]( mc::Ctx & m )
    {
        static const int dom[] = { -1, 0, 2, 1 };
        const int nd = m.thorough ? 4 : 3;
        std::vector<int> v( 8 ); for ( auto & x : v ) x = dom[ m.choose( nd ) ];
        auto a = impl<int,2,2>( { v.begin(), v.begin() + 4 } ), b = impl<int,2,2>( { v.begin() + 4, v.end() } );
        auto ra = toref( a ), rb = toref( b );
        auto in = [&]{ return mc::cat( "A=", show( ra ), " B=", show( rb ) ); };
        JUDGE( m, "A*B", a * b, rmul( ra, rb ), in() );
    } );
}

// larger shapes: sums, differences, products with a scalar, a row, a column and a matrix; one cell of either operand differs
template< typename T, int N, int M >
void larger( char const * t )
{
    mc::explore( mc::cat( "larger ", t, " ", N, "x", M ), 1, []( mc::Ctx & m )
    {
        auto place = [&]( size_t n ) { int k = m.choose( 6 ); return k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : k == 3 ? size_t( M ) - 1 : k == 4 ? n - size_t( M ) : n; };
        std::vector<T> v( N * M ), u( N * M ); for ( size_t i = 0; i < v.size(); ++i ) { v[i] = T( int( i * 37 % 101 ) - 50 ); u[i] = T( int( i * 53 % 97 ) - 40 ); }
        size_t i = place( v.size() ), j = place( u.size() ); if ( i < v.size() ) v[i] = T( 113 ); if ( j < u.size() ) u[j] = T( -109 );
        auto pa = std::make_unique<matrix<T,N,M>>( impl<T,N,M>( v ) ), pb = std::make_unique<matrix<T,N,M>>( impl<T,N,M>( u ) ); auto & a = *pa; auto & b = *pb; auto ra = toref( a ), rb = toref( b ); T s( 3 );
        auto in = [&]{ return mc::cat( N, "x", M, ", cells ", i, " and ", j, " changed" ); };
        #define LARGE( name, expr, want ) do { auto got_ = ( expr ); auto want_ = want; m.step(); m.state( mc::mix( mc::u64( __LINE__ ), hash_ref( want_ ) ) ); m.check( equals( got_, want_ ), name, [&]{ return mc::cat( name, " of ", in() ); } ); } while ( 0 )
        auto add = []( T x, T y ) { return x + y; }; auto sub = []( T x, T y ) { return x - y; };
        LARGE( "A+B", a + b, zip( ra, rb, add ) ); LARGE( "A-B", a - b, zip( ra, rb, sub ) ); LARGE( "A+A", a + a, zip( ra, ra, add ) );
        LARGE( "A+v", a + s, each( ra, [&]( T x ) { return x + s; } ) ); LARGE( "v+A", s + a, each( ra, [&]( T x ) { return x + s; } ) ); LARGE( "A-v", a - s, each( ra, [&]( T x ) { return x - s; } ) );
        LARGE( "A*v", a * s, each( ra, [&]( T x ) { return x * s; } ) ); LARGE( "v*A", s * a, each( ra, [&]( T x ) { return x * s; } ) );
        if constexpr ( N > 1 && M > 1 )
        {
            std::vector<T> w( N ); for ( size_t k = 0; k < N; ++k ) w[k] = T( int( k * 31 % 19 ) - 9 ); auto row = impl<T,1,N>( w ); auto rr = toref( row ); LARGE( "row*A", row * a, rmul( rr, ra ) );
            if constexpr ( N == M )
            {
                auto col = impl<T,N,1>( w ); auto rc = toref( col ); LARGE( "A*B", a * b, rmul( ra, rb ) ); LARGE( "B*A", b * a, rmul( rb, ra ) ); LARGE( "A*col", a * col, rmul( ra, rc ) ); LARGE( "row*col", row * col, rmul( rr, rc ) ); LARGE( "col*row", col * row, rmul( rc, rr ) );
                { auto x = a; x = x * b; LARGE( "A=A*B", x, rmul( ra, rb ) ); x = b; x = a * x; LARGE( "B=A*B", x, rmul( ra, rb ) ); }
            }
        }
        else if constexpr ( N > 1 && N <= 60 ) { auto row = impl<T,1,N>( u ); auto rr = toref( row ); LARGE( "row*col", row * a, rmul( rr, ra ) ); LARGE( "col*row", a * row, rmul( ra, rr ) ); }
        m.check( equals( a, ra ) && equals( b, rb ), "operand-modified", in );
    } );
}

#ifndef PLAIN_TYPES
// every operation interrupted at any of its steps by every other
template< int N > void preemption()
{
    using T = Preempt; using A = matrix<T,N,N>; using C = colvec<T,N>; using R = rowvec<T,N>; std::vector<Task> tasks;
    auto list = []( auto const & a ) { Values v; if constexpr ( std::is_same_v<std::decay_t<decltype( a )>,T> ) v.push_back( a.v ); else for ( auto const & y : a ) v.push_back( y.v ); return v; };
    #define TASK( name, expr ) tasks.push_back( { name, [=]() -> std::function<Values()> { std::vector<T> w( 3 * N * N ); for ( size_t i = 0; i < w.size(); ++i ) w[i] = T( int( i * 7 % 11 ) - 4 + int( tasks.size() ) ); \
        auto a = impl<T,N,N>( { w.begin(), w.begin() + N*N } ), b = impl<T,N,N>( { w.begin() + N*N, w.begin() + 2*N*N } ); auto x = impl<T,N,1>( { w.begin() + 1, w.begin() + 1 + N } ); auto y = impl<T,1,N>( { w.begin() + 3, w.begin() + 3 + N } ); T s( 3 ); (void) a; (void) b; (void) x; (void) y; (void) s; return [=]{ return list( expr ); }; } } );
    TASK( "A+B", a + b ) TASK( "A-B", a - b ) TASK( "A*B", a * b ) TASK( "A+v", a + s ) TASK( "v+A", s + a ) TASK( "A-v", a - s ) TASK( "A*v", a * s ) TASK( "v*A", s * a ) TASK( "A*col", a * x ) TASK( "row*A", y * a ) TASK( "row*col", y * x ) TASK( "col*row", x * y ) TASK( "transposed(col)", transposed( x ) ) TASK( "transposed(row)", transposed( y ) ) TASK( "A*B*A", a * b * a ) TASK( "eye", ( num::eye<T,N>() ) )
    if constexpr ( N == 2 ) { TASK( "transposed(A)", transposed( a ) ) TASK( "inverted(A)", inverted( a + b * s ) ) TASK( "inverted(v)", num::inverted( s ) ) }
    preempted( N == 2 ? "2x2" : "3x3", tasks );
}
#endif
MC_MAIN(
    IF_EXACT( preemption<2>(); preemption<3>(); )
    larger<int,6,6>( "int" ); larger<double,7,7>( "double" ); larger<float,8,8>( "float" ); larger<int,9,9>( "int" ); larger<int,12,5>( "int" ); larger<double,5,12>( "double" ); larger<double,12,12>( "double" ); larger<int,15,15>( "int" ); larger<int,16,16>( "int" ); larger<int,17,17>( "int" ); larger<double,20,20>( "double" );
    IF_EXACT( larger<int,33,33>( "int" ); )
    larger<std::int16_t,1,9>( "int16" );
    IF_EXACT( larger<int,33,2>( "int" ); larger<int,2,33>( "int" ); larger<float,3,100>( "float" ); larger<float,100,3>( "float" ); larger<int,300,1>( "int" ); larger<double,1,300>( "double" ); larger<int,50,1>( "int" ); larger<int,2,130>( "int" ); larger<int,130,2>( "int" ); larger<int,1,70000>( "int" ); larger<int,70000,1>( "int" ); larger<int,260,260>( "int" ); )
    auto & c = mc::ctx();
    elementwise<int,1,1>( c, "int" ); elementwise<int,2,2>( c, "int" ); elementwise<int,1,3>( c, "int" ); elementwise<int,3,1>( c, "int" );
    elementwise<double,2,3>( c, "double" ); elementwise<double,3,2>( c, "double" ); elementwise<double,1,1>( c, "double" ); elementwise<int,4,4>( c, "int" );
    elementwise<float,2,2>( c, "float" ); IF_EXACT( elementwise<Rat,2,2>( c, "exact" ); ) elementwise<double,1,2>( c, "double" ); elementwise<double,2,1>( c, "double" );
    products<int,1>( c, "int" ); products<int,2>( c, "int" ); products<int,3>( c, "int" ); products<int,4>( c, "int" );
    products<double,2>( c, "double" ); products<double,3>( c, "double" ); products<float,2>( c, "float" ); IF_EXACT( products<Rat,2>( c, "exact" ); ) products<double,5>( c, "double" );
    row_product<int,2,3>( c, "int" ); row_product<int,3,2>( c, "int" ); row_product<double,2,4>( c, "double" ); row_product<float,4,3>( c, "float" ); row_product<double,3,4>( c, "double" );
    sizes<double,2,2>( c, "double" ); sizes<float,2,2>( c, "float" ); sizes<double,3,3>( c, "double" ); sizes<double,2,3>( c, "double" ); sizes<float,3,2>( c, "float" ); sizes<double,1,1>( c, "double" );
    elementwise<int,2,2>( c, "int", true ); elementwise<int,1,1>( c, "int", true ); elementwise<int,1,2>( c, "int", true ); elementwise<long long,2,2>( c, "long long", true ); elementwise<long long,1,1>( c, "long long", true ); elementwise<unsigned,2,2>( c, "unsigned", true ); elementwise<unsigned,1,1>( c, "unsigned", true ); elementwise<unsigned long long,2,1>( c, "unsigned long long", true ); elementwise<double,2,2>( c, "double", true ); elementwise<double,1,1>( c, "double", true ); elementwise<long double,2,2>( c, "long double", true ); elementwise<long double,1,1>( c, "long double", true );
    products<int,1>( c, "int", true ); products<int,2>( c, "int", true ); products<int,3>( c, "int", true ); products<long long,1>( c, "long long", true ); products<long long,2>( c, "long long", true ); products<long long,3>( c, "long long", true ); products<unsigned,2>( c, "unsigned", true ); products<unsigned long long,2>( c, "unsigned long long", true ); products<double,2>( c, "double", true ); products<double,3>( c, "double", true ); products<long double,1>( c, "long double", true ); products<long double,2>( c, "long double", true );
    row_product<int,2,3>( c, "int", true ); row_product<long long,3,2>( c, "long long", true ); row_product<long double,2,3>( c, "long double", true ); row_product<double,3,2>( c, "double", true ); row_product<unsigned,2,3>( c, "unsigned", true );
    dense2( c );
)
