// M03: inverted(A) is the inverse: inverted(A)*A = A*inverted(A) = I for every regular 2x2 A; scalars invert, zero to zero.
// The pinned code returns the transpose of the inverse (its own unit test fixes that): a listed known finding, recognised
// only when the result is exactly the transposed inverse of a non-symmetric matrix.
#include "matrix_common.hpp"
using num::matrix; using num::inverted;

template< typename T >
void inverse2( mc::Ctx & m, std::vector<Rat> const & v, double tol )
{
    Rat det = v[0] * v[3] - v[1] * v[2];
    if ( det == 0 ) throw mc::Prune{};
    std::vector<T> w( 4 ); for ( int i = 0; i < 4; ++i ) { if constexpr ( std::is_same_v<T,Rat> ) w[ size_t(i) ] = v[ size_t(i) ]; else w[ size_t(i) ] = T( dbl( v[ size_t(i) ] ) ); }
    auto a = impl<T,2,2>( w ); auto keep = toref( a );
    auto r = inverted( a );
    m.step();
    Rat want[4] = { v[3] / det, -v[1] / det, -v[2] / det, v[0] / det };
    double scale = 0; for ( auto & x : want ) scale = std::max( scale, std::fabs( dbl( x ) ) );
    auto eq = [&]( T const & got, Rat const & w ) { if constexpr ( std::is_same_v<T,Rat> ) return got == w; else return std::fabs( double( got ) - dbl( w ) ) <= tol * scale; };
    bool ok = eq( r(0,0), want[0] ) && eq( r(0,1), want[1] ) && eq( r(1,0), want[2] ) && eq( r(1,1), want[3] );
    bool transposed = eq( r(0,0), want[0] ) && eq( r(0,1), want[2] ) && eq( r(1,0), want[1] ) && eq( r(1,1), want[3] );
    { mc::u64 h = 11; for ( auto & x : want ) h = mc::mix( h, hash_rat( x ) ); m.state( h ); }
    auto d = [&]{ return mc::cat( "inverted(", show( keep ), ") = ", show( r ), ", the inverse is [", want[0], " ", want[1], "; ", want[2], " ", want[3], "]" ); };
    m.check( ok, transposed && v[1] != v[2] ? "inverse-2x2-transposed" : "inverse-2x2", d );
    m.check( equals( a, keep ), "operand-modified", d );
    m.sample( d );
}

template< typename T >
void all2( mc::Ctx & c, char const * t, double tol )
{
    mc::explore( mc::cat( "all 2x2 over a small domain ", t ), 2, [&]( mc::Ctx & m )
    {
        static const std::vector<Rat> dom = { 0, 1, -1, 2, Rat(-5)/2, 3, Rat(1)/8, -7, 100, 11, Rat(-3)/4, 6 };
        const int nd = m.thorough ? 12 : 8;
        std::vector<Rat> v( 4 ); for ( auto & x : v ) x = dom[ size_t( m.choose( nd ) ) ];
        inverse2<T>( m, v, tol );
    } );
    mc::explore( mc::cat( "wide range 2x2 ", t ), 2, [&]( mc::Ctx & m )
    {   // one entry or the diagonal pair from far outside the usual range: small determinants, large and tiny elements
        static const std::vector<Rat> wide = { Rat(1)/1048576, 1048576, Rat(-1)/4096, -65536, 1, -1, 3 };
        std::vector<Rat> v( 4 ); for ( auto & x : v ) x = wide[ size_t( m.choose( int( wide.size() ) ) ) ];
        Rat det = v[0] * v[3] - v[1] * v[2];
        Rat big = abs( v[0] * v[3] ) > abs( v[1] * v[2] ) ? Rat( abs( v[0] * v[3] ) ) : Rat( abs( v[1] * v[2] ) );
        if ( !std::is_same_v<T,Rat> && abs( det ) * 1000 < big ) throw mc::Prune{};       // ill-conditioned for a rounding type
        inverse2<T>( m, v, tol * 1000 );
    } );
    mc::explore( mc::cat( "symmetric positive definite ", t ), 2, [&]( mc::Ctx & m )
    {   // innovation covariances: B*B' + diagonal
        static const std::vector<Rat> dom = { 0, 1, -2, Rat(1)/2, 10 };
        static const std::vector<Rat> dg = { Rat(1)/64, 1, 37 };
        Rat b[4]; for ( auto & x : b ) x = m.pick( dom );
        Rat d1 = m.pick( dg ), d2 = m.pick( dg );
        Rat off = b[0] * b[2] + b[1] * b[3];
        inverse2<T>( m, { b[0] * b[0] + b[1] * b[1] + d1, off, off, b[2] * b[2] + b[3] * b[3] + d2 }, tol * 1e6 );
    } );
}

// elements of every size: a change of the units of the two coordinates changes the units of the inverse
template< typename T >
void units( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "units 2x2 ", t ), 2, [&]( mc::Ctx & m )
    {
        static const std::vector<int> wide = { 0, -220, -100, -60, -30, -15, 15, 30, 60, 100, 220 }, narrow = { 0, -25, -14, -7, 7, 14, 25 }; auto const & es = sizeof(T) == 8 ? wide : narrow;
        static const std::vector<double> dom = { 1, -1, 3, 0.375, -7, 0 };
        T v[4]; for ( auto & x : v ) x = T( m.pick( dom ) ); int e[2] = { m.pick( es ), m.pick( es ) };
        double det = double( v[0] ) * v[3] - double( v[1] ) * v[2]; if ( std::fabs( det ) < 0.05 ) throw mc::Prune{};
        auto a = impl<T,2,2>( { v[0], v[1], v[2], v[3] } ), s = a; for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) s( i, j ) = std::ldexp( a( i, j ), e[i] + e[j] );
        auto g = inverted( a ), h = inverted( s ); m.step( 2 ); m.state( mc::mix( mc::hash_double( h( 0 ) ), mc::hash_double( h( 3 ) ) ) );
        bool ok = true; for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) { double w = std::ldexp( g( i, j ), -e[i] - e[j] ); ok = ok && std::fabs( h( i, j ) - w ) <= ( sizeof(T) == 8 ? 1e-12 : 1e-4 ) * std::fabs( w ); }
        m.check( ok, "inverse-units", [&]{ return mc::cat( t, " inverted(", show( s ), ") = ", show( h ), " but inverted(", show( a ), ") = ", show( g ), ", units 2^", e[0], " and 2^", e[1] ); } );
        m.sample( [&]{ return show( s ); } );
    } );
}

template< typename T >
void scalars( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "scalars ", t ), 1, [&]( mc::Ctx & m )
    {
        // every signed power of two in range with four mantissas, and zero
        const int lim = std::is_same_v<T,double> ? 1000 : std::is_same_v<T,float> ? 120 : 40; int e = m.choose( 2 * lim + 1 ) - lim; int k = m.choose( 9 );
        double man[] = { 1, 1.5, 1.25, 1.9375 };
        double x = k == 8 ? 0.0 : ( k & 1 ? -1 : 1 ) * std::ldexp( man[ k / 2 ], e );
        T v = T( x );
        T r = inverted( v ); m.step(); m.state( mc::hash_double( x ) );
        bool ok;
        if constexpr ( std::is_same_v<T,Rat> ) ok = v == 0 ? r == 0 : r * v == 1;
        else ok = x == 0 ? r == 0 : std::fabs( double( r ) * x - 1 ) <= ( sizeof(T) == 4 ? 1e-6 : 1e-14 );
        m.check( ok, "inverse-scalar", [&]{ return mc::cat( "inverted(", x, ") = ", r ); } );
    } );
}

MC_MAIN(
    auto & c = mc::ctx();
    IF_EXACT( all2<Rat>( c, "exact", 0 ); ) all2<double>( c, "double", 1e-12 ); all2<float>( c, "float", 1e-4 );
    units<double>( c, "double" ); units<float>( c, "float" );
    IF_EXACT( scalars<Rat>( c, "exact" ); ) scalars<double>( c, "double" ); scalars<float>( c, "float" );
)
