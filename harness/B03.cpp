// B03: zeros/poles/gain and coefficients describe the same biquad; stable exactly when no pole is outside the unit circle.
#include "dsp_common.hpp"
using dsp::BiQuadT;

template< typename T >
void from_zpk( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "from zeros, poles and gain ", t ), 2, [&]( mc::Ctx & m )
    {
        using Q = BiQuadT<T>; using C = typename Q::Complex;
        static const double re[] = { 0, 0.5, -0.75, 1, -1.5, 0.25, -1 }, im[] = { 0.5, 1, -0.25, -2 }; static const double gain[] = { 1, -2, 0.5, 3 };
        auto pair = [&]( C & a, C & b )
        {
            if ( m.choose( 2 ) == 0 ) { a = C( T( re[ m.choose( 7 ) ] ) ); b = C( T( re[ m.choose( 7 ) ] ) ); }
            else { T r = T( re[ m.choose( 7 ) ] ), i = T( im[ m.choose( 4 ) ] ); a = C( r, i ); b = C( r, -i ); }
        };
        C z1, z2, p1, p2; pair( z1, z2 ); pair( p1, p2 ); T k = T( gain[ m.choose( m.thorough ? 4 : 2 ) ] );
        Q q( { z1, z2 }, { p1, p2 }, k );
        m.step();
        auto a = q.coeff_a(); auto b = q.coeff_b();
        // k (z - z1)(z - z2) / (z - p1)(z - p2): all exact here
        std::complex<double> Z1( z1 ), Z2( z2 ), P1( p1 ), P2( p2 );
        double zs = ( Z1 + Z2 ).real(), zp = ( Z1 * Z2 ).real(), ps = ( P1 + P2 ).real(), pp = ( P1 * P2 ).real(), K = k;
        auto in = [&]{ return mc::cat( t, " zeros ", Z1, Z2, " poles ", P1, P2, " gain ", K, " gives b=", b.b0, ",", b.b1, ",", b.b2, " a=", a.a1, ",", a.a2 ); };
        m.state( mc::mix( mc::mix( mc::hash_double( zs ), mc::hash_double( zp ) ), mc::mix( mc::hash_double( ps ), mc::hash_double( pp * 3 + K ) ) ) );
        m.check( b.b0 == T( K ) && b.b1 == T( -K * zs ) && b.b2 == T( K * zp ) && a.a1 == T( -ps ) && a.a2 == T( pp ), "zpk-coefficients", in );
        auto s = q.state(); m.check( s.v1 == T(0) && s.v2 == T(0), "zpk-state", in );
        double tol = sizeof(T) == 4 ? 2e-3 : 1e-7;
        auto match = [&]( auto const & s, std::complex<double> x, std::complex<double> y )
        {
            std::complex<double> u( s.s0 ), v( s.s1 );
            return ( std::abs( u - x ) < tol && std::abs( v - y ) < tol ) || ( std::abs( u - y ) < tol && std::abs( v - x ) < tol );
        };
        auto P = q.poles(); auto Z = q.zeros();
        m.check( match( P, P1, P2 ), "poles", [&]{ return in() + mc::cat( " poles() ", P.s0, P.s1 ); } );
        m.check( match( Z, Z1, Z2 ), "zeros", [&]{ return in() + mc::cat( " zeros() ", Z.s0, Z.s1 ); } );
        auto rim = std::max( std::abs( P1 ), std::abs( P2 ) );
        bool real = P1.imag() == 0;
        if ( real || std::fabs( rim - 1 ) > 1e-3 )
            m.check( q.is_stable() == ( rim <= 1 ), "stable", [&]{ return in() + mc::cat( " is_stable ", q.is_stable(), " with the outer pole at radius ", rim ); } );
        m.sample( in );
    } );
}

template< typename T >
void grid( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "stability over the coefficient plane ", t ), 2, [&]( mc::Ctx & m )
    {
        int n = m.thorough ? 64 : 16;
        double a1 = double( m.choose( 5 * n + 1 ) ) / n - 2.5, a2 = double( m.choose( 4 * n + 1 ) ) / n - 2;
        static const Coef bs[] = { { 1, 0, 0, 0, 0 }, { -0.5, 3, 2, 0, 0 } };
        Coef k = bs[ m.choose( 2 ) ]; k.a1 = a1; k.a2 = a2;
        auto q = biquad<T>( k );
        m.step(); m.state( mc::mix( mc::hash_double( a1 ), mc::hash_double( a2 ) ) );
        // the stability triangle |a2| <= 1, |a1| <= 1 + a2 is exact in the coefficients; complex poles on the circle itself (a2 = 1) are not decided
        bool inside = std::fabs( a2 ) <= 1 && std::fabs( a1 ) <= 1 + a2;
        double disc = a1 * a1 - 4 * a2;
        bool rim = std::fabs( std::fabs( a2 ) - 1 ) < 1e-9 || std::fabs( std::fabs( a1 ) - 1 - a2 ) < 1e-9;
        double root = std::sqrt( std::fabs( disc ) ); bool square = disc >= 0 && root * root == disc && std::floor( root * 4096 ) == root * 4096;
        if ( !rim || square )
            m.check( q.is_stable() == inside, "stable-plane", [&]{ return mc::cat( t, " a1=", a1, " a2=", a2, ": is_stable ", q.is_stable(), " expected ", inside ); } );
        auto p = q.poles(); std::complex<double> u( p.s0 ), v( p.s1 );
        double tol = sizeof(T) == 4 ? 1e-5 : 1e-12;
        m.check( std::abs( u + v + a1 ) < tol * 4 && std::abs( u * v - a2 ) < tol * 4, "pole-equation", [&]{ return mc::cat( t, " a1=", a1, " a2=", a2, ": poles ", u, v ); } );
        auto z = q.zeros(); u = z.s0; v = z.s1;
        m.check( std::abs( k.b0 * ( u + v ) + k.b1 ) < tol * 20 && std::abs( k.b0 * u * v - k.b2 ) < tol * 20, "zero-equation", [&]{ return mc::cat( t, " ", show( k ), ": zeros ", u, v ); } );
        // a stable filter's impulse response dies out, an unstable one's does not (off the circle)
        if ( sizeof(T) == 8 && k.b0 == 1 && !rim )
        {
            double y = 0, lim = 0; bool big = false; const int lap = m.thorough ? 6000 : 1200;
            auto w = biquad<T>( { 1, 0, 0, a1, a2 } );
            for ( int i = 0; i < lap && !big; ++i ) { y = w.step( T( i == 0 ) ); big = std::fabs( y ) > 1e6; if ( i >= lap - 2 ) lim = std::max( lim, std::fabs( y ) ); }
            m.step( 1 );
            m.check( inside ? !big && lim < 1e-3 : big, "stable-behaviour", [&]{ return mc::cat( "a1=", a1, " a2=", a2, ": impulse response ", big ? "grows" : "ends at ", lim ); } );
        }
    } );
}

// poles just inside and just outside the circle, away from a double pole, where the roots would not be well defined
template< typename T >
void near_the_circle( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "poles near the unit circle ", t ), 2, [&]( mc::Ctx & m )
    {
        const int far = sizeof(T) == 8 ? 40 : 14; const double off = std::ldexp( m.choose( 2 ) ? 1 : -1, -( 2 + m.choose( far - 1 ) ) ); const int kind = m.choose( 3 ), size = m.choose( 3 );
        static const double other[] = { 0, 0.5, -0.5, 0.25, -0.75 }; double a1, a2;
        if ( kind == 2 ) { a1 = std::vector<double>{ 0, 0.5, -1, 1.5, -1.5 }[ m.choose( 5 ) ]; a2 = 1 + off; }
        else { double p = ( kind ? -1 : 1 ) * ( 1 + off ), q = other[ m.choose( 5 ) ]; a1 = -( p + q ); a2 = p * q; }
        if ( double( T( a1 ) ) != a1 || double( T( a2 ) ) != a2 ) throw mc::Prune{};
        static const Coef bs[] = { { 1, 0, 0, 0, 0 }, { -0.5, 3, 2, 0, 0 }, { 4096, -1, 0.125, 0, 0 } }; Coef k = bs[ size ]; k.a1 = a1; k.a2 = a2;
        auto q = biquad<T>( k ); m.step(); m.state( mc::mix( mc::hash_double( a1 ), mc::hash_double( a2 ) ) );
        m.check( q.is_stable() == ( off < 0 ), "stable-near", [&]{ return mc::cat( t, " a1=", a1, " a2=", a2, ", outer pole ", off > 0 ? "outside" : "inside", " by ", std::fabs( off ), ": is_stable ", q.is_stable() ); } );
    } );
}

// solve( a, b, c ): the roots of any quadratic
template< typename T >
void quadratic( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "quadratic ", t ), 2, [&]( mc::Ctx & m )
    {
        static const double v[] = { 1, -1, 2, 0.5, -3, 8, 0, -0.25, 5, -12 };
        double a = v[ m.choose( 6 ) ], b = v[ m.choose( 10 ) ], d = v[ m.choose( 10 ) ];
        auto s = dsp::solve( T( a ), T( b ), T( d ) ); std::complex<double> x( s.s0 ), y( s.s1 );
        m.step(); m.state( mc::mix( 5, mc::mix( mc::hash_double( a ), mc::mix( mc::hash_double( b ), mc::hash_double( d ) ) ) ) );
        double tol = sizeof(T) == 4 ? 1e-3 : 1e-10;
        m.check( std::abs( a * ( x + y ) + b ) < tol && std::abs( a * x * y - d ) < tol, "quadratic", [&]{ return mc::cat( t, " ", a, "x^2 + ", b, "x + ", d, ": ", x, y ); } );
    } );
}

// a change of unit of the unknown and of the whole equation, by powers of two
template< typename T >
void units( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "units of a quadratic ", t ), 2, [&]( mc::Ctx & m )
    {
        static const double v[] = { 1, -1, 2, 0.5, -3, 8, 0, -0.25, 5, -12 }; static const int wide[] = { 0, -150, -60, -30, -12, 12, 30, 60, 150 }, narrow[] = { 0, -25, -12, -6, 6, 12, 20, 25, 28 }; const bool d = sizeof(T) == 8;
        double k[3] = { v[ m.choose( 6 ) ], v[ m.choose( 10 ) ], v[ m.choose( 10 ) ] }; int e = ( d ? wide : narrow )[ m.choose( 9 ) ], f = ( d ? wide : narrow )[ m.choose( 9 ) ];
        auto s = dsp::solve( T( k[0] ), T( k[1] ), T( k[2] ) ), r = dsp::solve( T( std::ldexp( k[0], f ) ), T( std::ldexp( k[1], f + e ) ), T( std::ldexp( k[2], f + 2 * e ) ) ); m.step( 2 ); m.state( mc::mix( mc::hash_double( std::ldexp( k[1], e ) ), mc::hash_double( k[2] ) ) );
        auto z = [&]( auto const & x ) { return std::complex<double>( std::ldexp( x.real(), e ), std::ldexp( x.imag(), e ) ); }; std::complex<double> a = z( s.s0 ), b = z( s.s1 ), g( r.s0 ), h( r.s1 );
        double tol = ( d ? 1e-12 : 1e-5 ) * ( std::abs( a ) + std::abs( b ) ); auto near = [&]( auto x, auto y ) { return std::abs( x - y ) <= tol; };
        m.check( ( near( a, g ) && near( b, h ) ) || ( near( a, h ) && near( b, g ) ), "quadratic-units", [&]{ return mc::cat( t, " ", k[0], "x^2 + ", k[1], "x + ", k[2], " with x in units of 2^", e, " and the equation times 2^", f, ": ", g, h, " expected ", a, b ); } );
    } );
}

MC_MAIN( auto & c = mc::ctx(); from_zpk<double>( c, "double" ); from_zpk<float>( c, "float" ); grid<double>( c, "double" ); grid<float>( c, "float" ); quadratic<double>( c, "double" ); quadratic<float>( c, "float" ); units<double>( c, "double" ); units<float>( c, "float" );
         near_the_circle<double>( c, "double" ); near_the_circle<float>( c, "float" ); )
