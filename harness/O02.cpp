// O02: the reported pole of a one-pole filter is the root of its denominator, and it is stable exactly when that pole is not
// outside the unit circle.
#include "dsp_common.hpp"
#include "magnitudes.hpp"
using dsp::OnePoleT;

template< typename T >
void grid( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "coefficients ", t ), 1, [&]( mc::Ctx & m )
    {
        int n = m.thorough ? 4096 : 256;
        double a1 = double( m.choose( 6 * n + 1 ) ) / n - 3; static const double bs[] = { 1, -0.5, 3 }; double b0 = bs[ m.choose( 3 ) ];
        using Q = OnePoleT<T>; Q q( typename Q::B{ T( b0 ) }, typename Q::A{ T( a1 ) } );
        m.step( 3 ); m.state( mc::hash_double( a1 ) );
        std::complex<double> p( q.poles().s0 ), z( q.zeros().s0 );
        m.check( p == std::complex<double>( -a1 ), "pole", [&]{ return mc::cat( t, " a1=", a1, ": pole reported at ", p ); } );
        m.check( z == std::complex<double>( 0 ), "zero", [&]{ return mc::cat( t, " a1=", a1, ": zero reported at ", z ); } );
        m.check( bool( q.is_stable() ) == ( std::fabs( a1 ) <= 1 ), "stable", [&]{ return mc::cat( t, " a1=", a1, ": is_stable ", q.is_stable() ); } );
        if ( std::fabs( std::fabs( a1 ) - 1 ) > 1.0 / 300 )
        {   // and the running filter agrees
            double y = 0; bool big = false; for ( int i = 0; i < 6000 && !big; ++i ) { y = double( q.step( T( i == 0 ) ) ); big = std::fabs( y ) > 1e6; }
            m.step(); m.check( std::fabs( a1 ) < 1 ? !big && std::fabs( y ) < 1e-3 : big, "stable-behaviour", [&]{ return mc::cat( t, " a1=", a1, ": impulse response ", big ? "grows" : "dies out" ); } );
            m.check( bool( q.is_stable() ) == !big, "stable-behaviour", [&]{ return mc::cat( t, " a1=", a1, ": is_stable ", q.is_stable(), ", impulse response ", big ? "grows" : "dies out" ); } );
        }
        m.sample( [&]{ return mc::cat( "a1=", a1, " pole ", p ); } );
    } );
}
// coefficients of all sizes, and the neighbours of one: any gain, any state
template< typename T >
void extremes( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "sizes ", t ), 1, [&]( mc::Ctx & m )
    {
        using L = std::numeric_limits<T>; std::vector<T> v{ 0, 1, std::nextafter( T( 1 ), T( 0 ) ), std::nextafter( T( 1 ), T( 2 ) ), T( 0.9999 ), T( 1.0001 ), T( 0.1 ), L::max(), L::min(), L::denorm_min(), T( 1.5 ) }; for ( int e : sizes<T>() ) { v.push_back( std::ldexp( T( 1 ), e ) ); v.push_back( std::ldexp( T( 1.625 ), e ) ); }
        T a1 = v[ m.choose( int( v.size() ) ) ] * T( m.choose( 2 ) ? -1 : 1 ), b0 = v[ m.choose( int( v.size() ) ) ] * T( m.choose( 2 ) ? -1 : 1 ); int run = m.choose( 4 );
        using Q = OnePoleT<T>; Q q( typename Q::B{ b0 }, typename Q::A{ a1 } );
        for ( int i = 0; i < run * run * run; ++i ) q.step( T( 1 ) );            // whatever the filter holds
        m.step( 3 ); m.state( mc::mix( mc::hash_double( a1 ), mc::mix( mc::hash_double( b0 ), mc::u64( run ) ) ) );
        auto p = q.poles().s0, z = q.zeros().s0;
        auto who = [&]{ return mc::cat( t, " b0=", b0, " a1=", a1, " after ", run * run * run, " inputs: " ); };
        m.check( p.real() == -a1 && p.imag() == 0, "pole", [&]{ return who() + mc::cat( "pole reported at ", p ); } );
        m.check( b0 == 0 || ( z.real() == 0 && z.imag() == 0 ), "zero", [&]{ return who() + mc::cat( "zero reported at ", z ); } );
        m.check( bool( q.is_stable() ) == ( std::fabs( a1 ) <= 1 ), "stable", [&]{ return who() + mc::cat( "is_stable ", q.is_stable() ); } );
        m.check( q.coeff_b().b0 == b0 && q.coeff_a().a1 == a1, "coefficients", [&]{ return who() + "other coefficients"; } );
    } );
    mc::explore( mc::cat( "linear sizes ", t ), 1, [&]( mc::Ctx & m )
    {
        static const double v[] = { 1, -1, 1.5, 0.75, -5 }; auto const & s = sizes<T>(); int n = int( s.size() );
        int ea = m.choose( n + 1 ), eb = m.choose( n + 1 ); T a = T( std::ldexp( m.pick( std::vector<double>( v, v + 5 ) ), ea ? s[ea - 1] : 0 ) ), b = T( std::ldexp( v[ m.choose( 5 ) ], eb ? s[eb - 1] : 0 ) );
        ld w = -ld( b ) / a; if ( std::fabs( w ) > std::numeric_limits<T>::max() || std::fabs( w ) < std::numeric_limits<T>::min() ) return;
        auto x = dsp::onepole::solve( a, b ).s0; m.step(); m.state( mc::mix( mc::hash_double( a ), mc::hash_double( b ) ) );
        m.check( std::fabs( ld( x.real() ) - w ) <= 4 * ld( std::numeric_limits<T>::epsilon() ) * std::fabs( w ) && x.imag() == 0, "linear", [&]{ return mc::cat( t, " ", a, "x + ", b, ": ", x, " expected ", double( w ) ); } );
    } );
}
// the root finder by itself
template< typename T >
void linear( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "linear ", t ), 1, [&]( mc::Ctx & m )
    {
        static const double v[] = { 1, -1, 2, 0.5, -4, 8, 0, -0.25, 5, -12 };
        double a = v[ m.choose( 6 ) ], b = v[ m.choose( 10 ) ]; m.step(); m.state( mc::mix( mc::hash_double( a ), mc::hash_double( b ) ) );
        std::complex<double> x( dsp::onepole::solve( T( a ), T( b ) ).s0 );
        m.check( x == std::complex<double>( -b / a ), "linear", [&]{ return mc::cat( t, " ", a, "x + ", b, ": ", x ); } );
    } );
}
MC_MAIN( auto & c = mc::ctx(); grid<double>( c, "double" ); grid<float>( c, "float" ); linear<double>( c, "double" ); linear<float>( c, "float" ); extremes<double>( c, "double" ); extremes<float>( c, "float" ); )
