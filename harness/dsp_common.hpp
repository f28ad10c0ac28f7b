// dsp_common.hpp - reference semantics for the recursive filters, independent of how the code realizes them
#ifndef VERIF_DSP_COMMON_HPP
#define VERIF_DSP_COMMON_HPP
#include "dsp/filter.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/onepole.hpp"
#include "rational.hpp"
#include "mc.hpp"
#include <array>
#include <cmath>
#include <complex>
#include <vector>

using ld = long double;
using cld = std::complex<ld>;
static const ld PI_L = 3.14159265358979323846264338327950288L;

// H(z) = ( b0 + b1 z^-1 + b2 z^-2 ) / ( 1 + a1 z^-1 + a2 z^-2 )
template< typename N >
struct CoefT { N b0, b1, b2, a1, a2; };
using Coef = CoefT<double>;

inline std::string show( Coef const & c ) { return mc::cat( "b=", c.b0, ",", c.b1, ",", c.b2, " a=", c.a1, ",", c.a2 ); }

// y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2], everything zero before n = 0
template< typename N >
struct Difference
{
    CoefT<N> c; N x1{0}, x2{0}, y1{0}, y2{0};
    N step( N x ) { N y = c.b0 * x + c.b1 * x1 + c.b2 * x2 - c.a1 * y1 - c.a2 * y2; x2 = x1; x1 = x; y2 = y1; y1 = y; return y; }
};

inline cld transfer( Coef const & c, ld f )
{
    cld z1 = std::polar<ld>( 1, -2 * PI_L * f ), z2 = std::polar<ld>( 1, -4 * PI_L * f );
    return ( cld( c.b0 ) + ld( c.b1 ) * z1 + ld( c.b2 ) * z2 ) / ( cld( 1 ) + ld( c.a1 ) * z1 + ld( c.a2 ) * z2 );
}
inline ld denominator( Coef const & c, ld f )
{
    cld z1 = std::polar<ld>( 1, -2 * PI_L * f ), z2 = std::polar<ld>( 1, -4 * PI_L * f );
    return std::abs( cld( 1 ) + ld( c.a1 ) * z1 + ld( c.a2 ) * z2 );
}

// every filter within `dev` coefficient changes of one of a few bases
inline Coef family( mc::Ctx & m, std::vector<Coef> const & bases, int dev, std::vector<double> const & values )
{
    Coef c = m.pick( bases );
    double * p[5] = { &c.b0, &c.b1, &c.b2, &c.a1, &c.a2 };
    int from = 0;
    for ( int n = 0; n < dev && from < 5; ++n )
    {
        int k = m.choose( 5 - from + 1 );
        if ( k == 0 ) break;
        double v = m.pick( values );
        if ( *p[ from + k - 1 ] == v ) throw mc::Prune{};       // already counted without this change
        *p[ from + k - 1 ] = v;
        from += k;
    }
    return c;
}

template< typename T, typename S = T >
dsp::BiQuadT<T,S> biquad( Coef const & c )
{
    using Q = dsp::BiQuadT<T,S>;
    return Q( typename Q::B{ S( c.b0 ), S( c.b1 ), S( c.b2 ) }, typename Q::A{ S( c.a1 ), S( c.a2 ) } );
}

inline bool close( double got, ld want, ld tol ) { return std::isfinite( got ) && std::fabs( ld( got ) - want ) <= tol; }
#endif
