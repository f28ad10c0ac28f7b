// magnitudes.hpp - sizes of signals and coefficients far from one
#ifndef VERIF_MAGNITUDES_HPP
#define VERIF_MAGNITUDES_HPP
#include "dsp_common.hpp"
#include <limits>

// exponents of two; everything computed from these sizes stays a normal number
template< typename T > std::vector<int> const & sizes()
{
    static const std::vector<int> wide = { -200, -100, -60, -34, -20, -10, -4, 4, 10, 20, 34, 60, 100, 200 }, narrow = { -100, -60, -34, -20, -10, -4, 4, 10, 20, 34, 60, 100 };
    return std::numeric_limits<T>::max_exponent > 1000 ? wide : narrow;
}
// coefficients of all sizes
template< typename T > std::vector<double> const & coefficients()
{
    static const std::vector<int> wide = { -100, -60, -40, -30, -20, -10, 10, 20, 40, 60 }, narrow = { -60, -40, -20, -10, 10, 20 };
    static const std::vector<double> v = []{ std::vector<double> r; for ( int e : std::numeric_limits<T>::max_exponent > 1000 ? wide : narrow ) { r.push_back( std::ldexp( 3, e ) ); r.push_back( -std::ldexp( 3, e ) ); } return r; }();
    return v;
}

// the recursion, with what the terms could amount to if none cancelled
struct Majorant
{
    Coef c; Difference<ld> d, m;
    explicit Majorant( Coef const & k ) : c( k ), d{ { k.b0, k.b1, k.b2, k.a1, k.a2 } }, m{ { std::fabs( k.b0 ), std::fabs( k.b1 ), std::fabs( k.b2 ), -std::fabs( k.a1 ), -std::fabs( k.a2 ) } } {}
    ld y = 0, most = 0, lost = 0, before = 0;
    void step( ld x )
    {
        y = d.step( x ); most = m.step( std::fabs( x ) );
        // results too small for the format: some units of the smallest number each step, scaled by the coefficients
        const ld unit = 8 * ( 1 + std::fabs( c.b0 ) + std::fabs( c.b1 ) + std::fabs( c.b2 ) );
        const ld next = unit + std::fabs( c.a1 ) * lost + std::fabs( c.a2 ) * before;
        before = lost; lost = next;
    }
    template< typename T > bool near( double g ) const { return std::isfinite( g ) && std::fabs( ld( g ) - y ) <= 60 * ld( std::numeric_limits<T>::epsilon() ) * most + ld( std::numeric_limits<T>::denorm_min() ) * lost; }
};
#endif
