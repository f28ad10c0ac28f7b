// number_types.hpp - filters of other number types than double and float: integers, long double, fixed point, complex.
// Coefficients and inputs are such that every intermediate result is exact in the type.
#ifndef VERIF_NUMBER_TYPES_HPP
#define VERIF_NUMBER_TYPES_HPP
#include "dsp_common.hpp"
#include "num/fixed-point.hpp"
#include <cstdint>

using Fix = num::fixed_point<std::int32_t,16>; using Cplx = std::complex<double>;
template< typename T > struct Numbers { static std::vector<T> coef() { return { T(0), T(1), T(-1), T(2), T(-3) }; } static std::vector<T> in(); };
template<> inline std::vector<int> Numbers<int>::in() { return { 1, -3, 30001 }; }
template<> inline std::vector<long long> Numbers<long long>::in() { return { 1, -3, 1000000000003LL }; }
template<> inline std::vector<long double> Numbers<long double>::in() { return { 1, -3, 281474976710657.0L }; }
template<> inline std::vector<Fix> Numbers<Fix>::in() { return { Fix( 1 ), Fix( -3 ), Fix( 0.25 ) }; }
template<> inline std::vector<Fix> Numbers<Fix>::coef() { return { Fix( 0 ), Fix( 1 ), Fix( -1 ), Fix( 0.5 ), Fix( 2 ) }; }
template<> inline std::vector<Cplx> Numbers<Cplx>::in() { return { 1, { -3, 1 }, { 0, 0.25 } }; }
template<> inline std::vector<Cplx> Numbers<Cplx>::coef() { return { 0, 1, { 0, 1 }, { -1, 0.5 }, { 0.5, -2 } }; }
template< typename T > std::string text( T v ) { if constexpr ( std::is_same_v<T,Fix> ) return mc::cat( v.as_double() ); else return mc::cat( v ); }
template< typename T > mc::u64 number_hash( T v ) { if constexpr ( std::is_same_v<T,Cplx> ) return mc::mix( mc::hash_double( v.real() ), mc::hash_double( v.imag() ) ); else if constexpr ( std::is_same_v<T,Fix> ) return mc::hash_double( v.as_double() ); else return mc::hash_double( double( v ) ); }
template< typename T > constexpr bool can_swap = !std::is_same_v<T,Cplx>;       // std::swap and the library's own are ambiguous there

// a section within one change of a base
template< typename T > CoefT<T> section( mc::Ctx & m )
{
    static const auto v = Numbers<T>::coef(); CoefT<T> c{ v[1], v[2], v[3], v[3], v[2] }; T * p[5] = { &c.b0, &c.b1, &c.b2, &c.a1, &c.a2 };
    if ( int k = m.choose( 6 ) ) { T x = m.pick( v ); if ( *p[k-1] == x ) throw mc::Prune{}; *p[k-1] = x; }
    return c;
}
template< typename T > dsp::BiQuadT<T> biquad_of( CoefT<T> const & c ) { using Q = dsp::BiQuadT<T>; return Q( typename Q::B{ c.b0, c.b1, c.b2 }, typename Q::A{ c.a1, c.a2 } ); }
template< typename T > std::string show_section( CoefT<T> const & c ) { return mc::cat( "b=", text( c.b0 ), ",", text( c.b1 ), ",", text( c.b2 ), " a=", text( c.a1 ), ",", text( c.a2 ) ); }
template< typename Q, typename T > T run_form( Q & q, int form, T x ) { return form == 0 ? q.step( x ) : form == 1 ? q.step_df2( x ) : q.step_df2_transposed( x ); }

// the filter and model of one signal: what was received since reset decides the next output
template< typename Q, typename R, typename T > struct Pair { Q q; R fresh, r; };

template< typename Q, typename R, typename T, typename Step >
void number_ops( mc::Ctx & m, Pair<Q,R,T> a, Pair<Q,R,T> b, int depth, Step step, std::string const & name )
{
    static const auto in = Numbers<T>::in(); std::string h; Pair<Q,R,T> f[2] = { a, b };
    auto go = [&]( Pair<Q,R,T> & p, T x, char const * sig ) { T g = step( p.q, x ), y = p.r.step( x ); m.step(); m.state( number_hash( y ) ); m.check( g == y, sig, [&]{ return mc::cat( name, " after", h, ", input ", text( x ), ": ", text( g ), " expected ", text( y ) ); } ); };
    for ( int d = 0; d < depth; ++d )
    {
        int op = m.choose( 8 ); h += mc::cat( " ", op );
        switch ( op )
        {
        case 0: case 1: case 2: go( f[0], in[ size_t(op) ], "output" ); break;
        case 3: go( f[1], in[0], "output" ); break;
        case 4: f[0].q.reset(); f[0].r = f[0].fresh; break;
        case 5: f[1].q = f[0].q; f[1].r = f[0].r; f[1].fresh = f[0].fresh; break;
        case 6: { auto cp = f[0]; go( cp, in[1], "copy" ); cp.q.reset(); } break;
        case 7: if constexpr ( can_swap<T> ) { f[0].q.swap( f[1].q ); std::swap( f[0].r, f[1].r ); std::swap( f[0].fresh, f[1].fresh ); } else throw mc::Prune{}; break;
        }
    }
    go( f[0], in[0], "output" ); go( f[1], in[2], "output" ); go( f[0], T( 0 ), "output" );
    m.sample( [&]{ return name + h; } );
}
#endif
