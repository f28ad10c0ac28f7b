// fixed-point formats on the microcontroller (int has 16 bits, double is float)
#include "num/fixed-point.hpp"
#include <stdint.h>
using num::fixed_point;
#define FN extern "C" __attribute__((used, noinline))
#define FMT( n, T, F ) \
    using fp_##n##_##F = fixed_point<T, std20::numeric_limits<T>::digits - F, F>; \
    FN T add_##n##_##F( T a, T b ) { using P = fp_##n##_##F; return (P( P::construct, a ) + P( P::construct, b )).underlying_value(); } \
    FN T sub_##n##_##F( T a, T b ) { using P = fp_##n##_##F; return (P( P::construct, a ) - P( P::construct, b )).underlying_value(); } \
    FN T mul_##n##_##F( T a, T b ) { using P = fp_##n##_##F; return (P( P::construct, a ) * P( P::construct, b )).underlying_value(); } \
    FN T div_##n##_##F( T a, T b ) { using P = fp_##n##_##F; return (P( P::construct, a ) / P( P::construct, b )).underlying_value(); } \
    FN T neg_##n##_##F( T a ) { using P = fp_##n##_##F; return (-P( P::construct, a )).underlying_value(); } \
    FN uint8_t cmp_##n##_##F( T ra, T rb ) { using P = fp_##n##_##F; P const a( P::construct, ra ), b( P::construct, rb ); return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; } \
    FN T mac_##n##_##F( T a, T b, T c ) { using P = fp_##n##_##F; P s( P::construct, a ); P p( P::construct, b ); p *= P( P::construct, c ); s += p; s -= P( P::construct, c ); s += P( P::construct, c ); return s.underlying_value(); } \
    FN float as_float_##n##_##F( T a ) { using P = fp_##n##_##F; return P( P::construct, a ).template as<float>(); } \
    FN float as_double_##n##_##F( T a ) { using P = fp_##n##_##F; return P( P::construct, a ).as_double(); } \
    FN int16_t as_int_##n##_##F( T a ) { using P = fp_##n##_##F; return P( P::construct, a ).template as<int>(); } \
    FN int32_t as_long_##n##_##F( T a ) { using P = fp_##n##_##F; return P( P::construct, a ).template as<long>(); } \
    FN T from_float_##n##_##F( float x ) { using P = fp_##n##_##F; return P( x ).underlying_value(); } \
    FN T from_double_##n##_##F( float x ) { using P = fp_##n##_##F; return P( double( x ) ).underlying_value(); } \
    FN T from_int_##n##_##F( int16_t x ) { using P = fp_##n##_##F; return P( int( x ) ).underlying_value(); } \
    FN T from_long_##n##_##F( int32_t x ) { using P = fp_##n##_##F; return P( long( x ) ).underlying_value(); } \
    FN T from_byte_##n##_##F( int8_t x ) { using P = fp_##n##_##F; return P( x ).underlying_value(); } \
    FN T from_unsigned_##n##_##F( uint16_t x ) { using P = fp_##n##_##F; return P( x ).underlying_value(); } \
    FN T limit_##n##_##F( uint8_t which ) { using P = fp_##n##_##F; return which ? P().max().underlying_value() : P().min().underlying_value(); } \
    FN T rep_##n##_##F( T a ) { using P = fp_##n##_##F; return num::to_rep<P>()( num::from_rep<P>()( a ) ); } \
    FN T zero_##n##_##F() { using P = fp_##n##_##F; return P().underlying_value(); } \
    FN T plus_int_##n##_##F( T a, int16_t k ) { using P = fp_##n##_##F; return (P( P::construct, a ) + P( k )).underlying_value(); }
#include "fixed.inc"
int main() { for (;;) ; }
