// F02: sum, difference, product, quotient, negation: exact result rounded to the resolution (product down, quotient toward zero),
// whenever that result is representable; compound forms agree; operands are left alone.
#include "fixed_common.hpp"
using num::fixed_point;

template< typename T, int F >
inline void pair_( mc::Ctx & m, T ra, T rb )
{
    using FP = fixed_point<T, std::numeric_limits<T>::digits - F>;
    const FP a = mk<FP>( ra ), b = mk<FP>( rb );
    constexpr long long lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    auto fits = [&]( i128 v ) { return v >= lo && v <= hi; };
    auto bad = [&]( char const * op, FP got, i128 want ) { return mc::cat( tname<T>(), " F=", F, ": ", ll( ra ), op, ll( rb ), " = ", ll( got.underlying_value() ), " expected ", ll( want ) ); };
    i128 s = i128( ra ) + rb, d = i128( ra ) - rb, p = ( i128( ra ) * rb ) >> F;
    if ( fits( s ) ) { FP r = a + b; FP q = a; q += b; m.check( r.underlying_value() == s && q.underlying_value() == s, "sum", [&]{ return bad( " + ", r, s ); } ); m.step( 2 ); }
    if ( fits( d ) ) { FP r = a - b; FP q = a; q -= b; m.check( r.underlying_value() == d && q.underlying_value() == d, "difference", [&]{ return bad( " - ", r, d ); } ); m.step( 2 ); }
    if ( fits( p ) ) { FP r = a * b; FP q = a; q *= b; m.check( r.underlying_value() == p && q.underlying_value() == p, "product", [&]{ return bad( " * ", r, p ); } ); m.step( 2 ); m.state( mc::mix( mc::u64( F ), mc::u64( ll( p ) ) ) ); }
    if ( rb != 0 )
    {
        i128 q0 = ( i128( ra ) * ( i128( 1 ) << F ) ) / rb;
        if ( fits( q0 ) ) { FP r = a / b; FP q = a; q /= b; m.check( r.underlying_value() == q0 && q.underlying_value() == q0, "quotient", [&]{ return bad( " / ", r, q0 ); } ); m.step( 2 ); m.state( mc::mix( mc::u64( F + 100 ), mc::u64( ll( q0 ) ) ) ); }
    }
    if ( fits( -i128( ra ) ) ) m.check( ( -a ).underlying_value() == -i128( ra ), "negation", [&]{ return bad( " negated, ", -a, -i128( ra ) ); } );
    m.check( a.underlying_value() == ra && b.underlying_value() == rb, "operand-modified", [&]{ return bad( " op ", a, ra ); } );
}

template< typename T >
void type( mc::Ctx & c )
{
    for_all_f<T>( [&]( auto f )
    {
        constexpr int F = decltype( f )::value;
        auto name = mc::cat( "arithmetic ", tname<T>(), " F=", F );
        if constexpr ( sizeof(T) == 1 )
            mc::sweep( name + " all pairs", 256, [&]( mc::Ctx & m, mc::u64 i ) { for ( int b = -128; b < 128; ++b ) pair_<T,F>( m, T( int( i ) - 128 ), T( b ) ); } );
        else if constexpr ( sizeof(T) == 2 )
        {
            auto bv = boundary<T>( c.thorough );
            mc::sweep( name + " boundary x all", bv.size(), [&]( mc::Ctx & m, mc::u64 i ) { for ( int b = -32768; b < 32768; ++b ) { pair_<T,F>( m, bv[i], T( b ) ); pair_<T,F>( m, T( b ), bv[i] ); } m.ticks = m.ticks + 1; } );
            if ( c.thorough && ( F == 8 || F == 15 || F == 4 ) )
                mc::sweep( name + " all pairs", 65536, [&]( mc::Ctx & m, mc::u64 i ) { for ( int b = -32768; b < 32768; ++b ) pair_<T,F>( m, T( int( i ) - 32768 ), T( b ) ); m.ticks = m.ticks + 1; } );
        }
        else
        {
            auto bv = boundary<T>( true ); auto small = boundary<T>( c.thorough );
            mc::sweep( name + " boundary pairs", bv.size(), [&]( mc::Ctx & m, mc::u64 i ) { for ( auto b : small ) { pair_<T,F>( m, bv[i], b ); pair_<T,F>( m, b, bv[i] ); } m.ticks = m.ticks + 1; } );
        }
    } );
}

// mixed operands: a fixed point value combined with an integer or a real is the same as converting first
template< typename T, int F >
void mixed( mc::Ctx & c )
{
    using FP = fixed_point<T, std::numeric_limits<T>::digits - F>;
    mc::explore( mc::cat( "mixed operands ", tname<T>(), " F=", F ), 1, [&]( mc::Ctx & m )
    {
        auto bv = boundary<T>( false );
        FP a = mk<FP>( bv[ size_t( m.choose( int( bv.size() ) ) ) ] );
        int k = m.choose( 7 ) - 3; double x = k * 0.75;
        const long double top = std::ldexp( (long double)( std::numeric_limits<T>::max() ), -F );
        long double v = std::ldexp( (long double)( a.underlying_value() ), -F );
        auto in = [&]( long double w ) { return w < top - 1e-9L && w > -top; };
        auto same = [&]( FP u, FP w, char const * op ) { m.step(); m.check( u.underlying_value() == w.underlying_value(), "mixed", [&]{ return mc::cat( tname<T>(), " F=", F, " raw ", ll( a.underlying_value() ), op, k, "/", x, ": ", ll( u.underlying_value() ), " expected ", ll( w.underlying_value() ) ); } ); };
        if ( in( k ) && in( v + k ) ) { same( a + k, a + FP( k ), " + " ); same( k + a, a + FP( k ), " + " ); }
        if ( in( k ) && in( v - k ) ) same( a - k, a - FP( k ), " - " );
        if ( in( k ) && in( v * k ) ) { same( a * k, a * FP( k ), " * " ); same( k * a, FP( k ) * a, " * " ); }
        if ( in( x ) && in( v + x ) ) same( a + x, a + FP( x ), " + " );
        if ( in( x ) && in( v * x ) ) same( x * a, FP( x ) * a, " * " );
        if ( k && in( k ) && in( v / k ) ) same( a / k, a / FP( k ), " / " );
    } );
}

MC_MAIN(
    auto & c = mc::ctx(); type<std::int8_t>( c ); type<std::int32_t>( c ); type<std::int16_t>( c );
    mixed<std::int16_t,8>( c ); mixed<std::int32_t,15>( c ); mixed<std::int8_t,4>( c ); mixed<std::int32_t,24>( c );
)
