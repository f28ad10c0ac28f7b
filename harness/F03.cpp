// F03: comparisons order fixed-point values exactly as the numbers they represent.
#include "fixed_common.hpp"
using num::fixed_point;

template< typename T, int F >
inline void pair_( mc::Ctx & m, T ra, T rb )
{
    using FP = fixed_point<T, std::numeric_limits<T>::digits - F, F>;
    const FP a = mk<FP>( ra ), b = mk<FP>( rb );
    bool ok = ( a == b ) == ( ra == rb ) && ( a != b ) == ( ra != rb ) && ( a < b ) == ( ra < rb ) && ( a <= b ) == ( ra <= rb ) && ( a > b ) == ( ra > rb ) && ( a >= b ) == ( ra >= rb );
    m.check( ok, "order", [&]{ return mc::cat( tname<T>(), " F=", F, ": ", ll( ra ), " versus ", ll( rb ), ": == ", a == b, " != ", a != b, " < ", a < b, " <= ", a <= b, " > ", a > b, " >= ", a >= b ); } );
}

template< typename T >
void type( mc::Ctx & c )
{
    for_all_f<T>( [&]( auto f )
    {
        constexpr int F = decltype( f )::value;
        using FP = fixed_point<T, std::numeric_limits<T>::digits - F, F>;
        auto name = mc::cat( "order ", tname<T>(), " F=", F );
        if constexpr ( sizeof(T) == 1 )
            mc::sweep( name, 256, [&]( mc::Ctx & m, mc::u64 i ) { for ( int b = -128; b < 128; ++b ) { pair_<T,F>( m, T( int( i ) - 128 ), T( b ) ); m.state( i * 256 + mc::u64( b + 128 ) + mc::u64( F << 20 ) ); } m.step( 256 * 6 ); } );
        else
        {
            auto bv = boundary<T>( true );
            mc::sweep( name, bv.size(), [&]( mc::Ctx & m, mc::u64 i ) { for ( auto b : bv ) { pair_<T,F>( m, bv[i], b ); m.state( mc::mix( mc::u64( F ), mc::u64( ll( bv[i] ) * 65537 + ll( b ) ) ) ); } m.step( bv.size() * 6 ); } );
            if ( sizeof(T) == 2 && ( F == 8 || c.thorough ) )
                mc::sweep( name + " boundary x all", bv.size(), [&]( mc::Ctx & m, mc::u64 i ) { for ( int b = -32768; b < 32768; ++b ) { pair_<T,F>( m, bv[i], T( b ) ); pair_<T,F>( m, T( b ), bv[i] ); } m.step( 65536 * 12 ); m.ticks = m.ticks + 1; } );
            // against plain numbers
            mc::sweep( name + " versus numbers", bv.size(), [&]( mc::Ctx & m, mc::u64 i )
            {
                const FP a = mk<FP>( bv[i] ); double v = std::ldexp( double( bv[i] ), -F );
                for ( int n = -3; n <= 3; ++n )
                {
                    if ( std::ldexp( double( n ), F ) > std::numeric_limits<T>::max() || std::ldexp( double( n ), F ) < std::numeric_limits<T>::min() ) continue;
                    m.step( 8 );
                    m.check( ( a < n ) == ( v < n ) && ( a == n ) == ( v == n ) && ( a >= n ) == ( v >= n ) && ( n < a ) == ( n < v ) && ( a != n ) == ( v != n ) && ( a > n ) == ( v > n ) && ( a <= n ) == ( v <= n ) && ( n == a ) == ( v == n ),
                        "order-number", [&]{ return mc::cat( name, ": raw ", ll( bv[i] ), " versus ", n ); } );
                }
            } );
        }
    } );
}

MC_MAIN( auto & c = mc::ctx(); type<std::int8_t>( c ); type<std::int16_t>( c ); type<std::int32_t>( c ); )
