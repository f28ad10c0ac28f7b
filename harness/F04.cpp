// F04: sequences of fixed-point operations on shared variables: every variable always holds exactly what the sequence assigned
// it (compound operators act on their left operand only, also when both sides are the same variable).
#include "fixed_common.hpp"
using num::fixed_point;

template< typename T, int F >
void sequences( mc::Ctx & c, int depth )
{
    using FP = fixed_point<T, std::numeric_limits<T>::digits - F, F>;
    mc::explore( mc::cat( "sequences ", tname<T>(), " F=", F ), 2, [&]( mc::Ctx & m )
    {
        const long long one = 1LL << F;
        long long init[3][2] = { { one + one / 2, -one / 4 - 1 }, { 3, -7 }, { std::numeric_limits<T>::max() / 2, one / 2 } };
        int w = m.choose( 3 );
        long long mod[2] = { init[w][0], init[w][1] };
        FP x[2] = { mk<FP>( T( mod[0] ) ), mk<FP>( T( mod[1] ) ) };
        std::string h;
        for ( int d = 0; d < depth; ++d )
        {
            int op = m.choose( 12 ), l = m.choose( 2 ), r = op <= 8 ? m.choose( 2 ) : 0;
            i128 a = mod[l], b = mod[r], v = 0;
            if ( ( op == 3 || op == 7 ) && b == 0 ) throw mc::Prune{};
            switch ( op )
            {
            case 0: case 4: v = a + b; break;
            case 1: case 5: v = a - b; break;
            case 2: case 6: v = ( a * b ) >> F; break;
            case 3: case 7: v = ( a * ( i128( 1 ) << F ) ) / b; break;
            case 8: v = b; break;
            case 9: v = -a; break;
            case 10: v = a + one / 2; break;
            case 11: v = ( a * ( one / 2 ) ) >> F; break;
            }
            if ( v > std::numeric_limits<T>::max() || v < std::numeric_limits<T>::min() ) throw mc::Prune{};
            FP ret = x[0];
            switch ( op )
            {
            case 0: ret = x[l] += x[r]; break;
            case 1: ret = x[l] -= x[r]; break;
            case 2: ret = x[l] *= x[r]; break;
            case 3: ret = x[l] /= x[r]; break;
            case 4: ret = x[l] = x[l] + x[r]; break;
            case 5: ret = x[l] = x[l] - x[r]; break;
            case 6: ret = x[l] = x[l] * x[r]; break;
            case 7: ret = x[l] = x[l] / x[r]; break;
            case 8: ret = x[l] = x[r]; break;
            case 9: ret = x[l] = -x[l]; break;
            case 10: ret = x[l] += mk<FP>( T( one / 2 ) ); break;
            case 11: ret = x[l] *= mk<FP>( T( one / 2 ) ); break;
            }
            mod[l] = (long long)( v );
            m.step(); m.state( mc::mix( mc::u64( mod[0] ), mc::u64( mod[1] ) ) );
            h += mc::cat( " ", op, ":", l, r );
            bool ok = ll( x[0].underlying_value() ) == mod[0] && ll( x[1].underlying_value() ) == mod[1] && ll( ret.underlying_value() ) == mod[l];
            m.check( ok, "sequence", [&]{ return mc::cat( tname<T>(), " F=", F, " start ", init[w][0], ",", init[w][1], " ops", h, ": got ", ll( x[0].underlying_value() ), ",", ll( x[1].underlying_value() ), " expected ", mod[0], ",", mod[1] ); } );
        }
        m.sample( [&]{ return mc::cat( h, " -> ", mod[0], ",", mod[1] ); } );
    } );
}

MC_MAIN(
    auto & c = mc::ctx(); int L = c.thorough ? 5 : 4;
    sequences<std::int8_t,4>( c, L ); sequences<std::int16_t,8>( c, L ); sequences<std::int32_t,15>( c, L ); sequences<std::int32_t,24>( c, c.thorough ? 5 : 3 ); sequences<std::int16_t,14>( c, c.thorough ? 5 : 3 );
)
