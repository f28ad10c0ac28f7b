// A00: the instruction simulator itself: arithmetic of every width compiled for the AVR gives what the host compiler gives.
#include "avrdev.hpp"
#include <cmath>
using namespace avr;

struct Run
{
    Mega cpu = device( "selftest" );
    template< typename T > static int width() { return sizeof(T) == 1 ? 2 : int( sizeof(T) ); }
    template< typename T > std::uint64_t raw( T v ) { std::uint64_t u = 0; memcpy( &u, &v, sizeof v ); return u; }
    template< typename R, typename A, typename B > R call( std::string const & n, A a, B b )
    {
        Mega c = cpu; c.enter( image( "selftest" ).at( n ) );
        int at = 26 - width<A>(); put( c, at, raw( a ), sizeof a ); at -= width<B>(); put( c, at, raw( b ), sizeof b );
        c.run();
        R r; std::uint64_t v = sizeof(R) == 8 ? c.result64() : sizeof(R) == 4 ? c.result32() : sizeof(R) == 2 ? c.result16() : c.result8();
        memcpy( &r, &v, sizeof r ); return r;
    }
    static void put( Mega & c, int at, std::uint64_t v, size_t n ) { for ( size_t i = 0; i < n; ++i ) c.data[at + int(i)] = u8( v >> 8 * i ); }
};

template< typename T > std::vector<T> domain()
{
    std::vector<T> v; int bits = sizeof(T) * 8; using U = std::uint64_t;
    for ( int i = 0; i < bits; ++i ) for ( int d = -1; d <= 1; ++d ) { v.push_back( T( (U(1) << i) + U(d) ) ); v.push_back( T( -(U(1) << i) + U(d) ) ); }
    v.push_back( T(0x5a5a5a5a5a5a5a5aull) ); v.push_back( T( 1000003 ) ); return v;
}

template< typename T > void ints( std::string const & n )
{
    static Run r; auto d = domain<T>(); using U = std::make_unsigned_t<T>;
    mc::explore( n, 1, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        T a = m.pick( d ); T b = m.pick( d ); u8 k = u8( unsigned( b ) % ( sizeof(T) * 8 ) ); m.step( 10 );
        auto is = [&]( char const * op, T got, T want ) { m.check( got == want, op, [&]{ return mc::cat( op, " ", n, " ", +a, " ", +b, " -> ", +got ); } ); };
        is( "add", r.call<T>( "add_" + n, a, b ), T( U(a) + U(b) ) ); is( "sub", r.call<T>( "sub_" + n, a, b ), T( U(a) - U(b) ) );
        is( "mul", r.call<T>( "mul_" + n, a, b ), T( std::uint64_t(a) * std::uint64_t(b) ) );
        if ( b != 0 && !( b == T(-1) && a == std::numeric_limits<T>::min() ) ) { is( "div", r.call<T>( "div_" + n, a, b ), T( a / b ) ); is( "mod", r.call<T>( "mod_" + n, a, b ), T( a % b ) ); }
        is( "shl", r.call<T>( "shl_" + n, a, k ), T( std::uint64_t(a) << k ) ); is( "shr", r.call<T>( "shr_" + n, a, k ), T( a >> k ) );
        is( "and", r.call<T>( "and_" + n, a, b ), T( a & ~b ) ); is( "neg", r.call<T>( "neg_" + n, a, b ), T( -U(a) ^ U(b) ) );
        is( "lt", T( r.call<u8>( "lt_" + n, a, b ) ), T( a < b ) ); is( "eq", T( r.call<u8>( "eq_" + n, a, b ) ), T( a == b ) );
    } ); } );
}

MC_MAIN(
    ints<std::int8_t>( "s8" ); ints<std::uint8_t>( "u8" ); ints<std::int16_t>( "s16" ); ints<std::uint16_t>( "u16" );
    ints<std::int32_t>( "s32" ); ints<std::uint32_t>( "u32" ); ints<std::int64_t>( "s64" ); ints<std::uint64_t>( "u64" );
    static Run r;
    mc::explore( "float", 1, []( mc::Ctx & m ) { guarded( m, [&]
    {
        static const float v[] = { 0, 1, -1, 0.1f, 3, -7.25f, 1e10f, -1e-10f, 1.0000001f, 16777215, 65535.5f, 0.333333f, 1e30f, -2e-30f };
        float a = v[ m.choose( 14 ) ]; float b = v[ m.choose( 14 ) ]; m.step( 5 );
        auto is = [&]( char const * op, float got, float want ) { m.check( got == want || ( std::fabs( want ) < 1e-36 && std::fabs( got ) < 1e-36 ), op, [&]{ return mc::cat( op, " ", a, " ", b, " -> ", got, " not ", want ); } ); };
        is( "add", r.call<float>( "add_f", a, b ), a + b ); is( "sub", r.call<float>( "sub_f", a, b ), a - b ); if ( std::isfinite( a * b ) ) is( "mul", r.call<float>( "mul_f", a, b ), a * b );
        if ( b != 0 && std::isfinite( a / b ) ) is( "div", r.call<float>( "div_f", a, b ), a / b ); is( "lt", r.call<u8>( "lt_f", a, b ), a < b );
        if ( std::fabs( a ) < 2e9 ) m.check( r.call<std::int32_t>( "int_f", a, 0 ) == std::int32_t( a ), "int", [&]{ return mc::cat( a ); } );
    } ); } );
)
