// X01: fixed-point numbers on the microcontroller (16-bit int, 32-bit double): every conversion and operation exact, as on the PC.
#include "avrdev.hpp"
#include <cmath>
#include <set>
using namespace avr;
using i128 = __int128;

static Image const & im() { return image( "fixed" ); }
static Mega & dev() { return device( "fixed" ); }

template< typename T > struct Fmt
{
    std::string n; int F; u32 add, sub, mul, div, neg, cmp, mac, as_float, as_double, as_int, as_long, from_float, from_double, from_int, from_long, from_byte, from_unsigned, limit, rep, zero, plus_int;
    Fmt( char const * id, int F_ ) : n( mc::cat( "_", id, "_", F_ ) ), F( F_ )
    {
#define AT(x) x = im().at( #x + n );
        AT(add) AT(sub) AT(mul) AT(div) AT(neg) AT(cmp) AT(mac) AT(as_float) AT(as_double) AT(as_int) AT(as_long) AT(from_float) AT(from_double) AT(from_int) AT(from_long) AT(from_byte) AT(from_unsigned) AT(limit) AT(rep) AT(zero) AT(plus_int)
    }
};

// arguments and results as avr-gcc passes them
struct Call
{
    Mega & c; int at = 26; u16 sp;
    explicit Call( u32 f ) : c( dev() ), sp( dev().sp() ) { c.enter( f ); }
    template< typename A > void put( A a ) { int w = sizeof(A) == 1 ? 2 : int( sizeof(A) ); at -= w; memcpy( c.data + at, &a, sizeof a ); }
    template< typename R > R get() { c.run(); if ( c.sp() != sp ) throw Fault( "stack" ); R r; memcpy( &r, c.data + (sizeof(R) <= 2 ? 24 : 22), sizeof r ); return r; }
};
template< typename R, typename... A > R call( u32 f, A... a ) { Call k( f ); ( k.put( a ), ... ); return k.template get<R>(); }

template< typename T > std::vector<T> values( int spread )
{
    std::set<long long> s; const long long lo = std::numeric_limits<T>::min(); const long long hi = std::numeric_limits<T>::max();
    auto put = [&]( long long v ) { if ( v >= lo && v <= hi ) s.insert( v ); };
    for ( int k = 0; k < int( sizeof(T) ) * 8; ++k ) for ( int d = -spread; d <= spread; ++d ) { put( ( 1LL << k ) + d ); put( -( 1LL << k ) + d ); }
    for ( long long v : { 5LL, 100LL, 12345LL, 46341LL, 1000000007LL, 0x55555555LL } ) { put( v ); put( -v ); }
    return std::vector<T>( s.begin(), s.end() );
}

template< typename T > void pair_( mc::Ctx & m, Fmt<T> const & f, T a, T b )
{
    constexpr long long lo = std::numeric_limits<T>::min(); constexpr long long hi = std::numeric_limits<T>::max();
    auto fits = [&]( i128 v ) { return v >= lo && v <= hi; };
    auto is = [&]( char const * op, u32 fn, i128 want ) { T got = call<T>( fn, a, b ); m.step(); m.state( mc::mix( fn, mc::u64( got ) ) ); m.check( got == want, op, [&]{ return mc::cat( op, f.n, " of raw ", +a, " and ", +b, " is ", +got, " not ", (long long) want ); } ); };
    if ( fits( i128( a ) + b ) ) is( "sum", f.add, i128( a ) + b );
    if ( fits( i128( a ) - b ) ) is( "difference", f.sub, i128( a ) - b );
    i128 p = (i128( a ) * b) >> f.F; if ( fits( p ) ) is( "product", f.mul, p );
    if ( b != 0 ) { i128 q = (i128( a ) * (i128( 1 ) << f.F)) / b; if ( fits( q ) ) is( "quotient", f.div, q ); }
    u8 c = call<u8>( f.cmp, a, b ); u8 want = u8( (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5 ); m.step();
    m.check( c == want, "order", [&]{ return mc::cat( "comparisons", f.n, " of raw ", +a, " and ", +b, " are ", hex( c ), " not ", hex( want ) ); } );
}

template< typename T > void single( mc::Ctx & m, Fmt<T> const & f, T a )
{
    constexpr long long lo = std::numeric_limits<T>::min(); constexpr long long hi = std::numeric_limits<T>::max();
    auto in = [&]( char const * what, auto got, auto want ) { m.step(); m.check( got == want, what, [&]{ return mc::cat( what, f.n, " of raw ", +a, " is ", +got, " not ", +want ); } ); };
    float v = std::ldexp( float( a ), -f.F ); long long whole = (long long)( std::trunc( std::ldexp( (long double) a, -f.F ) ) );
    in( "to-float", call<float>( f.as_float, a ), v ); in( "to-double", call<float>( f.as_double, a ), v );
    if ( whole >= -32768 && whole <= 32767 ) in( "to-int", (long long) call<std::int16_t>( f.as_int, a ), whole );
    in( "to-long", (long long) call<std::int32_t>( f.as_long, a ), whole );
    if ( a != lo ) in( "negation", (long long) call<T>( f.neg, a ), -(long long) a );
    in( "representation", (long long) call<T>( f.rep, a ), (long long) a );
    // reals at and between the representable numbers, and next to ties
    auto from = [&]( float x )
    {
        long double s = std::ldexp( (long double) x, f.F ); long double n = std::round( s );
        if ( n > hi || n < lo ) return;
        in( "from-float", (long long) call<T>( f.from_float, x ), (long long) n ); in( "from-double", (long long) call<T>( f.from_double, x ), (long long) n );
    };
    for ( int q = -4; q <= 4; ++q ) from( float( std::ldexp( (long double) a + q / 8.0L, -f.F ) ) );
    for ( int s = -1; s <= 1; s += 2 ) { float t = float( std::ldexp( (long double) a + 0.5L * s, -f.F ) ); from( std::nextafter( t, -INFINITY ) ); from( std::nextafter( t, INFINITY ) ); }
    m.state( mc::mix( f.as_float, mc::u64( a ) ) );
}

template< typename T > void integers( mc::Ctx & m, Fmt<T> const & f, int k )
{
    constexpr long long hi = std::numeric_limits<T>::max(); constexpr long long lo = std::numeric_limits<T>::min();
    i128 raw = i128( k ) << f.F; if ( raw > hi || raw < lo ) throw mc::Prune{};
    auto is = [&]( char const * how, T got ) { m.step(); m.check( got == raw, "from-integer", [&]{ return mc::cat( how, f.n, " of ", k, " is raw ", +got, " not ", (long long) raw ); } ); };
    is( "from int", call<T>( f.from_int, std::int16_t( k ) ) ); is( "from long", call<T>( f.from_long, std::int32_t( k ) ) );
    if ( k >= -128 && k < 128 ) is( "from byte", call<T>( f.from_byte, std::int8_t( k ) ) );
    if ( k >= 0 ) is( "from unsigned", call<T>( f.from_unsigned, std::uint16_t( k ) ) );
    for ( T a : { T( 0 ), T( 3 ), T( -5 ), T( lo ), T( hi / 2 ) } ) if ( raw + a <= hi && raw + a >= lo ) { T got = call<T>( f.plus_int, a, std::int16_t( k ) ); m.step(); m.check( got == raw + a, "mixed", [&]{ return mc::cat( "raw ", +a, " plus ", k, f.n, " is ", +got ); } ); }
    m.state( mc::mix( f.from_int, mc::u64( k ) ) );
}

template< typename T > void type( char const * id, std::vector<int> const & fs )
{
    for ( int F : fs )
    {
        Fmt<T> const f( id, F ); bool deep = mc::ctx().thorough;
        std::vector<T> all; for ( long long v = std::numeric_limits<T>::min(); sizeof(T) < 4 && v <= std::numeric_limits<T>::max(); ++v ) all.push_back( T( v ) );
        auto bv = values<T>( 2 ); auto const & first = sizeof(T) == 1 ? all : bv; auto const & ones = sizeof(T) == 4 || (sizeof(T) == 2 && !deep && F != 8) ? bv : all;
        mc::explore( mc::cat( "pairs", f.n ), 1, [&]( mc::Ctx & m ) { guarded( m, [&] { T a = m.pick( first ); for ( T b : first ) pair_( m, f, a, b ); m.sample( [&]{ return mc::cat( "raw ", +a, " with ", first.size(), " values" ); } ); } ); } );
        mc::explore( mc::cat( "conversions", f.n ), 1, [&]( mc::Ctx & m ) { guarded( m, [&] { single( m, f, m.pick( ones ) ); } ); } );
        mc::explore( mc::cat( "integers", f.n ), 1, [&]( mc::Ctx & m ) { guarded( m, [&] { integers( m, f, m.choose( 2 ) ? m.choose( 400 ) - 200 : int( values<std::int16_t>( 1 )[m.choose( int( values<std::int16_t>( 1 ).size() ) )] ) ); } ); } );
        mc::explore( mc::cat( "running sums", f.n ), 2, [&]( mc::Ctx & m ) { guarded( m, [&]
        {
            static std::vector<T> const few = { 1, -1, 2, 7, -19, 64, 100, -127, T( 1 << (sizeof(T) * 4) ), T( std::numeric_limits<T>::max() / 3 ) };
            T a = m.pick( few ); T b = m.pick( few ); T c = m.pick( few ); constexpr long long hi = std::numeric_limits<T>::max(); constexpr long long lo = std::numeric_limits<T>::min();
            i128 p = (i128( b ) * c) >> f.F; i128 s = a + p; if ( p > hi || p < lo || s > hi || s < lo || s - c > hi || s - c < lo ) throw mc::Prune{};
            T got = call<T>( f.mac, a, b, c ); m.step(); m.check( got == s, "compound", [&]{ return mc::cat( "raw ", +a, " plus ", +b, " times ", +c, f.n, " is ", +got, " not ", (long long) s ); } );
        } ); } );
        mc::explore( mc::cat( "limits", f.n ), 1, [&]( mc::Ctx & m ) { guarded( m, [&]
        {
            int k = m.choose( 2 ); T got = call<T>( f.limit, u8( k ) ); T want = k ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); m.step();
            m.check( got == want, "limits", [&]{ return mc::cat( k ? "max" : "min", f.n, " is raw ", +got ); } ); m.check( call<T>( f.zero ) == 0, "default", [&]{ return f.n; } );
        } ); } );
    }
}

MC_MAIN( type<std::int32_t>( "s32", { 0, 1, 8, 15, 16, 24, 31 } ); type<std::int8_t>( "s8", { 0, 1, 3, 4, 6, 7 } ); type<std::int16_t>( "s16", { 0, 1, 7, 8, 12, 15 } ); )
