// F01: conversions between fixed point and integers / reals: nearest representable value, exact round trips.
#include "fixed_common.hpp"
#include "num/fixed-point-io.hpp"
#include <sstream>
using num::fixed_point;

template< typename T, int F, typename R >
void from_real( mc::Ctx & m, long long num, int quarter, char const * tn )
{   // x = (num + quarter/4) * 2^-F, only where R holds it exactly and the nearest value is in range
    using FP = fixed_point<T, std::numeric_limits<T>::digits - F>;
    long double xl = std::ldexp( (long double)( num ) + quarter / 4.0L, -F );
    R x = R( xl );
    if ( (long double) x != xl ) return;
    long double scaled = (long double)( num ) + quarter / 4.0L;
    long double n = std::round( scaled );                      // halfway cases away from zero
    if ( n > std::numeric_limits<T>::max() || n < std::numeric_limits<T>::min() ) return;
    FP f( x );
    m.step();
    m.check( ll( f.underlying_value() ) == ll( n ), sizeof(R) == 4 ? "from-float" : "from-double", [&]{ return mc::cat( tn, " F=", F, ": ", x, " (", (double) scaled, " lsb) stored as ", ll( f.underlying_value() ), " expected ", (double) n ); } );
}

template< typename T, int F >
void one( mc::Ctx & m, T raw )
{
    using FP = fixed_point<T, std::numeric_limits<T>::digits - F>;
    FP f = mk<FP>( raw );
    auto tn = tname<T>();
    auto in = [&]( char const * w ) { return mc::cat( tn, " F=", F, " raw ", ll( raw ), ": ", w ); };
    double v = std::ldexp( double( raw ), -F );
    m.step( 6 );
    m.state( mc::mix( mc::u64( F * 64 + sizeof(T) ), mc::u64( ll( raw ) ) ) );
    m.check( f.underlying_value() == raw && num::to_rep<FP>()( f ) == raw && num::from_rep<FP>()( raw ).underlying_value() == raw, "representation", [&]{ return in( "representation does not round-trip" ); } );
    m.check( f.as_double() == v && double( f.template as<double>() ) == v, "to-double", [&]{ return in( mc::cat( "as double ", f.as_double(), " expected ", v ).c_str() ); } );
    m.check( float( f.template as<float>() ) == float( v ), "to-float", [&]{ return in( mc::cat( "as float ", f.template as<float>(), " expected ", float( v ) ).c_str() ); } );
    m.check( (long long)( f.template as<int>() ) == (long long)( std::trunc( v ) ), "to-int", [&]{ return in( mc::cat( "as int ", f.template as<int>(), " expected ", std::trunc( v ) ).c_str() ); } );
    {   // every integral type the whole part fits
        long long n = (long long)( std::trunc( v ) );
        m.check( ( n < -128 || n > 127 || f.template as<std::int8_t>() == n ) && ( n < -32768 || n > 32767 || f.template as<short>() == n ) && f.template as<long>() == n && f.template as<long long>() == n
            && ( n < 0 || ( f.template as<unsigned>() == (unsigned long long) n && ( n > 255 || f.template as<std::uint8_t>() == n ) && ( n > 65535 || f.template as<std::uint16_t>() == n ) ) ),
            "to-integral", [&]{ return in( mc::cat( "whole part ", n, " is not obtained in another integral type" ).c_str() ); } );
    }
    m.check( FP( v ).underlying_value() == raw, "round-trip-double", [&]{ return in( mc::cat( "from double ", v, " gives raw ", ll( FP( v ).underlying_value() ) ).c_str() ); } );
    if ( double( float( v ) ) == v ) m.check( FP( float( v ) ).underlying_value() == raw, "round-trip-float", [&]{ return in( mc::cat( "from float ", v, " gives raw ", ll( FP( float( v ) ).underlying_value() ) ).c_str() ); } );
    for ( int q = -3; q <= 3; ++q ) { from_real<T,F,double>( m, ll( raw ), q, tn ); from_real<T,F,float>( m, ll( raw ), q, tn ); }
    // whole numbers, from every integer type wide enough:
    if ( std::trunc( v ) == v )
    {
        long long n = (long long)( v );
        m.check( FP( n ).underlying_value() == raw && ( n < -32768 || n > 32767 || FP( short( n ) ).underlying_value() == raw ) && FP( long( n ) ).underlying_value() == raw
            && ( n < 0 || FP( (unsigned)( n ) ).underlying_value() == raw ) && ( n < -128 || n > 127 || FP( std::int8_t( n ) ).underlying_value() == raw ) && FP( int( n ) ).underlying_value() == raw,
            "from-integer", [&]{ return in( mc::cat( "from integer ", n, " gives raw ", ll( FP( n ).underlying_value() ) ).c_str() ); } );
    }
    FP g{ f }, h; h = f; FP k = +f;
    m.check( g.underlying_value() == raw && h.underlying_value() == raw && k.underlying_value() == raw, "copy", [&]{ return in( "copy differs" ); } );
}

template< typename T >
void type( mc::Ctx & c )
{
    for_all_f<T>( [&]( auto f )
    {
        constexpr int F = decltype( f )::value;
        using FP = fixed_point<T, std::numeric_limits<T>::digits - F>;
        auto name = mc::cat( "convert ", tname<T>(), " F=", F );
        std::vector<T> vals;
        if ( sizeof(T) < 4 ) { for ( long long v = std::numeric_limits<T>::min(); v <= std::numeric_limits<T>::max(); ++v ) vals.push_back( T( v ) ); }
        else vals = boundary<T>( true );
        mc::sweep( name, vals.size(), [&]( mc::Ctx & m, mc::u64 i )
        {
            one<T,F>( m, vals[i] );
            if ( i % 997 == 0 )
            {
                FP x = mk<FP>( vals[i] ); std::ostringstream a, b; a << x; b << std::ldexp( double( vals[i] ), -F );
                m.check( a.str() == b.str(), "text", [&]{ return mc::cat( name, ": text ", a.str(), " expected ", b.str() ); } );
                m.check( ll( x.min().underlying_value() ) == ll( std::numeric_limits<T>::min() ) && ll( x.max().underlying_value() ) == ll( std::numeric_limits<T>::max() ), "limits", [&]{ return mc::cat( name, ": min/max" ); } );
                m.check( FP::fractional_digits == F && FP::integer_digits + F == FP::digits && FP::digits == std::numeric_limits<T>::digits, "digits", [&]{ return name; } );
                m.sample( [&]{ return mc::cat( "raw ", ll( vals[i] ), " = ", a.str() ); } );
            }
        } );
        if ( sizeof(T) == 4 )
        {   // reals just below and above a tie, and odd values at the edge of the float's integer range
            mc::sweep( name + " near ties", vals.size(), [&]( mc::Ctx & m, mc::u64 i )
            {
                for ( int s = -1; s <= 1; s += 2 )
                {
                    auto near = [&]( auto base )
                    {
                        using R = decltype( base );
                        R t = R( std::ldexp( double( vals[i] ) + 0.5 * s, -F ) );
                        for ( R x : { std::nextafter( t, R( -INFINITY ) ), t, std::nextafter( t, R( INFINITY ) ) } )
                        {
                            long double sc = std::ldexp( (long double) x, F ), n = std::round( sc );
                            if ( n > 2147483647.0L || n < -2147483648.0L ) continue;
                            m.step(); FP g( x );
                            m.check( ll( g.underlying_value() ) == ll( n ), sizeof(R) == 4 ? "from-float-near-tie" : "from-double-near-tie", [&]{ return mc::cat( name, ": ", x, " (", (double) sc, " lsb) stored as ", ll( g.underlying_value() ), " expected ", (double) n ); } );
                        }
                    };
                    near( 0.0f ); near( 0.0 );
                }
            } );
            if ( c.thorough && ( F == 15 || F == 8 || F == 31 || F == 0 ) )
                mc::sweep( name + " all 2^32", mc::u64( 1 ) << 16, [&]( mc::Ctx & m, mc::u64 hi )
                {
                    for ( unsigned lo = 0; lo < 65536; ++lo )
                    {
                        T raw = T( std::uint32_t( hi << 16 | lo ) ); FP g = mk<FP>( raw ); double v = std::ldexp( double( raw ), -F );
                        bool ok = g.as_double() == v && FP( v ).underlying_value() == raw && float( g.template as<float>() ) == float( v );
                        if ( double( float( v ) ) == v ) ok = ok && FP( float( v ) ).underlying_value() == raw;
                        m.check( ok, "round-trip-all", [&]{ return mc::cat( name, " raw ", ll( raw ) ); } );
                    }
                    m.step( 65536 * 3 ); m.ticks = m.ticks + 1;
                } );
        }
    } );
}

MC_MAIN( auto & c = mc::ctx(); type<std::int8_t>( c ); type<std::int16_t>( c ); type<std::int32_t>( c ); )
