// X03: matrices and the replacements of parts of std on the microcontroller, against plain arithmetic on the host.
#include "avrdev.hpp"
#include <cmath>
#include <complex>
#include <limits>
#include <functional>
using namespace avr;
using Vec = std::vector<double>;

// ---- matrices: elements as numbers (fixed point: raw values, 6 fraction bits); all operands are such that every result is exact

struct Type { char const * id; int size; bool real, fixed; std::vector<double> values; };
static std::vector<Type> const types = {
    { "i8", 1, false, false, { 0, 1, -2, 3, 5 } }, { "i16", 2, false, false, { 0, 1, -2, 50, -100 } }, { "i32", 4, false, false, { 0, 1, -2, 1000, -30000 } },
    { "f", 4, true, false, { 0, 1, -2, 0.5, -300 } }, { "x", 2, false, true, { 0, 64, -100, 37, -512 } } };

struct Machine
{
    Type const & t; Image const & im; Mega & c; u32 a, b, r;
    explicit Machine( Type const & t_ ) : t( t_ ), im( image( mc::cat( "matrix-", t_.id ) ) ), c( device( mc::cat( "matrix-", t_.id ) ) ), a( im.at( "a" ) ), b( im.at( "b" ) ), r( im.at( "r" ) ) {}
    u32 bits( double x ) const { if ( t.real ) { float f = float( x ); u32 v; memcpy( &v, &f, 4 ); return v; } return u32( std::int32_t( x ) ); }
    double value( u32 v ) const { if ( t.real ) { float f; memcpy( &f, &v, 4 ); return f; } return t.size == 1 ? double( std::int8_t( v ) ) : t.size == 2 ? double( std::int16_t( v ) ) : double( std::int32_t( v ) ); }
    void put( u32 at, Vec const & v ) { for ( size_t i = 0; i < v.size(); ++i ) c.poke( at + i * t.size, bits( v[i] ), t.size ); }
    u16 run( u32 f ) { u16 sp = c.sp(); c.enter( f ); c.run(); if ( c.sp() != sp ) throw Fault( "stack" ); return c.result16(); }
    // result of an operation; what lies beyond the result must not be touched
    Vec operator()( u32 f, Vec const & A, Vec const & B, int n )
    {
        for ( int i = 0; i < 64; ++i ) c.poke( r + i, 0x5a, 1 );
        put( a, A ); put( b, B ); run( f ); Vec v; for ( int i = 0; i < n; ++i ) v.push_back( value( c.peek( r + i * t.size, t.size ) ) );
        for ( int i = n * t.size; i < 64; ++i ) if ( c.peek( r + i, 1 ) != 0x5a ) throw Fault( "writes beyond the result" );
        return v;
    }
    double mul( double x, double y ) const { return t.fixed ? std::floor( x * y / 64 ) : x * y; }
    double one() const { return t.fixed ? 64 : 1; }
};
static std::string list( Vec const & v ) { std::string t; for ( auto x : v ) t += mc::cat( " ", x ); return t; }
static mc::u64 finger( Vec const & v ) { mc::u64 h = 3; for ( auto x : v ) h = mc::mix( h, mc::hash_double( x ) ); return h; }

using Fn = std::function<Vec( Machine const &, Vec const &, Vec const & )>;
struct Op { std::string name; int na, nb, nr; Fn f; };

// (N x K) times (K x M)
static Fn product( int N, int K, int M ) { return [=]( Machine const & t, Vec const & A, Vec const & B ) { Vec r; for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) { double s = 0; for ( int k = 0; k < K; ++k ) s += t.mul( A[i * K + k], B[k * M + j] ); r.push_back( s ); } return r; }; }
static Fn each( std::function<double( Machine const &, Vec const &, Vec const &, int )> g, int n ) { return [=]( Machine const & t, Vec const & A, Vec const & B ) { Vec r; for ( int i = 0; i < n; ++i ) r.push_back( g( t, A, B, i ) ); return r; }; }
#define EACH( e ) each( []( Machine const & t, Vec const & A, Vec const & B, int i ) -> double { (void) t; (void) A; (void) B; return e; }, n )

static std::vector<Op> operations()
{
    std::vector<Op> v;
    for ( auto s : { std::make_pair( 1, 2 ), std::make_pair( 2, 1 ), std::make_pair( 2, 2 ), std::make_pair( 2, 3 ), std::make_pair( 3, 3 ) } )
    {
        int n = s.first * s.second; std::string d = mc::cat( s.first, s.second );
        auto put = [&]( char const * name, Fn f ) { v.push_back( { name + ( "@" + d ), n, n, n, f } ); };
        put( "add", EACH( A[i] + B[i] ) ); put( "sub", EACH( A[i] - B[i] ) ); put( "addv", EACH( A[i] + B[0] ) ); put( "vadd", EACH( A[i] + B[0] ) ); put( "subv", EACH( A[i] - B[0] ) );
        put( "mulv", EACH( t.mul( A[i], B[0] ) ) ); put( "vmul", EACH( t.mul( A[i], B[0] ) ) ); put( "copy", EACH( A[i] ) ); put( "cells", EACH( A[i] ) ); put( "paths", EACH( A[i] ) ); put( "fill", EACH( A[0] ) );
        put( "list", EACH( i < 2 ? A[i] + B[i] : 0 ) );
    }
    auto two = [&]( char const * name, int na, int nb, int nr, Fn f ) { v.push_back( { name, na, nb, nr, f } ); };
    two( "mm2", 4, 4, 4, product( 2, 2, 2 ) ); two( "mm3", 9, 9, 9, product( 3, 3, 3 ) ); two( "rc", 2, 2, 1, product( 1, 2, 1 ) ); two( "cr", 2, 2, 4, product( 2, 1, 2 ) ); two( "rc3", 3, 3, 1, product( 1, 3, 1 ) ); two( "cr3", 3, 3, 9, product( 3, 1, 3 ) );
    two( "rm", 2, 4, 2, product( 1, 2, 2 ) ); two( "mc", 4, 2, 2, product( 2, 2, 1 ) ); two( "rm3", 3, 9, 3, product( 1, 3, 3 ) ); two( "rm23", 2, 6, 3, product( 1, 2, 3 ) ); two( "rm32", 3, 6, 2, product( 1, 3, 2 ) ); two( "mc3", 9, 3, 3, product( 3, 3, 1 ) );
    int n = 2; two( "trc", 2, 1, 2, EACH( A[i] ) ); two( "trr", 2, 1, 2, EACH( A[i] ) ); n = 4; two( "trm", 4, 1, 4, EACH( A[i / 2 + 2 * (i % 2)] ) ); two( "eye2", 1, 1, 4, EACH( i % 3 ? 0 : t.one() ) );
    n = 9; two( "eye3", 1, 1, 9, EACH( i % 4 ? 0 : t.one() ) ); n = 1; two( "one", 1, 1, 1, EACH( t.mul( A[i], B[i] ) ) ); two( "onev", 1, 1, 1, EACH( A[i] + B[i] ) ); two( "vone", 1, 1, 1, EACH( B[i] - A[i] ) );
    return v;
}

static void matrices()
{
    static auto const ops = operations();
    mc::explore( "matrix operations", 3, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & t = m.pick( types ); auto & op = m.pick( ops ); Machine x( t ); int n = op.na + op.nb; Vec all( static_cast<size_t>( n ) );
        static std::map<std::string, u32> where; std::string key = op.name; auto p = key.find( '@' ); key = p == std::string::npos ? key + "_" + t.id : key.substr( 0, p ) + "_" + t.id + "_" + key.substr( p + 1 );
        // a dense base; every change of up to 2 (3) entries; up to 6 entries: every assignment of 3 (5) values
        int few = m.thorough ? 5 : 3;
        int big = !m.thorough && m.choose( 2 );       // quick: the small values, or one and the large ones
        if ( n <= (m.thorough ? 6 : 8) ) for ( auto & e : all ) { int i = m.choose( few ); e = t.values[size_t( big ? i == 0 ? 1 : i + 2 : i )]; }
        else if ( big ) throw mc::Prune{};
        else
        {
            for ( int i = 0; i < n; ++i ) all[i] = t.fixed ? 16 * (i % 7) - 40 + i : (i * 5) % 7 - 3 + (i % 2);
            for ( int from = 0, k = 0; k < (m.thorough ? 3 : 2); ++k ) { int w = m.choose( n - from + 1 ); if ( w == 0 ) break; all[from + w - 1] = m.pick( t.values ); from += w; }
        }
        Vec A( all.begin(), all.begin() + op.na ), B( all.begin() + op.na, all.end() ); Vec want = op.f( x, A, B );
        double top = t.real ? 16777216 : std::ldexp( 1.0, 8 * t.size - 1 ) - 1; for ( double w : want ) if ( std::fabs( w ) > top ) throw mc::Prune{};
        auto f = where.find( key ); if ( f == where.end() ) f = where.emplace( key, x.im.at( key ) ).first;
        Vec got = x( f->second, A, B, op.nr ); m.step(); m.state( mc::mix( f->second, finger( got ) ) );
        m.check( got == want, op.name.substr( 0, op.name.find( '@' ) ).c_str(), [&]{ return mc::cat( key, " of", list( A ), " and", list( B ), " is", list( got ), " not", list( want ) ); } );
        m.sample( [&]{ return mc::cat( key, " of", list( A ), " and", list( B ), " is", list( got ) ); } );
    } ); } );
    mc::explore( "matrix dimensions", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & t = m.pick( types ); auto s = m.pick( std::vector<std::pair<int, int>>{ { 1, 2 }, { 2, 1 }, { 2, 2 }, { 2, 3 }, { 3, 3 } } ); Machine x( t );
        u16 got = x.run( x.im.at( mc::cat( "dims_", t.id, "_", s.first, s.second ) ) ); m.step(); m.check( got == (s.first | s.second << 4 | s.first * s.second << 8), "dimensions", [&]{ return mc::cat( s.first, "x", s.second, ": ", hex( got ) ); } );
    } ); } );
    mc::explore( "inverse", 3, []( mc::Ctx & m ) { guarded( m, [&]
    {   // symmetric matrices (see M03 for the others)
        static std::vector<double> const vs = { 0, 1, -1, 2, 0.5, -3, 10, -0.125, 1000, 7 };
        Machine x( types[3] ); double a = m.pick( vs ), b = m.pick( vs ), d = m.pick( vs ); double det = a * d - b * b; double s = std::fabs( a * d ) + b * b;
        if ( std::fabs( det ) <= s / 100 ) throw mc::Prune{};
        Vec got = x( x.im.at( "inv_f" ), { a, b, b, d }, {}, 4 ), want = { d / det, -b / det, -b / det, a / det }; m.step(); m.state( finger( got ) );
        double top = 0; for ( double w : want ) top = std::max( top, std::fabs( w ) ); bool ok = true; for ( int i = 0; i < 4; ++i ) ok = ok && std::fabs( got[i] - want[i] ) <= 1e-4 * top;
        m.check( ok, "inverse", [&]{ return mc::cat( "inverse of ", a, " ", b, " ", b, " ", d, " is", list( got ) ); } );
        got = x( x.im.at( "invs_f" ), { a }, {}, 1 ); m.check( std::fabs( got[0] - (a == 0 ? 0 : 1 / a) ) <= 1e-6 * (a == 0 ? 0 : 1 / std::fabs( a )), "inverse", [&]{ return mc::cat( "inverse of ", a, " is ", got[0] ); } );
    } ); } );
}

// ---- std replacements

static Image const & im() { return image( "shims" ); }
static Mega & dev() { return device( "shims" ); }
static Mega & call( std::string const & f, std::initializer_list<int> args = {} )       // arguments of up to 16 bits
{
    Mega & c = dev(); u16 sp = c.sp(); c.enter( im().at( f ) ); int r = 24; for ( int x : args ) { c.pair( r, u16( x ) ); r -= 2; }
    c.run(); if ( c.sp() != sp ) throw Fault( "stack" ); return c;
}
static void real( int reg, float f ) { memcpy( dev().data + reg, &f, 4 ); }
static float real_result( Mega & c ) { u32 v = c.result32(); float f; memcpy( &f, &v, 4 ); return f; }
static Mega & reals( char const * f, float x, float y ) { Mega & c = dev(); u16 sp = c.sp(); c.enter( im().at( f ) ); real( 22, x ); real( 18, y ); c.run(); if ( c.sp() != sp ) throw Fault( "stack" ); return c; }
using Bytes = std::vector<u8>;
static Bytes bytes( char const * s ) { Bytes b; for ( int i = 0; i < 16; ++i ) b.push_back( u8( dev().peek( im().at( s ) + i, 1 ) ) ); return b; }
static void fill( char const * s, int from, int step ) { for ( int i = 0; i < 16; ++i ) dev().poke( im().at( s ) + i, u8( from + step * i ), 1 ); }
static std::string text( Bytes const & b ) { std::string t; for ( auto x : b ) t += " " + hex( x ); return t; }

template< typename T > void limits( mc::Ctx & m, std::string const & n )
{
    using L = std::numeric_limits<T>; auto cut = []( std::uint64_t v ) { T t; memcpy( &t, &v, sizeof t ); return t; };
    auto get = [&]( char const * f ) { Mega & c = call( f + n ); return cut( sizeof(T) <= 2 ? c.result16() : sizeof(T) == 4 ? c.result32() : c.result64() ); };
    m.step( 3 ); m.check( get( "min_" ) == L::min(), "limits", [&]{ return "min of " + n; } ); m.check( get( "max_" ) == L::max(), "limits", [&]{ return "max of " + n; } );
    unsigned facts = call( "facts_" + n ).result16(); unsigned s = L::is_signed; unsigned want = unsigned( L::digits ) | s << 8 | 1u << 9 | 1u << 10 | s << 11 | 1u << 12 | s << 13;
    m.check( facts == want, "limits", [&]{ return mc::cat( "digits, signs of ", n, ": ", hex( facts ), " not ", hex( want ) ); } ); m.state( mc::mix( facts, sizeof(T) ) );
}

static void shims()
{
    mc::explore( "limits and traits", 1, []( mc::Ctx & m ) { m.choose( 1 ); guarded( m, [&]
    {
        limits<std::int8_t>( m, "i8" ); limits<std::uint8_t>( m, "u8" ); limits<std::int16_t>( m, "i16" ); limits<std::uint16_t>( m, "u16" ); limits<std::int32_t>( m, "i32" ); limits<std::uint32_t>( m, "u32" ); limits<std::int64_t>( m, "i64" ); limits<std::uint64_t>( m, "u64" );
        for ( auto n : { "facts_f", "facts_d" } ) { unsigned f = call( n ).result16(); m.check( f == (1u << 8 | 1u << 11), "limits", [&]{ return mc::cat( n, " ", hex( f ) ); } ); }
        m.check( call( "sizes" ).result16() == 0x8421, "sizes", []{ return std::string( "sizes of the integers" ); } );
        unsigned n = call( "trait_count" ).result8(); auto f = call( "traits" ).result64(); m.step( n );
        for ( unsigned i = 0; i < n; ++i ) m.check( f >> i & 1, "traits", [&]{ return mc::cat( "statement ", i, " of traits() in harness/avr/shims.cpp" ); } );
        auto near = [&]( char const * g ) { float p = real_result( call( g ) ); m.check( p == 3.14159265358979f, "pi", [&]{ return mc::cat( g, " ", p ); } ); }; near( "pi_float" ); near( "pi_double" );
    } ); } );
    mc::explore( "copy, fill, equal", 3, []( mc::Ctx & m ) { guarded( m, [&]
    {
        int from = m.choose( 8 ), n = m.choose( 8 ), to = m.choose( 8 ); u8 v = u8( 0xf0 ); Mega & c = dev(); (void) c;
        auto is = [&]( char const * what, Bytes const & got, Bytes const & want ) { m.step(); m.check( got == want, what, [&]{ return mc::cat( what, " from ", from, " n ", n, " to ", to, ":", text( got ), " not", text( want ) ); } ); m.state( mc::mix( mc::mix( from, n ), mc::mix( to, got[0] ) ) ); };
        auto at = [&]( char const * what, int got, int want ) { m.check( got == want, what, [&]{ return mc::cat( what, " from ", from, " n ", n, " to ", to, " returns ", got, " not ", want ); } ); };
        fill( "s", 1, 3 ); fill( "d", 100, 5 ); Bytes s = bytes( "s" ), d = bytes( "d" );
        int e = call( "copy_", { from, n, to } ).result8(); Bytes w = d; for ( int i = 0; i < n; ++i ) w[to + i] = s[from + i]; is( "copy", bytes( "d" ), w ); is( "copy", bytes( "s" ), s ); at( "copy", e, to + n );
        if ( to <= from ) { e = call( "slide_", { from, n, to } ).result8(); w = s; for ( int i = 0; i < n; ++i ) w[to + i] = s[from + i]; is( "slide", bytes( "s" ), w ); at( "slide", e, to + n ); }
        fill( "s", 1, 3 ); fill( "d", 100, 5 ); call( "fill_", { from, n, v } ); w = d; for ( int i = 0; i < n; ++i ) w[from + i] = v; is( "fill", bytes( "d" ), w );
        fill( "d", 100, 5 ); call( "fill_own", { from, n, to } ); w = d; for ( int i = 0; i < n; ++i ) w[from + i] = s[to]; is( "fill", bytes( "d" ), w );
        // equal but for one place (or none)
        for ( int bad = -1; bad < 16; ++bad )
        {
            fill( "s", 1, 3 ); fill( "d", 200, 0 ); for ( int i = 0; i < n; ++i ) dev().poke( im().at( "d" ) + from + i, s[i], 1 );
            if ( bad >= 0 ) { dev().poke( im().at( "d" ) + bad, 0, 1 ); }
            bool in = bad >= from && bad < from + n;
            at( "equal", call( "equal_", { n, from } ).result8(), !in ); at( "equal-by", call( "equal_by", { n, from } ).result8(), !in );
        }
    } ); } );
    mc::explore( "long ranges", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {   // lengths around the end of an 8-bit count, a difference at every place
        static int const lengths[] = { 127, 128, 254, 255, 256, 257, 299 }; int n = lengths[ m.choose( 7 ) ]; int bad = m.choose( 300 ) - 1; Mega & c = dev(); u32 s = im().at( "ls" ), d = im().at( "ld" );
        for ( int i = 0; i < 300; ++i ) { c.poke( s + i, u8( 7 * i + i / 37 ), 1 ); c.poke( d + i, 0xee, 1 ); }
        auto what = [&]{ return mc::cat( n, " elements, place ", bad ); }; bool ok = call( "long_copy", { n } ).result16() == n; m.step( 4 );
        for ( int i = 0; i < 300; ++i ) ok = ok && c.peek( d + i, 1 ) == (i < n ? u8( 7 * i + i / 37 ) : 0xee);
        m.check( ok, "copy", what );
        if ( bad >= 0 ) c.poke( d + bad, c.peek( d + bad, 1 ) ^ 1, 1 );
        bool same = bad < 0 || bad >= n;
        m.check( bool( call( "long_equal", { n } ).result8() ) == same, "equal", what ); m.check( bool( call( "long_equal_by", { n } ).result8() ) == same, "equal-by", what );
        if ( bad < 3 ) { for ( int i = 0; i < 300; ++i ) c.poke( d + i, 0xee, 1 ); call( "long_fill", { n, 0x35 } ); ok = true; for ( int i = 0; i < 300; ++i ) ok = ok && c.peek( d + i, 1 ) == u32( i < n ? 0x35 : 0xee ); m.check( ok, "fill", what ); }
        m.state( mc::mix( n, mc::mix( mc::u64( bad + 1 ), 91 ) ) );
    } ); } );
    mc::explore( "swap, move, lists", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        int i = m.choose( 16 ), k = m.choose( 16 ); fill( "s", 1, 7 ); Bytes w = bytes( "s" ); std::swap( w[i], w[k] ); call( "swap_", { i, k } ); m.step();
        m.check( bytes( "s" ) == w, "swap", [&]{ return mc::cat( "swap ", i, " ", k, text( bytes( "s" ) ) ); } );
        int x = 4000 * i + k, y = 77 * k + 300; u32 r = call( "swap_wide", { x, y } ).result32(); m.check( r == (u32( y ) | u32( x ) << 16), "swap", [&]{ return mc::cat( "swap ", x, " ", y ); } );
        u16 p = call( "swap_moved", { i, k } ).result16(); m.check( p == (k | i << 8), "swap-moved", [&]{ return hex( p ); } );
        static int const sizes[] = { 0, 1, 2, 3, 4, 7 }; int n = sizes[i % 6]; fill( "s", k + 1, 3 ); fill( "d", 200, 0 ); int got = call( "list_", { n } ).result8(); Bytes d = bytes( "d" ), s = bytes( "s" ); m.step();
        bool ok = got == n; for ( int j = 0; j < 16; ++j ) ok = ok && d[j] == (j < n ? s[j] : 200); m.check( ok, "list", [&]{ return mc::cat( "list of ", n, " has ", got, ":", text( d ) ); } );
        m.check( call( "empty_list" ).result8() == 1, "list", []{ return std::string( "empty list" ); } ); m.state( mc::mix( i, k ) );
    } ); } );
    mc::explore( "complex, conversions", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        static std::vector<float> const vs = { 0, 1, -1, 2.5f, -1e6f, 1e-6f, 123, -77 };
        float x = m.pick( vs ), y = m.pick( vs );
        auto is = [&]( char const * f, float re, float im_ ) { reals( f, x, y ); float a = real_result( call( "cx_re" ) ), b = real_result( call( "cx_im" ) ); m.step(); m.check( a == re && b == im_, "complex", [&]{ return mc::cat( f, " of ", x, " ", y, " is ", a, " ", b ); } ); };
        is( "cx_new", x, y ); is( "cx_real", x, 0 ); is( "cx_none", 0, 0 ); is( "cx_copy", x, y ); is( "cx_assign", x, y ); is( "cx_scalar", x, 0 ); is( "cx_parts", x, y );
        if ( std::fabs( x ) < 3e4 && std::fabs( y ) < 3e4 ) { is( "cx_other", std::trunc( x ), std::trunc( y ) ); is( "cx_convert", std::trunc( x ), std::trunc( y ) ); std::int16_t i = std::int16_t( reals( "as_int", x, y ).result16() ); m.check( i == int( x ), "as", [&]{ return mc::cat( x, " as int ", i ); } ); }
        int k = int( x == -1e6f ? 999 : x ); m.check( call( "as_byte", { k } ).result8() == u8( k ), "as", [&]{ return mc::cat( k, " as byte" ); } ); m.check( real_result( call( "as_float", { k } ) ) == float( k ), "as", [&]{ return mc::cat( k, " as float" ); } );
        m.check( call( "ignored", { k } ).result8() == u8( k ), "ignore", [&]{ return mc::cat( k ); } ); m.state( mc::mix( mc::hash_double( x ), mc::hash_double( y ) ) );
    } ); } );
}

MC_MAIN( matrices(); shims(); )
