// R02: indices() visits every position of its container once, in order; the text helpers do exactly what they say.
#include <string>
#include "rational.hpp"
#include "core/core.hpp"
#include "core/core-io.hpp"
#include "mc.hpp"
#include <deque>
#include <map>
#include <set>
#include <sstream>

template< typename C >
void ind( mc::Ctx & m, C const & c, size_t n, char const * t )
{
    size_t want = 0; bool ok = true; for ( auto i : core::indices( c ) ) { ok = ok && size_t( i ) == want; if ( ++want > n + 2 ) break; }
    m.step( want + 1 ); m.check( ok && want == n, "indices", [&]{ return mc::cat( "indices of ", t, " of ", n, " elements visits ", want ); } );
}
template< int N > void arr( mc::Ctx & m )
{
    int a[N] = {}; double const b[N] = {}; char ch[N] = {}; struct S { int x[3]; } s[N];
    ind( m, std::array<int,N>(), N, "std::array" );
    size_t w = 0; bool ok = true; for ( auto i : core::indices( a ) ) { ok = ok && i == w; ++w; } for ( auto i : core::indices( b ) ) { ok = ok && i == w - N; ++w; } for ( auto i : core::indices( ch ) ) { ok = ok && i == w - 2 * N; ++w; } for ( auto i : core::indices( s ) ) { ok = ok && i == w - 3 * N; ++w; }
    m.step( w ); m.check( ok && w == 4 * N, "indices-array", [&]{ return mc::cat( "indices of arrays of ", N, ": ", w ); } );
}

MC_MAIN(
    auto & c = mc::ctx();
    mc::explore( "indices of containers", 1, []( mc::Ctx & m )
    {
        size_t n = size_t( m.choose( m.thorough ? 2000 : 300 ) );
        m.state( mc::mix( 1, n ) );
        ind( m, std::vector<int>( n ), n, "vector" ); ind( m, std::string( n, 'x' ), n, "string" ); ind( m, std::deque<char>( n ), n, "deque" ); ind( m, std::vector<bool>( n ), n, "vector of bool" );
        std::set<int> s; for ( size_t i = 0; i < n; ++i ) s.insert( int( i ) ); ind( m, s, n, "set" );
    } );
    mc::explore( "indices of long containers", 1, []( mc::Ctx & m )
    {
        static const size_t sizes[] = { 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073, 200000, 1000000 };
        size_t n = sizes[ m.choose( int( sizeof sizes / sizeof *sizes ) ) ]; m.state( mc::mix( 2, n ) );
        ind( m, std::vector<char>( n ), n, "vector" ); ind( m, std::string( n, 'x' ), n, "string" ); ind( m, std::deque<short>( n ), n, "deque" ); ind( m, std::vector<bool>( n ), n, "vector of bool" ); std::vector<long double> q( n ); ind( m, q, n, "vector of long double" );
    } );
    mc::explore( "replaced in long texts", 1, []( mc::Ctx & m )
    {   // any bytes, the pattern at one or two places of a text of up to 70000 letters, or nowhere
        static const size_t sizes[] = { 10, 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
        size_t n = sizes[ m.choose( int( sizeof sizes / sizeof *sizes ) ) ]; int at = m.choose( 6 ); int k = m.choose( 5 ); int r = m.choose( 4 );
        static const std::string from[] = { "X", "XYZ", std::string( "\0", 1 ), std::string( "\xff\0Q", 3 ), std::string( 9, 'X' ) }, to[] = { "", "X", std::string( "a\0b", 3 ), std::string( 300, 'y' ) };
        std::string const & f = from[k]; size_t len = f.size(); std::string t( n, 'o' ); for ( size_t i = 0; i < n; i += 3 ) t[i] = char( 'a' + i % 11 );
        size_t pos = at == 0 ? 0 : at == 1 ? n - len : at == 2 || at == 3 ? n / 2 : at == 4 ? 1 : n; if ( pos < n ) t.replace( pos, len, f ); if ( at == 3 ) t.replace( n - len, len, f );
        if ( pos < n ) pos = t.find( f ); std::string want = pos < n ? t.substr( 0, pos ) + to[r] + t.substr( pos + len ) : t; std::string keep = t, got = core::replaced( t, f, to[r] ); m.step(); m.state( std::hash<std::string>()( got ) );
        m.check( got == want && t == keep, "replaced-long", [&]{ return mc::cat( "text of ", n, " letters, pattern ", k, " at ", pos, ", replacement ", r ); } );
    } );
    mc::explore( "long lines", 1, []( mc::Ctx & m )
    {
        static const int sizes[] = { 200, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000 }; int n = sizes[ m.choose( 11 ) ]; int ch = m.choose( 256 ); m.step(); m.state( mc::mix( 10, mc::u64( n * 256 + ch ) ) );
        m.check( core::line( n, char( ch ) ) == std::string( size_t( n ), char( ch ) ) && core::line( n ).size() == size_t( n ), "line-long", [&]{ return mc::cat( "line of ", n, " letters ", ch ); } );
    } );
    mc::explore( "indices of arrays", 1, []( mc::Ctx & m ) { switch ( m.choose( 10 ) ) { case 6: arr<255>( m ); break; case 7: arr<256>( m ); break; case 8: arr<257>( m ); break; case 9: arr<70000>( m ); break; case 0: arr<1>( m ); break; case 1: arr<2>( m ); break; case 2: arr<3>( m ); break; case 3: arr<7>( m ); break; case 4: arr<64>( m ); break; case 5: arr<1000>( m ); break; }
        size_t w = 0; for ( auto i : core::indices( { 5, 6, 7, 8 } ) ) { m.check( i == w, "indices-list", [&]{ return mc::cat( i, " ", w ); } ); ++w; } m.check( w == 4, "indices-list", [&]{ return mc::cat( w ); } ); } );
    mc::explore( "replaced", 2, []( mc::Ctx & m )
    {   // every text up to 6 (7) letters over {a,b}, every non-empty pattern up to 3, five replacements: first occurrence only
        std::string t; std::string f; int n = m.choose( m.thorough ? 10 : 8 ); for ( int i = 0; i < n; ++i ) t += "ab"[ m.choose( 2 ) ];
        int k = m.choose( 3 ) + 1; for ( int i = 0; i < k; ++i ) f += "ab"[ m.choose( 2 ) ];
        static const std::vector<std::string> to = { "", "a", "b", "xyz", "abab" }; std::string r = m.pick( to );
        std::string want = t; for ( int i = 0; i + k <= n; ++i ) if ( t.compare( size_t(i), size_t(k), f ) == 0 ) { want = t.substr( 0, size_t(i) ) + r + t.substr( size_t( i + k ) ); break; }
        std::string keep = t, got = core::replaced( t, f, r ); m.step(); m.state( std::hash<std::string>()( got ) );
        m.check( got == want && t == keep, "replaced", [&]{ return mc::cat( "replaced(", t, ",", f, ",", r, ") = ", got, " expected ", want ); } );
        m.sample( [&]{ return got; } );
    } );
    mc::explore( "line and lists", 1, []( mc::Ctx & m )
    {
        int n = m.choose( 200 ); int k = m.choose( 4 ); char ch = "=x *"[ k ]; m.step(); m.state( mc::mix( 9, mc::u64( n ) ) );
        m.check( core::line( n, ch ) == std::string( size_t( n ), ch ) && core::line( n ) == std::string( size_t( n ), '-' ), "line", [&]{ return mc::cat( "line(", n, ",", ch, ") = ", core::line( n, ch ) ); } );
        std::vector<int> v; std::string want = "["; for ( int i = 0; i < n % 20; ++i ) { v.push_back( i * 7 - 3 * k ); want += mc::cat( " ", v.back() ); } want += "]";
        std::ostringstream os; os << v; m.check( os.str() == want, "vector-text", [&]{ return mc::cat( os.str(), " expected ", want ); } );
        double d = n * 0.25 - 3;
        m.check( int( core::as<int>( d ) ) == int( d ) && double( core::as<double>( n ) ) == n && (unsigned char)( core::as<unsigned char>( n ) ) == (unsigned char)( n ), "cast", [&]{ return mc::cat( "as<>( ", d, " )" ); } );
    } );
)
