// S01: the library's own copy, fill, equal and swap touch exactly the elements of their ranges, whatever iterators they get.
#include "std/algorithm.hpp"
#include "std/utility.hpp"
#include "rational.hpp"
#include "mc.hpp"
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>

struct MoveOnly { std::unique_ptr<int> p; explicit MoveOnly( int v ) : p( new int( v ) ) {} };

template< typename It1, typename It2 > bool eq( It1 a, It1 b, It2 c ) { return std20::equal( a, b, c ); }

static const int sizes[] = { 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };

// ranges of every length up to 70000, of one element type, through one kind of iterator
template< typename C > void longer( char const * t )
{
    using T = typename C::value_type;
    mc::explore( mc::cat( "long ranges, ", t ), 1, []( mc::Ctx & m )
    {
        size_t n = size_t( sizes[ m.choose( int( sizeof sizes / sizeof *sizes ) ) ] ); int where = m.choose( 6 ); size_t pos = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? n - 1 : where == 3 ? 7 : where == 4 ? n - 8 : n;
        std::vector<T> w( n + 2 ); for ( size_t i = 0; i < n + 2; ++i ) w[i] = T( ( i * 7 + i / 100 ) % 113 );
        C a( w.begin(), w.begin() + long( n ) ), b( n + 2, T( 114 ) ), f( n + 2, T( 115 ) ); m.step( n ); m.state( mc::mix( n, pos ) );
        auto first = std::next( b.begin() ), e = std20::copy( a.begin(), a.end(), first ); bool ok = std::next( e ) == b.end() && *b.begin() == T( 114 ) && *e == T( 114 ) && std::equal( a.begin(), a.end(), first ) && std::equal( a.begin(), a.end(), w.begin() );
        m.check( ok, "copy-long", [&]{ return mc::cat( "copy of ", n, " elements" ); } );
        if ( pos < n ) { auto it = std::next( first, long( pos ) ); *it = T( *it + 1 ); }
        m.check( std20::equal( a.begin(), a.end(), first ) == ( pos >= n ), "equal-long", [&]{ return mc::cat( n, " elements, difference at ", pos ); } );
        size_t k = 0; bool seq = true; bool p = std20::equal( a.begin(), a.end(), first, [&]( T const & x, T const & y ) { seq = seq && x == w[k]; ++k; return x <= y; } ); m.check( p && seq && k == n, "equal-predicate-long", [&]{ return mc::cat( n, " elements, predicate called ", k ); } );
        m.check( std20::equal( a.begin(), a.end(), first, []( T const & x, T const & y ) { return x >= y; } ) == ( pos >= n ), "equal-predicate-long", [&]{ return mc::cat( n, " elements, difference at ", pos ); } );
        auto g = std::next( f.begin() ); auto l = std::next( g, long( n ) ); std20::fill( g, l, T( 3 ) ); ok = *f.begin() == T( 115 ) && *l == T( 115 ); for ( auto i = g; i != l; ++i ) ok = ok && *i == T( 3 );
        m.check( ok, "fill-long", [&]{ return mc::cat( "fill of ", n, " elements" ); } );
    } );
}
template< typename T > void plain( char const * t )
{
    mc::explore( mc::cat( "long arrays of ", t ), 1, []( mc::Ctx & m )
    {   // pointers, a longer array shifted by every small distance
        size_t n = size_t( sizes[ m.choose( int( sizeof sizes / sizeof *sizes ) ) ] ), d = size_t( m.choose( 9 ) ); std::unique_ptr<T[]> p( new T[ n + 16 ] ); std::vector<T> w( n + 16 ); for ( size_t i = 0; i < n + 16; ++i ) p[i] = w[i] = T( ( i * 7 + i / 100 ) % 113 );
        std::copy( w.begin() + long( d ), w.begin() + long( d + n ), w.begin() ); T * e = std20::copy( p.get() + d, p.get() + d + n, p.get() ); m.step( n ); m.state( mc::mix( n, d ) );
        m.check( e == p.get() + n && std::equal( w.begin(), w.end(), p.get() ) && std20::equal( p.get(), p.get() + n + 16, w.data() ), "copy-shift", [&]{ return mc::cat( n, " elements moved down by ", d ); } );
        std::fill( w.begin() + long( d ), w.begin() + long( d + n ), T( 9 ) ); std20::fill( p.get() + d, p.get() + d + n, T( 9 ) ); m.check( std::equal( w.begin(), w.end(), p.get() ), "fill-array", [&]{ return mc::cat( n, " elements from ", d ); } );
        T const c[3] = { T( 1 ), T( 2 ), T( 3 ) }; T out[5] = {}; std20::copy( c, c + 3, out + 1 ); m.check( out[0] == T() && out[1] == c[0] && out[2] == c[1] && out[3] == c[2] && out[4] == T() && std20::equal( c, c + 3, out + 1 ), "copy-const", [&]{ return std::string( "a constant array" ); } );
    } );
}

MC_MAIN(
    longer<std::vector<int>>( "vector of int" ); longer<std::list<double>>( "list of double" ); longer<std::vector<char>>( "vector of char" ); longer<std::forward_list<float>>( "forward list of float" ); longer<std::vector<long long>>( "vector of long long" );
    plain<signed char>( "signed char" ); plain<short>( "short" ); plain<int>( "int" ); plain<double>( "double" ); plain<long double>( "long double" );
    mc::explore( "copy within and between arrays", 2, []( mc::Ctx & m )
    {   // array of 8 cells, every source range, every destination that fits and does not start inside the source
        const int N = 8; int f = m.choose( N + 1 ); int l = f + m.choose( N + 1 - f ); int n = l - f; int d = m.choose( N - n + 1 );
        if ( d > f && d < l ) throw mc::Prune{};
        int a[N]; std::vector<int> w( N ); for ( int i = 0; i < N; ++i ) a[i] = w[ size_t(i) ] = 10 + i;
        std::vector<int> src( w.begin() + f, w.begin() + l ); std::copy( src.begin(), src.end(), w.begin() + d );
        int * r = std20::copy( a + f, a + l, a + d ); m.step(); m.state( mc::mix( mc::u64( f * 100 + l * 10 + d ), 1 ) );
        m.check( std::vector<int>( a, a + N ) == w && r == a + d + n, "copy", [&]{ return mc::cat( "copy [", f, ",", l, ") to ", d ); } );
        std::list<int> ls( src.begin(), src.end() ); std::vector<int> out; std20::copy( ls.begin(), ls.end(), std::back_inserter( out ) ); m.check( out == src, "copy-list", [&]{ return mc::cat( n, " elements to a back inserter" ); } );
        std::stringstream ss; for ( int v : src ) ss << v << " "; std::vector<int> in( size_t( n ), 0 ); auto e = std20::copy( std::istream_iterator<int>( ss ), std::istream_iterator<int>(), in.begin() ); m.check( in == src && e == in.end(), "copy-input", [&]{ return mc::cat( n, " elements from a stream" ); } );
        std::forward_list<int> fl( size_t( n ), 0 ); std20::copy( src.begin(), src.end(), fl.begin() ); m.check( std::vector<int>( fl.begin(), fl.end() ) == src, "copy-forward", [&]{ return mc::cat( n ); } );
        m.sample( [&]{ return mc::cat( "[", f, ",", l, ") -> ", d ); } );
    } );
    mc::explore( "fill", 2, []( mc::Ctx & m )
    {
        const int N = 8; int f = m.choose( N + 1 ); int l = f + m.choose( N + 1 - f ); int alias = m.choose( 2 );
        int a[N]; std::vector<int> w( N ); for ( int i = 0; i < N; ++i ) a[i] = w[ size_t(i) ] = 10 + i;
        for ( int i = f; i < l; ++i ) w[ size_t(i) ] = alias ? 17 : 99;
        m.step(); m.state( mc::mix( mc::u64( f * 10 + l ), 2 ) );
        if ( alias ) std20::fill( a + f, a + l, a[N-1] ); else std20::fill( a + f, a + l, 99 );
        m.check( std::vector<int>( a, a + N ) == w, "fill", [&]{ return mc::cat( "fill [", f, ",", l, ")" ); } );
        std::list<double> ls( size_t( l - f ), 1.0 ); std20::fill( ls.begin(), ls.end(), 2 ); for ( double v : ls ) m.check( v == 2, "fill-list", [&]{ return mc::cat( v ); } );
    } );
    mc::explore( "equal", 2, []( mc::Ctx & m )
    {   // every pair of sequences up to 5 over 3 values
        int n = m.choose( m.thorough ? 7 : 6 ); std::vector<int> a; std::vector<int> b; for ( int i = 0; i < n; ++i ) { a.push_back( m.choose( 3 ) ); b.push_back( m.choose( 3 ) ); }
        bool want = a == b; auto near = []( int x, int y ) { return x - y <= 1 && y - x <= 1; }; bool wn = true; for ( int i = 0; i < n; ++i ) wn = wn && near( a[ size_t(i) ], b[ size_t(i) ] ); bool le = true; for ( int i = 0; i < n; ++i ) le = le && a[ size_t(i) ] <= b[ size_t(i) ];
        m.step( 4 ); m.state( mc::mix( mc::u64( n ), mc::u64( want ) + 2 * mc::u64( wn ) + 4 * mc::u64( le ) ) );
        std::list<int> lb( b.begin(), b.end() ); b.push_back( 77 );
        m.check( eq( a.begin(), a.end(), b.begin() ) == want && eq( a.begin(), a.end(), lb.begin() ) == want && eq( lb.begin(), lb.end(), a.begin() ) == want, "equal", [&]{ return mc::cat( "sequences of ", n, ", equal expected ", want ); } );
        m.check( std20::equal( a.begin(), a.end(), b.begin(), near ) == wn && std20::equal( a.begin(), a.end(), b.begin(), []( int x, int y ) { return x <= y; } ) == le, "equal-predicate", [&]{ return mc::cat( "sequences of ", n ); } );
    } );
    mc::explore( "swap", 1, []( mc::Ctx & m )
    {
        int i = m.choose( 5 ); int j = m.choose( 5 ); int v[5] = { 1, 2, 3, 4, 5 }; std::vector<int> w( v, v + 5 ); std::swap( w[ size_t(i) ], w[ size_t(j) ] ); std20::swap( v[i], v[j] ); m.step(); m.state( mc::mix( 4, mc::u64( i * 5 + j ) ) );
        m.check( std::vector<int>( v, v + 5 ) == w, "swap", [&]{ return mc::cat( i, " ", j ); } );
        MoveOnly a( i ); MoveOnly b( j ); std20::swap( a, b ); m.check( *a.p == j && *b.p == i, "swap-move-only", [&]{ return mc::cat( i, " ", j ); } );
        std::string s( size_t( i * 20 ), 'x' ); std::string t( size_t( j ), 'y' ); std20::swap( s, t ); m.check( s == std::string( size_t( j ), 'y' ) && t == std::string( size_t( i * 20 ), 'x' ), "swap-string", [&]{ return mc::cat( i, " ", j ); } );
    } );
)
