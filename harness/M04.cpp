// M04: a matrix stores exactly what was last written to each cell, through every access path; copies are independent;
// text shows every row.
#include "matrix_common.hpp"
#include "num/matrix-io.hpp"
#include <cmath>
#include <limits>
#include <memory>
#include <sstream>
using num::matrix;

template< typename T, int N, int M >
void ops( mc::Ctx & c, char const * t, int depth )
{
    mc::explore( mc::cat( "access sequences ", t, " ", N, "x", M ), 2, [&]( mc::Ctx & m )
    {
        constexpr int Z = N * M;
        using V = std::vector<T>;
        V model[2] = { V( Z, T(3) ), V( Z ) };
        matrix<T,N,M> a( T(3) ), b( T(0) );
        matrix<T,N,M> * x[2] = { &a, &b };
        for ( int i = 0; i < Z; ++i ) model[1][ size_t(i) ] = T(0);
        auto verify = [&]( char const * op )
        {
            for ( int k = 0; k < 2; ++k )
            {
                auto & q = *x[k]; auto const & cq = *x[k]; bool ok = q.rows() == N && q.columns() == M && q.size() == Z;
                auto it = cq.begin();
                for ( int i = 0; i < Z; ++i )
                {
                    T w = model[k][ size_t(i) ]; int r = i / M, s = i % M;
                    ok = ok && cq( i ) == w && cq[ i ] == w && cq.at( i ) == w && cq( r, s ) == w && cq.at( r, s ) == w && q( i ) == w && q[ i ] == w && q.at( i ) == w && q( r, s ) == w && q.at( r, s ) == w && *it == w;
                    ++it;
                }
                ok = ok && it == cq.end() && q.end() - q.begin() == Z;
                m.check( ok, "cell", [&]{ std::string s = mc::cat( "after ", op, ": matrix ", k, " is ", show( cq ), " expected" ); for ( auto & v : model[k] ) s += mc::cat( " ", v ); return s; } );
            }
        };
        mc::u64 h = 5;
        for ( int d = 0; d < depth; ++d )
        {
            int k = m.choose( 2 );
            int op = m.choose( 12 );
            int cell = op <= 5 ? m.choose( Z ) : 0; int r = cell / M, s = cell % M;
            T v = T( 10 * ( d + 1 ) + cell );
            auto & q = *x[k]; auto & o = *x[1-k]; auto & mq = model[k]; auto & mo = model[1-k];
            switch ( op )
            {
            case 0: q( cell ) = v; mq[ size_t(cell) ] = v; break;
            case 1: q[ cell ] = v; mq[ size_t(cell) ] = v; break;
            case 2: q.at( cell ) = v; mq[ size_t(cell) ] = v; break;
            case 3: q( r, s ) = v; mq[ size_t(cell) ] = v; break;
            case 4: q.at( r, s ) = v; mq[ size_t(cell) ] = v; break;
            case 5: *( q.begin() + cell ) = v; mq[ size_t(cell) ] = v; break;
            case 6: q = o; mq = mo; break;
            case 7: q = q; break;
            case 8: { matrix<T,N,M> cp( o ); cp( 0 ) = T(99); q = std::move( cp ); mq = mo; mq[0] = T(99); } break;
            case 9: q = matrix<T,N,M>( v ); for ( auto & e : mq ) e = v; break;
            case 10:
                if constexpr ( Z == 1 ) { q = matrix<T,N,M>{ T(d) }; mq = { T(d) }; }
                else if constexpr ( Z == 2 ) { q = matrix<T,N,M>{ T(d), T(d+1) }; mq = { T(d), T(d+1) }; }
                else if constexpr ( Z == 3 ) { q = matrix<T,N,M>{ T(d), T(-1), T(d+1) }; mq = { T(d), T(-1), T(d+1) }; }
                else if constexpr ( Z == 4 ) { q = matrix<T,N,M>{ T(d), T(-1), T(d+1), T(7) }; mq = { T(d), T(-1), T(d+1), T(7) }; }
                else if constexpr ( Z == 6 ) { q = matrix<T,N,M>{ T(d), T(-1), T(d+1), T(7), T(8), T(d+2) }; mq = { T(d), T(-1), T(d+1), T(7), T(8), T(d+2) }; }
                else throw mc::Prune{};
                break;
            case 11:        // fewer elements than cells: the others are zero
                if constexpr ( Z >= 3 ) { q = matrix<T,N,M>{ T(d + 4), T(-5) }; for ( auto & e : mq ) e = T(0); mq[0] = T(d + 4); mq[1] = T(-5); }
                else throw mc::Prune{};
                break;
            }
            m.step();
            verify( mc::cat( "op ", op, " step ", d ).c_str() );
            h = mc::mix( h, mc::u64( op ) );
        }
        { mc::u64 hh = 17; for ( int k = 0; k < 2; ++k ) for ( auto & e : model[k] ) hh = mc::mix( hh, mc::hash_double( double( e ) ) ); m.state( hh ); }
        for ( int k = 0; k < 2; ++k )
        {
            std::ostringstream os; os << *x[k];
            std::ostringstream want; for ( int i = 0; i < N; ++i ) { for ( int j = 0; j < M; ++j ) want << " " << model[k][ size_t( i * M + j ) ]; want << "\n"; }
            m.check( os.str() == want.str(), "text", [&]{ return mc::cat( "text <", os.str(), "> expected <", want.str(), ">" ); } );
        }
        m.sample( [&]{ return mc::cat( show( a ), " ", show( b ) ); } );
    } );
}

// larger shapes: every cell written through one access path and read through the others, copies, text
template< typename T, int N, int M > void larger( char const * t )
{
    mc::explore( mc::cat( "larger ", t, " ", N, "x", M ), 1, []( mc::Ctx & m )
    {
        constexpr int Z = N * M; int way = m.choose( 6 ); int back = m.choose( 2 ); auto value = []( int i ) { return T( i * 7 % 113 - 50 + i / 127 % 5 ); };
        auto pa = std::make_unique<matrix<T,N,M>>( T( 77 ) ); auto & a = *pa; auto const & ca = a; bool ok = a.rows() == N && a.columns() == M && a.size() == Z && a.end() - a.begin() == Z; for ( int i = 0; i < Z; ++i ) ok = ok && ca( i ) == T( 77 );
        m.check( ok, "cell", [&]{ return mc::cat( N, "x", M, " filled with one value" ); } ); m.step( Z ); m.state( mc::mix( mc::u64( Z ), mc::u64( way * 2 + back ) ) );
        for ( int q = 0; q < Z; ++q ) { int i = back ? Z - 1 - q : q, r = i / M, s = i % M; T v = value( i ); switch ( way ) { case 0: a( i ) = v; break; case 1: a[ i ] = v; break; case 2: a.at( i ) = v; break; case 3: a( r, s ) = v; break; case 4: a.at( r, s ) = v; break; case 5: *( a.begin() + i ) = v; break; } }
        auto holds = [&]( matrix<T,N,M> const & x, matrix<T,N,M> & y ) { bool ok = true; auto it = x.begin(); for ( int i = 0; i < Z; ++i, ++it ) { T w = value( i ); int r = i / M, s = i % M; ok = ok && x( i ) == w && x[ i ] == w && x.at( i ) == w && x( r, s ) == w && x.at( r, s ) == w && y( i ) == w && y[ i ] == w && y.at( i ) == w && y( r, s ) == w && y.at( r, s ) == w && *it == w; } return ok && it == x.end(); };
        m.check( holds( ca, a ), "cell", [&]{ return mc::cat( N, "x", M, " written through access ", way, back ? " backwards" : "" ); } );
        auto cp = std::make_unique<matrix<T,N,M>>( a ); auto as = std::make_unique<matrix<T,N,M>>( T( 1 ) ); *as = a; a( Z / 2 ) = T( 101 ); a( 0 ) = T( 102 ); a( Z - 1 ) = T( 103 );
        m.check( holds( *cp, *cp ) && holds( *as, *as ), "copy", [&]{ return mc::cat( N, "x", M, " copied" ); } ); auto mv = std::make_unique<matrix<T,N,M>>( std::move( *cp ) ); m.check( holds( *mv, *mv ), "move", [&]{ return mc::cat( N, "x", M, " moved" ); } );
        std::ostringstream os, want; os << *as; for ( int i = 0; i < N; ++i ) { for ( int j = 0; j < M; ++j ) want << " " << value( i * M + j ); want << "\n"; } m.check( os.str() == want.str(), "text", [&]{ return mc::cat( "text of ", N, "x", M ); } );
    } );
}

// element values of every kind: each written through one access path, read through all, copied, printed
template< typename T > bool same( T a, T b ) { return a == b ? a != T(0) || std::signbit( (long double) a ) == std::signbit( (long double) b ) : a != a && b != b; }
template< typename T > std::vector<T> special()
{
    using L = std::numeric_limits<T>; std::vector<T> v = { T(0), T(1), L::max(), L::lowest(), T( L::max() / 3 ), T( L::lowest() / 7 ), T( 100 ), T( L::max() - L::max() / 2 ) };
    if constexpr ( std::is_integral_v<T> ) { v.push_back( T( L::max() - 1 ) ); v.push_back( T( L::max() / 2 + 2 ) ); for ( int b : { 7, 8, 15, 16, 24, 31, 32, 53 } ) if ( b < L::digits ) { v.push_back( T( ( T(1) << b ) + 1 ) ); v.push_back( T( ( T(1) << b ) - 1 ) ); v.push_back( T( 0 - ( T(1) << b ) ) ); } }
    else for ( T x : { T(0.1L), T(-1) / 3, L::min(), L::denorm_min(), -L::denorm_min(), -T(0), L::epsilon(), 1 + L::epsilon(), L::infinity(), -L::infinity(), L::quiet_NaN(), T(16777217), T(9007199254740993LL), T(2147483648.5L), T(-1e-30L), T(1e30L) } ) v.push_back( x );
    return v;
}
template< typename T, int N, int M > void values( char const * t )
{
    mc::explore( mc::cat( "element values ", t, " ", N, "x", M ), 1, []( mc::Ctx & m )
    {
        constexpr int Z = N * M; static const auto sp = special<T>(); int way = m.choose( 10 ); int cell = m.choose( Z ), r = cell / M, s = cell % M; T v = m.pick( sp ), w = m.pick( sp );
        matrix<T,N,M> a( w ); std::vector<T> want( Z, w );
        switch ( way )
        {
        case 0: a( cell ) = v; break;
        case 1: a[ cell ] = v; break;
        case 2: a.at( cell ) = v; break;
        case 3: a( r, s ) = v; break;
        case 4: a.at( r, s ) = v; break;
        case 5: *( a.begin() + cell ) = v; break;
        case 6: for ( auto & e : a ) if ( &e == a.begin() + cell ) e = v; break;
        case 7: { matrix<T,N,M> b( v ); a = b; for ( auto & e : want ) e = v; } break;
        case 8: if ( cell ) throw mc::Prune{}; a = matrix<T,N,M>{ v, w }; for ( auto & e : want ) e = T(0); want[1] = w; break;
        case 9: if ( cell ) throw mc::Prune{}; a = v; for ( auto & e : want ) e = v; break;
        }
        want[ size_t( cell ) ] = v; auto const & ca = a; matrix<T,N,M> b( a ), c; c = a; auto d = std::move( b ); bool ok = true;
        for ( int i = 0; i < Z; ++i )
        {
            int p = i / M, q = i % M; T x = want[ size_t(i) ];
            ok = ok && same( T( ca( i ) ), x ) && same( T( ca[ i ] ), x ) && same( T( ca.at( i ) ), x ) && same( T( ca( p, q ) ), x ) && same( T( ca.at( p, q ) ), x ) && same( T( a( i ) ), x ) && same( T( a( p, q ) ), x ) && same( T( a[ i ] ), x ) && same( T( *( ca.begin() + i ) ), x ) && same( T( c( i ) ), x ) && same( T( d( p, q ) ), x );
        }
        m.step(); m.state( mc::mix( mc::mix( mc::u64( way * 64 + cell ), mc::hash_double( double( v ) ) ), mc::hash_double( double( w ) ) ) );
        m.check( ok, "value", [&]{ return mc::cat( N, "x", M, " of ", w, " with ", v, " written to cell ", cell, " through access ", way, ": ", show( ca ) ); } );
        if constexpr ( sizeof( T ) > 1 ) { std::ostringstream os, tx; os << a; for ( int i = 0; i < N; ++i ) { for ( int j = 0; j < M; ++j ) tx << " " << want[ size_t( i * M + j ) ]; tx << "\n"; } m.check( os.str() == tx.str(), "text", [&]{ return mc::cat( "text <", os.str(), "> expected <", tx.str(), ">" ); } ); }
    } );
}

MC_MAIN(
    values<std::int8_t,1,2>( "int8" ); values<std::int16_t,2,2>( "int16" ); values<int,2,2>( "int" ); values<unsigned,2,1>( "unsigned" ); values<long long,2,2>( "long long" ); values<std::uint8_t,2,1>( "uint8" ); values<unsigned long long,1,2>( "unsigned long long" );
    values<float,2,2>( "float" ); values<double,2,2>( "double" ); values<double,2,3>( "double" ); values<long double,2,2>( "long double" ); values<double,1,2>( "double" );
    larger<int,6,6>( "int" ); larger<double,7,7>( "double" ); larger<int,9,9>( "int" ); larger<int,12,5>( "int" ); larger<double,5,12>( "double" ); larger<int,15,17>( "int" ); larger<int,16,16>( "int" ); larger<float,17,16>( "float" );
    IF_EXACT( larger<int,33,33>( "int" ); larger<int,33,2>( "int" ); larger<int,2,33>( "int" ); larger<float,3,100>( "float" ); larger<double,300,1>( "double" ); larger<int,1,300>( "int" ); larger<int,2,130>( "int" ); larger<int,130,2>( "int" ); larger<int,70000,1>( "int" ); larger<int,1,70000>( "int" ); larger<int,300,300>( "int" ); larger<std::int16_t,200,200>( "int16" ); )
    auto & c = mc::ctx();
    int L = c.thorough ? 4 : 3;
    ops<int,1,1>( c, "int", L ); ops<int,2,2>( c, "int", L ); ops<int,2,3>( c, "int", c.thorough ? 3 : 2 ); ops<int,3,2>( c, "int", c.thorough ? 3 : 2 );
    ops<double,1,3>( c, "double", L ); ops<double,3,1>( c, "double", L ); ops<float,2,1>( c, "float", L ); ops<double,1,2>( c, "double", L );
    ops<int,5,4>( c, "int", 2 ); ops<std::int16_t,4,4>( c, "int16", 2 );
)
