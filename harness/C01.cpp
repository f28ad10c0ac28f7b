// C01: a cascade is a bounded sequence of sections: append, insert, remove, replace and clear act on it as on a list,
// every section keeping its coefficients and its signal history.
#include "dsp_common.hpp"
#include "dsp/biquad-cascade-io.hpp"
#include <sstream>

struct Section { int id = 0; std::vector<double> in; };                  // id fixes the coefficients
static Coef coef( int id ) { return { double( id + 1 ), id * 0.5, -1.0 * ( id % 3 ), 0.5 - 0.25 * ( id % 4 ), 0.25 * ( id % 2 ) }; }
static double next( Section & s, double x ) { s.in.push_back( x ); Difference<double> d{ coef( s.id ) }; double y = 0; for ( double v : s.in ) y = d.step( v ); return y; }

template< typename T, int N >
struct World
{
    using Cas = dsp::BiQuadCascadeT<T,N>;
    mc::Ctx & m; Cas c; std::vector<Section> l; std::string h;

    void verify( char const * when )
    {
        auto d = [&]{ std::string s = mc::cat( when, " capacity ", N, " after", h, ": have size ", c.size(), " sections" ); for ( auto const & q : static_cast<Cas const &>( c ) ) s += mc::cat( " b0=", q.coeff_b().b0 ); s += " expected"; for ( auto & x : l ) s += mc::cat( " b0=", x.id + 1 ); return s; };
        m.check( int( c.size() ) == int( l.size() ) && c.reserved() == N && c.end() - c.begin() == long( l.size() ), "size", d );
        if ( int( c.size() ) != int( l.size() ) ) throw mc::Prune{};
        Cas const & cc = c;
        auto it = cc.begin(); auto mt = c.begin();
        for ( int i = 0; i < int( l.size() ); ++i, ++it, ++mt )
        {
            Coef k = coef( l[ size_t(i) ].id ); auto a = cc.coeff_a( i ); auto b = cc.coeff_b( i );
            auto ok = [&]( auto a, auto b ) { return a.a1 == T( k.a1 ) && a.a2 == T( k.a2 ) && b.b0 == T( k.b0 ) && b.b1 == T( k.b1 ) && b.b2 == T( k.b2 ); };
            m.check( ok( a, b ) && ok( it->coeff_a(), it->coeff_b() ) && ok( mt->coeff_a(), mt->coeff_b() ), "section", d );
            auto s1 = cc.state( i ), s2 = it->state();
            auto cp = *it; auto mod = l[ size_t(i) ];                       // the history each section carries shows in what it would output next
            double x = 1; for ( int j = 0; j < 2; ++j, x = 0 ) m.check( double( cp.step( T( x ) ) ) == next( mod, x ), "section-history", d );
            m.check( s1.v1 == s2.v1 && s1.v2 == s2.v2, "section-state", d );
        }
        m.check( it == cc.end() && mt == c.end(), "iteration", d );
    }
};

template< typename T, int N >
void ops( mc::Ctx & ctx, int depth, bool alike = false )
{
    mc::explore( mc::cat( alike ? "sections that are alike, capacity " : "operation sequences, capacity ", N ), 2, [&]( mc::Ctx & m )
    {
        using Cas = dsp::BiQuadCascadeT<T,N>;
        int start = m.choose( N >= 3 ? 3 : 1 );
        auto Q = [&]( int id ) { return biquad<T>( coef( id ) ); };
        auto make = [&]{ if constexpr ( N >= 3 ) { if ( start == 2 ) return Cas( Q( 0 ), Q( 1 ), Q( 2 ) ); if ( start == 1 ) return Cas( Q( 0 ), Q( 1 ) ); } return Cas(); };
        World<T,N> w{ m, make(), {}, mc::cat( " start", start ) };
        for ( int i = 0; i < start; ++i ) if ( start ) w.l.push_back( { i, {} } );
        if ( start == 1 ) w.l.push_back( { 1, {} } );
        if ( start == 2 ) w.l.push_back( { 2, {} } );
        w.l.resize( start == 0 ? 0 : size_t( start + 1 ) );
        int fresh = 3;
        w.verify( "construction" );
        for ( int d = 0; d < depth; ++d )
        {
            int n = int( w.l.size() );
            // enabled operations only: the bounds the code asserts
            std::vector<int> en; if ( n < N ) en.push_back( 0 ); if ( n && n < N ) en.push_back( 1 ); if ( n ) { en.push_back( 2 ); en.push_back( 3 ); en.push_back( 4 ); en.push_back( 5 ); } if ( n > 1 ) en.push_back( 6 ); en.push_back( 7 );
            int op = en[ size_t( m.choose( int( en.size() ) ) ) ];
            int i = op >= 1 && op <= 3 ? m.choose( n ) : 0;
            w.h += mc::cat( " ", op, ":", i );
            m.step();
            switch ( op )
            {
            case 0: case 1:
                {   // sections of coefficients of their own with a history; or of the same coefficients as others (had), with and without history
                    int id = alike ? 1 + m.choose( 2 ) : fresh++; double x = alike && m.choose( 2 ) ? 0 : 1 + op; auto q = Q( id ); Section s{ id, {} }; if ( x ) { q.step( T( x ) ); next( s, x ); } w.h += mc::cat( "=", id, x ? "" : "fresh" );
                    if ( op ) { w.c.insert( i, q ); w.l.insert( w.l.begin() + i, s ); } else { w.c.append( q ); w.l.push_back( s ); }
                } break;
            case 2: w.c.remove( i ); w.l.erase( w.l.begin() + i ); break;
            case 3: { Section was = w.l[ size_t(i) ]; int kind = m.thorough ? m.choose( 3 ) : 2 * m.choose( 2 );          // a fresh section, one with history, one with the same coefficients and a history
                      int id = kind == 2 ? was.id : fresh++; auto q = Q( id ); Section s{ id, {} }; if ( kind ) { q.step( T( 4 ) ); next( s, 4 ); }
                      auto old = w.c.replace( i, q ); w.l[ size_t(i) ] = s; w.h += mc::cat( "k", kind );
                      Coef k = coef( was.id ); auto b = old.coeff_b(); auto a = old.coeff_a();
                      bool ok = b.b0 == T( k.b0 ) && b.b1 == T( k.b1 ) && b.b2 == T( k.b2 ) && a.a1 == T( k.a1 ) && a.a2 == T( k.a2 ) && double( old.step( T( 1 ) ) ) == next( was, 1 );
                      m.check( ok, "replaced-section", [&]{ return mc::cat( "after", w.h, ": replace returned a section with b0=", b.b0, " expected ", k.b0 ); } ); } break;
            case 4: { int k = 0; for ( auto & q : w.c ) { double x = 1 - 2 * k; double g = double( q.step( T( x ) ) ), y = next( w.l[ size_t( k ) ], x ); ++k; m.check( g == y, "section-output", [&]{ return mc::cat( "after", w.h, ": section ", k - 1, " gives ", g, " expected ", y ); } ); } } break;
            case 5: w.c.clear(); w.l.clear(); break;
            case 6: { Cas cp( w.c ); cp.remove( 0 ); cp.begin()->step( T( 5 ) ); Cas as; as = w.c; as.clear(); w.c = Cas( w.c ); } break;
            case 7: { std::ostringstream os; os << w.c; (void) is_stable( w.c ); (void) response( w.c, T( 0.125 ) ); w.c = *&w.c; } break;
            }
            w.verify( "operation" );
        }
        { mc::u64 s = N; for ( auto & x : w.l ) { s = mc::mix( s, mc::u64( x.id ) ); s = mc::mix( s, mc::u64( x.in.size() ) ); } m.state( s ); }
        m.sample( [&]{ return w.h; } );
    } );
}

// longer cascades, and sections of a cascade as arguments of its own operations
template< typename T, int N >
void longer( mc::Ctx & ctx, int depth )
{
    mc::explore( mc::cat( "longer, capacity ", N ), 3, [&]( mc::Ctx & m )
    {
        using Cas = dsp::BiQuadCascadeT<T,N>;
        static const std::vector<int> small = { 1, 2, 3, 4, 5, 6, 7, 8 }, large = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 299, 300 };
        const int start = m.pick( N <= 16 ? small : large ); if ( start > N ) throw mc::Prune{};
        auto Q = [&]( int id ) { return biquad<T>( coef( id ) ); };
        World<T,N> w{ m, Cas(), {}, mc::cat( " start", start ) };
        int fresh = 0; for ( ; fresh < start; ++fresh ) { auto q = Q( fresh ); Section s{ fresh, {} }; if ( fresh % 3 ) { q.step( T( fresh ) ); next( s, fresh ); } w.c.append( q ); w.l.push_back( s ); }
        w.verify( "filled" );
        for ( int d = 0; d < depth; ++d )
        {
            int n = int( w.l.size() ); if ( !n ) break;
            auto where = [&]{ if ( n <= 9 ) return m.choose( n ); static const int at[] = { 0, 1, 2, 6, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256 }; int k = m.choose( 20 ); int i = k < 16 ? at[k] : n - 1 - ( k - 16 ); if ( i < 0 || i >= n || ( k >= 16 && i <= 8 ) ) throw mc::Prune{}; return i; };
            int op = m.choose( 7 ), i = where(), j = op == 3 || op == 4 || op == 5 ? ( n <= 5 ? m.choose( n ) : m.choose( 2 ) ? n - 1 - i : ( i + n / 2 ) % n ) : 0;
            if ( n == N && ( op == 0 || op == 3 || op == 4 ) ) throw mc::Prune{};
            if ( op == 4 && i ) throw mc::Prune{};              // appending has no position
            w.h += mc::cat( " ", op, ":", i, ",", j ); m.step();
            auto erase = [&]( int k ) { w.l.erase( w.l.begin() + k ); };
            switch ( op )
            {
            case 0: { auto q = Q( fresh ); Section s{ fresh++, {} }; q.step( T( 2 ) ); next( s, 2 ); w.c.insert( i, q ); w.l.insert( w.l.begin() + i, s ); } break;
            case 1: w.c.remove( i ); erase( i ); break;
            case 2: { Section was = w.l[ size_t( i ) ]; auto q = Q( fresh ); Section s{ fresh++, {} }; auto old = w.c.replace( i, q ); w.l[ size_t( i ) ] = s; bool ok = double( old.step( T( 1 ) ) ) == next( was, 1 ); m.check( ok, "replaced-section", [&]{ return mc::cat( "after", w.h, ": replace returned another section" ); } ); } break;
            case 3: { Section s = w.l[ size_t( j ) ]; w.c.insert( i, *( w.c.begin() + j ) ); w.l.insert( w.l.begin() + i, s ); } break;                   // its own section j
            case 4: { Section s = w.l[ size_t( j ) ]; w.c.append( *( w.c.begin() + j ) ); w.l.push_back( s ); } break;
            case 5: { Section s = w.l[ size_t( j ) ], was = w.l[ size_t( i ) ]; auto old = w.c.replace( i, *( w.c.begin() + j ) ); w.l[ size_t( i ) ] = s; bool ok = double( old.step( T( 1 ) ) ) == next( was, 1 ); m.check( ok, "replaced-section", [&]{ return mc::cat( "after", w.h, ": replace returned another section" ); } ); } break;
            case 6: { Cas cp( w.c ), as; as = cp; auto moved = std::move( cp ); while ( i < int( w.c.size() ) ) w.c.remove( w.c.size() - 1 ); World<T,N> v{ m, moved, w.l, w.h }; v.verify( "copy" ); w.l.resize( size_t( i ) ); w.verify( "removed from the end" ); using std::swap; swap( w.c, as ); w.l = v.l; std::vector<Section> rest( w.l.begin(), w.l.begin() + i ); World<T,N> u{ m, as, rest, w.h }; u.verify( "swapped" ); } break;
            }
            w.verify( "operation" );
        }
        { mc::u64 s = N; for ( auto & x : w.l ) { s = mc::mix( s, mc::u64( x.id ) ); s = mc::mix( s, mc::u64( x.in.size() ) ); } m.state( s ); }
        m.sample( [&]{ return w.h; } );
    } );
}

// two cascades and assignments between them
template< typename T, int N >
void assignment( mc::Ctx & ctx, int depth )
{
    mc::explore( mc::cat( "assignment, capacity ", N ), 2, [&]( mc::Ctx & m )
    {
        using W = World<T,N>; using Cas = typename W::Cas; std::string h;
        W w[2] = { { m, Cas(), {}, "" }, { m, Cas(), {}, "" } };
        auto append = [&]( int o, int id, double x ) { auto q = biquad<T>( coef( id ) ); Section s{ id, {} }; if ( x ) { q.step( T( x ) ); next( s, x ); } w[o].c.append( q ); w[o].l.push_back( s ); };
        auto run = [&]( int o, double x ) { for ( auto & q : w[o].c ) q.step( T( x ) ); for ( auto & s : w[o].l ) next( s, x ); };
        for ( int o = 0; o < 2; ++o ) { int n = m.choose( N + 1 ); for ( int i = 0; i < n; ++i ) append( o, 1 + i % 2, i == 1 ? 2 : 0 ); h += mc::cat( " ", n ); }
        for ( int d = 0; d < depth; ++d )
        {
            int op = m.choose( 8 ), o = op < 7 ? m.choose( 2 ) : 0; W & x = w[o]; W & y = w[1 - o]; int n = int( x.l.size() );
            h += mc::cat( " ", op, ":", o ); m.step();
            switch ( op )
            {
            case 0: { if ( n == N ) throw mc::Prune{}; int k = m.choose( 4 ); append( o, 1 + k % 2, k < 2 ? 0 : 3 ); h += mc::cat( "=", k ); } break;
            case 1: run( o, 1 + d ); break;
            case 2: { if ( !n ) throw mc::Prune{}; int i = m.choose( 2 ) ? 0 : n - 1; x.c.remove( i ); x.l.erase( x.l.begin() + i ); h += mc::cat( "=", i ); } break;
            case 3: x.c.clear(); x.l.clear(); break;
            case 4: { Cas & r = x.c = y.c; x.l = y.l; m.check( &r == &x.c, "assignment-result", [&]{ return std::string( "assignment returns another cascade" ); } ); } break;
            case 5: x.c = Cas( y.c ); x.l = y.l; break;
            case 6: { Cas c( x.c ); Cas other; other = std::move( c ); x.c = other; reset( other ); other.clear(); } break;
            case 7: { using std::swap; swap( w[0].c, w[1].c ); w[0].l.swap( w[1].l ); } break;
            }
            for ( auto & z : w ) { z.h = h; z.verify( "operation" ); }
        }
        mc::u64 f = N; for ( auto & z : w ) for ( auto & q : z.l ) { f = mc::mix( f, mc::u64( q.id ) ); f = mc::mix( f, mc::u64( q.in.size() ) ); } m.state( f ); m.sample( [&]{ return h; } );
    } );
}

MC_MAIN( auto & c = mc::ctx();
    longer<double,9>( c, c.thorough ? 3 : 2 ); longer<float,16>( c, c.thorough ? 3 : 2 ); if ( c.thorough ) longer<double,33>( c, 2 ); longer<double,300>( c, 1 ); int x = c.thorough;
    ops<double,1>( c, 6 + x ); ops<double,2>( c, 6 + x ); ops<double,3>( c, 5 + x ); ops<float,4>( c, 5 + x ); ops<double,7>( c, 5 + x );
    ops<double,1>( c, 5 + x, true ); ops<double,2>( c, 4 + x, true ); ops<float,4>( c, 4 + x, true );
    assignment<double,1>( c, 4 + x ); assignment<float,2>( c, 3 + x ); assignment<double,3>( c, 3 + x ); )
