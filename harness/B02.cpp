// B02: a biquad's output depends only on its coefficients and on its own inputs since construction or reset; copies, swaps
// and observations carry exactly that over and nothing else.
#include "dsp_common.hpp"
#include "magnitudes.hpp"
#include "number_types.hpp"
#include "preempt.hpp"
#include "dsp/biquad-io.hpp"
#include <memory>
#include <sstream>

struct Model { Coef c; std::vector<double> in; };
static double next( Model & m, double x ) { m.in.push_back( x ); Difference<double> d{ m.c }; double y = 0; for ( double v : m.in ) y = d.step( v ); return y; }

template< typename T >
void ops( mc::Ctx & c, char const * t, int depth )
{
    mc::explore( mc::cat( "operation sequences ", t ), 2, [&]( mc::Ctx & m )
    {
        static const Coef F = { 0.5, -1, 1.5, -0.5, 0.5 }, G = { 1, 2, 1, 1, -1 };
        int form = m.choose( 3 );
        auto step = [&]( dsp::BiQuadT<T> & q, double x ) { m.step(); return double( form == 0 ? q.step( T( x ) ) : form == 1 ? q.step_df2( T( x ) ) : q.step_df2_transposed( T( x ) ) ); };
        dsp::BiQuadT<T> q[2] = { biquad<T>( F ), biquad<T>( G ) };
        Model md[2] = { { F, {} }, { G, {} } };
        std::string h;
        auto judge = [&]( double g, double y, char const * sig ) { m.check( g == y, sig, [&]{ return mc::cat( t, " form ", form, " after", h, ": ", g, " expected ", y ); } ); };
        for ( int d = 0; d < depth; ++d )
        {
            int op = m.choose( 11 ), k = op <= 6 ? m.choose( 2 ) : 0;
            h += mc::cat( " ", op, ":", k );
            switch ( op )
            {
            case 0: judge( step( q[k], 1 ), next( md[k], 1 ), "output" ); break;
            case 1: judge( step( q[k], -3 ), next( md[k], -3 ), "output" ); break;
            case 2: q[k].reset(); md[k].in.clear(); break;
            case 3: q[k] = q[1-k]; md[k] = md[1-k]; break;
            case 4: q[k].swap( q[1-k] ); std::swap( md[0], md[1] ); break;
            case 5: { auto const & cq = q[k]; auto a = cq.coeff_a(); auto b = cq.coeff_b(); (void) cq.state(); (void) cq.poles(); if ( b.b0 != T(0) ) (void) cq.zeros(); (void) cq.is_stable(); (void) response( cq, T(0.125) );
                      std::ostringstream os; os << cq;
                      m.check( double( b.b0 ) == md[k].c.b0 && double( b.b1 ) == md[k].c.b1 && double( b.b2 ) == md[k].c.b2 && double( a.a1 ) == md[k].c.a1 && double( a.a2 ) == md[k].c.a2, "coefficients",
                          [&]{ return mc::cat( t, " after", h, ": coefficients of filter ", k, " differ from ", show( md[k].c ) ); } ); } break;
            case 6: { auto cp = q[k]; Model mm = md[k]; judge( step( cp, 2 ), next( mm, 2 ), "copy" ); judge( step( cp, 0 ), next( mm, 0 ), "copy" ); cp.reset(); } break;
            case 7: q[0].swap( q[0] ); break;
            case 8: q[1] = *&q[1]; break;
            case 9: { using std::swap; swap( q[0], q[1] ); std::swap( md[0], md[1] ); } break;
            case 10: q[0] = biquad<T>( { 2, 0, 1, 0, -0.5 } ); md[0] = { { 2, 0, 1, 0, -0.5 }, {} }; break;
            }
        }
        { mc::u64 s = mc::u64( form ); for ( auto & x : md ) { s = mc::mix( s, mc::hash_double( x.c.b0 ) ); for ( double v : x.in ) s = mc::mix( s, mc::hash_double( v ) ); } m.state( s ); }
        // what each filter holds shows in its next outputs (impulse then silence)
        for ( int k = 0; k < 2; ++k ) for ( int i = 0; i < 3; ++i ) { double x = i == 0; judge( step( q[k], x ), next( md[k], x ), "final-output" ); }
        m.sample( [&]{ return h; } );
    } );
}

// filters of all coefficient sizes, after histories of all lengths and sizes: what a filter gives next is exactly what a new
// filter of these coefficients gives that received the same inputs
template< typename T >
void histories( mc::Ctx & c, char const * t )
{
    static const std::vector<Coef> sets = {
        { 0.5, -1, 1.5, -0.5, 0.5 }, { 1, 2, 1, 1, -1 }, { 0, 0, 0, 0, 0 }, { 1, 0, 0, 0, 0 }, { 0, 0, 3, 0, 0 }, { 0, 1, 0, -1.9, 0.95 }, { 1, -2, 1, -1.9375, 0.9375 },
        { 1e-9, 2e-9, 1e-9, -1.99994, 0.99994 }, { 1e-30, 0, 0, 0, 0 }, { 0, 1e-30, 0, 0.5, 0 }, { 1e6, -1e6, 0, 0, 0.25 }, { 1, 1, 1, 1e-20, 0 }, { 1, 1, 1, 0, 1e-20 }, { 1, 0, 0, -1, 0 }, { 1, 0, 0, 0, 1 }, { 1, -1, 0, -1, 0 },
        { 1, 0, 1, -2.5, 1.5 }, { -3, 0.125, 0, 0.75, -0.25 }, { 1e9, 0, -1e9, 0, 0 }, { 1, 0, 0, -0.999999, 0 } };
    mc::explore( mc::cat( "histories ", t ), 2, [&]( mc::Ctx & m )
    {
        Coef k = m.pick( sets ); int form = m.choose( 3 ), e = m.pick( std::vector<int>{ 0, -100, -60, -20, 20, 60, 100 } );
        static const int lens[] = { 0, 1, 2, 3, 7, 40, 255, 256, 300, 1100, 5000, 70000 }; int len = lens[ m.choose( 12 ) ], after = m.choose( 9 ), pattern = m.choose( 4 ); if ( len > ( m.thorough ? 5000 : 300 ) && ( e || ( k.b0 != 0.5 && k.a1 != -1.9 ) || pattern % 2 == 0 ) ) throw mc::Prune{};      // the longest with a few filters only
        auto step = [&]( dsp::BiQuadT<T> & q, int f, T x ) { m.step(); return f == 0 ? q.step( x ) : f == 1 ? q.step_df2( x ) : q.step_df2_transposed( x ); };
        static const double in[7] = { 1, -3, 0, 0.5, 0, 0, 2 };
        auto x = [&]( int n ) { double v = pattern == 0 ? 1 : pattern == 1 ? in[n % 7] : pattern == 2 ? double( n == 0 ) : n < len / 2 ? 1.0 : 0.0; return T( std::ldexp( v, e ) ); };
        auto same = []( T a, T b ) { return a == b || ( a != a && b != b ); };
        auto q = biquad<T>( k ), o = biquad<T>( { -2, 0.5, 0.25, 0.125, 0.0625 } );
        for ( int i = 0; i < 5; ++i ) step( o, form, T( i + 1 ) );
        auto bad = [&]( char const * what, T g, T w ) { return mc::cat( t, " ", show( k ), " form ", form, ": ", what, " after ", len, " inputs of size 2^", e, " (pattern ", pattern, "): ", g, " expected ", w ); };
        std::vector<T> out; for ( int n = 0; n < len; ++n ) out.push_back( step( q, form, x( n ) ) );
        auto expect = [&]( dsp::BiQuadT<T> & a, bool fresh, char const * what )
        {   // a: continues from the inputs so far, or (fresh) from none
            auto w = biquad<T>( k ); if ( !fresh ) for ( int n = 0; n < len; ++n ) step( w, form, x( n ) );
            for ( int n = 0; n < 9; ++n ) { T v = T( n == 0 ? 1 : n == 3 ? -2 : 0 ); if ( n & 1 ) v = std::ldexp( v, e ); T g = step( a, form, v ), y = step( w, form, v ); m.check( same( g, y ), what, [&]{ return bad( what, g, y ); } ); if ( g != g ) break; }
        };
        using std::swap;
        switch ( after )
        {
        case 0: { auto w = biquad<T>( k ); for ( int n = 0; n < len; ++n ) { T y = step( w, form, x( n ) ); m.check( same( y, out[n] ), "again", [&]{ return bad( "a second filter", y, out[n] ); } ); std::ostringstream os; os << w; (void) w.is_stable(); (void) w.state(); w = *&w; if ( n > 60 && n % 50 ) continue; auto cp = w; step( cp, form, 5 ); cp.reset(); } expect( q, false, "unobserved" ); expect( w, false, "observed" ); } break;
        case 1: q.reset(); expect( q, true, "reset" ); break;
        case 2: { auto cp = q; q.reset(); step( q, form, T( 7 ) ); expect( cp, false, "copy" ); } break;
        case 3: o = q; step( q, form, T( 7 ) ); expect( o, false, "assigned" ); break;
        case 4: q.swap( o ); step( q, form, T( 7 ) ); expect( o, false, "swapped" ); break;
        case 5: swap( o, q ); step( q, form, T( 7 ) ); expect( o, false, "swapped" ); break;
        case 6: { std::vector<dsp::BiQuadT<T>> v; v.push_back( std::move( q ) ); for ( int i = 0; i < 5; ++i ) v.insert( v.begin(), o ); expect( v.back(), false, "moved" ); } break;
        case 7: { auto cp = biquad<T>( k ); cp = q; cp.reset(); expect( cp, true, "copy reset" ); expect( q, false, "original of a reset copy" ); } break;
        case 8: { for ( int r = 0; r < 3; ++r ) { q.reset(); for ( int n = 0; n < 4; ++n ) step( q, ( form + r + 1 ) % 3, x( n ) ); } q.reset(); expect( q, true, "reset, another realization" ); } break;      // reset ends the use of one realization
        }
        m.state( mc::mix( mc::mix( mc::hash_double( k.b0 + 3 * k.b1 + 7 * k.a1 + 11 * k.a2 + 13 * k.b2 ), mc::u64( after * 31 + form ) ), mc::u64( ( len * 1000 + e + 200 ) * 4 + pattern ) ) );
        m.sample( [&]{ return mc::cat( show( k ), " len ", len, " then ", after ); } );
    } );
    mc::explore( mc::cat( "many filters ", t ), 1, [&]( mc::Ctx & m )
    {   // n filters at once, each as if alone
        static const int ns[] = { 2, 3, 9, 17, 33, 70, 300 }; int n = ns[ m.choose( 7 ) ], form = m.choose( 3 ), same = m.choose( 2 ), order = m.choose( 2 );
        auto step = [&]( dsp::BiQuadT<T> & q, T x ) { m.step(); return form == 0 ? q.step( x ) : form == 1 ? q.step_df2( x ) : q.step_df2_transposed( x ); };
        auto of = [&]( int i ) { Coef k = sets[ same ? 0 : i % sets.size() ]; return biquad<T>( k ); };
        auto in = [&]( int i, int j ) { return T( ( i * 7 + j * 3 ) % 11 - 5 ); };
        std::vector<dsp::BiQuadT<T>> q; for ( int i = 0; i < n; ++i ) q.push_back( of( i ) );
        std::vector<std::vector<T>> out( n ); const int len = 6;
        if ( order ) for ( int j = 0; j < len; ++j ) for ( int i = 0; i < n; ++i ) out[i].push_back( step( q[i], in( i, j ) ) );
        else for ( int i = n - 1; i >= 0; --i ) for ( int j = 0; j < len; ++j ) out[i].push_back( step( q[i], in( i, j ) ) );
        for ( int i = 0; i < n; ++i )
        {
            auto w = of( i ); for ( int j = 0; j < len; ++j ) { T y = step( w, in( i, j ) ); m.check( y == out[i][j], "many", [&]{ return mc::cat( t, " filter ", i, " of ", n, ", output ", j, ": ", out[i][j], " alone ", y ); } ); }
        }
        m.state( mc::u64( ( n * 3 + form ) * 4 + same * 2 + order ) );
    } );
}

#ifndef PLAIN_TYPES
template< typename T > void numbers( char const * t )
{
    mc::explore( mc::cat( "operation sequences ", t ), 2, [&]( mc::Ctx & m )
    {
        int form = m.choose( 3 ); auto c = section<T>( m ); static const auto v = Numbers<T>::coef(); CoefT<T> g{ v[3], v[0], v[1], v[2], v[0] }; Difference<T> rc{ c }, rg{ g };
        number_ops( m, Pair<dsp::BiQuadT<T>,Difference<T>,T>{ biquad_of( c ), rc, rc }, Pair<dsp::BiQuadT<T>,Difference<T>,T>{ biquad_of( g ), rg, rg }, m.thorough ? 4 : 3, [&]( dsp::BiQuadT<T> & q, T x ) { return run_form( q, form, x ); }, mc::cat( t, " form ", form, " ", show_section( c ) ) );
    } );
}
// a section interrupted at any of its operations by another one
inline void preemption()
{
    std::vector<Task> tasks; using T = Preempt; using Q = dsp::BiQuadT<T>; static const char * const names[] = { "step", "step_df2", "step_df2_transposed", "another's step", "another's step_df2", "another's step_df2_transposed", "swap", "copy and reset", "construction", "assignment" };
    for ( int i = 0; i < 10; ++i ) tasks.push_back( { names[i], [=]() -> std::function<Values()>
    {
        auto of = [=]( int j ) { return j ? Q( typename Q::B{ T( 1 ), T( 2 ), T( -1 ) }, typename Q::A{ T( 0.5 ), T( -0.25 ) } ) : Q( typename Q::B{ T( 3 ), T( 0.5 ), T( 7 ) }, typename Q::A{ T( -0.75 ), T( 0.125 ) } ); };
        auto report = []( Q const & q ) { auto a = q.coeff_a(); auto b = q.coeff_b(); auto s = q.state(); return Values{ a.a1.v, a.a2.v, b.b0.v, b.b1.v, b.b2.v, s.v1.v, s.v2.v }; };
        if ( i == 8 ) return [=]{ return report( of( 0 ) ); };
        int form = i < 6 ? i % 3 : 0; auto p = std::make_shared<std::pair<Q,Q>>( of( i >= 3 ), of( i < 3 ) ); for ( int n = 0; n < 3; ++n ) { run_form( p->first, form, T( n + 1 + i ) ); run_form( p->second, form, T( n - 2 ) ); }
        if ( i == 6 ) return [=]{ p->first.swap( p->second ); auto v = report( p->first ), w = report( p->second ); v.insert( v.end(), w.begin(), w.end() ); return v; };
        if ( i == 7 ) return [=]{ auto c = p->first; p->first.reset(); auto v = report( p->first ), w = report( c ); v.insert( v.end(), w.begin(), w.end() ); return v; };
        if ( i == 9 ) return [=]{ p->first = p->second; return report( p->first ); };
        return [=]{ T y = run_form( p->first, form, T( 5 ) ); auto v = report( p->first ); v.push_back( y.v ); return v; };
    } } );
    preempted( "sections", tasks );
}
#endif
MC_MAIN(
#ifndef PLAIN_TYPES
    preemption();
    numbers<int>( "int" ); numbers<long long>( "long long" ); numbers<long double>( "long double" ); numbers<Fix>( "fixed point" ); numbers<Cplx>( "complex" );
#endif
    auto & c = mc::ctx(); ops<double>( c, "double", c.thorough ? 6 : 5 ); ops<float>( c, "float", c.thorough ? 5 : 4 ); histories<double>( c, "double" ); histories<float>( c, "float" ); )
