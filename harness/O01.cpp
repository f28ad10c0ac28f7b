// O01: the one-pole filter computes y[n] = b0 x[n] - a1 y[n-1] from its own inputs only; its reported response is what it does.
#include "dsp_common.hpp"
#include "magnitudes.hpp"
#include "number_types.hpp"
#include "preempt.hpp"
#include <memory>
#include "dsp/onepole-io.hpp"
#include <sstream>
using dsp::OnePoleT;

struct Rec { double b0, a1, y = 0; double step( double x ) { return y = b0 * x - a1 * y; } };
template< typename T, typename S = T > OnePoleT<T,S> onepole( double b0, double a1 ) { using Q = OnePoleT<T,S>; return Q( typename Q::B{ S( b0 ) }, typename Q::A{ S( a1 ) } ); }
static const std::vector<double> bv = { 1, 0, -0.5, 2, 0.25 }, av = { 0, 0.5, -0.75, 1, -1, 1.5, -2 };

template< typename T, typename S >
void ops( mc::Ctx & c, char const * t, int depth )
{
    mc::explore( mc::cat( "operation sequences ", t ), 2, [&]( mc::Ctx & m )
    {
        double b0 = m.pick( bv ), a1 = m.pick( av );
        OnePoleT<T,S> q[2] = { onepole<T,S>( b0, a1 ), onepole<T,S>( 0.5, -0.5 ) };
        Rec r[2] = { { b0, a1 }, { 0.5, -0.5 } };
        using Q = OnePoleT<T,S>; if ( a1 == 0 ) { q[0] = Q( typename Q::B{ S( b0 ) } ); q[1] = Q(); r[1] = { 0, 0 }; }      // without feedback, without anything
        std::string h;
        auto go = [&]( int k, double x ) { double g = double( q[k].step( T( x ) ) ), y = r[k].step( x ); m.step(); m.state( mc::hash_double( y ) ); m.check( g == y, "output", [&]{ return mc::cat( t, " b0=", b0, " a1=", a1, " after", h, ": ", g, " expected ", y ); } ); };
        for ( int d = 0; d < depth; ++d )
        {
            int op = m.choose( 9 ); h += mc::cat( " ", op );
            switch ( op )
            {
            case 0: go( 0, 1 ); break;
            case 1: go( 0, -3 ); break;
            case 2: go( 1, 2 ); break;
            case 3: q[0].reset(); r[0].y = 0; break;
            case 4: q[1] = q[0]; r[1] = r[0]; break;
            case 5: q[0].swap( q[1] ); std::swap( r[0], r[1] ); break;
            case 6: { auto cp = q[0]; Rec rr = r[0]; double g = double( cp.step( T( 1 ) ) ), y = rr.step( 1 ); m.check( g == y, "copy", [&]{ return mc::cat( t, " after", h, ": copy gives ", g, " expected ", y ); } ); cp.reset(); } break;
            case 7: { auto const & cq = q[0]; auto a = cq.coeff_a(); auto b = cq.coeff_b(); (void) cq.zeros(); (void) cq.is_stable();
                      if constexpr ( std::is_same_v<T,S> ) { std::ostringstream os; os << cq; (void) response( cq, T( 0.125 ) ); (void) cq.poles(); }
                      m.check( double( a.a1 ) == r[0].a1 && double( b.b0 ) == r[0].b0 && double( cq.state().v1 ) == r[0].y, "observers", [&]{ return mc::cat( t, " after", h, ": coefficients ", b.b0, " ", a.a1, " state ", cq.state().v1, " expected ", r[0].b0, " ", r[0].a1, " ", r[0].y ); } ); } break;
            case 8: go( 0, 0 ); break;
            }
        }
        go( 0, 0 ); go( 1, 1 );
        m.sample( [&]{ return mc::cat( "b0=", b0, " a1=", a1, h ); } );
    } );
}

template< typename T >
void resp( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "response ", t ), 2, [&]( mc::Ctx & m )
    {
        double b0 = m.pick( bv ), a1 = ( m.choose( 63 ) - 31 ) / 16.0;
        auto q = onepole<T>( b0, a1 ); Coef k{ b0, 0, 0, a1, 0 };
        static const double near[] = { 1e-3, 1e-5, 1e-8, 0.4999, -1e-4, 2.25 };
        for ( int i = -8; i < 47; ++i )
        {
            ld f = i <= 40 ? i / 64.0L : T( near[ i - 41 ] ); if ( denominator( k, f ) < 1e-3L ) continue;
            std::complex<double> g( response( q, T( f ) ) ); cld w = transfer( k, f ); ld tol = ( sizeof(T) == 4 ? 3e-5L : 1e-12L ) * ( 1 + std::abs( w ) ) / std::min<ld>( 1, denominator( k, f ) );
            m.step(); m.state( mc::mix( 3, mc::hash_double( double( w.real() ) ) ) );
            m.check( close( g.real(), w.real(), tol ) && close( g.imag(), w.imag(), tol ), "response", [&]{ return mc::cat( t, " b0=", b0, " a1=", a1, " at ", double( f ), ": ", g, " expected ", w ); } );
        }
        if ( std::fabs( a1 ) > 0.95 || sizeof(T) == 4 ) return;
        int period = m.choose( 12 ) + 1, cyc = m.choose( 1 + period / 2 );
        auto H = response( q, T( double( cyc ) / period ) );
        for ( int n = 0; n < 600 + period; ++n )
        {
            double y = q.step( T( std::cos( 2 * M_PI * double( cyc * n % period ) / period ) ) ); m.step();
            if ( n < 600 ) continue;
            double want = std::real( std::complex<double>( H ) * std::polar( 1.0, 2 * M_PI * double( cyc * n % period ) / period ) );
            m.check( std::fabs( y - want ) < 1e-9 * ( 1 + std::abs( want ) ), "sinusoid", [&]{ return mc::cat( "b0=", b0, " a1=", a1, " ", cyc, "/", period, ": ", y, " predicted ", want ); } );
        }
    } );
}

template< typename T >
void magnitudes( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "sizes ", t ), 2, [&]( mc::Ctx & m )
    {
        double b0 = m.pick( bv ), a1 = m.pick( av ); bool gain = m.choose( 2 ); int e = m.pick( sizes<T>() );
        auto q = onepole<T>( b0, a1 ), s = onepole<T>( gain ? std::ldexp( b0, e ) : b0, a1 ); static const double in[4] = { 1, 0, -3, 0.375 };
        for ( int n = 0; n < 5; ++n )
        {
            T x = T( in[ m.choose( 4 ) ] ), g = q.step( x ), h = s.step( gain ? x : T( std::ldexp( x, e ) ) ); m.step( 2 ); m.state( mc::mix( mc::hash_double( h ), mc::u64( gain ) ) );
            m.check( h == T( std::ldexp( g, e ) ), "scale", [&]{ return mc::cat( t, " b0=", b0, " a1=", a1, ": with ", gain ? "gain" : "input", " times 2^", e, ", output ", n, " is ", h, ", without ", g ); } );
        }
        m.sample( [&]{ return mc::cat( "b0=", b0, " a1=", a1, " 2^", e ); } );
    } );
    mc::explore( mc::cat( "coefficient sizes ", t ), 2, [&]( mc::Ctx & m )
    {
        Coef k{ 1, 0, 0, 0.5, 0 }; auto const & v = coefficients<T>();
        if ( int i = m.choose( int( v.size() ) + 1 ) ) k.b0 = v[i - 1];
        if ( int i = m.choose( int( v.size() ) + 1 ) ) k.a1 = v[i - 1];
        auto q = onepole<T>( k.b0, k.a1 ); Majorant r( k ); static const double in[3] = { 1, 0, -3 };
        for ( int n = 0; n < 4; ++n )
        {
            double x = in[ m.choose( 3 ) ]; r.step( x ); T g = q.step( T( x ) ); m.step(); m.state( mc::hash_double( double( r.y ) ) );
            m.check( r.near<T>( g ), "coefficient-size", [&]{ return mc::cat( t, " b0=", k.b0, " a1=", k.a1, ": output ", n, " is ", g, " expected ", double( r.y ) ); } );
        }
    } );
}

// after histories of all lengths and sizes: exactly what a new filter gives that received the same inputs
template< typename T >
void histories( mc::Ctx & c, char const * t )
{
    static const std::vector<std::pair<double,double>> sets = { { 1, -0.5 }, { 0, 0 }, { 0.25, -0.75 }, { 1e-9, -0.999999 }, { 1e-30, 0.5 }, { 1e9, 0.25 }, { 1, 1e-20 }, { 1, -1 }, { 1, 1 }, { -2, 1.5 }, { 1e6, -1e-3 } };
    mc::explore( mc::cat( "histories ", t ), 2, [&]( mc::Ctx & m )
    {
        auto k = m.pick( sets ); int e = m.pick( std::vector<int>{ 0, -100, -60, -20, 20, 60, 100 } );
        static const int lens[] = { 0, 1, 2, 3, 7, 40, 255, 256, 300, 1100, 5000, 70000 }; int len = lens[ m.choose( 12 ) ], after = m.choose( 7 ), pattern = m.choose( 4 ); if ( len > ( m.thorough ? 5000 : 300 ) && ( e || ( k.first != 0.25 && k.first != 1 ) || pattern % 2 == 0 ) ) throw mc::Prune{};      // the longest with a few filters only
        using Q = OnePoleT<T>; static const double in[7] = { 1, -3, 0, 0.5, 0, 0, 2 };
        auto x = [&]( int n ) { double v = pattern == 0 ? 1 : pattern == 1 ? in[n % 7] : pattern == 2 ? double( n == 0 ) : n < len / 2 ? 1.0 : 0.0; return T( std::ldexp( v, e ) ); };
        auto same = []( T a, T b ) { return a == b || ( a != a && b != b ); };
        Q q = onepole<T>( k.first, k.second ), o = onepole<T>( -2, 0.125 ); for ( int i = 0; i < 5; ++i ) o.step( T( i + 1 ) );
        auto bad = [&]( char const * what, T g, T w ) { return mc::cat( t, " b0=", k.first, " a1=", k.second, ": ", what, " after ", len, " inputs of size 2^", e, " (pattern ", pattern, "): ", g, " expected ", w ); };
        for ( int n = 0; n < len; ++n ) { q.step( x( n ) ); m.step(); }
        auto expect = [&]( Q & a, bool fresh, char const * what )
        {
            Q w = onepole<T>( k.first, k.second ); if ( !fresh ) for ( int n = 0; n < len; ++n ) { w.step( x( n ) ); m.step(); }
            for ( int n = 0; n < 9; ++n ) { T v = T( n == 0 ? 1 : n == 3 ? -2 : 0 ); if ( n & 1 ) v = std::ldexp( v, e ); T g = a.step( v ), y = w.step( v ); m.step( 2 ); m.check( same( g, y ), what, [&]{ return bad( what, g, y ); } ); if ( g != g ) break; }
        };
        switch ( after )
        {
        case 0: expect( q, false, "again" ); break;
        case 1: q.reset(); expect( q, true, "reset" ); break;
        case 2: { Q cp = q; q.reset(); q.step( T( 7 ) ); expect( cp, false, "copy" ); } break;
        case 3: o = q; q.step( T( 7 ) ); expect( o, false, "assigned" ); break;
        case 4: q.swap( o ); q.step( T( 7 ) ); expect( o, false, "swapped" ); break;
        case 5: { std::vector<Q> v; v.push_back( std::move( q ) ); for ( int i = 0; i < 5; ++i ) v.insert( v.begin(), o ); expect( v.back(), false, "moved" ); } break;
        case 6: { Q cp = onepole<T>( k.first, k.second ); cp = q; cp.reset(); expect( cp, true, "copy reset" ); expect( q, false, "original of a reset copy" ); } break;
        }
        m.state( mc::mix( mc::hash_double( k.first + 3 * k.second ), mc::u64( ( ( len * 1000 + e + 200 ) * 4 + pattern ) * 7 + after ) ) );
    } );
    mc::explore( mc::cat( "many filters ", t ), 1, [&]( mc::Ctx & m )
    {
        static const int ns[] = { 2, 3, 9, 17, 33, 70, 300 }; int n = ns[ m.choose( 7 ) ], same = m.choose( 2 ), order = m.choose( 2 ), len = 6;
        auto of = [&]( int i ) { auto k = sets[ same ? 0 : i % sets.size() ]; return onepole<T>( k.first, k.second ); };
        auto in = [&]( int i, int j ) { return T( ( i * 7 + j * 3 ) % 11 - 5 ); };
        std::vector<OnePoleT<T>> q; for ( int i = 0; i < n; ++i ) q.push_back( of( i ) );
        std::vector<std::vector<T>> out( n );
        if ( order ) for ( int j = 0; j < len; ++j ) for ( int i = 0; i < n; ++i ) out[i].push_back( q[i].step( in( i, j ) ) );
        else for ( int i = n - 1; i >= 0; --i ) for ( int j = 0; j < len; ++j ) out[i].push_back( q[i].step( in( i, j ) ) );
        for ( int i = 0; i < n; ++i )
        {
            auto w = of( i ); for ( int j = 0; j < len; ++j ) { T y = w.step( in( i, j ) ); m.step( 2 ); m.check( y == out[i][j], "many", [&]{ return mc::cat( t, " filter ", i, " of ", n, ", output ", j, ": ", out[i][j], " alone ", y ); } ); }
        }
        m.state( mc::u64( n * 4 + same * 2 + order ) );
    } );
}

#ifndef PLAIN_TYPES
template< typename T > struct RecOf { T b0, a1, y = T( 0 ); T step( T x ) { return y = b0 * x - a1 * y; } };
template< typename T > void numbers( char const * t )
{
    mc::explore( mc::cat( "operation sequences ", t ), 2, [&]( mc::Ctx & m )
    {
        static const auto v = Numbers<T>::coef(); using Q = OnePoleT<T>; T b0 = m.pick( v ), a1 = m.pick( v ); RecOf<T> r{ b0, a1 }, o{ v[1], v[2] };
        number_ops( m, Pair<Q,RecOf<T>,T>{ Q( typename Q::B{ b0 }, typename Q::A{ a1 } ), r, r }, Pair<Q,RecOf<T>,T>{ Q( typename Q::B{ v[1] }, typename Q::A{ v[2] } ), o, o }, m.thorough ? 5 : 4, []( Q & q, T x ) { return q.step( x ); }, mc::cat( t, " b0=", text( b0 ), " a1=", text( a1 ) ) );
    } );
}
// a filter interrupted at any of its operations by another one
inline void preemption()
{
    std::vector<Task> tasks; using T = Preempt; using Q = OnePoleT<T>; static const char * const names[] = { "step", "another's step", "swap", "copy and reset", "construction", "assignment" };
    for ( int i = 0; i < 6; ++i ) tasks.push_back( { names[i], [=]() -> std::function<Values()>
    {
        auto of = []( int j ) { return j ? Q( typename Q::B{ T( 1 ) }, typename Q::A{ T( 0.5 ) } ) : Q( typename Q::B{ T( 3 ) }, typename Q::A{ T( -0.75 ) } ); };
        auto report = []( Q const & q ) { return Values{ q.coeff_a().a1.v, q.coeff_b().b0.v, q.state().v1.v }; };
        if ( i == 4 ) return [=]{ return report( of( 0 ) ); };
        auto p = std::make_shared<std::pair<Q,Q>>( of( i == 1 ), of( i != 1 ) ); for ( int n = 0; n < 3; ++n ) { p->first.step( T( n + 1 + i ) ); p->second.step( T( n - 2 ) ); }
        if ( i == 2 ) return [=]{ p->first.swap( p->second ); auto v = report( p->first ), w = report( p->second ); v.insert( v.end(), w.begin(), w.end() ); return v; };
        if ( i == 3 ) return [=]{ auto c = p->first; p->first.reset(); auto v = report( p->first ), w = report( c ); v.insert( v.end(), w.begin(), w.end() ); return v; };
        if ( i == 5 ) return [=]{ p->first = p->second; return report( p->first ); };
        return [=]{ T y = p->first.step( T( 5 ) ); auto v = report( p->first ); v.push_back( y.v ); return v; };
    } } );
    preempted( "one-pole filters", tasks );
}
#endif
MC_MAIN(
#ifndef PLAIN_TYPES
    preemption();
    numbers<int>( "int" ); numbers<long long>( "long long" ); numbers<long double>( "long double" ); numbers<Fix>( "fixed point" ); numbers<Cplx>( "complex" );
#endif
    auto & c = mc::ctx(); int x = c.thorough; ops<double,double>( c, "double", 5 + x ); ops<float,float>( c, "float", 4 + x ); ops<double,float>( c, "double with float coefficients", 3 + x ); magnitudes<double>( c, "double" ); magnitudes<float>( c, "float" ); histories<double>( c, "double" ); histories<float>( c, "float" ); resp<double>( c, "double" ); resp<float>( c, "float" ); )
