// C02: a cascade processes a signal as its sections in series: output, response, stability and reset compose over all sections.
#include "magnitudes.hpp"
#include "number_types.hpp"
#include "preempt.hpp"
#include <memory>
using dsp::BiQuadCascadeT;

static const std::vector<Coef> lib = { { 1, 0, 0, 0, 0 }, { 0.5, -1, 0.5, -0.5, 0.25 }, { 0, 1, 0, 0.5, 0 }, { 2, 0, -1, 0, -0.5 }, { 1, 2, 1, 0, -1.5 }, { -1, 0.5, 0, -0.75, 0 } };
static const bool lib_stable[] = { true, true, true, true, false, true };

template< typename T, int N >
void signal( mc::Ctx & c, int maxn, int len )
{
    mc::explore( mc::cat( "signals through cascades, capacity ", N, sizeof(T) == 4 ? " float" : "" ), 2, [&]( mc::Ctx & m )
    {
        int n = m.choose( maxn + 1 ), form = m.choose( 3 );
        std::vector<Coef> ks; BiQuadCascadeT<T,N> q;
        std::vector<Difference<double>> ref; bool stable = true; std::string name;
        for ( int i = 0; i < n; ++i ) { int k = m.choose( int( lib.size() ) ); ks.push_back( lib[ size_t(k) ] ); q.append( biquad<T>( lib[ size_t(k) ] ) ); ref.push_back( { lib[ size_t(k) ] } ); stable = stable && lib_stable[k]; name += mc::cat( " ", k ); }
        m.check( is_stable( q ) == stable, "cascade-stable", [&]{ return mc::cat( "sections", name, ": is_stable ", is_stable( q ), " expected ", stable ); } );
        static const double near[] = { 1e-3, 1e-5, 1e-8, 0.4999, -1e-4, 2.25 };
        for ( int i = 0; i < 15; ++i )
        {
            ld f = i <= 8 ? i / 17.0L : T( near[ i - 9 ] ); cld w = 1; for ( auto & k : ks ) w *= transfer( k, f );
            std::complex<double> g( response( q, T( f ) ) );
            ld tol = ( sizeof(T) == 4 ? 1e-4L : 1e-11L ) * ( 1 + std::abs( w ) ) * 10; m.step();
            m.check( close( g.real(), w.real(), tol ) && close( g.imag(), w.imag(), tol ), "cascade-response", [&]{ return mc::cat( "sections", name, " at ", double( f ), ": ", g, " expected ", w ); } );
        }
        // a few inputs, a reset at every position, more inputs
        int at = m.choose( len + 1 );
        static const double in[] = { 1, 0, -2 };
        for ( int s = 0; s < len + 2; ++s )
        {
            if ( s == at && at < len ) { reset( q ); for ( size_t i = 0; i < ref.size(); ++i ) ref[i] = { ks[i] }; }
            double x = s < len ? in[ m.choose( 3 ) ] : 0, y = x; for ( auto & r : ref ) y = r.step( y );
            double g = form == 0 ? step( q, T( x ) ) : form == 1 ? step_df2( q, T( x ) ) : step_df2_transposed( q, T( x ) );
            m.step(); m.state( mc::mix( mc::hash_double( y ), mc::u64( n * 31 + s ) ) );
            m.check( g == y, "cascade-output", [&]{ return mc::cat( "sections", name, " form ", form, " reset at ", at, " output ", s, ": ", g, " expected ", y ); } );
        }
        m.sample( [&]{ return name; } );
    } );
}

// sections taken out of the cascade and put aside do not take part; sections added in mid-signal start silent
void edit( mc::Ctx & c )
{
    mc::explore( "editing in mid-signal", 2, [&]( mc::Ctx & m )
    {
        BiQuadCascadeT<double,4> q; std::vector<Difference<double>> ref; std::string h; int form = m.choose( 2 );
        auto add = [&]( int k ) { q.append( biquad<double>( lib[ size_t(k) ] ) ); ref.push_back( { lib[ size_t(k) ] } ); };
        add( 1 ); add( 3 );
        for ( int d = 0; d < ( m.thorough ? 7 : 6 ); ++d )
        {
            int op = m.choose( 8 ); h += mc::cat( " ", op ); int n = int( ref.size() );
            if ( op >= 5 && n == 0 ) throw mc::Prune{};
            if ( ( op == 3 || op == 4 ) && n == 4 ) throw mc::Prune{};
            if ( op <= 2 )
            {
                double x = op == 0 ? 1 : op == 1 ? 0 : -2, y = x; for ( auto & r : ref ) y = r.step( y );
                double g = form ? step_df2_transposed( q, x ) : step( q, x ); m.step(); m.state( mc::hash_double( y ) );
                m.check( g == y, "edited-output", [&]{ return mc::cat( "ops", h, ": ", g, " expected ", y ); } );
            }
            else if ( op == 3 ) add( 2 );
            else if ( op == 4 ) { if ( n == 0 ) throw mc::Prune{}; q.insert( 0, biquad<double>( lib[5] ) ); ref.insert( ref.begin(), { lib[5] } ); }
            else if ( op == 5 ) { q.remove( 0 ); ref.erase( ref.begin() ); }
            else if ( op == 6 ) { q.replace( n - 1, biquad<double>( lib[2] ) ); ref.back() = { lib[2] }; }
            else if ( op == 7 ) { reset( q ); for ( auto & r : ref ) r = { r.c }; }
        }
    } );
}

// signals of every size: the output scales with the input, or with the gain of any section, exactly
template< typename T >
void magnitudes( mc::Ctx & c, char const * t )
{
    mc::explore( mc::cat( "sizes ", t ), 2, [&]( mc::Ctx & m )
    {
        int n = 1 + m.choose( 3 ), gain = m.choose( n + 1 ), form = m.choose( 3 ), e = m.pick( sizes<T>() ); BiQuadCascadeT<T,3> q, s; std::string name;
        for ( int i = 0; i < n; ++i )
        {
            int k = m.choose( int( lib.size() ) ); Coef a = lib[ size_t(k) ]; name += mc::cat( " ", k ); q.append( biquad<T>( a ) );
            if ( gain == i + 1 ) { a.b0 = std::ldexp( a.b0, e ); a.b1 = std::ldexp( a.b1, e ); a.b2 = std::ldexp( a.b2, e ); }
            s.append( biquad<T>( a ) );
        }
        auto run = [&]( BiQuadCascadeT<T,3> & f, T x ) { return form == 0 ? step( f, x ) : form == 1 ? step_df2( f, x ) : step_df2_transposed( f, x ); };
        static const double in[] = { 1, 0, -3 };
        for ( int i = 0; i < 3; ++i )
        {
            T x = T( in[ m.choose( i ? 3 : 2 ) ] ), g = run( q, x ), h = run( s, gain ? x : T( std::ldexp( x, e ) ) ); m.step( 2 ); m.state( mc::mix( mc::hash_double( h ), mc::u64( n ) ) );
            m.check( h == T( std::ldexp( g, e ) ), "scale", [&]{ return mc::cat( t, " sections", name, " form ", form, gain ? " gain of section " : " input ", gain, " times 2^", e, ", output ", i, ": ", h, ", without ", g ); } );
        }
        std::complex<double> r( response( q, T( 0.125 ) ) ), rs( response( s, T( 0.125 ) ) ); r *= std::ldexp( 1.0, gain ? e : 0 );
        m.check( std::abs( rs - r ) <= ( sizeof(T) == 4 ? 1e-5 : 1e-13 ) * std::abs( r ), "scale-response", [&]{ return mc::cat( t, " sections", name, " gain of section ", gain, " times 2^", e, ": response ", rs, " expected ", r ); } );
    } );
}

// long cascades and long signals: sections that keep the signal's energy, so that none of it gets lost on the way
template< typename T, int N >
void longer( mc::Ctx & c )
{
    static const std::vector<Coef> pass = { { 0.5, 1, 0, 0.5, 0 }, { 0, 1, 0, 0, 0 }, { 0.25, 0.5, 1, 0.5, 0.25 }, { -1, 0, 0, 0, 0 }, { -0.75, 1, 0, -0.75, 0 }, { 0, 0, 1, 0, 0 }, { 1, 0, 0, 0, 0 }, { 0.8125, -1.5, 1, -1.5, 0.8125 } };
    mc::explore( mc::cat( "longer, capacity ", N, sizeof(T) == 4 ? " float" : "" ), 2, [&]( mc::Ctx & m )
    {
        static const int ns[] = { 0, 1, 2, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300 }, lens[] = { 20, 300, 1200, 6000, 70000 };
        int n = ns[ m.choose( 21 ) ]; if ( n > N ) throw mc::Prune{};
        int form = m.choose( 3 ), kind = m.choose( 3 ), len = lens[ m.choose( 5 ) ], at = m.choose( 4 ); if ( ( n > 17 && len > 1200 ) || ( n > 2 && len > 6000 ) || ( n > 2 && len > 1200 && !m.thorough ) ) throw mc::Prune{};
        at = at == 0 ? -1 : at == 1 ? 1 : at == 2 ? len / 2 : len - 1;         // reset there
        BiQuadCascadeT<T,N> q; std::vector<Difference<ld>> ref; cld w = 1; const ld f = 0.15625L;
        for ( int i = 0; i < n; ++i ) { Coef k = pass[ size_t( kind == 0 ? 0 : kind == 1 ? i % 8 : ( i * i + 3 ) % 8 ) ]; q.append( biquad<T>( k ) ); ref.push_back( { { k.b0, k.b1, k.b2, k.a1, k.a2 } } ); w *= transfer( k, f ); }
        const ld tol = ( sizeof(T) == 4 ? 2e-6L : 1e-14L ) * ( 10 + n ) * 10;
        for ( int s = 0; s < len; ++s )
        {
            if ( s == at ) { reset( q ); for ( auto & r : ref ) r = { r.c }; }
            double x = s == 0 || s == at ? 1 : s % 97 == 5 ? -2 : s > len / 3 ? 0.25 * ( s % 2 ) : 0; ld y = x; for ( auto & r : ref ) y = r.step( y );
            double g = form == 0 ? step( q, T( x ) ) : form == 1 ? step_df2( q, T( x ) ) : step_df2_transposed( q, T( x ) ); m.step();
            m.check( close( g, y, tol ), "long", [&]{ return mc::cat( n, " sections (", kind, "), form ", form, ", reset at ", at, ", output ", s, " of ", len, ": ", g, " expected ", double( y ) ); } );
        }
        std::complex<double> g( response( q, T( f ) ) ); m.check( close( g.real(), w.real(), tol ) && close( g.imag(), w.imag(), tol ), "long-response", [&]{ return mc::cat( n, " sections (", kind, "): response ", g, " expected ", w ); } );
        m.check( is_stable( q ), "long-stable", [&]{ return mc::cat( n, " stable sections (", kind, ") reported unstable" ); } );
        if ( n ) { int bad = at < 0 ? 0 : at == 1 ? n - 1 : at == len - 1 ? n / 2 : n / 3; q.replace( bad, biquad<T>( { 1, 0, 0, 0, -1.5 } ) ); m.check( !is_stable( q ), "long-stable", [&]{ return mc::cat( n, " sections (", kind, ") with unstable section ", bad, " reported stable" ); } ); }
        m.state( mc::mix( mc::u64( n * 9 + form * 3 + kind ), mc::u64( len * 7 + at ) ) ); m.sample( [&]{ return mc::cat( n, " sections, ", len, " inputs" ); } );
    } );
}

#ifndef PLAIN_TYPES
template< typename T > void numbers( char const * t )
{
    mc::explore( mc::cat( "signals through cascades of ", t ), 2, [&]( mc::Ctx & m )
    {
        int form = m.choose( 3 ), n = m.choose( 3 ) + 1; BiQuadCascadeT<T,3> q; std::vector<Difference<T>> r, fresh; std::string name;
        static const auto v = Numbers<T>::coef(); static const auto in = Numbers<T>::in();
        for ( int i = 0; i < n; ++i ) { CoefT<T> c = i == 0 ? section<T>( m ) : m.choose( 2 ) ? CoefT<T>{ v[3], v[0], v[1], v[2], v[0] } : CoefT<T>{ v[0], v[1], v[2], v[0], v[1] }; q.append( biquad_of( c ) ); r.push_back( { c } ); name += " " + show_section( c ); }
        fresh = r; int at = m.choose( 5 );
        for ( int s = 0; s < 5; ++s )
        {
            if ( s == at && at ) { reset( q ); r = fresh; }
            T x = s < 4 ? in[ size_t( m.choose( 3 ) ) ] : T( 0 ), y = x; for ( auto & d : r ) y = d.step( y );
            T g = form == 0 ? step( q, x ) : form == 1 ? step_df2( q, x ) : step_df2_transposed( q, x ); m.step(); m.state( number_hash( y ) );
            m.check( g == y, "cascade-output", [&]{ return mc::cat( t, " sections", name, " form ", form, " reset at ", at, " output ", s, ": ", text( g ), " expected ", text( y ) ); } );
        }
        m.sample( [&]{ return name; } );
    } );
}
// a cascade interrupted at any of its operations by another one
inline void preemption()
{
    std::vector<Task> tasks; using T = Preempt; using Q = BiQuadCascadeT<T,3>; static const char * const names[] = { "step", "step_df2", "step_df2_transposed", "another's step", "another's step_df2", "another's step_df2_transposed", "reset", "append", "remove", "insert", "replace", "copy" };
    for ( int i = 0; i < 12; ++i ) tasks.push_back( { names[i], [=]() -> std::function<Values()>
    {
        auto of = []( int j ) { return j ? biquad_of( CoefT<T>{ T( 1 ), T( 2 ), T( -1 ), T( 0.5 ), T( -0.25 ) } ) : biquad_of( CoefT<T>{ T( 3 ), T( 0.5 ), T( 7 ), T( -0.75 ), T( 0.125 ) } ); };
        auto report = []( Q const & q ) { Values v{ double( q.size() ) }; for ( int k = 0; k < int( q.size() ); ++k ) { auto a = q.coeff_a( k ); auto b = q.coeff_b( k ); auto s = q.state( k ); for ( double x : { a.a1.v, a.a2.v, b.b0.v, b.b1.v, b.b2.v, s.v1.v, s.v2.v } ) v.push_back( x ); } return v; };
        int form = i < 6 ? i % 3 : 0; auto p = std::make_shared<Q>(); p->append( of( i >= 3 ) ); p->append( of( i < 3 ) ); auto go = [=]( T x ) { return form == 0 ? step( *p, x ) : form == 1 ? step_df2( *p, x ) : step_df2_transposed( *p, x ); }; for ( int n = 0; n < 3; ++n ) go( T( n + 1 + i ) );
        if ( i == 6 ) return [=]{ reset( *p ); return report( *p ); };
        if ( i == 7 ) return [=]{ p->append( of( 1 ) ); return report( *p ); };
        if ( i == 8 ) return [=]{ p->remove( 0 ); return report( *p ); };
        if ( i == 9 ) return [=]{ p->insert( 0, of( 1 ) ); return report( *p ); };
        if ( i == 10 ) return [=]{ auto o = p->replace( 1, of( 1 ) ); auto v = report( *p ); v.push_back( o.state().v1.v ); v.push_back( o.coeff_b().b0.v ); return v; };
        if ( i == 11 ) return [=]{ auto c = *p; return report( c ); };
        return [=]{ T y = go( T( 5 ) ); auto v = report( *p ); v.push_back( y.v ); return v; };
    } } );
    preempted( "cascades", tasks );
}
#endif
MC_MAIN(
#ifndef PLAIN_TYPES
    preemption();
    numbers<int>( "int" ); numbers<long double>( "long double" ); numbers<Fix>( "fixed point" ); numbers<Cplx>( "complex" );
#endif
    auto & c = mc::ctx(); int x = c.thorough; signal<double,3>( c, 3, 4 + x ); signal<double,8>( c, 2, 5 + x ); signal<float,3>( c, 2, 4 ); edit( c ); longer<double,300>( c ); longer<float,33>( c ); longer<double,16>( c ); magnitudes<double>( c, "double" ); magnitudes<float>( c, "float" ); )
