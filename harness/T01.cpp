// T01: what is written to a stream is every value, in its place, in the format the stream asks for; neither the stream's format nor the object changes.
#include "mc.hpp"
#include "core/core-io.hpp"
#include "dsp/biquad-cascade-io.hpp"
#include "dsp/chebyshev-design-io.hpp"
#include "dsp/kalman.hpp"
#include "dsp/kalman-io.hpp"
#include "dsp/onepole-io.hpp"
#include "num/fixed-point-io.hpp"
#include <cmath>
#include <iomanip>
#include <type_traits>

using Words = std::vector<std::string>;

// formats a stream may be in:
static void format( std::ostream & os, int k )
{
    switch ( k )
    {
    case 1: os << std::setprecision( 17 ); break;
    case 2: os << std::fixed << std::setprecision( 3 ); break;
    case 3: os << std::scientific << std::setprecision( 9 ); break;
    case 4: os << std::showpos << std::setprecision( 2 ); break;
    case 5: os << std::showpoint << std::uppercase << std::setprecision( 12 ); break;
    }
}
enum { formats = 6 };

template< typename T > std::string word( T const & v, int k ) { if ( !( v == v ) ) return "nan"; std::ostringstream os; format( os, k ); os << v; return os.str(); }

// the numbers in a text, as written: a sequence starting with a digit, sign, point, nan or inf that is not part of a name
static Words numbers( std::string const & s )
{
    Words w; size_t i = 0;
    auto digit = []( char c ) { return c >= '0' && c <= '9'; }; auto letter = []( char c ) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
    while ( i < s.size() )
    {
        size_t b = i; if ( s[i] == '+' || s[i] == '-' ) ++i;
        auto special = [&]( char const * n ) { return s.compare( i, 3, n ) == 0 && ( i + 3 >= s.size() || !letter( s[i + 3] ) ); };
        if ( special( "nan" ) || special( "inf" ) || special( "NAN" ) || special( "INF" ) ) { bool const nan = s[i] == 'n' || s[i] == 'N'; i += 3; w.push_back( nan ? "nan" : s.substr( b, i - b ) ); continue; }     // a nan has no sign
        if ( i < s.size() && ( digit( s[i] ) || ( s[i] == '.' && i + 1 < s.size() && digit( s[i + 1] ) ) ) )
        {
            while ( i < s.size() && ( digit( s[i] ) || s[i] == '.' ) ) ++i;
            if ( i + 1 < s.size() && ( s[i] == 'e' || s[i] == 'E' ) && ( digit( s[i + 1] ) || ( ( s[i + 1] == '+' || s[i + 1] == '-' ) && i + 2 < s.size() && digit( s[i + 2] ) ) ) ) { i += 2; while ( i < s.size() && digit( s[i] ) ) ++i; }
            w.push_back( s.substr( b, i - b ) ); continue;
        }
        if ( i < s.size() && letter( s[i] ) ) { while ( i < s.size() && ( letter( s[i] ) || digit( s[i] ) ) ) ++i; continue; }     // a name
        i = b + 1;
    }
    return w;
}
static std::vector<std::string> lines( std::string const & s )
{
    std::vector<std::string> v; std::string l; for ( char c : s )
        if ( c == '\n' ) { if ( l.find_first_not_of( " \t\r" ) != l.npos ) v.push_back( l ); l.clear(); }
        else l += c;
    if ( l.find_first_not_of( " \t\r" ) != l.npos ) v.push_back( l );
    return v;
}
static std::string list( Words const & w ) { std::string t; for ( auto & x : w ) t += " " + x; return t; }

// written text, with what must hold for any object: the stream is handed on, keeps its format, and writing twice gives the same text
template< typename X > std::string written( mc::Ctx & m, X const & x, int k, std::string const & what )
{
    std::ostringstream os; format( os, k ); auto f = os.flags(); auto p = os.precision(); auto * r = &( os << x ); m.step();
    m.check( r == &os && os.good(), "stream", [&]{ return what; } ); m.check( os.flags() == f && os.precision() == p, "stream-format", [&]{ return what + " changes the format of the stream"; } );
    std::string t = os.str(); std::ostringstream two; format( two, k ); two << x << x; m.check( two.str() == t + t, "twice", [&]{ return what + " written twice: " + two.str(); } );
    { mc::u64 h = 7; for ( char c : t ) h = mc::mix( h, mc::u64( c ) ); m.state( h ); }
    return t;
}
static void same( mc::Ctx & m, char const * sig, std::string const & t, Words const & want, std::string const & what )
{
    auto got = numbers( t ); m.check( got == want, sig, [&]{ return what + " is written as" + list( got ) + ", not" + list( want ); } );
}

// ---- fixed point, vectors, matrices

template< typename T, int I, int F > void fixeds( char const * name )
{
    mc::explore( mc::cat( "fixed point ", name ), 2, [&]( mc::Ctx & m )
    {
        using X = num::fixed_point<T,I,F>; int k = m.choose( formats ); long n = sizeof(T) == 1 ? 256 : 65536; long raw = long( std::numeric_limits<T>::min() ) + m.choose( int( n ) );
        X x( X::construct, T( raw ) ); std::string what = mc::cat( name, " ", raw, "/2^", F ); auto t = written( m, x, k, what );
        double v = std::ldexp( double( raw ), -F ); same( m, "fixed", t, { word( v, k ) }, what );
        if ( k == 1 ) m.check( std::strtod( t.c_str(), nullptr ) == v, "fixed-exact", [&]{ return what + " written " + t; } );
        if ( raw == 1 ) m.sample( [&]{ return what + " -> " + t; } );
    } );
}
// wide fixed-point numbers: every sign, every position of the most significant bit, and the bits around it and at the end
template< typename T, int I, int F > void wide_fixeds( char const * name )
{
    mc::explore( mc::cat( "wide fixed point ", name ), 2, [&]( mc::Ctx & m )
    {
        using X = num::fixed_point<T,I,F>; using U = typename std::make_unsigned<T>::type; int k = m.choose( formats ); int top = m.choose( int( sizeof(T) ) * 8 ), second = m.choose( top + 1 ), low = m.choose( 4 ); bool ones = m.choose( 2 ), negative = m.choose( 2 );
        U raw = U( U( 1 ) << top ); raw |= U( U( 1 ) << second ); if ( ones ) raw |= U( raw - 1 ); raw ^= U( low ); if ( negative ) raw = U( U( 0 ) - raw );
        X x( X::construct, T( raw ) ); std::string what = mc::cat( name, " ", (long long)T( raw ), "/2^", F ); auto t = written( m, x, k, what );
        double v = std::ldexp( double( T( raw ) ), -F ); same( m, "fixed", t, { word( v, k ) }, what ); m.sample( [&]{ return what + " -> " + t; } );
        // a field width applies to the number as it does to any other
        if ( low == 0 ) { std::ostringstream a, b; for ( auto * os : { &a, &b } ) { format( *os, k ); *os << std::setw( 30 ) << std::setfill( '*' ) << std::left; } a << x; b << v; m.check( a.str() == b.str(), "fixed-width", [&]{ return what + " in 30 columns: " + a.str(); } ); }
    } );
}
static const std::vector<double> reals = { 0, 1, -2.5, 1e-7, 123456.789, -3e20, 1.0 / 3 };
template< typename T > std::vector<T> values()
{
    std::vector<T> v; if constexpr ( std::is_integral<T>::value ) for ( T x : { T( 0 ), T( 7 ), T( 31 ), T( 12345 ), std::numeric_limits<T>::min(), std::numeric_limits<T>::max() } ) v.push_back( x );
    else if constexpr ( std::is_floating_point<T>::value ) { for ( double x : reals ) v.push_back( T( x ) ); v.push_back( std::numeric_limits<T>::infinity() ); v.push_back( std::numeric_limits<T>::quiet_NaN() ); }
    else for ( double x : { 0.0, 1.0, -2.5, 0.00390625, 100.125, -127.75 } ) v.push_back( T( x ) );
    return v;
}
template< typename T > void vectors( char const * name )
{
    mc::explore( mc::cat( "vectors of ", name ), 3, [&]( mc::Ctx & m )
    {
        auto vals = values<T>(); int k = m.choose( formats ); std::vector<T> v; Words want; int n = m.choose( m.thorough ? 6 : 5 );
        for ( int i = 0; i < n; ++i ) { v.push_back( m.pick( vals ) ); want.push_back( word( v.back(), k ) ); }
        auto t = written( m, v, k, mc::cat( "vector of ", n, " ", name ) ); same( m, "vector", t, want, mc::cat( "vector of ", n, " ", name ) );
        m.sample( [&]{ return t; } );
    } );
}
// long vectors and large matrices, every length up to a bound: all there, in order
static void large()
{
    mc::explore( "long vectors", 1, []( mc::Ctx & m )
    {
        int n = m.choose( m.thorough ? 1200 : 300 ), k = m.choose( formats ); std::vector<double> v; Words want; for ( int i = 0; i < n; ++i ) { v.push_back( i * 0.375 - 20 ); want.push_back( word( v.back(), k ) ); }
        same( m, "vector", written( m, v, k, mc::cat( "vector of ", n ) ), want, mc::cat( "vector of ", n ) );
    } );
}
template< typename T, int N, int M > void large_matrix( char const * name )
{
    mc::explore( mc::cat( "large matrices ", N, "x", M, " of ", name ), 1, [&]( mc::Ctx & m )
    {
        int k = m.choose( formats ); num::matrix<T,N,M> x( T( 0 ) ); int f = 1 + m.choose( 3 ); for ( int i = 0; i < N * M; ++i ) x( i / M, i % M ) = T( i * f - 17 );
        std::string what = mc::cat( N, "x", M, " matrix of ", name ); auto rows = lines( written( m, x, k, what ) ); m.check( int( rows.size() ) == N, "matrix-rows", [&]{ return mc::cat( what, " is written in ", rows.size(), " lines" ); } ); if ( int( rows.size() ) != N ) return;
        for ( int i = 0; i < N; ++i ) { Words want; for ( int j = 0; j < M; ++j ) want.push_back( word( x( i, j ), k ) ); same( m, "matrix", rows[i], want, mc::cat( "row ", i, " of ", what ) ); }
    } );
}
template< typename T, int N, int M > void matrices( char const * name )
{
    mc::explore( mc::cat( "matrices ", N, "x", M, " of ", name ), 3, [&]( mc::Ctx & m )
    {   // all entries different, and two of them any value
        auto vals = values<T>(); int k = m.choose( formats ); num::matrix<T,N,M> x( T( 0 ) ); for ( int i = 0; i < N * M; ++i ) x( i / M, i % M ) = T( i * 3 + 1 );
        int at = m.choose( N * M ); x( at / M, at % M ) = m.pick( vals ); int next = m.choose( N * M ); x( next / M, next % M ) = m.pick( vals );
        std::string what = mc::cat( N, "x", M, " matrix of ", name ); auto t = written( m, x, k, what ); auto rows = lines( t );
        m.check( int( rows.size() ) == N, "matrix-rows", [&]{ return mc::cat( what, " is written in ", rows.size(), " lines:\n", t ); } ); if ( int( rows.size() ) != N ) return;
        for ( int i = 0; i < N; ++i ) { Words want; for ( int j = 0; j < M; ++j ) want.push_back( word( x( i, j ), k ) ); same( m, "matrix", rows[i], want, mc::cat( "row ", i, " of ", what ) ); }
        m.check( !t.empty() && t.back() == '\n', "matrix-rows", [&]{ return what + " does not end its last row"; } );
        m.sample( [&]{ return t; } );
    } );
}

// ---- filters

template< typename T > Words two( std::complex<T> const & a, int k ) { return { word( a.real(), k ), word( a.imag(), k ) }; }
static Words operator+( Words a, Words const & b ) { a.insert( a.end(), b.begin(), b.end() ); return a; }
// the line with a label, without it
static bool labelled( std::vector<std::string> const & l, size_t from, char const * label, std::string & text )
{
    std::string s = label; for ( size_t i = from; i < l.size(); ++i ) { auto b = l[i].find_first_not_of( " \t" ); if ( l[i].compare( b, s.size(), s ) == 0 ) { text = l[i].substr( b + s.size() ); return true; } } return false;
}
static int count( std::string const & t, std::string const & s ) { int n = 0; for ( size_t p = t.find( s ); p != t.npos; p = t.find( s, p + 1 ) ) ++n; return n; }

template< typename T > Words numbers_of( dsp::BiQuadT<T> const & q, char c, int k )
{
    auto a = q.coeff_a(); auto b = q.coeff_b(); auto w = q.state();
    switch ( c ) { case 'a': return { word( a.a1, k ), word( a.a2, k ) }; case 'b': return { word( b.b0, k ), word( b.b1, k ), word( b.b2, k ) }; case 'w': return { word( w.v1, k ), word( w.v2, k ) }; }
    auto s = c == 'p' ? q.poles() : q.zeros(); return two( s.s0, k ) + two( s.s1, k );
}
template< typename T > Words numbers_of( dsp::OnePoleT<T> const & q, char c, int k )
{
    switch ( c ) { case 'a': return { word( q.coeff_a().a1, k ) }; case 'b': return { word( q.coeff_b().b0, k ) }; case 'w': return { word( q.state().v1, k ) }; }
    auto s = c == 'p' ? q.poles() : q.zeros(); return two( s.s0, k );
}
// one section, in the lines of its text
template< typename Q > void section( mc::Ctx & m, Q const & q, std::vector<std::string> const & l, int k, std::string const & what )
{
    for ( char c : { 'a', 'b', 'w', 'p', 'z' } )
    {
        char const label[] = { c, ':', 0 }; std::string text; m.check( labelled( l, 0, label, text ), "filter-part", [&]{ return mc::cat( what, ": no line ", label ); } );
        auto got = numbers( text ), want = numbers_of( q, c, k );
        m.check( got == want, "filter-value", [&]{ return mc::cat( what, " ", label, list( got ), ", not", list( want ) ); } );
    }
    std::string all; for ( auto & x : l ) all += x + "\n"; bool said = count( all, "NOT stable" ) == 0 && count( all, "stable" ) == 1; bool denied = count( all, "NOT stable" ) == 1;
    m.check( q.is_stable() ? said : denied, "filter-stability", [&]{ return mc::cat( what, " stable: ", q.is_stable(), " written as ", all ); } );
}
template< typename T > dsp::BiQuadT<T> biquad( int i )
{
    static double const c[][5] = { { 1, 0.5, 0.25, -0.5, 0.25 }, { 2, -3, 1, 0.1, -2 }, { 1e-6, 2e-6, 1e-6, -1.99, 0.9901 }, { -7, 0, 0.125, 0, 1.5 }, { 0.3333333, -1, 3, 1.25, 0.75 } };
    auto & x = c[i]; return dsp::BiQuadT<T>( { T( x[0] ), T( x[1] ), T( x[2] ) }, { T( x[3] ), T( x[4] ) } );
}
template< typename T > void filters( char const * name )
{
    static const std::vector<double> few = { 0, 1, -0.5, 1.75, -1.25, 0.1 };
    mc::explore( mc::cat( "biquads of ", name ), 3, [&]( mc::Ctx & m )
    {
        int k = m.choose( formats ); dsp::BiQuadT<T> base = biquad<T>( m.choose( 5 ) ); auto b = base.coeff_b(); auto a = base.coeff_a(); T * at[] = { &b.b0, &b.b1, &b.b2, &a.a1, &a.a2 };
        for ( int j = 0; j < 2; ++j ) { int i = m.choose( 5 ); *at[i] = T( m.pick( few ) ); } int steps = m.choose( 4 ); dsp::BiQuadT<T> q( b, a ); for ( int i = 0; i < steps; ++i ) q.step( T( 1 + 2 * i ) );
        auto before = q; auto t = written( m, q, k, mc::cat( "biquad of ", name ) ); section( m, q, lines( t ), k, mc::cat( "biquad of ", name, " with", list( numbers_of( q, 'b', k ) ), " /", list( numbers_of( q, 'a', k ) ) ) );
        for ( char c : { 'a', 'b', 'w' } ) m.check( numbers_of( q, c, 1 ) == numbers_of( before, c, 1 ), "changed", [&]{ return std::string( "writing changes the filter" ); } );
        // the parts by themselves
        dsp::biquad::BAT<T> ba{}; static_cast<dsp::biquad::BT<T> &>( ba ) = b; static_cast<dsp::biquad::AT<T> &>( ba ) = a;
        same( m, "part", written( m, q.coeff_a(), k, "A" ), numbers_of( q, 'a', k ), "coefficients A" ); same( m, "part", written( m, q.coeff_b(), k, "B" ), numbers_of( q, 'b', k ), "coefficients B" );
        same( m, "part", written( m, q.state(), k, "W" ), numbers_of( q, 'w', k ), "state W" ); same( m, "part", written( m, ba, k, "BA" ), numbers_of( q, 'b', k ) + numbers_of( q, 'a', k ), "coefficients B and A" );
        same( m, "part", written( m, q.poles(), k, "S" ), numbers_of( q, 'p', k ), "poles S" );
        m.sample( [&]{ return t; } );
    } );
    mc::explore( mc::cat( "one-pole filters of ", name ), 3, [&]( mc::Ctx & m )
    {
        int k = m.choose( formats ); static const std::vector<double> as = { 0, 0.5, -0.999, 1, -1, 1.5, 0.1, -3e-5 }; T a = T( m.pick( as ) ); T b = T( m.pick( as ) ); int steps = m.choose( 4 );
        dsp::OnePoleT<T> q( typename dsp::OnePoleT<T>::B{ b }, typename dsp::OnePoleT<T>::A{ a } ); for ( int i = 0; i < steps; ++i ) q.step( T( 1 + 2 * i ) );
        auto t = written( m, q, k, mc::cat( "one-pole of ", name ) ); section( m, q, lines( t ), k, mc::cat( "one-pole of ", name, " with ", b, " / ", a ) );
        dsp::onepole::BAT<T> ba{}; ba.b0 = b; ba.a1 = a;
        same( m, "part", written( m, q.coeff_a(), k, "A" ), numbers_of( q, 'a', k ), "coefficient A" ); same( m, "part", written( m, q.coeff_b(), k, "B" ), numbers_of( q, 'b', k ), "coefficient B" );
        same( m, "part", written( m, q.state(), k, "W" ), numbers_of( q, 'w', k ), "state W" ); same( m, "part", written( m, ba, k, "BA" ), numbers_of( q, 'b', k ) + numbers_of( q, 'a', k ), "coefficients B and A" );
        same( m, "part", written( m, q.poles(), k, "S" ), numbers_of( q, 'p', k ), "pole S" ); m.sample( [&]{ return t; } );
    } );
}
template< typename T, int N > void cascades( char const * name )
{
    mc::explore( mc::cat( "cascades of ", N, " ", name ), 3, [&]( mc::Ctx & m )
    {   // every list of sections that fits; in long ones all sections are of one kind but for one
        int k = m.choose( formats ); int n = m.choose( N + 1 ); dsp::BiQuadCascadeT<T,N> c; std::vector<dsp::BiQuadT<T>> in; bool const full = N <= 4; int most = full ? 0 : m.choose( 5 ), odd = full || n == 0 ? 0 : m.choose( n ), other = full ? 0 : m.choose( 5 );
        for ( int i = 0; i < n; ++i ) { auto q = biquad<T>( full ? m.choose( 5 ) : i == odd ? other : most ); q.step( T( i + 1 ) ); c.append( q ); in.push_back( q ); }
        std::string what = mc::cat( "cascade of ", n, " of ", N ); auto t = written( m, c, k, what ); auto l = lines( t );
        // the heading ends where the first section begins
        std::vector<size_t> start; for ( size_t i = 0; i < l.size(); ++i ) if ( l[i].find( "BiQuad" ) != std::string::npos && l[i].find( "stable" ) != std::string::npos ) start.push_back( i );
        m.check( int( start.size() ) == n, "cascade-sections", [&]{ return mc::cat( what, " shows ", start.size(), " sections:\n", t ); } ); if ( int( start.size() ) != n ) return;
        std::string head; for ( size_t i = 0; i < (n ? start[0] : l.size()); ++i ) head += l[i] + "\n";
        Words w = numbers( head ), want = { word( sizeof c, k ), word( n, k ), word( N, k ) };
        m.check( w == want, "cascade-heading", [&]{ return mc::cat( what, " heading shows", list( w ), ", not", list( want ) ); } );
        bool stable = true; for ( auto & q : in ) stable = stable && q.is_stable();
        m.check( stable ? count( head, "NOT stable" ) == 0 && count( head, "stable" ) == 1 : count( head, "NOT stable" ) == 1, "cascade-stability", [&]{ return what + " stable " + (stable ? "yes" : "no") + ": " + head; } );
        for ( int i = 0; i < n; ++i ) section( m, in[i], { l.begin() + start[i], i + 1 < n ? l.begin() + start[i + 1] : l.end() }, k, mc::cat( "section ", i, " of ", what ) );
        m.sample( [&]{ return t; } );
    } );
}
static void design()
{
    mc::explore( "design information", 2, []( mc::Ctx & m )
    {
        int k = m.choose( formats ); dsp::chebyshev_design::AlgoInfoT<double> ai{ 1.5, 2.25, 3.125, 4.0625, 5.03125, 6, 7.015625, 8.0078125 }; int at = m.choose( 8 ), next = m.choose( 8 );
        auto put = [&]( int i, double v ) { switch ( i ) { case 0: ai.Wpass = v; break; case 1: ai.Wstop = v; break; case 2: ai.epass = v; break; case 3: ai.estop = v; break; case 4: ai.Nex = v; break; case 5: ai.N = int( v < 1e6 && v > 1 ? v : 3 ); break; case 6: ai.f3 = v; break; case 7: ai.a = v; break; } };
        put( at, m.pick( reals ) ); put( next, m.pick( reals ) ); auto t = written( m, ai, k, "design information" );
        struct { char const * label; std::string want; } const part[] = { { "Wpass:", word( ai.Wpass, k ) }, { "Wstop:", word( ai.Wstop, k ) }, { "epass:", word( ai.epass, k ) }, { "estop:", word( ai.estop, k ) }, { "Nex:", word( ai.Nex, k ) }, { " N:", word( ai.N, k ) }, { "f3:", word( ai.f3, k ) }, { " a:", word( ai.a, k ) } };
        for ( auto & p : part ) { auto at = t.find( p.label ); m.check( at != t.npos, "design-part", [&]{ return p.label + std::string( " missing in " ) + t; } ); if ( at == t.npos ) continue;
            auto w = numbers( t.substr( at + strlen( p.label ) ) ); m.check( !w.empty() && w[0] == p.want, "design-value", [&]{ return mc::cat( p.label, w.empty() ? "" : w[0], ", not ", p.want, " in ", t ); } ); }
        m.sample( [&]{ return t; } );
    } );
    mc::explore( "estimator", 2, []( mc::Ctx & m )
    {   // what an estimator reports can be written, its models' matrices with it
        using K = num::kalman<double,2,1,1>; int k = m.choose( formats ); double dt = m.pick( reals ), r = 1 + m.choose( 4 ); K::A_t A{ 1, dt, 0, 1 }; K::B_t B{ 0, dt }; K::H_t H{ 1, 0 }; K::Q_t Q{ 1, 0, 0, 2 }; K e( dt, A, B, H, Q, K::R_t( r ), Q, K::x_t{ 1, -2 } ); K::u_t u( 3.0 ); K::z_t z( -1.5 );
        e.update( u, z ); auto x = e.system_state(); auto g = e.kalman_gain(); auto p = e.estimation_error_covariance();
        same( m, "matrix", written( m, x, k, "state" ), { word( x( 0, 0 ), k ), word( x( 1, 0 ), k ) }, "state" ); same( m, "matrix", written( m, g, k, "gain" ), { word( g( 0, 0 ), k ), word( g( 1, 0 ), k ) }, "gain" );
        same( m, "matrix", written( m, p, k, "covariance" ), { word( p( 0, 0 ), k ), word( p( 0, 1 ), k ), word( p( 1, 0 ), k ), word( p( 1, 1 ), k ) }, "covariance" );
    } );
}

MC_MAIN(
    fixeds<std::int16_t,7,8>( "int16 7.8" ); fixeds<std::int16_t,1,14>( "int16 1.14" ); fixeds<std::int8_t,3,4>( "int8 3.4" ); fixeds<std::int16_t,12,3>( "int16 12.3" );
    wide_fixeds<std::int32_t,15,16>( "int32 15.16" ); wide_fixeds<std::int32_t,3,28>( "int32 3.28" ); wide_fixeds<std::int16_t,3,12>( "int16 3.12" );
    large(); large_matrix<double,20,1>( "double" ); large_matrix<double,1,20>( "double" ); large_matrix<double,12,9>( "double" ); large_matrix<int,9,33>( "int" ); large_matrix<float,40,3>( "float" ); large_matrix<int,300,2>( "int" );
    vectors<double>( "double" ); vectors<int>( "int" ); vectors<float>( "float" );
    matrices<double,1,1>( "double" ); matrices<double,1,3>( "double" ); matrices<double,3,1>( "double" ); matrices<double,2,2>( "double" ); matrices<double,2,3>( "double" ); matrices<double,3,2>( "double" ); matrices<double,4,4>( "double" );
    matrices<int,2,3>( "int" ); matrices<float,3,2>( "float" ); matrices<num::fixed_point<std::int16_t,7,8>,2,3>( "fixed point" ); matrices<std::int16_t,4,2>( "int16" );
    filters<double>( "double" ); filters<float>( "float" );
    cascades<double,3>( "double" ); cascades<float,2>( "float" ); cascades<double,1>( "double" ); cascades<double,4>( "double" ); cascades<double,16>( "double" );
    design();
)
