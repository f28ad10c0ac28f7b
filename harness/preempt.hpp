// preempt.hpp - a number that can hand over control: at any one of its operations (arithmetic, comparison, copy) something
// else may run to completion, as a thread that is scheduled there or an interrupt handler would. Exploring every such
// point on the real code shows whether a computation keeps intermediate results where another computation reaches them.
#ifndef VERIF_PREEMPT_HPP
#define VERIF_PREEMPT_HPP
#include "mc.hpp"
#include <functional>
#include <ostream>
#include <type_traits>

struct Preempt
{
    static long & left() { static long n = -1; return n; }         // operations until control is handed over; negative: never
    static long & passed() { static long n = 0; return n; }
    static std::function<void()> *& other() { static std::function<void()> * f = nullptr; return f; }
    static void point() { ++passed(); if ( left() >= 0 && left()-- == 0 ) ( *other() )(); }
    // the operations f consists of
    template< typename F > static long length( F f ) { left() = -1; passed() = 0; f(); return passed(); }
    // f, with o run at operation k
    template< typename F > static void at( long k, std::function<void()> o, F f ) { other() = &o; left() = k; f(); left() = -1; }

    double v = 0;
    Preempt() = default;
    template< typename N, typename = std::enable_if_t<std::is_arithmetic_v<N>> > Preempt( N x ) : v( double( x ) ) {}
    Preempt( Preempt const & o ) { point(); v = o.v; }
    Preempt & operator=( Preempt const & o ) { double x = o.v; point(); v = x; return *this; }
    explicit operator double() const { return v; }
    Preempt operator-() const { return Preempt( -v ); }
    Preempt operator+() const { return Preempt( v ); }
    Preempt & operator+=( Preempt const & o ) { double x = v + o.v; point(); v = x; return *this; }
    Preempt & operator-=( Preempt const & o ) { double x = v - o.v; point(); v = x; return *this; }
    Preempt & operator*=( Preempt const & o ) { double x = v * o.v; point(); v = x; return *this; }
    Preempt & operator/=( Preempt const & o ) { double x = v / o.v; point(); v = x; return *this; }
    friend Preempt operator+( Preempt const & a, Preempt const & b ) { point(); return Preempt( a.v + b.v ); }
    friend Preempt operator-( Preempt const & a, Preempt const & b ) { point(); return Preempt( a.v - b.v ); }
    friend Preempt operator*( Preempt const & a, Preempt const & b ) { point(); return Preempt( a.v * b.v ); }
    friend Preempt operator/( Preempt const & a, Preempt const & b ) { point(); return Preempt( a.v / b.v ); }
    friend bool operator==( Preempt const & a, Preempt const & b ) { point(); return a.v == b.v; }
    friend bool operator!=( Preempt const & a, Preempt const & b ) { point(); return a.v != b.v; }
    friend bool operator<( Preempt const & a, Preempt const & b ) { point(); return a.v < b.v; }
    friend bool operator>( Preempt const & a, Preempt const & b ) { point(); return a.v > b.v; }
    friend bool operator<=( Preempt const & a, Preempt const & b ) { point(); return a.v <= b.v; }
    friend bool operator>=( Preempt const & a, Preempt const & b ) { point(); return a.v >= b.v; }
    friend std::ostream & operator<<( std::ostream & os, Preempt const & a ) { return os << a.v; }
};
using Values = std::vector<double>;
inline std::string values( Values const & v ) { std::string s; for ( double x : v ) s += mc::cat( " ", x ); return s; }
inline bool same_values( Values const & a, Values const & b ) { if ( a.size() != b.size() ) return false; for ( size_t i = 0; i < a.size(); ++i ) if ( !( a[i] == b[i] ) && ( a[i] == a[i] || b[i] == b[i] ) ) return false; return true; }

// a computation started afresh by make(): what it reports, undisturbed
struct Task { char const * name; std::function<std::function<Values()>()> make; };

// every task, preempted by every task at every one of its operations: both report what they report alone
inline void preempted( char const * title, std::vector<Task> const & tasks )
{
    mc::explore( mc::cat( "preemption: ", title ), 2, [&]( mc::Ctx & m )
    {
        auto & a = m.pick( tasks ); auto & b = m.pick( tasks );
        static std::map<std::string,std::pair<long,Values>> alone;      // per task: operations, result
        auto solo = [&]( Task const & t ) -> std::pair<long,Values> const & { auto i = alone.find( mc::cat( title, t.name ) ); if ( i != alone.end() ) return i->second; t.make()(); auto f = t.make(); Values v; long n = Preempt::length( [&]{ v = f(); } ); return alone[ mc::cat( title, t.name ) ] = { n, v }; };
        auto const & wa = solo( a ); auto const & wb = solo( b ); if ( !wa.first ) throw mc::Prune{}; long k = m.choose( int( wa.first ) );
        auto fa = a.make(); auto fb = b.make(); Values va, vb; bool reached = false; Preempt::at( k, [&]{ vb = fb(); reached = true; }, [&]{ va = fa(); } ); if ( !reached ) throw mc::Prune{}; m.step( 2 ); m.state( mc::mix( mc::mix( mc::u64( k ), mc::u64( &a - tasks.data() ) ), mc::u64( &b - tasks.data() ) ) );
        m.check( same_values( va, wa.second ), "preempted", [&]{ return mc::cat( title, ": ", a.name, " with ", b.name, " at its operation ", k, " gives", values( va ), " expected", values( wa.second ) ); } );
        m.check( same_values( vb, wb.second ), "preempting", [&]{ return mc::cat( title, ": ", b.name, " run at operation ", k, " of ", a.name, " gives", values( vb ), " expected", values( wb.second ) ); } );
        m.sample( [&]{ return mc::cat( a.name, " with ", b.name, " at ", k ); } );
    } );
}
#endif
