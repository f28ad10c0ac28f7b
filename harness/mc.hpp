// mc.hpp - a small bounded-exhaustive explorer for the real code.
//
// An exploration is a body that asks choose(n) at every point of nondeterminism; explore() runs the body
// once for every distinct sequence of answers (depth-first, odometer order), so every combination within
// the bounds the body fixes is executed exactly once.  Nothing is sampled.
// The work is split over processes by hashing the first `shard_depth` answers of an execution.
//
// Protocol with bin/check:  <exe> --tier quick|thorough --shard i/n --out FILE [--known sig]... [--replay scenario:choices]
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace mc {

using u64 = std::uint64_t;

struct Skip {};          // this execution belongs to another shard
struct Prune {};         // this execution is outside the property's domain (counted)
struct Stop {};          // enough violations

inline u64 mix( u64 h, u64 v )
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}

struct Violation { std::string signature, scenario, choices, detail; u64 count = 1; };

struct Ctx
{
    bool thorough = false;
    int  shard = 0, nshards = 1;
    std::string out, only_scenario, replay_choices;
    bool replay = false;
    std::set<std::string> known;

    // transitions: operations performed on the real code; executions: complete choice sequences judged;
    // seen: bitmap of fingerprints of the distinct observable states reached (merged over shards by bin/check).
    u64 transitions = 0, executions = 0, pruned = 0;
    static constexpr u64 seen_bits = u64(1) << 24;
    std::vector<unsigned char> seen = std::vector<unsigned char>( seen_bits / 8 );
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, Violation> violations;
    std::map<std::string, u64> per_scenario;
    u64 unknown_violations = 0;

    std::string scenario;
    std::vector<int> choice, arity;
    size_t pos = 0;
    size_t shard_depth = 1;
    u64 shard_hash = 0;

    volatile u64 ticks = 0;
    u64 last_ticks = ~0ull;

    // one point of nondeterminism:
    int choose( int n )
    {
        int v;
        if ( pos < choice.size() )
        {
            if ( arity[pos] == 0 ) arity[pos] = n;
            if ( choice[pos] >= n || arity[pos] != n ) { fprintf( stderr, "divergence in %s\n", scenario.c_str() ); _exit( 2 ); }
            v = choice[pos];
        }
        else { v = 0; choice.push_back( 0 ); arity.push_back( n ); }
        ++pos;
        if ( !replay && pos <= shard_depth )
        {
            shard_hash = mix( shard_hash, u64(v) + 1 );
            if ( pos == shard_depth && int( shard_hash % u64(nshards) ) != shard ) throw Skip{};
        }
        return v;
    }

    template< typename C > auto const & pick( C const & c ) { return c[ choose( int( c.size() ) ) ]; }

    void step( u64 n = 1 ) { transitions += n; ticks = ticks + 1; }

    void state( u64 h ) { h = mix( 0x51ed, h ) % seen_bits; seen[ h >> 3 ] |= (unsigned char)( 1u << ( h & 7 ) ); }

    template< typename D >
    void sample( D && d ) { auto & v = samples[ scenario ]; if ( v.size() < 2 ) v.push_back( d() ); }

    std::string choices_text() const
    {
        std::string s;
        for ( size_t i = 0; i < pos && i < choice.size(); ++i ) { if (i) s += ","; s += std::to_string( choice[i] ); }
        return s;
    }

    void violate( std::string const & signature, std::string const & detail )
    {
        auto it = violations.find( signature );
        if ( it == violations.end() ) violations[ signature ] = { signature, scenario, choices_text(), detail };
        else ++it->second.count;
        if ( !known.count( signature ) && ++unknown_violations >= 200 ) throw Stop{};
    }

    template< typename D >
    void check( bool ok, char const * signature, D && detail )
    {
        if ( !ok ) violate( signature, detail() );
    }
};

inline Ctx & ctx() { static Ctx c; return c; }

inline std::string esc( std::string const & s )
{
    std::string r;
    for ( unsigned char ch : s )
    {
        if ( ch == '"' || ch == '\\' ) { r += '\\'; r += char(ch); }
        else if ( ch < 32 || ch > 126 ) { char b[8]; snprintf( b, sizeof b, "\\u%04x", ch ); r += b; }
        else r += char(ch);
    }
    return r;
}

inline void write_result( char const * status )
{
    auto & c = ctx();
    FILE * f = c.out.empty() ? stdout : fopen( c.out.c_str(), "w" );
    if ( !f ) _exit( 2 );
    fprintf( f, "{\"status\":\"%s\",\"transitions\":%llu,\"executions\":%llu,\"pruned\":%llu,\n\"scenarios\":{",
        status, (unsigned long long)c.transitions, (unsigned long long)c.executions, (unsigned long long)c.pruned );
    { bool first = true; for ( auto & p : c.per_scenario ) { fprintf( f, "%s\"%s\":%llu", first ? "" : ",", esc(p.first).c_str(), (unsigned long long)p.second ); first = false; } }
    fprintf( f, "},\n\"samples\":[" );
    { bool first = true; for ( auto & p : c.samples ) for ( auto & t : p.second ) { fprintf( f, "%s\"%s: %s\"", first ? "" : ",", esc(p.first).c_str(), esc(t).c_str() ); first = false; } }
    if ( !c.out.empty() ) { FILE * b = fopen( ( c.out + ".seen" ).c_str(), "wb" ); if ( b ) { fwrite( c.seen.data(), 1, c.seen.size(), b ); fclose( b ); } }
    fprintf( f, "],\n\"violations\":[" );
    { bool first = true; for ( auto & p : c.violations ) { auto & v = p.second;
        fprintf( f, "%s\n{\"signature\":\"%s\",\"scenario\":\"%s\",\"choices\":\"%s\",\"count\":%llu,\"detail\":\"%s\"}", first ? "" : ",",
            esc(v.signature).c_str(), esc(v.scenario).c_str(), v.choices.c_str(), (unsigned long long)v.count, esc(v.detail).c_str() ); first = false; } }
    fprintf( f, "]}\n" );
    if ( f != stdout ) fclose( f );
}

// a crash or a hang of the code under test inside an execution is a violation, with the execution recorded:

inline void fatal_signal( int sig )
{
    auto & c = ctx();
    static volatile sig_atomic_t once = 0;
    if ( once ) _exit( 5 );
    once = 1;
    char const * what = sig == SIGALRM ? "hang" : "crash";
    c.violations[ what ] = { what, c.scenario, c.choices_text(), std::string( "execution ended by signal " ) + std::to_string( sig ) };
    write_result( what );
    _exit( 4 );
}

inline void on_alarm( int )
{
    auto & c = ctx();
    if ( c.ticks == c.last_ticks ) fatal_signal( SIGALRM );
    c.last_ticks = c.ticks;
}

inline void init( int argc, char ** argv )
{
    auto & c = ctx();
    int hang_s = 20;
    for ( int i = 1; i < argc; ++i )
    {
        std::string a = argv[i];
        auto next = [&]{ return std::string( argv[++i] ); };
        if      ( a == "--tier"   ) c.thorough = next() == "thorough";
        else if ( a == "--shard"  ) sscanf( argv[++i], "%d/%d", &c.shard, &c.nshards );
        else if ( a == "--out"    ) c.out = next();
        else if ( a == "--known"  ) c.known.insert( next() );
        else if ( a == "--hang"   ) hang_s = atoi( argv[++i] );
        else if ( a == "--replay" ) { c.replay = true; auto s = next(); auto k = s.rfind( '#' ); c.only_scenario = s.substr( 0, k ); c.replay_choices = s.substr( k + 1 ); }
    }
    {   // on a stack of their own: endless recursion is a crash like others; endless allocation likewise (and must not use up the machine)
        static char stack[1 << 18]; stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack( &ss, nullptr );
        struct sigaction sa{}; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sa.sa_handler = fatal_signal;
        for ( int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL } ) sigaction( s, &sa, nullptr );
        sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction( SIGALRM, &sa, nullptr );
        rlimit lim{ rlim_t( 3 ) << 30, rlim_t( 3 ) << 30 }; setrlimit( RLIMIT_AS, &lim );
    }
    itimerval tv{ { hang_s, 0 }, { hang_s, 0 } };
    setitimer( ITIMER_REAL, &tv, nullptr );
}

// run body for every sequence of choices:

template< typename Body >
void explore( std::string const & name, size_t shard_depth, Body body )
{
    auto & c = ctx();
    if ( c.replay && c.only_scenario != name ) return;
    c.scenario = name; c.choice.clear(); c.arity.clear(); c.shard_depth = shard_depth;
    if ( c.replay )
    {
        std::stringstream ss( c.replay_choices ); std::string t;
        while ( std::getline( ss, t, ',' ) ) if ( !t.empty() ) { c.choice.push_back( atoi( t.c_str() ) ); c.arity.push_back( 0 ); }
    }
    for (;;)
    {
        c.pos = 0; c.shard_hash = 0x1234;
        bool mine = true;
        try
        {
            body( c );
        }
        catch ( Skip const & ) { mine = false; }
        catch ( Prune const & ) { ++c.pruned; }
        if ( mine && !c.replay && c.pos < c.shard_depth )
        {   // shorter than the sharding prefix: exactly one shard counts it
            if ( c.shard != 0 ) mine = false;
        }
        if ( mine ) { ++c.executions; ++c.per_scenario[ name ]; c.ticks = c.ticks + 1; }
        if ( c.replay ) return;
        // next sequence
        c.choice.resize( c.pos ); c.arity.resize( c.pos );
        while ( !c.choice.empty() && c.choice.back() + 1 >= c.arity.back() ) { c.choice.pop_back(); c.arity.pop_back(); }
        if ( c.choice.empty() ) return;
        ++c.choice.back();
    }
}

// the same for one flat finite domain 0..n-1 (one choice), without the cost of the choice machinery:

template< typename Body >
void sweep( std::string const & name, u64 n, Body body )
{
    auto & c = ctx();
    if ( c.replay && c.only_scenario != name ) return;
    c.scenario = name; c.choice.assign( 1, 0 ); c.arity.assign( 1, 0 ); c.pos = 1;
    u64 first = c.replay ? strtoull( c.replay_choices.c_str(), nullptr, 10 ) : u64( c.shard ), last = c.replay ? first + 1 : n, stride = c.replay ? 1 : u64( c.nshards );
    u64 done = 0;
    for ( u64 i = first; i < last; i += stride )
    {
        c.choice[0] = int( i );
        try { body( c, i ); ++done; }
        catch ( Prune const & ) { ++c.pruned; ++done; }
        if ( ( i & 0xff ) == 0 ) c.ticks = c.ticks + 1;
    }
    c.ticks = c.ticks + 1;
    c.executions += done; c.per_scenario[ name ] += done;
}

#define MC_MAIN( ... ) \
    int main( int argc, char ** argv ) { \
        mc::init( argc, argv ); \
        char const * status = "complete"; \
        try { __VA_ARGS__ } catch ( mc::Stop const & ) { status = "stopped"; } \
        mc::write_result( status ); \
        return 0; }

template< typename... A >
std::string cat( A const &... a ) { std::ostringstream os; os.precision( 17 ); ( os << ... << a ); return os.str(); }

inline u64 hash_double( double d ) { u64 u; if ( d == 0 ) d = 0; memcpy( &u, &d, 8 ); return u; }

} // namespace mc

#endif
