// U04: interrupt flags and compare strobes: clearing (striking) one does that and nothing else, whatever is pending.
#include "regs_common.hpp"

struct Flag { std::string id; u8 reg; int bit; };
struct Strobe { std::string id; u8 reg, mask; };
static std::vector<Flag> const flags = {
#define FLAG( ... ) { __VA_ARGS__ },
#define STROBE( ... )
#include "avr/flags.inc"
#undef FLAG
#undef STROBE
};
static std::vector<Strobe> const strobe = {
#define FLAG( ... )
#define STROBE( ... ) { __VA_ARGS__ },
#include "avr/flags.inc"
};
static Mega & dev() { return device( "flags" ); }
static u32 at( std::string const & n ) { return image( "flags" ).at( n ); }

MC_MAIN(
    mc::explore( "register names", 1, []( mc::Ctx & m ) { m.choose( 1 ); names( m ); } );
    mc::explore( "flags", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & x = m.pick( flags ); unsigned old = unsigned( m.choose( 256 ) ); int bg = m.choose( 3 ); Mega & c = dev(); background( c, bg ); c.data[x.reg] = u8( old ); File f = file( c );
        std::string what = mc::cat( x.id, " with ", hex( old ) ); m.state( mc::mix( mc::mix( x.reg, mc::u64( x.bit ) ), old ) );
        u8 r = u8( c.call( at( "fg_" + x.id ) ) >> 16 ); m.step(); m.check( r == (old >> x.bit & 1), "flag-read", [&]{ return mc::cat( what, " reads ", +r ); } ); same( m, c, f, x.reg, 0, "flag-read-changes", what );
        c.call( at( "fc_" + x.id ) ); m.step(); File g = f; g.v[x.reg] = u8( g.v[x.reg] & ~(1u << x.bit) ); same( m, c, g, x.reg, 0, "flag-clear", what ); strobes( m, c, 0, 0, what );
        r = u8( c.call( at( "fg_" + x.id ) ) >> 16 ); m.check( r == 0, "flag-still-set", [&]{ return what; } );
        m.sample( [&]{ return what; } );
    } ); } );
    mc::explore( "another flag rises meanwhile", 3, []( mc::Ctx & m ) { guarded( m, [&]
    {   // of a register that holds only flags: a flag that rises before any instruction of the clearing function is not lost
        auto & x = m.pick( flags ); auto & y = m.pick( flags ); int k = m.choose( 12 ); int own = m.choose( 2 ); Mega & c = dev();
        if ( x.reg == y.reg && (x.bit == y.bit || x.reg == ADCSRA_ || x.reg == ACSR_ || x.reg == TWCR_) ) throw mc::Prune{};
        background( c, 0 ); c.data[x.reg] = u8( own << x.bit ); c.enter( at( "fc_" + x.id ) ); bool risen = false;
        for ( int i = 0; c.running(); ++i ) { if ( i == k ) { c.data[y.reg] |= u8( 1u << y.bit ); risen = true; } c.step(); if ( i > 1000 ) throw Fault( "no end" ); m.step(); }
        m.state( mc::mix( mc::mix( x.reg, mc::u64( x.bit ) ), mc::mix( y.reg, mc::u64( y.bit * 16 + k ) ) ) );
        m.check( bool( c.data[y.reg] >> y.bit & 1 ) == risen, "flag-lost", [&]{ return mc::cat( "clearing ", x.id, ": ", y.id, " risen before instruction ", k, " is lost" ); } );
        m.check( !(c.data[x.reg] >> x.bit & 1), "flag-clear", [&]{ return x.id; } );
    } ); } );
    mc::explore( "polling", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {   // waiting for a flag in a loop: seen at the first reading after it rises, and then cleared
        auto & x = m.pick( flags ); int k = m.choose( m.thorough ? 400 : 120 ); Mega & c = dev(); background( c, 0 ); c.enter( at( "pl_" + x.id ) ); c.pair( 24, 5 ); int reads = 0; int seen_at = -1; int after = 0; size_t n = 0; bool risen = false;
        for ( int i = 0; c.running(); ++i )
        {
            if ( i == k && !risen ) { c.data[x.reg] |= u8( 1u << x.bit ); risen = true; seen_at = reads; }
            c.step(); if ( i > 5000 ) throw Fault( "no end" ); m.step();
            for ( ; n < c.log.size(); ++n ) if ( !c.log[n].write && c.log[n].address == x.reg ) { ++reads; if ( risen ) ++after; }
        }
        u8 r = c.result8(); m.state( mc::mix( mc::mix( x.reg, mc::u64( x.bit ) ), mc::u64( k ) + r ) ); if ( !risen || seen_at >= 5 ) { m.check( r == 5, "poll", [&]{ return mc::cat( x.id, " seen without having risen" ); } ); return; }
        m.check( r < 5 && r <= seen_at && !(c.data[x.reg] >> x.bit & 1), "poll", [&]{ return mc::cat( x.id, " risen before reading ", seen_at, " seen at ", +r ); } );
    } ); } );
    mc::explore( "strobes", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & x = m.pick( strobe ); unsigned old = unsigned( m.choose( 256 ) ); int bg = m.choose( 3 ); Mega & c = dev(); background( c, bg ); c.data[x.reg] = u8( old & ~c.strobe[x.reg] ); File f = file( c ); c.call( at( "ss_" + x.id ) ); m.step();
        std::string what = mc::cat( x.id, " with ", hex( old ) ); same( m, c, f, x.reg, 0, "strobe-changes", what ); strobes( m, c, x.reg, x.mask, what ); m.state( mc::mix( mc::mix( x.reg, x.mask ), old ) );
    } ); } );
)
