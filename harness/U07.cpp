// U07: pins, LEDs and the PWM output: every pin, every content of its port, every level from outside.
#include "regs_common.hpp"

static Image const & im() { return image( "pins" ); }
struct Pin { int port, bit; std::string name() const { return std::string( 1, "BCD"[port] ) + char( '0' + bit ); } };
static std::vector<Pin> pins() { std::vector<Pin> v; for ( int p = 0; p < 3; ++p ) for ( int b = 0; b < (p == 1 ? 7 : 8); ++b ) v.push_back( { p, b } ); return v; }
static std::vector<Pin> const all = pins();

struct Op { char const * fn; int reg; int effect; };        // reg: 1 direction, 2 output; effect: 0 clear, 1 set, 2 toggle, 3 argument, 4 read, 5 read input
static std::vector<Op> const ops = { { "on_", 2, 1 }, { "off_", 2, 0 }, { "tog_", 2, 2 }, { "ena_", 1, 1 }, { "dset_", 1, 1 }, { "dclr_", 1, 0 }, { "dwr_", 1, 3 }, { "drd_", 1, 4 }, { "dtog_", 1, 2 },
    { "oset_", 2, 1 }, { "oclr_", 2, 0 }, { "owr_", 2, 3 }, { "ord_", 2, 4 }, { "otog_", 2, 2 }, { "ird_", 0, 5 } };

static void apply( mc::Ctx & m, Mega & c, Pin const & p, Op const & o, int arg )
{
    u8 reg = u8( 0x23 + 3 * p.port + o.reg ); u8 bit = u8( 1 << p.bit ); File f = file( c ); u8 level = c.dev_read( u8( 0x23 + 3 * p.port ) );
    c.enter( im().at( o.fn + p.name() ) ); c.data[24] = u8( arg ); c.run(); m.step();
    u8 was = f.v[reg]; u8 want = u8( o.effect == 0 ? was & ~bit : o.effect == 1 ? was | bit : o.effect == 2 ? was ^ bit : o.effect == 3 ? (was & ~bit) | (arg ? bit : 0) : was );
    std::string what = mc::cat( o.fn, p.name(), "(", arg, ") with register ", hex( was ), " level ", hex( level ) );
    if ( o.effect >= 4 ) { bool v = (o.effect == 4 ? was : level) & bit; m.check( c.result8() == v, "pin-read", [&]{ return mc::cat( what, " yields ", +c.result8() ); } ); }
    if ( o.reg ) f.v[reg] = want;
    same( m, c, f, 0, 0, "pin", what ); m.state( mc::mix( mc::mix( reg, c.data[reg] ), mc::u64( o.effect ) ) );
}

MC_MAIN(
    mc::explore( "pins", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & p = m.pick( all ); auto & o = m.pick( ops ); unsigned old = unsigned( m.choose( 256 ) ); int arg = o.effect == 3 ? m.choose( 2 ) : 0; unsigned out = o.effect == 5 ? unsigned( m.choose( 4 ) ) : 0; int bg = m.choose( 3 );
        Mega & c = device( "pins" ); background( c, bg ); int base = 0x23 + 3 * p.port; u8 keep = u8( ~c.ro[base + 2] );
        if ( o.effect == 5 ) { c.pins[p.port] = u8( old ); c.data[base + 1] = u8( (out & 1 ? 0xff : 0x35) & keep ); c.data[base + 2] = u8( (out & 2 ? 0xa6 : 0) & keep ); }
        else c.data[base + o.reg] = u8( old & keep );
        apply( m, c, p, o, arg );
        m.sample( [&]{ return mc::cat( o.fn, p.name(), " from ", hex( old ) ); } );
    } ); } );
    mc::explore( "sequences", 3, []( mc::Ctx & m ) { guarded( m, [&]
    {   // several LEDs on one port and on others, operated alternately
        static std::vector<Pin> const some = { { 0, 0 }, { 0, 5 }, { 2, 7 }, { 1, 3 } };
        Mega & c = device( "pins" ); background( c, 0 );
        for ( int k = 0; k < (m.thorough ? 5 : 4); ++k ) { auto & p = m.pick( some ); apply( m, c, p, ops[m.choose( 4 )], 0 ); }
    } ); } );
    mc::explore( "ports", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        int p = m.choose( 3 ); int o = m.choose( 5 ); unsigned old = unsigned( m.choose( 256 ) ); unsigned v = unsigned( o == 0 || o == 2 ? m.choose( 256 ) : m.choose( 3 ) ); int bg = m.choose( 3 );
        static char const * const fn[] = { "pw_", "pr_", "dw_", "dr_", "ir_" }; Mega & c = device( "pins" ); background( c, bg ); u8 base = u8( 0x23 + 3 * p ); u8 keep = u8( ~c.ro[base + 2] );
        u8 reg = u8( base + (o < 2 ? 2 : 1) ); if ( o < 4 ) c.data[reg] = u8( old & keep ); else { c.pins[p] = u8( old ); c.data[base + 1] = u8( (v == 0 ? 0 : v == 1 ? 0x5a : 0xff) & keep ); }
        File f = file( c ); u8 level = c.dev_read( base ); c.enter( im().at( mc::cat( fn[o], "BCD"[p] ) ) ); c.data[24] = u8( v ); c.run(); m.step(); std::string what = mc::cat( fn[o], "BCD"[p], " ", hex( v ), " with ", hex( old ) );
        if ( o == 1 || o == 3 ) m.check( c.result8() == f.v[reg], "port-read", [&]{ return what; } );
        if ( o == 4 ) m.check( c.result8() == level, "port-read", [&]{ return what; } );
        if ( o == 0 || o == 2 ) f.v[reg] = u8( v & keep );
        same( m, c, f, 0, 0, "port", what ); m.state( mc::mix( mc::mix( reg, c.data[reg] ), mc::u64( o ) ) );
    } ); } );
    mc::explore( "pwm initialization", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {   // 10-bit fast PWM on channel A, not inverted, clock not divided, pin PB1 output; everything else as it was
        unsigned a = unsigned( m.choose( 256 ) ); unsigned b = unsigned( m.choose( 256 ) ); int bg = m.choose( 3 ); Mega & c = device( "pins" ); background( c, bg );
        c.data[TCCR1A_] = u8( a & 0xf3 ); c.data[TCCR1B_] = u8( b & 0xdf ); File f = file( c ); c.call( im().at( "pwm_init" ) ); m.step();
        f.v[TCCR1A_] = u8( (f.v[TCCR1A_] & 0x30) | 0x80 | 0x03 ); f.v[TCCR1B_] = u8( (f.v[TCCR1B_] & 0xc0) | 0x08 | 0x01 ); f.v[DDRB_] |= 2;
        same( m, c, f, 0, 0, "pwm-init", mc::cat( "init with TCCR1A ", hex( a ), " TCCR1B ", hex( b ) ) ); strobes( m, c, 0, 0, "init" ); m.state( mc::mix( mc::mix( a, b ), 77 ) );
    } ); } );
    mc::explore( "pwm values", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        unsigned v = unsigned( m.choose( 65536 ) ); int bg = m.choose( 3 ); Mega & c = device( "pins" ); background( c, bg ); File f = file( c ); c.f( I, true ); c.call( im().at( "pwm_write" ), { v } ); m.step();
        f.v[OCR1AL_] = u8( v ); f.v[OCR1AH_] = u8( v >> 8 ); same( m, c, f, 0, 0, "pwm-write", mc::cat( "write ", v ) ); m.state( mc::mix( v, 78 ) );
        m.check( c.f( I ), "interrupts-off", [&]{ return std::string( "after write" ); } );
        if ( v == 0 ) { m.check( u16( c.call( im().at( "pwm_min" ) ) >> 16 ) == 3, "pwm-range", [&]{ return std::string( "minimum" ); } ); m.check( u16( c.call( im().at( "pwm_max" ) ) >> 16 ) == 1023, "pwm-range", [&]{ return std::string( "maximum" ); } ); }
    } ); } );
)
