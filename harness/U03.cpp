// U03: the peripheral settings: every named value, from every content of the register and three contents of all others, sets what
// the datasheet says, leaves everything else, and reads back.
#include "regs_common.hpp"

struct Setting { std::string id; u8 reg, mask; std::vector<std::string> names; };
static std::vector<Setting> const settings = {
#define SETTING( id, reg, mask, ... ) { id, reg, mask, { __VA_ARGS__ } },
#define WAVEFORM( ... )
#define VALUE( ... )
#define FUNCTION( ... )
#define ONLYSET( ... )
#define ONLYREAD( ... )
#define PAIR( ... )
#include "avr/settings.inc"
#undef SETTING
#undef WAVEFORM
#undef VALUE
#undef FUNCTION
#undef ONLYSET
#undef ONLYREAD
#undef PAIR
};
struct Waveform { std::string id; u8 ra, rb, mb; std::vector<std::string> names; };
struct Value { std::string id; u8 reg; int bytes; };
struct Function { std::string id; u8 reg, mask; };
struct Pair { int n; std::string a, b; u8 reg, ma, mb; };
static std::vector<Waveform> const waveforms = {
#define SETTING( ... )
#define WAVEFORM( id, ra, rb, mb, ... ) { id, ra, rb, mb, { __VA_ARGS__ } },
#define VALUE( ... )
#define FUNCTION( ... )
#define ONLYSET( ... )
#define ONLYREAD( ... )
#define PAIR( ... )
#include "avr/settings.inc"
#undef WAVEFORM
#undef VALUE
};
static std::vector<Value> const values = {
#define WAVEFORM( ... )
#define VALUE( ... ) { __VA_ARGS__ },
#include "avr/settings.inc"
#undef VALUE
#undef FUNCTION
};
static std::vector<Function> const functions = {
#define VALUE( ... )
#define FUNCTION( ... ) { __VA_ARGS__ },
#include "avr/settings.inc"
#undef FUNCTION
#undef ONLYSET
};
static std::vector<Function> const onlyset = {
#define FUNCTION( ... )
#define ONLYSET( ... ) { __VA_ARGS__ },
#include "avr/settings.inc"
#undef ONLYSET
#undef ONLYREAD
};
static std::vector<Function> const onlyread = {
#define ONLYSET( ... )
#define ONLYREAD( ... ) { __VA_ARGS__ },
#include "avr/settings.inc"
#undef ONLYREAD
#undef PAIR
};
static std::vector<Pair> const pairs = {
#define ONLYREAD( ... )
#define PAIR( ... ) { __VA_ARGS__ },
#include "avr/settings.inc"
#undef PAIR
};

static Mega & dev() { return device( "settings" ); }
static u32 at( std::string const & n ) { return image( "settings" ).at( n ); }

// put `old` in a register and run fn; returns the register file from before
static File run( mc::Ctx & m, u32 fn, int bg, std::vector<std::pair<u8, u8>> old, std::initializer_list<u32> args = {} )
{
    Mega & c = dev(); background( c, bg );
    for ( auto & o : old ) c.data[o.first] = u8( o.second & ~c.strobe[o.first] );
    File f = file( c ); u8 i = c.f( I ); c.call( fn, args ); m.step();
    m.check( c.f( I ) == i, "interrupt-enable", [&]{ return mc::cat( "function at ", fn, " changes the interrupt enable bit" ); } );
    return f;
}
static u8 get( mc::Ctx & m, std::string const & fn, int bg, std::vector<std::pair<u8, u8>> old, u8 reg )
{
    File f = run( m, at( fn ), bg, old ); u8 r = dev().result8(); same( m, dev(), f, reg, 0, "read-changes", fn ); strobes( m, dev(), 0, 0, fn ); return r;
}

MC_MAIN(
    mc::explore( "register names", 1, []( mc::Ctx & m ) { m.choose( 1 ); names( m ); } );
    mc::explore( "settings", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & s = m.pick( settings ); unsigned old = unsigned( m.choose( 256 ) ); int bg = m.choose( 3 ); u8 o = u8( old ); Mega & c = dev(); int sh = low( s.mask ); u8 flags = c.w1c[s.reg];
        m.state( mc::mix( mc::mix( s.reg, s.mask ), old ) );
        for ( unsigned v = 0; v < s.names.size(); ++v )
        {
            std::string what = mc::cat( s.id, " ", v, " from ", hex( old ) );
            auto expect = [&]( File f ) { f.v[s.reg] = u8( (f.v[s.reg] & ~s.mask) | v << sh ); same( m, c, f, s.reg, flags, "setting", what ); strobes( m, c, 0, 0, what ); };
            if ( !s.names[v].empty() ) expect( run( m, at( "nm_" + s.id + "_" + s.names[v] ), bg, { { s.reg, o } } ) );
            expect( run( m, at( "sv_" + s.id ), bg, { { s.reg, o } }, { v } ) );
            u8 r = u8( c.call( at( "gt_" + s.id ) ) >> 16 );
            m.check( r == v, "read-back", [&]{ return mc::cat( what, " reads back as ", +r ); } );
        }
        u8 r = get( m, "gt_" + s.id, bg, { { s.reg, o } }, s.reg );
        m.check( r == (u8( o & ~c.strobe[s.reg] ) & s.mask) >> sh, "current", [&]{ return mc::cat( s.id, " of ", hex( old ), " is ", +r ); } );
        m.sample( [&]{ return mc::cat( s.id, " from ", hex( old ) ); } );
    } ); } );
    mc::explore( "pairs of settings", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & p = m.pick( pairs ); unsigned old = unsigned( m.choose( 256 ) ); Mega & c = dev(); u8 flags = c.w1c[p.reg];
        unsigned na = p.ma >> low( p.ma ); unsigned nb = p.mb >> low( p.mb ); u32 fn = at( mc::cat( "pr_", p.n ) );
        for ( unsigned v = 0; v <= na; ++v ) for ( unsigned w = 0; w <= nb; ++w )
        {
            std::string what = mc::cat( p.a, " ", v, " with ", p.b, " ", w, " from ", hex( old ) );
            File f = run( m, fn, 2, { { p.reg, u8( old ) } }, { v, w } ); f.v[p.reg] = u8( (f.v[p.reg] & ~(p.ma | p.mb)) | v << low( p.ma ) | w << low( p.mb ) );
            same( m, c, f, p.reg, flags, "pair", what ); int n = 0; for ( auto & x : c.log ) n += x.write; m.check( n == 1, "pair-writes", [&]{ return mc::cat( what, ": ", n, " writes" ); } );
        }
        m.state( mc::mix( mc::mix( p.ma, p.mb ), old ) );
    } ); } );
    mc::explore( "waveforms", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & w = m.pick( waveforms ); u8 old = u8( m.choose( 256 ) ); int other = m.choose( 4 ); u8 oa[] = { old, u8( ~old ), 0, 0xff }; u8 a = oa[other]; Mega & c = dev(); int sh = low( w.mb );
        for ( unsigned v = 0; v < w.names.size(); ++v )
        {
            std::string what = mc::cat( w.id, " waveform ", v, " from ", hex( a ), " ", hex( old ) );
            auto expect = [&]( File f, int clk ) { f.v[w.ra] = u8( (f.v[w.ra] & ~3) | (v & 3) ); f.v[w.rb] = u8( (f.v[w.rb] & ~w.mb) | v >> 2 << sh ); if ( clk >= 0 ) f.v[w.rb] = u8( (f.v[w.rb] & ~7) | clk ); same( m, c, f, w.rb, 0, "waveform", what ); strobes( m, c, 0, 0, what ); };
            if ( !w.names[v].empty() ) expect( run( m, at( "wn_" + w.id + "_" + w.names[v] ), 2, { { w.ra, a }, { w.rb, old } } ), -1 );
            for ( int k = 0; k < 8; ++k ) expect( run( m, at( "wc_" + w.id ), 2, { { w.ra, a }, { w.rb, old } }, { v, u32( k ) } ), k );
            expect( run( m, at( "wv_" + w.id ), 2, { { w.ra, a }, { w.rb, old } }, { v } ), -1 );
            u8 r = u8( c.call( at( "wg_" + w.id ) ) >> 16 ); m.check( r == v, "read-back", [&]{ return mc::cat( what, " reads back as ", +r ); } );
        }
        u8 r = get( m, "wg_" + w.id, 2, { { w.ra, a }, { w.rb, old } }, w.rb ); m.check( r == ((a & 3) | (old & w.mb) >> sh << 2), "current", [&]{ return mc::cat( w.id, " waveform of ", hex( a ), " ", hex( old ), " is ", +r ); } );
        m.state( mc::mix( mc::mix( w.ra, a ), old ) );
    } ); } );
    mc::explore( "values", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & x = m.pick( values ); unsigned hi = unsigned( m.choose( 256 ) ); int bg = m.choose( 3 ); Mega & c = dev(); bool word = x.bytes == 2;
        for ( unsigned lo = 0; lo < 256; ++lo )
        {
            if ( word && !m.thorough && lo % 7 && lo != 255 && lo != 128 && (lo ^ hi) != 0xff ) continue;
            unsigned v = word ? hi << 8 | lo : lo; std::string what = mc::cat( x.id, " ", v ); u8 dirty = u8( hi ^ lo ^ 0x5a );
            File f = run( m, at( "vs_" + x.id ), bg, { { x.reg, dirty }, { u8( x.reg + (word ? 1 : 0) ), dirty } }, { v } );
            f.v[x.reg] = u8( v ); if ( word ) { f.v[x.reg + 1] = u8( v >> 8 ); if ( x.reg == EEARL_ ) f.v[x.reg + 1] = u8( (dirty & c.ro[EEARH_]) | (v >> 8 & ~c.ro[EEARH_]) ); }
            same( m, c, f, x.reg, 0, "value", what ); strobes( m, c, 0, 0, what );
            background( c, bg ); c.data[x.reg] = u8( v ); if ( word ) c.data[x.reg + 1] = u8( v >> 8 ); f = file( c ); u32 r = c.call( at( "vg_" + x.id ) ); m.step(); r = word ? r >> 16 : r >> 16 & 255;
            m.check( r == v, "value-read", [&]{ return mc::cat( what, " reads as ", r ); } ); same( m, c, f, x.reg, 0, "read-changes", what );
        }
        m.state( mc::mix( mc::mix( x.reg, 77 ), hi ) );
    } ); } );
    mc::explore( "conversion result", 1, []( mc::Ctx & m ) { guarded( m, [&]
    {   // a conversion may finish before any instruction of the reading function: one of the two results, never a mixture
        static const u16 rs[] = { 0, 0x3ff, 0x0ff, 0x100, 0x200, 0x1fe, 0xffc0, 0x2aa }; u16 first = rs[m.choose( 8 )]; u16 next = rs[m.choose( 8 )]; int k = m.choose( 24 ); Mega & c = dev(); background( c, 2 );
        c.adc_done( first ); c.enter( at( "adc_result" ) ); for ( int i = 0; c.running(); ++i ) { if ( i == k ) c.adc_done( next ); c.step(); if ( i > 1000 ) throw Fault( "no end" ); m.step(); }
        u16 r = c.result16(); m.check( r == first || r == next, "torn-result", [&]{ return mc::cat( "conversion ", first, ", then ", next, " before instruction ", k, ": ", r ); } ); m.state( mc::mix( first, r ) );
        m.check( k > 0 || r == next, "stale-result", [&]{ return mc::cat( first, " ", next, " ", r ); } ); m.check( !c.adc_locked, "locked", [&]{ return "conversion register left locked"; } );
    } ); } );
    mc::explore( "functions", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & x = m.pick( functions ); unsigned old = unsigned( m.choose( 256 ) ); int bg = m.choose( 3 ); Mega & c = dev(); old &= u8( ~c.ro[x.reg] ); int sh = low( x.mask ); unsigned n = x.mask >> sh; bool bit = n == 1;
        for ( unsigned v = 0; v <= n; ++v )
        {
            std::string what = mc::cat( x.id, " ", v, " from ", hex( old ) ); File f = run( m, at( "fw_" + x.id ), bg, { { x.reg, u8( old ) } }, { v } ); f.v[x.reg] = u8( (f.v[x.reg] & ~x.mask) | v << sh );
            u8 fixed = c.ro[x.reg]; f.v[x.reg] = u8( (f.v[x.reg] & ~fixed) | (c.data[x.reg] & fixed) );
            same( m, c, f, x.reg, c.w1c[x.reg], "function", what ); strobes( m, c, 0, 0, what ); if ( !bit && v > 64 && !m.thorough ) v += 6;
        }
        u8 r = get( m, "fr_" + x.id, bg, { { x.reg, u8( old ) } }, x.reg ); m.check( r == (old & x.mask) >> sh, "function-read", [&]{ return mc::cat( x.id, " of ", hex( old ), " is ", +r ); } );
        m.state( mc::mix( mc::mix( x.reg, x.mask ), old ) );
    } ); } );
    mc::explore( "set only", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & x = m.pick( onlyset ); unsigned old = unsigned( m.choose( 256 ) ); int bg = m.choose( 3 ); Mega & c = dev(); std::string what = mc::cat( x.id, " from ", hex( old ) );
        File f = run( m, at( "on_" + x.id ), bg, { { x.reg, u8( old ) } } ); f.v[x.reg] |= x.mask; same( m, c, f, x.reg, c.w1c[x.reg], "set-only", what ); strobes( m, c, 0, 0, what );
        u8 r = get( m, "fr_" + x.id, bg, { { x.reg, u8( old ) } }, x.reg ); m.check( bool( r ) == bool( old & x.mask ), "set-only-read", [&]{ return what; } ); m.state( mc::mix( mc::mix( x.reg, x.mask ), old ) );
    } ); } );
    mc::explore( "read only", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & x = m.pick( onlyread ); unsigned old = unsigned( m.choose( 256 ) ); int bg = m.choose( 3 ); u8 r = get( m, "fr_" + x.id, bg, { { x.reg, u8( old ) } }, x.reg ); unsigned w = (old & x.mask) >> low( x.mask );
        m.check( r == w || ((x.mask & (x.mask - 1)) == 0 && bool( r ) == bool( w )), "read-only", [&]{ return mc::cat( x.id, " of ", hex( old ), " is ", +r ); } ); m.state( mc::mix( mc::mix( x.reg, x.mask ), old ) );
    } ); } );
    mc::explore( "pins, senses, bus status", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        Mega & c = dev(); unsigned level = unsigned( m.choose( 256 ) ); int d = m.choose( 4 ); u8 ddr[] = { 0, 0xff, 0x0f, u8( ~level ) }; int p = m.choose( 3 ); char P = "BCD"[p]; u8 base = u8( PINB_ + 3 * p );
        background( c, 2 ); c.pins[p] = u8( level ); c.data[base + 1] = ddr[d]; File f = file( c ); u8 out = f.v[base + 2]; u8 w = u8( (out & ddr[d]) | (level & ~ddr[d]) );
        u8 r = u8( c.call( at( mc::cat( "pin", P ) ) ) >> 16 ); m.step(); m.check( r == w, "pin", [&]{ return mc::cat( "port ", P, " reads ", hex( r ), " not ", hex( w ) ); } ); same( m, c, f, 0, 0, "read-changes", "pins" );
        for ( int b = 0; b < (P == 'C' ? 7 : 8); ++b ) { u8 q = u8( c.call( at( mc::cat( "inp", P, b ) ) ) >> 16 ); m.step(); m.check( q == (w >> b & 1), "pin", [&]{ return mc::cat( "pin ", P, b, " reads ", +q ); } ); }
        if ( p < 2 ) for ( unsigned v = 0; v < 4; ++v ) { File g = run( m, at( mc::cat( "sn", p, "_", v ) ), 2, { { EICRA_, u8( level ) } } ); g.v[EICRA_] = u8( (level & ~(3u << 2 * p)) | v << 2 * p ); same( m, c, g, EICRA_, 0, "sense", mc::cat( "interrupt ", p, " sense ", v ) ); }
        for ( unsigned v = 1; v < 8; ++v ) { u8 q = get( m, mc::cat( "is_", v ), 2, { { TWSR_, u8( level ) } }, TWSR_ ); m.check( q == ((level & 0xf8) == v << 3), "status", [&]{ return mc::cat( "status register ", hex( level ), " compared with ", hex( v << 3 ) ); } ); }
        m.state( mc::mix( mc::mix( mc::u64( p ), level ), ddr[d] ) );
    } ); } );
)
