// U01: reading and writing a bit field of a device register: every field x every register content x every value, on the
// real firmware code, instruction by instruction.
#include "avrdev.hpp"
using namespace avr;

struct Field { int h, l; };
static std::vector<Field> fields( int bits ) { std::vector<Field> v; for ( int h = 0; h < bits; ++h ) for ( int l = 0; l <= h; ++l ) v.push_back( { h, l } ); return v; }
static unsigned mask( int h, int l ) { return ((2u << h) - 1) & ~((1u << l) - 1); }
static Mega & cpu() { return device( "fields" ); }
static char const * const name_of[] = { "0x3e", "0x4a", "0x6d" };
static u8 const addr_of[] = { 0x3e, 0x4a, 0x6d };

// run one access; the register must end up as `want`, no other device register may be touched, and the bits outside
// the field must keep their value all the time:
static u16 access( mc::Ctx & m, std::string const & fn, u32 addr, unsigned a, unsigned bytes, unsigned old, unsigned arg, unsigned want, unsigned field, bool may_write, char const * what )
{
    Mega & c = cpu();
    for ( unsigned i = 0; i < bytes; ++i ) c.data[a + i] = u8( old >> 8 * i );
    u16 s0 = c.sp();
    c.enter( addr ); c.pair( 24, u16( arg ) ); c.run(); m.step();
    unsigned now = 0; for ( unsigned i = bytes; i--; ) now = now << 8 | c.data[a + i];
    auto detail = [&]{ return mc::cat( fn, " value ", arg, " register ", hex( old ), " becomes ", hex( now ), " not ", hex( want ) ); };
    m.check( now == want, what, detail );
    m.check( c.sp() == s0, "stack", detail );
    int writes = 0;
    for ( auto & x : c.log )
    {
        m.check( x.address >= a && x.address < a + bytes, "other-register", [&]{ return mc::cat( fn, " accesses ", hex( x.address ) ); } );
        if ( x.write && x.address >= a && x.address < a + bytes )
        {
            ++writes;
            unsigned sh = 8 * (x.address - a); u8 out = u8( ~(field >> sh) ), o = u8( old >> sh );
            m.check( ((x.value ^ o) & x.mask & out) == 0, "neighbour", [&]{ return mc::cat( fn, " value ", arg, " register ", hex( old ), ": writes ", hex( x.value ) ); } );
        }
    }
    m.check( may_write ? writes >= 1 : writes == 0, may_write ? "not-written" : "written", detail );
    m.state( mc::mix( mc::mix( a, field ), now ) );
    return c.result16();
}

MC_MAIN(
    mc::explore( "byte registers", 3, []( mc::Ctx & m ) { guarded( m, [&]
    {
        static auto const fs = fields( 8 );
        int w = m.choose( 3 ); auto f = m.pick( fs ); unsigned old = unsigned( m.choose( 256 ) ); unsigned a = addr_of[w];
        unsigned fm = mask( f.h, f.l ); bool bit = f.h == f.l;
        static std::map<int, std::vector<u32>> table;        // addresses of the functions of this field
        std::string n = mc::cat( "_", name_of[w], "_", f.h, "_", f.l ); std::string b = mc::cat( "_", name_of[w], "_", f.h );
        auto & t = table[ w * 64 + f.h * 8 + f.l ];
        if ( t.empty() ) { for ( auto p : { "rd", "wr", "lz" } ) t.push_back( image( "fields" ).at( p + n ) ); if ( bit ) for ( auto p : { "st", "cl", "tg", "ro" } ) t.push_back( image( "fields" ).at( p + b ) ); }
        u8 got = u8( access( m, "read" + n, t[0], a, 1, old, 0, old, 0, false, "read-changes" ) );
        m.check( got == (old & fm) >> f.l, "read", [&]{ return mc::cat( "read", n, " of ", hex( old ), " is ", +got ); } );
        if ( bit )
        {
            access( m, "set" + b, t[3], a, 1, old, 0, old | fm, fm, true, "set" );
            access( m, "clear" + b, t[4], a, 1, old, 0, old & ~fm, fm, true, "clear" );
            access( m, "toggle" + b, t[5], a, 1, old, 0, old ^ fm, fm, true, "toggle" );
            got = u8( access( m, "read-only" + b, t[6], a, 1, old, 0, old, 0, false, "read-changes" ) );
            m.check( got == (old & fm) >> f.l, "read", [&]{ return mc::cat( "read-only", b, " of ", hex( old ), " is ", +got ); } );
        }
        unsigned const inside = fm >> f.l;
        for ( unsigned v = 0; v < 256; ++v )
        {   // a value that does not fit is cut to the field (of one bit: any non-zero value is a one)
            unsigned want = (old & ~fm) | (bit ? (v ? fm : 0) : (v << f.l & fm));
            access( m, "write" + n, t[1], a, 1, old, v, want, fm, true, "write" );
            if ( v <= inside ) access( m, "write_lazy" + n, t[2], a, 1, old, v, want, fm, true, "write-lazy" );
            else if ( !bit ) access( m, "write_lazy" + n, t[2], a, 1, old, v, want, fm, true, "write-lazy" );
        }
        m.sample( [&]{ return mc::cat( "field", n, " of ", hex( old ) ); } );
    } ); } );
    mc::explore( "word registers", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        static std::vector<Field> fs = []{ std::vector<Field> v; for ( auto f : fields( 16 ) ) if ( image( "fields" ).has( mc::cat( "wrd_", f.h, "_", f.l ) ) ) v.push_back( f ); return v; }();
        static std::vector<unsigned> vs = []{ std::vector<unsigned> v; for ( int i = 0; i < 16; ++i ) { v.push_back( 1u << i ); v.push_back( 0xffff & ~(1u << i) ); v.push_back( (1u << i) - 1 ); } v.push_back( 0xffff ); v.push_back( 0xa5c3 ); v.push_back( 0x00ff ); return v; }();
        auto f = m.pick( fs ); unsigned old = m.pick( vs ); std::string n = mc::cat( "_", f.h, "_", f.l ); unsigned fm = mask( f.h, f.l ); bool bit = f.h == f.l;
        u16 got = u16( access( m, "word read" + n, image( "fields" ).at( "wrd" + n ), 0x4a, 2, old, 0, old, 0, false, "read-changes" ) );
        m.check( got == (old & fm) >> f.l, "read", [&]{ return mc::cat( "read", n, " of ", hex( old ), " is ", +got ); } );
        u32 wr = image( "fields" ).at( "wwr" + n ); u32 lz = image( "fields" ).at( "wlz" + n );
        for ( unsigned v : vs )
        {
            unsigned want = (old & ~fm) | (bit ? (v ? fm : 0) : (v << f.l & fm));
            access( m, "word write" + n, wr, 0x4a, 2, old, v, want, fm, true, "write" );
            if ( !bit || v == 1 ) access( m, "word write_lazy" + n, lz, 0x4a, 2, old, v, want, fm, true, "write-lazy" );
        }
    } ); } );
    mc::explore( "whole register", 1, []( mc::Ctx & m ) { guarded( m, [&]
    {
        unsigned old = unsigned( m.choose( 256 ) );
        u8 got = u8( access( m, "register read", image( "fields" ).at( "reg_rd" ), 0x6d, 1, old, 0, old, 0, false, "read-changes" ) );
        m.check( got == old, "read", [&]{ return mc::cat( "register read of ", hex( old ), " is ", +got ); } );
        for ( unsigned v = 0; v < 256; ++v ) access( m, "register write", image( "fields" ).at( "reg_wr" ), 0x6d, 1, old, v, v, 0xff, true, "write" );
    } ); } );
)
