// regs_common.hpp - the whole register file before and after a call into the firmware
#ifndef VERIF_REGS_COMMON_HPP
#define VERIF_REGS_COMMON_HPP
#include "avrdev.hpp"
using namespace avr;

// contents of the other registers: zeros, ones, a pattern
inline void background( Mega & c, int kind )
{
    for ( unsigned a = 0x20; a < 0x100; ++a )
        if ( !Cpu::plain( u16( a ) ) ) c.data[a] = u8( (kind == 0 ? 0 : kind == 1 ? 0xff : u8( a * 0x35 + 0x59 )) & ~c.strobe[a] );
    for ( int p = 0; p < 3; ++p ) c.pins[p] = u8( kind == 0 ? 0 : kind == 1 ? 0xff : 0x6c + p * 0x31 );
    memset( c.struck, 0, 256 ); c.temp = 0xa9; c.adc_locked = false;
    c.f( I, kind != 1 );
}

struct File { u8 v[256]; };
inline File file( Mega const & c ) { File f; memcpy( f.v, c.data, 256 ); return f; }

// after a call, the registers must be `want`; bits of `may` (interrupt flags of the register written) may also have been cleared
inline void same( mc::Ctx & m, Mega const & c, File const & want, u8 reg, u8 may, char const * sig, std::string const & what )
{
    for ( unsigned a = 0x20; a < 0x100; ++a )
    {
        if ( Cpu::plain( u16( a ) ) ) continue;
        u8 d = u8( c.data[a] ^ want.v[a] );
        if ( a == reg ) { u8 cleared = u8( want.v[a] & ~c.data[a] ); d = u8( d & ~(cleared & may) ); }
        if ( d ) m.violate( a == reg ? sig : std::string( sig ) + "-elsewhere", mc::cat( what, ": register ", hex( a ), " becomes ", hex( c.data[a] ), " not ", hex( want.v[a] ) ) );
    }
    // interrupts stay enabled or disabled, unless the access is meant to be atomic
    m.check( ((c.data[a_sreg] ^ want.v[a_sreg]) & (1 << avr::I)) == 0 || !strcmp( sig, "pwm-write" ), "interrupts", [&]{ return mc::cat( what, ": interrupts become ", c.f( I ) ? "enabled" : "disabled" ); } );
}
inline void strobes( mc::Ctx & m, Mega const & c, u8 reg, u8 mask, std::string const & what )
{
    for ( unsigned a = 0; a < 256; ++a )
        m.check( c.struck[a] == (a == reg ? mask : 0), "strobe", [&]{ return mc::cat( what, ": register ", hex( a ), " is struck with ", hex( c.struck[a] ) ); } );
}
inline int low( unsigned mask ) { int n = 0; while ( !(mask >> n & 1) ) ++n; return n; }

// the simulator's register addresses are those of avr-libc:
inline void names( mc::Ctx & m )
{
    Mega & c = device( "names" ); m.step();
#define NAME(r) m.check( u16( c.call( image( "names" ).at( "at_" #r ) ) >> 16 ) == r##_, "simulator-address", [&]{ return #r; } );
#include "avr/names.inc"
#undef NAME
}
#endif
