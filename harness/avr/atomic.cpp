// multi-byte variables shared with an interrupt, read and written through atomic()
#include "mcu/atmega328.hpp"
#include <avr/interrupt.h>
#define FN extern "C" __attribute__((used, noinline))

struct Six { uint16_t a, b, c; };
extern "C" { uint8_t isr_size, isr_reads; uint8_t * isr_at; uint8_t isr_n; uint8_t isr_in[4][8]; uint8_t isr_seen[4][8]; uint8_t isr_pwm; }

// the interrupt replaces the shared variable, or takes a look at it; or it sets compare value B
ISR( TIMER0_COMPA_vect )
{
    uint8_t k = isr_n++ & 3;
    if ( isr_pwm ) { OCR1B = isr_in[k][0] | isr_in[k][1] << 8; return; }
    for ( uint8_t i = 0; i < isr_size; ++i )
        if ( isr_reads ) isr_seen[k][i] = isr_at[i];
        else             isr_at[i] = isr_in[k][i];
}

#define SHARED( n, t, q ) \
    extern "C" { q t var_##n; } \
    FN t rd_##n() { return mcu::atomic( var_##n ); } \
    FN void wr_##n( t v ) { mcu::atomic( var_##n, v ); }
SHARED( vu8, uint8_t, volatile ) SHARED( vu16, uint16_t, volatile ) SHARED( vu32, uint32_t, volatile ) SHARED( vu64, uint64_t, volatile ) SHARED( vf, float, volatile )
SHARED( vs16, int16_t, volatile ) SHARED( vs32, int32_t, volatile )
SHARED( u8, uint8_t, ) SHARED( u16, uint16_t, ) SHARED( u32, uint32_t, ) SHARED( u64, uint64_t, ) SHARED( f, float, ) SHARED( s6, Six, )
// a narrower value written to a wider variable
FN void wr_narrow( uint8_t v ) { mcu::atomic( var_vu32, v ); }
// a variable reached by reference; two accesses in a row; waiting for a value
FN uint32_t rd_ref( uint32_t const & r ) { return mcu::atomic( r ); }
FN void rd_twice( uint32_t * out ) { out[0] = mcu::atomic( var_u32 ); out[1] = mcu::atomic( var_u32 ); }
FN uint8_t wait_for( uint16_t v ) { uint8_t n = 0; while ( mcu::atomic( var_u16 ) != v && n < 200 ) ++n; return n; }
FN void wr_twice( uint32_t a, uint32_t b ) { mcu::atomic( var_u32, a ); mcu::atomic( var_u32, b ); }
// the PWM output, with the other channel set from the interrupt
FN void pwm( uint16_t v ) { mcu::atmega328::tc1_pwm_on_a_pb1::write( v ); }
FN void oc1a( uint16_t v ) { mcu::atomic( OCR1A, v ); }
FN uint16_t rd_oc1a() { return mcu::atomic( OCR1A ); }
// the status register saved and restored around code that changes it
FN void sreg( uint8_t v ) { mcu::atmega328::core::scoped_sreg _; SREG = v; }
FN void sreg_cli() { mcu::atmega328::core::scoped_sreg _; cli(); ++var_vu8; }
FN uint8_t sreg_early( uint8_t v ) { mcu::atmega328::core::scoped_sreg _; SREG = v; if ( v & 1 ) return 3; SREG = 0; return 4; }
FN uint8_t sreg_nested( uint8_t v ) { mcu::atmega328::core::scoped_sreg _; SREG = v; uint8_t in; { mcu::atmega328::core::scoped_sreg s; SREG = uint8_t( ~v ); } in = SREG; return in; }
int main() { for (;;) ; }
