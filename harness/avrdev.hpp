// avrdev.hpp - what the device registers of an ATmega328P do when they are read and written (datasheet), for avrsim.hpp.
#ifndef VERIF_AVRDEV_HPP
#define VERIF_AVRDEV_HPP

#include "avrsim.hpp"
#include "mc.hpp"

namespace avr {

// register addresses, from the datasheet's register summary (fw-names.cpp checks them against avr-libc's names):

enum Reg : u8
{
    PINB_ = 0x23, DDRB_, PORTB_, PINC_, DDRC_, PORTC_, PIND_, DDRD_, PORTD_,
    TIFR0_ = 0x35, TIFR1_, TIFR2_, PCIFR_ = 0x3b, EIFR_, EIMSK_, GPIOR0_, EECR_, EEDR_, EEARL_, EEARH_, GTCCR_,
    TCCR0A_, TCCR0B_, TCNT0_, OCR0A_, OCR0B_, GPIOR1_ = 0x4a, GPIOR2_, ACSR_ = 0x50, SMCR_ = 0x53, MCUSR_, MCUCR_,
    WDTCSR_ = 0x60, CLKPR_, PRR_ = 0x64, OSCCAL_ = 0x66, PCICR_ = 0x68, EICRA_, PCMSK0_ = 0x6b, PCMSK1_, PCMSK2_,
    TIMSK0_, TIMSK1_, TIMSK2_, ADCL_ = 0x78, ADCH_, ADCSRA_, ADCSRB_, ADMUX_, DIDR0_ = 0x7e, DIDR1_,
    TCCR1A_, TCCR1B_, TCCR1C_, TCNT1L_ = 0x84, TCNT1H_, ICR1L_, ICR1H_, OCR1AL_, OCR1AH_, OCR1BL_, OCR1BH_,
    TWBR_ = 0xb8, TWSR_, TWAR_, TWDR_, TWCR_, TWAMR_
};

struct Mega : Cpu
{
    u8 temp = 0;                    // the byte buffer shared by the 16-bit registers of timer 1
    u8 pins[3] = { 0, 0, 0 };       // level put on the pins of port B, C, D from outside
    u8 w1c[256];                    // bits cleared by writing a one
    u8 ro[256];                     // bits that do not change by writing
    u8 strobe[256];                 // bits that act when written as one and read as zero
    u8 struck[256];                 // strobes given
    u16 adc_next = 0; bool adc_locked = false;

    explicit Mega( Image const & im ) : Cpu( im )
    {
        memset( w1c, 0, 256 ); memset( ro, 0, 256 ); memset( strobe, 0, 256 ); memset( struck, 0, 256 );
        w1c[TIFR0_] = 0x07; w1c[TIFR1_] = 0x27; w1c[TIFR2_] = 0x07; w1c[PCIFR_] = 0x07; w1c[EIFR_] = 0x03;
        w1c[ADCSRA_] = 0x10; w1c[ACSR_] = 0x10; w1c[TWCR_] = 0x80;
        strobe[TCCR0B_] = 0xc0; strobe[TCCR1C_] = 0xc0;
        ro[TIFR0_] = 0xf8; ro[TIFR1_] = 0xd8; ro[TIFR2_] = 0xf8; ro[PCIFR_] = 0xf8; ro[EIFR_] = 0xfc; ro[EIMSK_] = 0xfc;
        ro[PCICR_] = 0xf8; ro[EICRA_] = 0xf0; ro[TIMSK0_] = 0xf8; ro[TIMSK1_] = 0xd8; ro[TIMSK2_] = 0xf8;
        ro[TCCR0A_] = 0x0c; ro[TCCR0B_] = 0x30; ro[TCCR1A_] = 0x0c; ro[TCCR1B_] = 0x20; ro[TCCR1C_] = 0x3f;
        ro[GTCCR_] = 0x7c; ro[ACSR_] = 0x20; ro[ADMUX_] = 0x10; ro[ADCSRB_] = 0xb8; ro[ADCL_] = ro[ADCH_] = 0xff;
        ro[DIDR0_] = 0xc0; ro[DIDR1_] = 0xfc; ro[TWSR_] = 0xfc; ro[TWCR_] = 0x0a; ro[TWAMR_] = 0x01; ro[EECR_] = 0xc0; ro[EEARH_] = 0xfc;
        ro[PCMSK1_] = 0x80; ro[PORTC_] = ro[DDRC_] = 0x80;
    }

    // the bits of a register that hold something:
    u8 live( u8 a ) const { return u8( ~(ro[a] | strobe[a]) ); }

    static bool pair16( u8 a ) { return a == TCNT1L_ || a == ICR1L_ || a == OCR1AL_ || a == OCR1BL_; }

    u8 dev_read( u8 a ) override
    {
        if ( a == PINB_ || a == PINC_ || a == PIND_ )
        {
            int p = (a - PINB_) / 3;
            return u8( (data[a + 2] & data[a + 1]) | (pins[p] & ~data[a + 1]) );
        }
        if ( a == TCNT1L_ || a == ICR1L_ ) { temp = data[a + 1]; return data[a]; }
        if ( a == TCNT1H_ || a == ICR1H_ ) return temp;
        if ( a == ADCL_ ) adc_locked = true;
        if ( a == ADCH_ ) { u8 v = data[a]; adc_locked = false; return v; }
        return u8( data[a] & ~strobe[a] );
    }

    void dev_write( u8 a, u8 v, u8 mask ) override
    {
        if ( a == PINB_ || a == PINC_ || a == PIND_ ) { data[a + 2] ^= v & mask & u8( ~ro[a + 2] ); return; }
        if ( pair16( a ) ) { data[a] = v; data[a + 1] = temp; return; }
        if ( a == TCNT1H_ || a == ICR1H_ || a == OCR1AH_ || a == OCR1BH_ ) { temp = v; return; }
        u8 old = data[a];
        struck[a] |= v & mask & strobe[a];
        u8 plain = u8( mask & ~w1c[a] & ~ro[a] & ~strobe[a] );
        data[a] = u8( ((old & ~plain) | (v & plain)) & ~(v & mask & w1c[a]) );
    }

    // a finished conversion; while ADCL has been read and ADCH not, the result is lost:
    void adc_done( u16 v ) { if ( !adc_locked ) { data[ADCL_] = u8( v ); data[ADCH_] = u8( v >> 8 ); } }
};

// the firmware built from harness/avr/<name>.cpp; FIRMWARE is the directory bin/build.py puts the images in:

inline Image const & image( std::string const & name )
{
    static std::map<std::string, Image> all;
    auto p = all.find( name );
    if ( p == all.end() ) p = all.emplace( name, Image( ( FIRMWARE "/" + name + ".elf" ).c_str() ) ).first;
    return p->second;
}

// the device after start-up with that firmware:

struct Device { Mega now, fresh; };
inline std::map<std::string, Device> & devices() { static std::map<std::string, Device> all; return all; }
inline Mega & device( std::string const & name )
{
    auto & all = devices(); auto p = all.find( name );
    if ( p == all.end() ) { Mega c( image( name ) ); c.boot(); p = all.emplace( name, Device{ c, c } ).first; }
    return p->second.now;
}

// run a piece of an explorer on devices that have just started up; firmware that leaves its memory, or does not return, is a violation of the property under check:
template< typename F >
void guarded( mc::Ctx & m, F f )
{
    for ( auto & d : devices() ) d.second.now = d.second.fresh;
    try { f(); }
    catch ( Fault const & e ) { m.violate( "fault", e.what() ); }
}

inline std::string hex( unsigned v ) { char b[16]; snprintf( b, sizeof b, "0x%02x", v ); return b; }

} // namespace avr

#endif
