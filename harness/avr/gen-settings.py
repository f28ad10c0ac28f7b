#!/usr/bin/env python3
"""writes settings.cpp (firmware) and settings.inc (the datasheet's answer for the explorer) from one table of facts taken
from the ATmega328P datasheet (run once; the results are committed; fw 'names' ties the register names to avr-libc's)"""
import os
here = os.path.dirname(os.path.abspath(__file__))
M = 'mcu::atmega328::'
onoff = 'off on'
cs = 'none x1 x8 x64 x256 x1024 ext1_falling_adge ext1_rising_adge'
com = 'none toggle clear set'
# namespace, type, register, mask, enumerators in order of their value
S = [
 ('mem::eeprom::program', 'mode', 'EECR_', 0x30, 'erase_write erase_only write_only'),
 ('mem::eeprom::enable', 'master_write', 'EECR_', 0x04, onoff), ('mem::eeprom::enable', 'write', 'EECR_', 0x02, onoff),
 ('mem::eeprom::enable', 'read', 'EECR_', 0x01, onoff), ('mem::eeprom::interrupt', 'on_ready', 'EECR_', 0x08, onoff),
 ('tc0::input', 'clock', 'TCCR0B_', 0x07, cs), ('tc0::output::a', 'mode', 'TCCR0A_', 0xc0, com), ('tc0::output::b', 'mode', 'TCCR0A_', 0x30, com),
 ('tc0::enable::interrupt::on', 'match_a', 'TIMSK0_', 0x02, onoff), ('tc0::enable::interrupt::on', 'match_b', 'TIMSK0_', 0x04, onoff),
 ('tc0::enable::interrupt::on', 'overflow', 'TIMSK0_', 0x01, onoff),
 ('tc1::input', 'clock', 'TCCR1B_', 0x07, cs), ('tc1::input::capture', 'edge', 'TCCR1B_', 0x40, 'falling rising'),
 ('tc1::output::a', 'mode', 'TCCR1A_', 0xc0, com), ('tc1::output::b', 'mode', 'TCCR1A_', 0x30, com),
 ('tc1::enable::interrupt::on', 'capture', 'TIMSK1_', 0x20, onoff), ('tc1::enable::interrupt::on', 'match_a', 'TIMSK1_', 0x02, onoff),
 ('tc1::enable::interrupt::on', 'match_b', 'TIMSK1_', 0x04, onoff), ('tc1::enable::interrupt::on', 'overflow', 'TIMSK1_', 0x01, onoff),
 ('tcp', 'synchronization', 'GTCCR_', 0x80, onoff), ('tcp::reset::prescaler', 'tc2', 'GTCCR_', 0x02, onoff), ('tcp::reset::prescaler', 'tc01', 'GTCCR_', 0x01, onoff),
 ('twi::control::prescale', 'factor', 'TWSR_', 0x03, 'x1 x4 x16 x64'), ('twi::enable', 'interface', 'TWCR_', 0x04, onoff),
 ('twi::enable', 'interrupt', 'TWCR_', 0x01, onoff), ('twi::enable', 'general_call', 'TWAR_', 0x01, onoff),
 ('ac::input::select', 'bandgap_ref', 'ACSR_', 0x40, onoff), ('ac::output::interrupt', 'on', 'ACSR_', 0x03, 'toggle - falling_edge rising_edge'),
 ('ac::enable', 'interrupt', 'ACSR_', 0x08, onoff), ('ac::enable::input', 'capture', 'ACSR_', 0x04, onoff), ('ac::disable::analog', 'comparator', 'ACSR_', 0x80, onoff),
 ('adc::conversion', 'adjustment', 'ADMUX_', 0x20, 'right left'), ('adc::input', 'reference', 'ADMUX_', 0xc0, 'aref avcc - intern_1v1'),
 ('adc::input', 'channel', 'ADMUX_', 0x0f, 'ch0 ch1 ch2 ch3 ch4 ch5 ch6 ch7 ch8 - - - - - internal_1v1 gnd'),
 ('adc::enable', 'adc', 'ADCSRA_', 0x80, onoff), ('adc::enable', 'interrupt', 'ADCSRA_', 0x08, onoff), ('adc::enable', 'auto_trigger', 'ADCSRA_', 0x20, onoff),
 ('adc::enable', 'comparator', 'ADCSRB_', 0x40, onoff),
 ('adc::trigger', 'on', 'ADCSRB_', 0x07, 'free_run ac ei0 tc0_match_a tc0_overflow tc1_match_b tc1_overflow tc1_capture_event'),
 ('adc::prescale', 'factor', 'ADCSRA_', 0x07, 'x02 x2 x4 x8 x16 x32 x64 x128'),
]
# a timer's waveform is spread over two registers: namespace, register a (bits 1,0), register b, mask in b, enumerators
WAVE = [
 ('tc0', 'TCCR0A_', 'TCCR0B_', 0x08, 'normal pwm_phase_correct ctc fast_pwm - pwm_phase_correct_ocr0a - fast_pwm_ocr0a'),
 ('tc1', 'TCCR1A_', 'TCCR1B_', 0x18, 'normal pwm_phase_correct_8bit pwm_phase_correct_9bit pwm_phase_correct_10bit ctc_ocr1a fast_pwm_phase_correct_8bit '
  'fast_pwm_phase_correct_9bit fast_pwm_phase_correct_10bit pwm_phase_frequency_correct_icr1 pwm_phase_frequency_correct_ocr1a pwm_phase_correct_icr1 '
  'pwm_phase_correct_ocr1a ctc_icr1 - fast_pwm_icr1 fast_pwm_ocr1a'),
]
# whole registers: namespace, type, register, bytes
VAL = [('tc0::value', 'timer', 'TCNT0_', 1), ('tc0::value::compare', 'a', 'OCR0A_', 1), ('tc0::value::compare', 'b', 'OCR0B_', 1),
       ('tc1::value', 'timer', 'TCNT1L_', 2), ('tc1::value::compare', 'a', 'OCR1AL_', 2), ('tc1::value::compare', 'b', 'OCR1BL_', 2),
       ('twi::control', 'rate', 'TWBR_', 1), ('twi::protocol', 'data', 'TWDR_', 1), ('mem::eeprom', 'data', 'EEDR_', 1), ('mem::eeprom', 'address', 'EEARL_', 2)]
# plain functions: id, expression to write (uint8_t v), expression to read, register, mask
FUN = [('ei_int%d' % i, 'ei::enable_external_int%d( v )' % i, 'ei::enabled_external_int%d()' % i, 'EIMSK_', 1 << i) for i in (0, 1)]
FUN += [('ei_pcint%d' % i, 'ei::enable_pin_change_int%d( v )' % i, 'ei::enabled_pin_change_int%d()' % i, 'PCICR_', 1 << i) for i in (0, 1, 2)]
FUN += [('ei_pcmsk%d' % i, 'ei::pin_change_interrupt_mask%d( v )' % i, 'ei::pin_change_interrupt_mask%d()' % i, 'PCMSK%d_' % i, 0x7f if i == 1 else 0xff) for i in (0, 1, 2)]
FUN += [('ei_pcmsk%d_bit%d' % (i, b), 'ei::pcmsk<ei::pcmsk%d>::bit<%d>::write( v )' % (i, b), 'ei::pcmsk<ei::pcmsk%d>::bit<%d>::read()' % (i, b), 'PCMSK%d_' % i, 1 << b)
        for i in (0, 1, 2) for b in range(8) if (i, b) != (1, 7)]
FUN += [('ei_sense%d' % i, 'ei::interrupt_sense<eint::int%d>( ei::sense( v ) )' % i, '(uint8_t) ei::interrupt_sense<eint::int%d>()' % i, 'EICRA_', 3 << 2 * i) for i in (0, 1)]
FUN += [('gp%d' % i, 'mem::gpio<mem::r%d>::whole::write( v )' % i, 'mem::gpio<mem::r%d>::whole::read()' % i, 'GPIOR%d_' % i, 0xff) for i in (0, 1, 2)]
FUN += [('gp%d_bit%d' % (i, b), 'mem::gpio<mem::r%d>::bit<%d>::write( v )' % (i, b), 'mem::gpio<mem::r%d>::bit<%d>::read()' % (i, b), 'GPIOR%d_' % i, 1 << b)
        for i in (0, 1, 2) for b in range(8)]
for P in 'BCD':
    top = 0x7f if P == 'C' else 0xff
    FUN += [('ddr%s' % P, 'gpio<port::%s>::ddr::write( v )' % P, 'gpio<port::%s>::ddr::read()' % P, 'DDR%s_' % P, top),
            ('port%s' % P, 'gpio<port::%s>::port::write( v )' % P, 'gpio<port::%s>::port::read()' % P, 'PORT%s_' % P, top)]
    for b in range(8):
        if top >> b & 1:
            FUN += [('dir%s%d' % (P, b), 'gpio<port::%s>::p<%d>::dir::write( v )' % (P, b), 'gpio<port::%s>::p<%d>::dir::read()' % (P, b), 'DDR%s_' % P, 1 << b),
                    ('out%s%d' % (P, b), 'gpio<port::%s>::p<%d>::out::write( v )' % (P, b), 'gpio<port::%s>::p<%d>::out::read()' % (P, b), 'PORT%s_' % P, 1 << b)]
FUN += [('tc1_noise', 'tc1::enable::capture::input_capture_noise_canceler( v )', 'tc1::enable::capture::input_capture_noise_canceler()', 'TCCR1B_', 0x80),
        ('twi_address', 'set( twi::protocol::address( v ) )', '(uint8_t) current( twi::protocol::address{} )', 'TWAR_', 0xfe),
        ('adc_didr0', 'adc::reg::didr0::write( v )', 'adc::reg::didr0::read()', 'DIDR0_', 0x3f), ('ac_didr1', 'ac::reg::didr1::write( v )', 'ac::reg::didr1::read()', 'DIDR1_', 0x03)]
# functions that only set a bit: id, expression, reading expression, register, mask
ONE = [('twi_start', 'set( twi::protocol::start{} )', 'current( twi::protocol::start{} )', 'TWCR_', 0x20), ('twi_stop', 'set( twi::protocol::stop{} )', 'current( twi::protocol::stop{} )', 'TWCR_', 0x10),
       ('twi_ack', 'set( twi::protocol::ack{} )', 'current( twi::protocol::ack{} )', 'TWCR_', 0x40), ('adc_start', 'adc::conversion::start()', 'adc::reg::adcsra::adsc::read()', 'ADCSRA_', 0x40)]
# what can only be read: id, expression, register, mask
READ = [('ac_state', 'current( ac::output::state{} )', 'ACSR_', 0x20), ('twi_status', '(uint8_t) current( twi::protocol::status{} )', 'TWSR_', 0xf8), ('twi_wcoll', 'current( twi::protocol::wcoll{} )', 'TWCR_', 0x08),
        ('adc_lsb', 'adc::conversion::lsb()', 'ADCL_', 0xff), ('adc_msb', 'adc::conversion::msb()', 'ADCH_', 0xff), ('twi_flag_', 'current( twi::interrupt::flag{} )', 'TWCR_', 0x80)]
# flags cleared by writing a one: id, clear, read, register, bit
FLAG = [('tc0_a', 'clear( tc0::interrupt::compare::flag::a{} )', 'current( tc0::interrupt::compare::flag::a{} )', 'TIFR0_', 1), ('tc0_b', 'clear( tc0::interrupt::compare::flag::b{} )', 'current( tc0::interrupt::compare::flag::b{} )', 'TIFR0_', 2),
        ('tc0_ov', 'clear( tc0::interrupt::overflow::flag{} )', 'current( tc0::interrupt::overflow::flag{} )', 'TIFR0_', 0),
        ('tc1_a', 'clear( tc1::interrupt::compare::flag::a{} )', 'current( tc1::interrupt::compare::flag::a{} )', 'TIFR1_', 1), ('tc1_b', 'clear( tc1::interrupt::compare::flag::b{} )', 'current( tc1::interrupt::compare::flag::b{} )', 'TIFR1_', 2),
        ('tc1_ov', 'clear( tc1::interrupt::overflow::flag{} )', 'current( tc1::interrupt::overflow::flag{} )', 'TIFR1_', 0), ('tc1_icf', 'clear( tc1::interrupt::capture::flag{} )', 'current( tc1::interrupt::capture::flag{} )', 'TIFR1_', 5),
        ('adc', 'clear( adc::interrupt::flag{} )', 'current( adc::interrupt::flag{} )', 'ADCSRA_', 4), ('ac', 'clear( ac::interrupt::flag{} )', 'current( ac::interrupt::flag{} )', 'ACSR_', 4),
        ('twi', 'clear( twi::interrupt::flag{} )', 'current( twi::interrupt::flag{} )', 'TWCR_', 7)]
FLAG += [('int%d' % i, 'ei::clear_external_int%d_flag()' % i, 'ei::external_int%d_flag()' % i, 'EIFR_', i) for i in (0, 1)]
FLAG += [('pcint%d' % i, 'ei::clear_pin_change_int%d_flag()' % i, 'ei::pin_change_int%d_flag()' % i, 'PCIFR_', i) for i in (0, 1, 2)]
STROBE = [('tc0_fa', 'set( tc0::control::compare::force::a{} )', 'TCCR0B_', 0x80), ('tc0_fb', 'set( tc0::control::compare::force::b{} )', 'TCCR0B_', 0x40),
          ('tc1_fa', 'set( tc1::control::compare::force::a{} )', 'TCCR1C_', 0x80), ('tc1_fb', 'set( tc1::control::compare::force::b{} )', 'TCCR1C_', 0x40)]

fw = ['// written by gen-settings.py: every setting of the peripherals, by name and by value', '#include "mcu/atmega328.hpp"', 'using namespace mcu; using namespace mcu::atmega328;',
      '#define FN extern "C" __attribute__((used, noinline))']
inc = ['// written by gen-settings.py: what the datasheet says these settings do']
for ns, ty, reg, mask, names in S:
    i = (ns + '::' + ty).replace('::', '_'); t = ns + '::' + ty
    fw += ['FN void sv_%s( uint8_t v ) { %s::set( %s( v ) ); }' % (i, ns, t), 'FN uint8_t gt_%s() { return (uint8_t) %s::current( %s{} ); }' % (i, ns, t)]
    names = names.split()
    for v, n in enumerate(names):
        if n != '-': fw += ['FN void nm_%s_%s() { %s::set( %s::%s ); }' % (i, n, ns, t, n)]
    inc += ['SETTING( "%s", %s, 0x%02x, %s )' % (i, reg, mask, ', '.join('"%s"' % ('' if n == '-' else n) for n in names))]
for ns, ra, rb, mb, names in WAVE:
    names = names.split()
    fw += ['FN void wv_%s( uint8_t v ) { %s::output::set( %s::output::waveform( v ) ); }' % (ns, ns, ns), 'FN uint8_t wg_%s() { return (uint8_t) %s::output::current( %s::output::waveform{} ); }' % (ns, ns, ns),
           'FN void wc_%s( uint8_t v, uint8_t k ) { %s::output::set( %s::output::waveform( v ) ), %s::input::set( %s::input::clock( k ) ); }' % (ns, ns, ns, ns, ns)]
    for v, n in enumerate(names):
        if n != '-': fw += ['FN void wn_%s_%s() { %s::output::set( %s::output::waveform::%s ); }' % (ns, n, ns, ns, n)]
    inc += ['WAVEFORM( "%s", %s, %s, 0x%02x, %s )' % (ns, ra, rb, mb, ', '.join('"%s"' % ('' if n == '-' else n) for n in names))]
for ns, ty, reg, n in VAL:
    i = (ns + '::' + ty).replace('::', '_')
    fw += ['FN void vs_%s( uint%d_t v ) { %s::set( %s::%s( v ) ); }' % (i, 8 * n, ns, ns, ty), 'FN uint%d_t vg_%s() { return (uint%d_t) %s::current( %s::%s{} ); }' % (8 * n, i, 8 * n, ns, ns, ty)]
    inc += ['VALUE( "%s", %s, %d )' % (i, reg, n)]
fw += ['FN uint16_t adc_result() { return adc::conversion::result(); }']
for i, w, r, reg, mask in FUN:
    fw += ['FN void fw_%s( uint8_t v ) { %s; }' % (i, w), 'FN uint8_t fr_%s() { return %s; }' % (i, r)]
    inc += ['FUNCTION( "%s", %s, 0x%02x )' % (i, reg, mask)]
for i, w, r, reg, mask in ONE:
    fw += ['FN void on_%s() { %s; }' % (i, w), 'FN uint8_t fr_%s() { return %s; }' % (i, r)]; inc += ['ONLYSET( "%s", %s, 0x%02x )' % (i, reg, mask)]
for i, r, reg, mask in READ:
    fw += ['FN uint8_t fr_%s() { return %s; }' % (i, r)]; inc += ['ONLYREAD( "%s", %s, 0x%02x )' % (i, reg, mask)]
for P in 'BCD':
    fw += ['FN uint8_t pin%s() { return gpio<port::%s>::pin::read(); }' % (P, P)] + ['FN uint8_t inp%s%d() { return gpio<port::%s>::p<%d>::inp::read(); }' % (P, b, P, b) for b in range(7 if P == 'C' else 8)]
for i in (0, 1):
    for v, n in enumerate('low change falling_edge rising_edge'.split()):
        fw += ['FN void sn%d_%d() { ei::interrupt_sense<eint::int%d>( ei::sense::%s ); }' % (i, v, i, n)]
for v, n in ((1, 'S_transmitted'), (2, 'RS_transmitted'), (3, 'SLAW_transmitted_ACK'), (4, 'SLAW_transmitted_NACK'), (5, 'Data_transmitted_ACK'), (6, 'Data_transmitted_NACK'), (7, 'Arbitration_lost')):
    fw += ['FN uint8_t is_%d() { return current( twi::protocol::status{} ) == twi::protocol::status::%s; }' % (v, n)]
# two settings of one register, joined
n = 0
for a in S:
    for b in S:
        if a[2] == b[2] and a is not b:
            ia, ib = ['%s_%s' % (x[0].replace('::', '_'), x[1]) for x in (a, b)]
            fw += ['FN void pr_%d( uint8_t v, uint8_t w ) { %s::set( %s::%s( v ) ), %s::set( %s::%s( w ) ); }' % (n, a[0], a[0], a[1], b[0], b[0], b[1])]
            inc += ['PAIR( %d, "%s", "%s", %s, 0x%02x, 0x%02x )' % (n, ia, ib, a[2], a[3], b[3])]
            n += 1
fw += ['int main() { for (;;) ; }', '']
open(here + '/settings.cpp', 'w').write('\n'.join(fw)); open(here + '/settings.inc', 'w').write('\n'.join(inc) + '\n')
fl = ['// written by gen-settings.py: interrupt flags and compare strobes', '#include "mcu/atmega328.hpp"', 'using namespace mcu; using namespace mcu::atmega328;', '#define FN extern "C" __attribute__((used, noinline))']
fi = ['// written by gen-settings.py']
for i, c, r, reg, b in FLAG:
    fl += ['FN void fc_%s() { %s; }' % (i, c), 'FN uint8_t fg_%s() { return 0 != %s; }' % (i, r)]; fi += ['FLAG( "%s", %s, %d )' % (i, reg, b)]
for i, c, reg, mask in STROBE:
    fl += ['FN void ss_%s() { %s; }' % (i, c)]; fi += ['STROBE( "%s", %s, 0x%02x )' % (i, reg, mask)]
fl += ['FN uint8_t pl_%s( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( %s ) { %s; return i; } return n; }' % (i, r, c) for i, c, r, reg, b in FLAG]
fl += ['int main() { for (;;) ; }', '']
open(here + '/flags.cpp', 'w').write('\n'.join(fl)); open(here + '/flags.inc', 'w').write('\n'.join(fi) + '\n')
REGS = 'PINB DDRB PORTB PINC DDRC PORTC PIND DDRD PORTD TIFR0 TIFR1 TIFR2 PCIFR EIFR EIMSK GPIOR0 EECR EEDR EEARL EEARH GTCCR TCCR0A TCCR0B TCNT0 OCR0A OCR0B GPIOR1 GPIOR2 ACSR SMCR MCUSR MCUCR WDTCSR CLKPR PRR OSCCAL PCICR EICRA PCMSK0 PCMSK1 PCMSK2 TIMSK0 TIMSK1 TIMSK2 ADCL ADCH ADCSRA ADCSRB ADMUX DIDR0 DIDR1 TCCR1A TCCR1B TCCR1C TCNT1L TCNT1H ICR1L ICR1H OCR1AL OCR1AH OCR1BL OCR1BH TWBR TWSR TWAR TWDR TWCR TWAMR'.split()
nm = ['// written by gen-settings.py: avr-libc\'s own addresses, to tie the simulator\'s register names to', '#include <avr/io.h>', '#define FN extern "C" __attribute__((used, noinline))']
nm += ['FN uint16_t at_%s() { return (uint16_t) &%s; }' % (r, r) for r in REGS]
BITS = [('TCCR0A_', ['COM0A1', 'COM0A0', 'COM0B1', 'COM0B0', None, None, 'WGM01', 'WGM00']), ('TCCR0B_', ['FOC0A', 'FOC0B', None, None, 'WGM02', 'CS02', 'CS01', 'CS00']),
        ('TCCR1A_', ['COM1A1', 'COM1A0', 'COM1B1', 'COM1B0', None, None, 'WGM11', 'WGM10']), ('TCCR1B_', ['ICNC1', 'ICES1', None, 'WGM13', 'WGM12', 'CS12', 'CS11', 'CS10']), ('TCCR1C_', ['FOC1A', 'FOC1B'] + [None] * 6),
        ('TIMSK0_', [None] * 5 + ['OCIE0B', 'OCIE0A', 'TOIE0']), ('TIMSK1_', [None, None, 'ICIE1', None, None, 'OCIE1B', 'OCIE1A', 'TOIE1']), ('TIFR0_', [None] * 5 + ['OCF0B', 'OCF0A', 'TOV0']),
        ('TIFR1_', [None, None, 'ICF1', None, None, 'OCF1B', 'OCF1A', 'TOV1']), ('GTCCR_', ['TSM'] + [None] * 5 + ['PSRASY', 'PSRSYNC']), ('EECR_', [None, None, 'EEPM1', 'EEPM0', 'EERIE', 'EEMPE', 'EEPE', 'EERE']),
        ('ACSR_', ['ACD', 'ACBG', 'ACO', 'ACI', 'ACIE', 'ACIC', 'ACIS1', 'ACIS0']), ('ADMUX_', ['REFS1', 'REFS0', 'ADLAR', None, 'MUX3', 'MUX2', 'MUX1', 'MUX0']), ('ADCSRA_', ['ADEN', 'ADSC', 'ADATE', 'ADIF', 'ADIE', 'ADPS2', 'ADPS1', 'ADPS0']),
        ('ADCSRB_', [None, 'ACME', None, None, None, 'ADTS2', 'ADTS1', 'ADTS0']), ('TWCR_', ['TWINT', 'TWEA', 'TWSTA', 'TWSTO', 'TWWC', 'TWEN', None, 'TWIE']), ('TWSR_', ['TWS7', 'TWS6', 'TWS5', 'TWS4', 'TWS3', None, 'TWPS1', 'TWPS0']),
        ('TWAR_', ['TWA6', 'TWA5', 'TWA4', 'TWA3', 'TWA2', 'TWA1', 'TWA0', 'TWGCE']), ('EICRA_', [None] * 4 + ['ISC11', 'ISC10', 'ISC01', 'ISC00']), ('EIMSK_', [None] * 6 + ['INT1', 'INT0']), ('EIFR_', [None] * 6 + ['INTF1', 'INTF0']),
        ('PCICR_', [None] * 5 + ['PCIE2', 'PCIE1', 'PCIE0']), ('PCIFR_', [None] * 5 + ['PCIF2', 'PCIF1', 'PCIF0'])]
for reg, bs in BITS:
    for i, b in enumerate(bs):
        if b: nm += ['static_assert( %s == %d, "" );' % (b, 7 - i)]
nm += ['int main() { for (;;) ; }', '']
open(here + '/names.cpp', 'w').write('\n'.join(nm)); open(here + '/names.inc', 'w').write(''.join('NAME( %s )\n' % r for r in REGS))
