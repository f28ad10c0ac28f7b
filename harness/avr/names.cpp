// written by gen-settings.py: avr-libc's own addresses, to tie the simulator's register names to
#include <avr/io.h>
#define FN extern "C" __attribute__((used, noinline))
FN uint16_t at_PINB() { return (uint16_t) &PINB; }
FN uint16_t at_DDRB() { return (uint16_t) &DDRB; }
FN uint16_t at_PORTB() { return (uint16_t) &PORTB; }
FN uint16_t at_PINC() { return (uint16_t) &PINC; }
FN uint16_t at_DDRC() { return (uint16_t) &DDRC; }
FN uint16_t at_PORTC() { return (uint16_t) &PORTC; }
FN uint16_t at_PIND() { return (uint16_t) &PIND; }
FN uint16_t at_DDRD() { return (uint16_t) &DDRD; }
FN uint16_t at_PORTD() { return (uint16_t) &PORTD; }
FN uint16_t at_TIFR0() { return (uint16_t) &TIFR0; }
FN uint16_t at_TIFR1() { return (uint16_t) &TIFR1; }
FN uint16_t at_TIFR2() { return (uint16_t) &TIFR2; }
FN uint16_t at_PCIFR() { return (uint16_t) &PCIFR; }
FN uint16_t at_EIFR() { return (uint16_t) &EIFR; }
FN uint16_t at_EIMSK() { return (uint16_t) &EIMSK; }
FN uint16_t at_GPIOR0() { return (uint16_t) &GPIOR0; }
FN uint16_t at_EECR() { return (uint16_t) &EECR; }
FN uint16_t at_EEDR() { return (uint16_t) &EEDR; }
FN uint16_t at_EEARL() { return (uint16_t) &EEARL; }
FN uint16_t at_EEARH() { return (uint16_t) &EEARH; }
FN uint16_t at_GTCCR() { return (uint16_t) &GTCCR; }
FN uint16_t at_TCCR0A() { return (uint16_t) &TCCR0A; }
FN uint16_t at_TCCR0B() { return (uint16_t) &TCCR0B; }
FN uint16_t at_TCNT0() { return (uint16_t) &TCNT0; }
FN uint16_t at_OCR0A() { return (uint16_t) &OCR0A; }
FN uint16_t at_OCR0B() { return (uint16_t) &OCR0B; }
FN uint16_t at_GPIOR1() { return (uint16_t) &GPIOR1; }
FN uint16_t at_GPIOR2() { return (uint16_t) &GPIOR2; }
FN uint16_t at_ACSR() { return (uint16_t) &ACSR; }
FN uint16_t at_SMCR() { return (uint16_t) &SMCR; }
FN uint16_t at_MCUSR() { return (uint16_t) &MCUSR; }
FN uint16_t at_MCUCR() { return (uint16_t) &MCUCR; }
FN uint16_t at_WDTCSR() { return (uint16_t) &WDTCSR; }
FN uint16_t at_CLKPR() { return (uint16_t) &CLKPR; }
FN uint16_t at_PRR() { return (uint16_t) &PRR; }
FN uint16_t at_OSCCAL() { return (uint16_t) &OSCCAL; }
FN uint16_t at_PCICR() { return (uint16_t) &PCICR; }
FN uint16_t at_EICRA() { return (uint16_t) &EICRA; }
FN uint16_t at_PCMSK0() { return (uint16_t) &PCMSK0; }
FN uint16_t at_PCMSK1() { return (uint16_t) &PCMSK1; }
FN uint16_t at_PCMSK2() { return (uint16_t) &PCMSK2; }
FN uint16_t at_TIMSK0() { return (uint16_t) &TIMSK0; }
FN uint16_t at_TIMSK1() { return (uint16_t) &TIMSK1; }
FN uint16_t at_TIMSK2() { return (uint16_t) &TIMSK2; }
FN uint16_t at_ADCL() { return (uint16_t) &ADCL; }
FN uint16_t at_ADCH() { return (uint16_t) &ADCH; }
FN uint16_t at_ADCSRA() { return (uint16_t) &ADCSRA; }
FN uint16_t at_ADCSRB() { return (uint16_t) &ADCSRB; }
FN uint16_t at_ADMUX() { return (uint16_t) &ADMUX; }
FN uint16_t at_DIDR0() { return (uint16_t) &DIDR0; }
FN uint16_t at_DIDR1() { return (uint16_t) &DIDR1; }
FN uint16_t at_TCCR1A() { return (uint16_t) &TCCR1A; }
FN uint16_t at_TCCR1B() { return (uint16_t) &TCCR1B; }
FN uint16_t at_TCCR1C() { return (uint16_t) &TCCR1C; }
FN uint16_t at_TCNT1L() { return (uint16_t) &TCNT1L; }
FN uint16_t at_TCNT1H() { return (uint16_t) &TCNT1H; }
FN uint16_t at_ICR1L() { return (uint16_t) &ICR1L; }
FN uint16_t at_ICR1H() { return (uint16_t) &ICR1H; }
FN uint16_t at_OCR1AL() { return (uint16_t) &OCR1AL; }
FN uint16_t at_OCR1AH() { return (uint16_t) &OCR1AH; }
FN uint16_t at_OCR1BL() { return (uint16_t) &OCR1BL; }
FN uint16_t at_OCR1BH() { return (uint16_t) &OCR1BH; }
FN uint16_t at_TWBR() { return (uint16_t) &TWBR; }
FN uint16_t at_TWSR() { return (uint16_t) &TWSR; }
FN uint16_t at_TWAR() { return (uint16_t) &TWAR; }
FN uint16_t at_TWDR() { return (uint16_t) &TWDR; }
FN uint16_t at_TWCR() { return (uint16_t) &TWCR; }
FN uint16_t at_TWAMR() { return (uint16_t) &TWAMR; }
static_assert( COM0A1 == 7, "" );
static_assert( COM0A0 == 6, "" );
static_assert( COM0B1 == 5, "" );
static_assert( COM0B0 == 4, "" );
static_assert( WGM01 == 1, "" );
static_assert( WGM00 == 0, "" );
static_assert( FOC0A == 7, "" );
static_assert( FOC0B == 6, "" );
static_assert( WGM02 == 3, "" );
static_assert( CS02 == 2, "" );
static_assert( CS01 == 1, "" );
static_assert( CS00 == 0, "" );
static_assert( COM1A1 == 7, "" );
static_assert( COM1A0 == 6, "" );
static_assert( COM1B1 == 5, "" );
static_assert( COM1B0 == 4, "" );
static_assert( WGM11 == 1, "" );
static_assert( WGM10 == 0, "" );
static_assert( ICNC1 == 7, "" );
static_assert( ICES1 == 6, "" );
static_assert( WGM13 == 4, "" );
static_assert( WGM12 == 3, "" );
static_assert( CS12 == 2, "" );
static_assert( CS11 == 1, "" );
static_assert( CS10 == 0, "" );
static_assert( FOC1A == 7, "" );
static_assert( FOC1B == 6, "" );
static_assert( OCIE0B == 2, "" );
static_assert( OCIE0A == 1, "" );
static_assert( TOIE0 == 0, "" );
static_assert( ICIE1 == 5, "" );
static_assert( OCIE1B == 2, "" );
static_assert( OCIE1A == 1, "" );
static_assert( TOIE1 == 0, "" );
static_assert( OCF0B == 2, "" );
static_assert( OCF0A == 1, "" );
static_assert( TOV0 == 0, "" );
static_assert( ICF1 == 5, "" );
static_assert( OCF1B == 2, "" );
static_assert( OCF1A == 1, "" );
static_assert( TOV1 == 0, "" );
static_assert( TSM == 7, "" );
static_assert( PSRASY == 1, "" );
static_assert( PSRSYNC == 0, "" );
static_assert( EEPM1 == 5, "" );
static_assert( EEPM0 == 4, "" );
static_assert( EERIE == 3, "" );
static_assert( EEMPE == 2, "" );
static_assert( EEPE == 1, "" );
static_assert( EERE == 0, "" );
static_assert( ACD == 7, "" );
static_assert( ACBG == 6, "" );
static_assert( ACO == 5, "" );
static_assert( ACI == 4, "" );
static_assert( ACIE == 3, "" );
static_assert( ACIC == 2, "" );
static_assert( ACIS1 == 1, "" );
static_assert( ACIS0 == 0, "" );
static_assert( REFS1 == 7, "" );
static_assert( REFS0 == 6, "" );
static_assert( ADLAR == 5, "" );
static_assert( MUX3 == 3, "" );
static_assert( MUX2 == 2, "" );
static_assert( MUX1 == 1, "" );
static_assert( MUX0 == 0, "" );
static_assert( ADEN == 7, "" );
static_assert( ADSC == 6, "" );
static_assert( ADATE == 5, "" );
static_assert( ADIF == 4, "" );
static_assert( ADIE == 3, "" );
static_assert( ADPS2 == 2, "" );
static_assert( ADPS1 == 1, "" );
static_assert( ADPS0 == 0, "" );
static_assert( ACME == 6, "" );
static_assert( ADTS2 == 2, "" );
static_assert( ADTS1 == 1, "" );
static_assert( ADTS0 == 0, "" );
static_assert( TWINT == 7, "" );
static_assert( TWEA == 6, "" );
static_assert( TWSTA == 5, "" );
static_assert( TWSTO == 4, "" );
static_assert( TWWC == 3, "" );
static_assert( TWEN == 2, "" );
static_assert( TWIE == 0, "" );
static_assert( TWS7 == 7, "" );
static_assert( TWS6 == 6, "" );
static_assert( TWS5 == 5, "" );
static_assert( TWS4 == 4, "" );
static_assert( TWS3 == 3, "" );
static_assert( TWPS1 == 1, "" );
static_assert( TWPS0 == 0, "" );
static_assert( TWA6 == 7, "" );
static_assert( TWA5 == 6, "" );
static_assert( TWA4 == 5, "" );
static_assert( TWA3 == 4, "" );
static_assert( TWA2 == 3, "" );
static_assert( TWA1 == 2, "" );
static_assert( TWA0 == 1, "" );
static_assert( TWGCE == 0, "" );
static_assert( ISC11 == 3, "" );
static_assert( ISC10 == 2, "" );
static_assert( ISC01 == 1, "" );
static_assert( ISC00 == 0, "" );
static_assert( INT1 == 1, "" );
static_assert( INT0 == 0, "" );
static_assert( INTF1 == 1, "" );
static_assert( INTF0 == 0, "" );
static_assert( PCIE2 == 2, "" );
static_assert( PCIE1 == 1, "" );
static_assert( PCIE0 == 0, "" );
static_assert( PCIF2 == 2, "" );
static_assert( PCIF1 == 1, "" );
static_assert( PCIF0 == 0, "" );
int main() { for (;;) ; }
