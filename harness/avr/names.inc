NAME( PINB )
NAME( DDRB )
NAME( PORTB )
NAME( PINC )
NAME( DDRC )
NAME( PORTC )
NAME( PIND )
NAME( DDRD )
NAME( PORTD )
NAME( TIFR0 )
NAME( TIFR1 )
NAME( TIFR2 )
NAME( PCIFR )
NAME( EIFR )
NAME( EIMSK )
NAME( GPIOR0 )
NAME( EECR )
NAME( EEDR )
NAME( EEARL )
NAME( EEARH )
NAME( GTCCR )
NAME( TCCR0A )
NAME( TCCR0B )
NAME( TCNT0 )
NAME( OCR0A )
NAME( OCR0B )
NAME( GPIOR1 )
NAME( GPIOR2 )
NAME( ACSR )
NAME( SMCR )
NAME( MCUSR )
NAME( MCUCR )
NAME( WDTCSR )
NAME( CLKPR )
NAME( PRR )
NAME( OSCCAL )
NAME( PCICR )
NAME( EICRA )
NAME( PCMSK0 )
NAME( PCMSK1 )
NAME( PCMSK2 )
NAME( TIMSK0 )
NAME( TIMSK1 )
NAME( TIMSK2 )
NAME( ADCL )
NAME( ADCH )
NAME( ADCSRA )
NAME( ADCSRB )
NAME( ADMUX )
NAME( DIDR0 )
NAME( DIDR1 )
NAME( TCCR1A )
NAME( TCCR1B )
NAME( TCCR1C )
NAME( TCNT1L )
NAME( TCNT1H )
NAME( ICR1L )
NAME( ICR1H )
NAME( OCR1AL )
NAME( OCR1AH )
NAME( OCR1BL )
NAME( OCR1BH )
NAME( TWBR )
NAME( TWSR )
NAME( TWAR )
NAME( TWDR )
NAME( TWCR )
NAME( TWAMR )
