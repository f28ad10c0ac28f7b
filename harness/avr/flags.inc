// written by gen-settings.py
FLAG( "tc0_a", TIFR0_, 1 )
FLAG( "tc0_b", TIFR0_, 2 )
FLAG( "tc0_ov", TIFR0_, 0 )
FLAG( "tc1_a", TIFR1_, 1 )
FLAG( "tc1_b", TIFR1_, 2 )
FLAG( "tc1_ov", TIFR1_, 0 )
FLAG( "tc1_icf", TIFR1_, 5 )
FLAG( "adc", ADCSRA_, 4 )
FLAG( "ac", ACSR_, 4 )
FLAG( "twi", TWCR_, 7 )
FLAG( "int0", EIFR_, 0 )
FLAG( "int1", EIFR_, 1 )
FLAG( "pcint0", PCIFR_, 0 )
FLAG( "pcint1", PCIFR_, 1 )
FLAG( "pcint2", PCIFR_, 2 )
STROBE( "tc0_fa", TCCR0B_, 0x80 )
STROBE( "tc0_fb", TCCR0B_, 0x40 )
STROBE( "tc1_fa", TCCR1C_, 0x80 )
STROBE( "tc1_fb", TCCR1C_, 0x40 )
