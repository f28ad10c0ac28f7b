// written by gen-settings.py: what the datasheet says these settings do
SETTING( "mem_eeprom_program_mode", EECR_, 0x30, "erase_write", "erase_only", "write_only" )
SETTING( "mem_eeprom_enable_master_write", EECR_, 0x04, "off", "on" )
SETTING( "mem_eeprom_enable_write", EECR_, 0x02, "off", "on" )
SETTING( "mem_eeprom_enable_read", EECR_, 0x01, "off", "on" )
SETTING( "mem_eeprom_interrupt_on_ready", EECR_, 0x08, "off", "on" )
SETTING( "tc0_input_clock", TCCR0B_, 0x07, "none", "x1", "x8", "x64", "x256", "x1024", "ext1_falling_adge", "ext1_rising_adge" )
SETTING( "tc0_output_a_mode", TCCR0A_, 0xc0, "none", "toggle", "clear", "set" )
SETTING( "tc0_output_b_mode", TCCR0A_, 0x30, "none", "toggle", "clear", "set" )
SETTING( "tc0_enable_interrupt_on_match_a", TIMSK0_, 0x02, "off", "on" )
SETTING( "tc0_enable_interrupt_on_match_b", TIMSK0_, 0x04, "off", "on" )
SETTING( "tc0_enable_interrupt_on_overflow", TIMSK0_, 0x01, "off", "on" )
SETTING( "tc1_input_clock", TCCR1B_, 0x07, "none", "x1", "x8", "x64", "x256", "x1024", "ext1_falling_adge", "ext1_rising_adge" )
SETTING( "tc1_input_capture_edge", TCCR1B_, 0x40, "falling", "rising" )
SETTING( "tc1_output_a_mode", TCCR1A_, 0xc0, "none", "toggle", "clear", "set" )
SETTING( "tc1_output_b_mode", TCCR1A_, 0x30, "none", "toggle", "clear", "set" )
SETTING( "tc1_enable_interrupt_on_capture", TIMSK1_, 0x20, "off", "on" )
SETTING( "tc1_enable_interrupt_on_match_a", TIMSK1_, 0x02, "off", "on" )
SETTING( "tc1_enable_interrupt_on_match_b", TIMSK1_, 0x04, "off", "on" )
SETTING( "tc1_enable_interrupt_on_overflow", TIMSK1_, 0x01, "off", "on" )
SETTING( "tcp_synchronization", GTCCR_, 0x80, "off", "on" )
SETTING( "tcp_reset_prescaler_tc2", GTCCR_, 0x02, "off", "on" )
SETTING( "tcp_reset_prescaler_tc01", GTCCR_, 0x01, "off", "on" )
SETTING( "twi_control_prescale_factor", TWSR_, 0x03, "x1", "x4", "x16", "x64" )
SETTING( "twi_enable_interface", TWCR_, 0x04, "off", "on" )
SETTING( "twi_enable_interrupt", TWCR_, 0x01, "off", "on" )
SETTING( "twi_enable_general_call", TWAR_, 0x01, "off", "on" )
SETTING( "ac_input_select_bandgap_ref", ACSR_, 0x40, "off", "on" )
SETTING( "ac_output_interrupt_on", ACSR_, 0x03, "toggle", "", "falling_edge", "rising_edge" )
SETTING( "ac_enable_interrupt", ACSR_, 0x08, "off", "on" )
SETTING( "ac_enable_input_capture", ACSR_, 0x04, "off", "on" )
SETTING( "ac_disable_analog_comparator", ACSR_, 0x80, "off", "on" )
SETTING( "adc_conversion_adjustment", ADMUX_, 0x20, "right", "left" )
SETTING( "adc_input_reference", ADMUX_, 0xc0, "aref", "avcc", "", "intern_1v1" )
SETTING( "adc_input_channel", ADMUX_, 0x0f, "ch0", "ch1", "ch2", "ch3", "ch4", "ch5", "ch6", "ch7", "ch8", "", "", "", "", "", "internal_1v1", "gnd" )
SETTING( "adc_enable_adc", ADCSRA_, 0x80, "off", "on" )
SETTING( "adc_enable_interrupt", ADCSRA_, 0x08, "off", "on" )
SETTING( "adc_enable_auto_trigger", ADCSRA_, 0x20, "off", "on" )
SETTING( "adc_enable_comparator", ADCSRB_, 0x40, "off", "on" )
SETTING( "adc_trigger_on", ADCSRB_, 0x07, "free_run", "ac", "ei0", "tc0_match_a", "tc0_overflow", "tc1_match_b", "tc1_overflow", "tc1_capture_event" )
SETTING( "adc_prescale_factor", ADCSRA_, 0x07, "x02", "x2", "x4", "x8", "x16", "x32", "x64", "x128" )
WAVEFORM( "tc0", TCCR0A_, TCCR0B_, 0x08, "normal", "pwm_phase_correct", "ctc", "fast_pwm", "", "pwm_phase_correct_ocr0a", "", "fast_pwm_ocr0a" )
WAVEFORM( "tc1", TCCR1A_, TCCR1B_, 0x18, "normal", "pwm_phase_correct_8bit", "pwm_phase_correct_9bit", "pwm_phase_correct_10bit", "ctc_ocr1a", "fast_pwm_phase_correct_8bit", "fast_pwm_phase_correct_9bit", "fast_pwm_phase_correct_10bit", "pwm_phase_frequency_correct_icr1", "pwm_phase_frequency_correct_ocr1a", "pwm_phase_correct_icr1", "pwm_phase_correct_ocr1a", "ctc_icr1", "", "fast_pwm_icr1", "fast_pwm_ocr1a" )
VALUE( "tc0_value_timer", TCNT0_, 1 )
VALUE( "tc0_value_compare_a", OCR0A_, 1 )
VALUE( "tc0_value_compare_b", OCR0B_, 1 )
VALUE( "tc1_value_timer", TCNT1L_, 2 )
VALUE( "tc1_value_compare_a", OCR1AL_, 2 )
VALUE( "tc1_value_compare_b", OCR1BL_, 2 )
VALUE( "twi_control_rate", TWBR_, 1 )
VALUE( "twi_protocol_data", TWDR_, 1 )
VALUE( "mem_eeprom_data", EEDR_, 1 )
VALUE( "mem_eeprom_address", EEARL_, 2 )
FUNCTION( "ei_int0", EIMSK_, 0x01 )
FUNCTION( "ei_int1", EIMSK_, 0x02 )
FUNCTION( "ei_pcint0", PCICR_, 0x01 )
FUNCTION( "ei_pcint1", PCICR_, 0x02 )
FUNCTION( "ei_pcint2", PCICR_, 0x04 )
FUNCTION( "ei_pcmsk0", PCMSK0_, 0xff )
FUNCTION( "ei_pcmsk1", PCMSK1_, 0x7f )
FUNCTION( "ei_pcmsk2", PCMSK2_, 0xff )
FUNCTION( "ei_pcmsk0_bit0", PCMSK0_, 0x01 )
FUNCTION( "ei_pcmsk0_bit1", PCMSK0_, 0x02 )
FUNCTION( "ei_pcmsk0_bit2", PCMSK0_, 0x04 )
FUNCTION( "ei_pcmsk0_bit3", PCMSK0_, 0x08 )
FUNCTION( "ei_pcmsk0_bit4", PCMSK0_, 0x10 )
FUNCTION( "ei_pcmsk0_bit5", PCMSK0_, 0x20 )
FUNCTION( "ei_pcmsk0_bit6", PCMSK0_, 0x40 )
FUNCTION( "ei_pcmsk0_bit7", PCMSK0_, 0x80 )
FUNCTION( "ei_pcmsk1_bit0", PCMSK1_, 0x01 )
FUNCTION( "ei_pcmsk1_bit1", PCMSK1_, 0x02 )
FUNCTION( "ei_pcmsk1_bit2", PCMSK1_, 0x04 )
FUNCTION( "ei_pcmsk1_bit3", PCMSK1_, 0x08 )
FUNCTION( "ei_pcmsk1_bit4", PCMSK1_, 0x10 )
FUNCTION( "ei_pcmsk1_bit5", PCMSK1_, 0x20 )
FUNCTION( "ei_pcmsk1_bit6", PCMSK1_, 0x40 )
FUNCTION( "ei_pcmsk2_bit0", PCMSK2_, 0x01 )
FUNCTION( "ei_pcmsk2_bit1", PCMSK2_, 0x02 )
FUNCTION( "ei_pcmsk2_bit2", PCMSK2_, 0x04 )
FUNCTION( "ei_pcmsk2_bit3", PCMSK2_, 0x08 )
FUNCTION( "ei_pcmsk2_bit4", PCMSK2_, 0x10 )
FUNCTION( "ei_pcmsk2_bit5", PCMSK2_, 0x20 )
FUNCTION( "ei_pcmsk2_bit6", PCMSK2_, 0x40 )
FUNCTION( "ei_pcmsk2_bit7", PCMSK2_, 0x80 )
FUNCTION( "ei_sense0", EICRA_, 0x03 )
FUNCTION( "ei_sense1", EICRA_, 0x0c )
FUNCTION( "gp0", GPIOR0_, 0xff )
FUNCTION( "gp1", GPIOR1_, 0xff )
FUNCTION( "gp2", GPIOR2_, 0xff )
FUNCTION( "gp0_bit0", GPIOR0_, 0x01 )
FUNCTION( "gp0_bit1", GPIOR0_, 0x02 )
FUNCTION( "gp0_bit2", GPIOR0_, 0x04 )
FUNCTION( "gp0_bit3", GPIOR0_, 0x08 )
FUNCTION( "gp0_bit4", GPIOR0_, 0x10 )
FUNCTION( "gp0_bit5", GPIOR0_, 0x20 )
FUNCTION( "gp0_bit6", GPIOR0_, 0x40 )
FUNCTION( "gp0_bit7", GPIOR0_, 0x80 )
FUNCTION( "gp1_bit0", GPIOR1_, 0x01 )
FUNCTION( "gp1_bit1", GPIOR1_, 0x02 )
FUNCTION( "gp1_bit2", GPIOR1_, 0x04 )
FUNCTION( "gp1_bit3", GPIOR1_, 0x08 )
FUNCTION( "gp1_bit4", GPIOR1_, 0x10 )
FUNCTION( "gp1_bit5", GPIOR1_, 0x20 )
FUNCTION( "gp1_bit6", GPIOR1_, 0x40 )
FUNCTION( "gp1_bit7", GPIOR1_, 0x80 )
FUNCTION( "gp2_bit0", GPIOR2_, 0x01 )
FUNCTION( "gp2_bit1", GPIOR2_, 0x02 )
FUNCTION( "gp2_bit2", GPIOR2_, 0x04 )
FUNCTION( "gp2_bit3", GPIOR2_, 0x08 )
FUNCTION( "gp2_bit4", GPIOR2_, 0x10 )
FUNCTION( "gp2_bit5", GPIOR2_, 0x20 )
FUNCTION( "gp2_bit6", GPIOR2_, 0x40 )
FUNCTION( "gp2_bit7", GPIOR2_, 0x80 )
FUNCTION( "ddrB", DDRB_, 0xff )
FUNCTION( "portB", PORTB_, 0xff )
FUNCTION( "dirB0", DDRB_, 0x01 )
FUNCTION( "outB0", PORTB_, 0x01 )
FUNCTION( "dirB1", DDRB_, 0x02 )
FUNCTION( "outB1", PORTB_, 0x02 )
FUNCTION( "dirB2", DDRB_, 0x04 )
FUNCTION( "outB2", PORTB_, 0x04 )
FUNCTION( "dirB3", DDRB_, 0x08 )
FUNCTION( "outB3", PORTB_, 0x08 )
FUNCTION( "dirB4", DDRB_, 0x10 )
FUNCTION( "outB4", PORTB_, 0x10 )
FUNCTION( "dirB5", DDRB_, 0x20 )
FUNCTION( "outB5", PORTB_, 0x20 )
FUNCTION( "dirB6", DDRB_, 0x40 )
FUNCTION( "outB6", PORTB_, 0x40 )
FUNCTION( "dirB7", DDRB_, 0x80 )
FUNCTION( "outB7", PORTB_, 0x80 )
FUNCTION( "ddrC", DDRC_, 0x7f )
FUNCTION( "portC", PORTC_, 0x7f )
FUNCTION( "dirC0", DDRC_, 0x01 )
FUNCTION( "outC0", PORTC_, 0x01 )
FUNCTION( "dirC1", DDRC_, 0x02 )
FUNCTION( "outC1", PORTC_, 0x02 )
FUNCTION( "dirC2", DDRC_, 0x04 )
FUNCTION( "outC2", PORTC_, 0x04 )
FUNCTION( "dirC3", DDRC_, 0x08 )
FUNCTION( "outC3", PORTC_, 0x08 )
FUNCTION( "dirC4", DDRC_, 0x10 )
FUNCTION( "outC4", PORTC_, 0x10 )
FUNCTION( "dirC5", DDRC_, 0x20 )
FUNCTION( "outC5", PORTC_, 0x20 )
FUNCTION( "dirC6", DDRC_, 0x40 )
FUNCTION( "outC6", PORTC_, 0x40 )
FUNCTION( "ddrD", DDRD_, 0xff )
FUNCTION( "portD", PORTD_, 0xff )
FUNCTION( "dirD0", DDRD_, 0x01 )
FUNCTION( "outD0", PORTD_, 0x01 )
FUNCTION( "dirD1", DDRD_, 0x02 )
FUNCTION( "outD1", PORTD_, 0x02 )
FUNCTION( "dirD2", DDRD_, 0x04 )
FUNCTION( "outD2", PORTD_, 0x04 )
FUNCTION( "dirD3", DDRD_, 0x08 )
FUNCTION( "outD3", PORTD_, 0x08 )
FUNCTION( "dirD4", DDRD_, 0x10 )
FUNCTION( "outD4", PORTD_, 0x10 )
FUNCTION( "dirD5", DDRD_, 0x20 )
FUNCTION( "outD5", PORTD_, 0x20 )
FUNCTION( "dirD6", DDRD_, 0x40 )
FUNCTION( "outD6", PORTD_, 0x40 )
FUNCTION( "dirD7", DDRD_, 0x80 )
FUNCTION( "outD7", PORTD_, 0x80 )
FUNCTION( "tc1_noise", TCCR1B_, 0x80 )
FUNCTION( "twi_address", TWAR_, 0xfe )
FUNCTION( "adc_didr0", DIDR0_, 0x3f )
FUNCTION( "ac_didr1", DIDR1_, 0x03 )
ONLYSET( "twi_start", TWCR_, 0x20 )
ONLYSET( "twi_stop", TWCR_, 0x10 )
ONLYSET( "twi_ack", TWCR_, 0x40 )
ONLYSET( "adc_start", ADCSRA_, 0x40 )
ONLYREAD( "ac_state", ACSR_, 0x20 )
ONLYREAD( "twi_status", TWSR_, 0xf8 )
ONLYREAD( "twi_wcoll", TWCR_, 0x08 )
ONLYREAD( "adc_lsb", ADCL_, 0xff )
ONLYREAD( "adc_msb", ADCH_, 0xff )
ONLYREAD( "twi_flag_", TWCR_, 0x80 )
PAIR( 0, "mem_eeprom_program_mode", "mem_eeprom_enable_master_write", EECR_, 0x30, 0x04 )
PAIR( 1, "mem_eeprom_program_mode", "mem_eeprom_enable_write", EECR_, 0x30, 0x02 )
PAIR( 2, "mem_eeprom_program_mode", "mem_eeprom_enable_read", EECR_, 0x30, 0x01 )
PAIR( 3, "mem_eeprom_program_mode", "mem_eeprom_interrupt_on_ready", EECR_, 0x30, 0x08 )
PAIR( 4, "mem_eeprom_enable_master_write", "mem_eeprom_program_mode", EECR_, 0x04, 0x30 )
PAIR( 5, "mem_eeprom_enable_master_write", "mem_eeprom_enable_write", EECR_, 0x04, 0x02 )
PAIR( 6, "mem_eeprom_enable_master_write", "mem_eeprom_enable_read", EECR_, 0x04, 0x01 )
PAIR( 7, "mem_eeprom_enable_master_write", "mem_eeprom_interrupt_on_ready", EECR_, 0x04, 0x08 )
PAIR( 8, "mem_eeprom_enable_write", "mem_eeprom_program_mode", EECR_, 0x02, 0x30 )
PAIR( 9, "mem_eeprom_enable_write", "mem_eeprom_enable_master_write", EECR_, 0x02, 0x04 )
PAIR( 10, "mem_eeprom_enable_write", "mem_eeprom_enable_read", EECR_, 0x02, 0x01 )
PAIR( 11, "mem_eeprom_enable_write", "mem_eeprom_interrupt_on_ready", EECR_, 0x02, 0x08 )
PAIR( 12, "mem_eeprom_enable_read", "mem_eeprom_program_mode", EECR_, 0x01, 0x30 )
PAIR( 13, "mem_eeprom_enable_read", "mem_eeprom_enable_master_write", EECR_, 0x01, 0x04 )
PAIR( 14, "mem_eeprom_enable_read", "mem_eeprom_enable_write", EECR_, 0x01, 0x02 )
PAIR( 15, "mem_eeprom_enable_read", "mem_eeprom_interrupt_on_ready", EECR_, 0x01, 0x08 )
PAIR( 16, "mem_eeprom_interrupt_on_ready", "mem_eeprom_program_mode", EECR_, 0x08, 0x30 )
PAIR( 17, "mem_eeprom_interrupt_on_ready", "mem_eeprom_enable_master_write", EECR_, 0x08, 0x04 )
PAIR( 18, "mem_eeprom_interrupt_on_ready", "mem_eeprom_enable_write", EECR_, 0x08, 0x02 )
PAIR( 19, "mem_eeprom_interrupt_on_ready", "mem_eeprom_enable_read", EECR_, 0x08, 0x01 )
PAIR( 20, "tc0_output_a_mode", "tc0_output_b_mode", TCCR0A_, 0xc0, 0x30 )
PAIR( 21, "tc0_output_b_mode", "tc0_output_a_mode", TCCR0A_, 0x30, 0xc0 )
PAIR( 22, "tc0_enable_interrupt_on_match_a", "tc0_enable_interrupt_on_match_b", TIMSK0_, 0x02, 0x04 )
PAIR( 23, "tc0_enable_interrupt_on_match_a", "tc0_enable_interrupt_on_overflow", TIMSK0_, 0x02, 0x01 )
PAIR( 24, "tc0_enable_interrupt_on_match_b", "tc0_enable_interrupt_on_match_a", TIMSK0_, 0x04, 0x02 )
PAIR( 25, "tc0_enable_interrupt_on_match_b", "tc0_enable_interrupt_on_overflow", TIMSK0_, 0x04, 0x01 )
PAIR( 26, "tc0_enable_interrupt_on_overflow", "tc0_enable_interrupt_on_match_a", TIMSK0_, 0x01, 0x02 )
PAIR( 27, "tc0_enable_interrupt_on_overflow", "tc0_enable_interrupt_on_match_b", TIMSK0_, 0x01, 0x04 )
PAIR( 28, "tc1_input_clock", "tc1_input_capture_edge", TCCR1B_, 0x07, 0x40 )
PAIR( 29, "tc1_input_capture_edge", "tc1_input_clock", TCCR1B_, 0x40, 0x07 )
PAIR( 30, "tc1_output_a_mode", "tc1_output_b_mode", TCCR1A_, 0xc0, 0x30 )
PAIR( 31, "tc1_output_b_mode", "tc1_output_a_mode", TCCR1A_, 0x30, 0xc0 )
PAIR( 32, "tc1_enable_interrupt_on_capture", "tc1_enable_interrupt_on_match_a", TIMSK1_, 0x20, 0x02 )
PAIR( 33, "tc1_enable_interrupt_on_capture", "tc1_enable_interrupt_on_match_b", TIMSK1_, 0x20, 0x04 )
PAIR( 34, "tc1_enable_interrupt_on_capture", "tc1_enable_interrupt_on_overflow", TIMSK1_, 0x20, 0x01 )
PAIR( 35, "tc1_enable_interrupt_on_match_a", "tc1_enable_interrupt_on_capture", TIMSK1_, 0x02, 0x20 )
PAIR( 36, "tc1_enable_interrupt_on_match_a", "tc1_enable_interrupt_on_match_b", TIMSK1_, 0x02, 0x04 )
PAIR( 37, "tc1_enable_interrupt_on_match_a", "tc1_enable_interrupt_on_overflow", TIMSK1_, 0x02, 0x01 )
PAIR( 38, "tc1_enable_interrupt_on_match_b", "tc1_enable_interrupt_on_capture", TIMSK1_, 0x04, 0x20 )
PAIR( 39, "tc1_enable_interrupt_on_match_b", "tc1_enable_interrupt_on_match_a", TIMSK1_, 0x04, 0x02 )
PAIR( 40, "tc1_enable_interrupt_on_match_b", "tc1_enable_interrupt_on_overflow", TIMSK1_, 0x04, 0x01 )
PAIR( 41, "tc1_enable_interrupt_on_overflow", "tc1_enable_interrupt_on_capture", TIMSK1_, 0x01, 0x20 )
PAIR( 42, "tc1_enable_interrupt_on_overflow", "tc1_enable_interrupt_on_match_a", TIMSK1_, 0x01, 0x02 )
PAIR( 43, "tc1_enable_interrupt_on_overflow", "tc1_enable_interrupt_on_match_b", TIMSK1_, 0x01, 0x04 )
PAIR( 44, "tcp_synchronization", "tcp_reset_prescaler_tc2", GTCCR_, 0x80, 0x02 )
PAIR( 45, "tcp_synchronization", "tcp_reset_prescaler_tc01", GTCCR_, 0x80, 0x01 )
PAIR( 46, "tcp_reset_prescaler_tc2", "tcp_synchronization", GTCCR_, 0x02, 0x80 )
PAIR( 47, "tcp_reset_prescaler_tc2", "tcp_reset_prescaler_tc01", GTCCR_, 0x02, 0x01 )
PAIR( 48, "tcp_reset_prescaler_tc01", "tcp_synchronization", GTCCR_, 0x01, 0x80 )
PAIR( 49, "tcp_reset_prescaler_tc01", "tcp_reset_prescaler_tc2", GTCCR_, 0x01, 0x02 )
PAIR( 50, "twi_enable_interface", "twi_enable_interrupt", TWCR_, 0x04, 0x01 )
PAIR( 51, "twi_enable_interrupt", "twi_enable_interface", TWCR_, 0x01, 0x04 )
PAIR( 52, "ac_input_select_bandgap_ref", "ac_output_interrupt_on", ACSR_, 0x40, 0x03 )
PAIR( 53, "ac_input_select_bandgap_ref", "ac_enable_interrupt", ACSR_, 0x40, 0x08 )
PAIR( 54, "ac_input_select_bandgap_ref", "ac_enable_input_capture", ACSR_, 0x40, 0x04 )
PAIR( 55, "ac_input_select_bandgap_ref", "ac_disable_analog_comparator", ACSR_, 0x40, 0x80 )
PAIR( 56, "ac_output_interrupt_on", "ac_input_select_bandgap_ref", ACSR_, 0x03, 0x40 )
PAIR( 57, "ac_output_interrupt_on", "ac_enable_interrupt", ACSR_, 0x03, 0x08 )
PAIR( 58, "ac_output_interrupt_on", "ac_enable_input_capture", ACSR_, 0x03, 0x04 )
PAIR( 59, "ac_output_interrupt_on", "ac_disable_analog_comparator", ACSR_, 0x03, 0x80 )
PAIR( 60, "ac_enable_interrupt", "ac_input_select_bandgap_ref", ACSR_, 0x08, 0x40 )
PAIR( 61, "ac_enable_interrupt", "ac_output_interrupt_on", ACSR_, 0x08, 0x03 )
PAIR( 62, "ac_enable_interrupt", "ac_enable_input_capture", ACSR_, 0x08, 0x04 )
PAIR( 63, "ac_enable_interrupt", "ac_disable_analog_comparator", ACSR_, 0x08, 0x80 )
PAIR( 64, "ac_enable_input_capture", "ac_input_select_bandgap_ref", ACSR_, 0x04, 0x40 )
PAIR( 65, "ac_enable_input_capture", "ac_output_interrupt_on", ACSR_, 0x04, 0x03 )
PAIR( 66, "ac_enable_input_capture", "ac_enable_interrupt", ACSR_, 0x04, 0x08 )
PAIR( 67, "ac_enable_input_capture", "ac_disable_analog_comparator", ACSR_, 0x04, 0x80 )
PAIR( 68, "ac_disable_analog_comparator", "ac_input_select_bandgap_ref", ACSR_, 0x80, 0x40 )
PAIR( 69, "ac_disable_analog_comparator", "ac_output_interrupt_on", ACSR_, 0x80, 0x03 )
PAIR( 70, "ac_disable_analog_comparator", "ac_enable_interrupt", ACSR_, 0x80, 0x08 )
PAIR( 71, "ac_disable_analog_comparator", "ac_enable_input_capture", ACSR_, 0x80, 0x04 )
PAIR( 72, "adc_conversion_adjustment", "adc_input_reference", ADMUX_, 0x20, 0xc0 )
PAIR( 73, "adc_conversion_adjustment", "adc_input_channel", ADMUX_, 0x20, 0x0f )
PAIR( 74, "adc_input_reference", "adc_conversion_adjustment", ADMUX_, 0xc0, 0x20 )
PAIR( 75, "adc_input_reference", "adc_input_channel", ADMUX_, 0xc0, 0x0f )
PAIR( 76, "adc_input_channel", "adc_conversion_adjustment", ADMUX_, 0x0f, 0x20 )
PAIR( 77, "adc_input_channel", "adc_input_reference", ADMUX_, 0x0f, 0xc0 )
PAIR( 78, "adc_enable_adc", "adc_enable_interrupt", ADCSRA_, 0x80, 0x08 )
PAIR( 79, "adc_enable_adc", "adc_enable_auto_trigger", ADCSRA_, 0x80, 0x20 )
PAIR( 80, "adc_enable_adc", "adc_prescale_factor", ADCSRA_, 0x80, 0x07 )
PAIR( 81, "adc_enable_interrupt", "adc_enable_adc", ADCSRA_, 0x08, 0x80 )
PAIR( 82, "adc_enable_interrupt", "adc_enable_auto_trigger", ADCSRA_, 0x08, 0x20 )
PAIR( 83, "adc_enable_interrupt", "adc_prescale_factor", ADCSRA_, 0x08, 0x07 )
PAIR( 84, "adc_enable_auto_trigger", "adc_enable_adc", ADCSRA_, 0x20, 0x80 )
PAIR( 85, "adc_enable_auto_trigger", "adc_enable_interrupt", ADCSRA_, 0x20, 0x08 )
PAIR( 86, "adc_enable_auto_trigger", "adc_prescale_factor", ADCSRA_, 0x20, 0x07 )
PAIR( 87, "adc_enable_comparator", "adc_trigger_on", ADCSRB_, 0x40, 0x07 )
PAIR( 88, "adc_trigger_on", "adc_enable_comparator", ADCSRB_, 0x07, 0x40 )
PAIR( 89, "adc_prescale_factor", "adc_enable_adc", ADCSRA_, 0x07, 0x80 )
PAIR( 90, "adc_prescale_factor", "adc_enable_interrupt", ADCSRA_, 0x07, 0x08 )
PAIR( 91, "adc_prescale_factor", "adc_enable_auto_trigger", ADCSRA_, 0x07, 0x20 )
