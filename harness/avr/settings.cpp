// written by gen-settings.py: every setting of the peripherals, by name and by value
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
#define FN extern "C" __attribute__((used, noinline))
FN void sv_mem_eeprom_program_mode( uint8_t v ) { mem::eeprom::program::set( mem::eeprom::program::mode( v ) ); }
FN uint8_t gt_mem_eeprom_program_mode() { return (uint8_t) mem::eeprom::program::current( mem::eeprom::program::mode{} ); }
FN void nm_mem_eeprom_program_mode_erase_write() { mem::eeprom::program::set( mem::eeprom::program::mode::erase_write ); }
FN void nm_mem_eeprom_program_mode_erase_only() { mem::eeprom::program::set( mem::eeprom::program::mode::erase_only ); }
FN void nm_mem_eeprom_program_mode_write_only() { mem::eeprom::program::set( mem::eeprom::program::mode::write_only ); }
FN void sv_mem_eeprom_enable_master_write( uint8_t v ) { mem::eeprom::enable::set( mem::eeprom::enable::master_write( v ) ); }
FN uint8_t gt_mem_eeprom_enable_master_write() { return (uint8_t) mem::eeprom::enable::current( mem::eeprom::enable::master_write{} ); }
FN void nm_mem_eeprom_enable_master_write_off() { mem::eeprom::enable::set( mem::eeprom::enable::master_write::off ); }
FN void nm_mem_eeprom_enable_master_write_on() { mem::eeprom::enable::set( mem::eeprom::enable::master_write::on ); }
FN void sv_mem_eeprom_enable_write( uint8_t v ) { mem::eeprom::enable::set( mem::eeprom::enable::write( v ) ); }
FN uint8_t gt_mem_eeprom_enable_write() { return (uint8_t) mem::eeprom::enable::current( mem::eeprom::enable::write{} ); }
FN void nm_mem_eeprom_enable_write_off() { mem::eeprom::enable::set( mem::eeprom::enable::write::off ); }
FN void nm_mem_eeprom_enable_write_on() { mem::eeprom::enable::set( mem::eeprom::enable::write::on ); }
FN void sv_mem_eeprom_enable_read( uint8_t v ) { mem::eeprom::enable::set( mem::eeprom::enable::read( v ) ); }
FN uint8_t gt_mem_eeprom_enable_read() { return (uint8_t) mem::eeprom::enable::current( mem::eeprom::enable::read{} ); }
FN void nm_mem_eeprom_enable_read_off() { mem::eeprom::enable::set( mem::eeprom::enable::read::off ); }
FN void nm_mem_eeprom_enable_read_on() { mem::eeprom::enable::set( mem::eeprom::enable::read::on ); }
FN void sv_mem_eeprom_interrupt_on_ready( uint8_t v ) { mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready( v ) ); }
FN uint8_t gt_mem_eeprom_interrupt_on_ready() { return (uint8_t) mem::eeprom::interrupt::current( mem::eeprom::interrupt::on_ready{} ); }
FN void nm_mem_eeprom_interrupt_on_ready_off() { mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready::off ); }
FN void nm_mem_eeprom_interrupt_on_ready_on() { mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready::on ); }
FN void sv_tc0_input_clock( uint8_t v ) { tc0::input::set( tc0::input::clock( v ) ); }
FN uint8_t gt_tc0_input_clock() { return (uint8_t) tc0::input::current( tc0::input::clock{} ); }
FN void nm_tc0_input_clock_none() { tc0::input::set( tc0::input::clock::none ); }
FN void nm_tc0_input_clock_x1() { tc0::input::set( tc0::input::clock::x1 ); }
FN void nm_tc0_input_clock_x8() { tc0::input::set( tc0::input::clock::x8 ); }
FN void nm_tc0_input_clock_x64() { tc0::input::set( tc0::input::clock::x64 ); }
FN void nm_tc0_input_clock_x256() { tc0::input::set( tc0::input::clock::x256 ); }
FN void nm_tc0_input_clock_x1024() { tc0::input::set( tc0::input::clock::x1024 ); }
FN void nm_tc0_input_clock_ext1_falling_adge() { tc0::input::set( tc0::input::clock::ext1_falling_adge ); }
FN void nm_tc0_input_clock_ext1_rising_adge() { tc0::input::set( tc0::input::clock::ext1_rising_adge ); }
FN void sv_tc0_output_a_mode( uint8_t v ) { tc0::output::a::set( tc0::output::a::mode( v ) ); }
FN uint8_t gt_tc0_output_a_mode() { return (uint8_t) tc0::output::a::current( tc0::output::a::mode{} ); }
FN void nm_tc0_output_a_mode_none() { tc0::output::a::set( tc0::output::a::mode::none ); }
FN void nm_tc0_output_a_mode_toggle() { tc0::output::a::set( tc0::output::a::mode::toggle ); }
FN void nm_tc0_output_a_mode_clear() { tc0::output::a::set( tc0::output::a::mode::clear ); }
FN void nm_tc0_output_a_mode_set() { tc0::output::a::set( tc0::output::a::mode::set ); }
FN void sv_tc0_output_b_mode( uint8_t v ) { tc0::output::b::set( tc0::output::b::mode( v ) ); }
FN uint8_t gt_tc0_output_b_mode() { return (uint8_t) tc0::output::b::current( tc0::output::b::mode{} ); }
FN void nm_tc0_output_b_mode_none() { tc0::output::b::set( tc0::output::b::mode::none ); }
FN void nm_tc0_output_b_mode_toggle() { tc0::output::b::set( tc0::output::b::mode::toggle ); }
FN void nm_tc0_output_b_mode_clear() { tc0::output::b::set( tc0::output::b::mode::clear ); }
FN void nm_tc0_output_b_mode_set() { tc0::output::b::set( tc0::output::b::mode::set ); }
FN void sv_tc0_enable_interrupt_on_match_a( uint8_t v ) { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_a( v ) ); }
FN uint8_t gt_tc0_enable_interrupt_on_match_a() { return (uint8_t) tc0::enable::interrupt::on::current( tc0::enable::interrupt::on::match_a{} ); }
FN void nm_tc0_enable_interrupt_on_match_a_off() { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_a::off ); }
FN void nm_tc0_enable_interrupt_on_match_a_on() { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_a::on ); }
FN void sv_tc0_enable_interrupt_on_match_b( uint8_t v ) { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_b( v ) ); }
FN uint8_t gt_tc0_enable_interrupt_on_match_b() { return (uint8_t) tc0::enable::interrupt::on::current( tc0::enable::interrupt::on::match_b{} ); }
FN void nm_tc0_enable_interrupt_on_match_b_off() { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_b::off ); }
FN void nm_tc0_enable_interrupt_on_match_b_on() { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_b::on ); }
FN void sv_tc0_enable_interrupt_on_overflow( uint8_t v ) { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::overflow( v ) ); }
FN uint8_t gt_tc0_enable_interrupt_on_overflow() { return (uint8_t) tc0::enable::interrupt::on::current( tc0::enable::interrupt::on::overflow{} ); }
FN void nm_tc0_enable_interrupt_on_overflow_off() { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::overflow::off ); }
FN void nm_tc0_enable_interrupt_on_overflow_on() { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::overflow::on ); }
FN void sv_tc1_input_clock( uint8_t v ) { tc1::input::set( tc1::input::clock( v ) ); }
FN uint8_t gt_tc1_input_clock() { return (uint8_t) tc1::input::current( tc1::input::clock{} ); }
FN void nm_tc1_input_clock_none() { tc1::input::set( tc1::input::clock::none ); }
FN void nm_tc1_input_clock_x1() { tc1::input::set( tc1::input::clock::x1 ); }
FN void nm_tc1_input_clock_x8() { tc1::input::set( tc1::input::clock::x8 ); }
FN void nm_tc1_input_clock_x64() { tc1::input::set( tc1::input::clock::x64 ); }
FN void nm_tc1_input_clock_x256() { tc1::input::set( tc1::input::clock::x256 ); }
FN void nm_tc1_input_clock_x1024() { tc1::input::set( tc1::input::clock::x1024 ); }
FN void nm_tc1_input_clock_ext1_falling_adge() { tc1::input::set( tc1::input::clock::ext1_falling_adge ); }
FN void nm_tc1_input_clock_ext1_rising_adge() { tc1::input::set( tc1::input::clock::ext1_rising_adge ); }
FN void sv_tc1_input_capture_edge( uint8_t v ) { tc1::input::capture::set( tc1::input::capture::edge( v ) ); }
FN uint8_t gt_tc1_input_capture_edge() { return (uint8_t) tc1::input::capture::current( tc1::input::capture::edge{} ); }
FN void nm_tc1_input_capture_edge_falling() { tc1::input::capture::set( tc1::input::capture::edge::falling ); }
FN void nm_tc1_input_capture_edge_rising() { tc1::input::capture::set( tc1::input::capture::edge::rising ); }
FN void sv_tc1_output_a_mode( uint8_t v ) { tc1::output::a::set( tc1::output::a::mode( v ) ); }
FN uint8_t gt_tc1_output_a_mode() { return (uint8_t) tc1::output::a::current( tc1::output::a::mode{} ); }
FN void nm_tc1_output_a_mode_none() { tc1::output::a::set( tc1::output::a::mode::none ); }
FN void nm_tc1_output_a_mode_toggle() { tc1::output::a::set( tc1::output::a::mode::toggle ); }
FN void nm_tc1_output_a_mode_clear() { tc1::output::a::set( tc1::output::a::mode::clear ); }
FN void nm_tc1_output_a_mode_set() { tc1::output::a::set( tc1::output::a::mode::set ); }
FN void sv_tc1_output_b_mode( uint8_t v ) { tc1::output::b::set( tc1::output::b::mode( v ) ); }
FN uint8_t gt_tc1_output_b_mode() { return (uint8_t) tc1::output::b::current( tc1::output::b::mode{} ); }
FN void nm_tc1_output_b_mode_none() { tc1::output::b::set( tc1::output::b::mode::none ); }
FN void nm_tc1_output_b_mode_toggle() { tc1::output::b::set( tc1::output::b::mode::toggle ); }
FN void nm_tc1_output_b_mode_clear() { tc1::output::b::set( tc1::output::b::mode::clear ); }
FN void nm_tc1_output_b_mode_set() { tc1::output::b::set( tc1::output::b::mode::set ); }
FN void sv_tc1_enable_interrupt_on_capture( uint8_t v ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::capture( v ) ); }
FN uint8_t gt_tc1_enable_interrupt_on_capture() { return (uint8_t) tc1::enable::interrupt::on::current( tc1::enable::interrupt::on::capture{} ); }
FN void nm_tc1_enable_interrupt_on_capture_off() { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::capture::off ); }
FN void nm_tc1_enable_interrupt_on_capture_on() { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::capture::on ); }
FN void sv_tc1_enable_interrupt_on_match_a( uint8_t v ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_a( v ) ); }
FN uint8_t gt_tc1_enable_interrupt_on_match_a() { return (uint8_t) tc1::enable::interrupt::on::current( tc1::enable::interrupt::on::match_a{} ); }
FN void nm_tc1_enable_interrupt_on_match_a_off() { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_a::off ); }
FN void nm_tc1_enable_interrupt_on_match_a_on() { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_a::on ); }
FN void sv_tc1_enable_interrupt_on_match_b( uint8_t v ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_b( v ) ); }
FN uint8_t gt_tc1_enable_interrupt_on_match_b() { return (uint8_t) tc1::enable::interrupt::on::current( tc1::enable::interrupt::on::match_b{} ); }
FN void nm_tc1_enable_interrupt_on_match_b_off() { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_b::off ); }
FN void nm_tc1_enable_interrupt_on_match_b_on() { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_b::on ); }
FN void sv_tc1_enable_interrupt_on_overflow( uint8_t v ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::overflow( v ) ); }
FN uint8_t gt_tc1_enable_interrupt_on_overflow() { return (uint8_t) tc1::enable::interrupt::on::current( tc1::enable::interrupt::on::overflow{} ); }
FN void nm_tc1_enable_interrupt_on_overflow_off() { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::overflow::off ); }
FN void nm_tc1_enable_interrupt_on_overflow_on() { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::overflow::on ); }
FN void sv_tcp_synchronization( uint8_t v ) { tcp::set( tcp::synchronization( v ) ); }
FN uint8_t gt_tcp_synchronization() { return (uint8_t) tcp::current( tcp::synchronization{} ); }
FN void nm_tcp_synchronization_off() { tcp::set( tcp::synchronization::off ); }
FN void nm_tcp_synchronization_on() { tcp::set( tcp::synchronization::on ); }
FN void sv_tcp_reset_prescaler_tc2( uint8_t v ) { tcp::reset::prescaler::set( tcp::reset::prescaler::tc2( v ) ); }
FN uint8_t gt_tcp_reset_prescaler_tc2() { return (uint8_t) tcp::reset::prescaler::current( tcp::reset::prescaler::tc2{} ); }
FN void nm_tcp_reset_prescaler_tc2_off() { tcp::reset::prescaler::set( tcp::reset::prescaler::tc2::off ); }
FN void nm_tcp_reset_prescaler_tc2_on() { tcp::reset::prescaler::set( tcp::reset::prescaler::tc2::on ); }
FN void sv_tcp_reset_prescaler_tc01( uint8_t v ) { tcp::reset::prescaler::set( tcp::reset::prescaler::tc01( v ) ); }
FN uint8_t gt_tcp_reset_prescaler_tc01() { return (uint8_t) tcp::reset::prescaler::current( tcp::reset::prescaler::tc01{} ); }
FN void nm_tcp_reset_prescaler_tc01_off() { tcp::reset::prescaler::set( tcp::reset::prescaler::tc01::off ); }
FN void nm_tcp_reset_prescaler_tc01_on() { tcp::reset::prescaler::set( tcp::reset::prescaler::tc01::on ); }
FN void sv_twi_control_prescale_factor( uint8_t v ) { twi::control::prescale::set( twi::control::prescale::factor( v ) ); }
FN uint8_t gt_twi_control_prescale_factor() { return (uint8_t) twi::control::prescale::current( twi::control::prescale::factor{} ); }
FN void nm_twi_control_prescale_factor_x1() { twi::control::prescale::set( twi::control::prescale::factor::x1 ); }
FN void nm_twi_control_prescale_factor_x4() { twi::control::prescale::set( twi::control::prescale::factor::x4 ); }
FN void nm_twi_control_prescale_factor_x16() { twi::control::prescale::set( twi::control::prescale::factor::x16 ); }
FN void nm_twi_control_prescale_factor_x64() { twi::control::prescale::set( twi::control::prescale::factor::x64 ); }
FN void sv_twi_enable_interface( uint8_t v ) { twi::enable::set( twi::enable::interface( v ) ); }
FN uint8_t gt_twi_enable_interface() { return (uint8_t) twi::enable::current( twi::enable::interface{} ); }
FN void nm_twi_enable_interface_off() { twi::enable::set( twi::enable::interface::off ); }
FN void nm_twi_enable_interface_on() { twi::enable::set( twi::enable::interface::on ); }
FN void sv_twi_enable_interrupt( uint8_t v ) { twi::enable::set( twi::enable::interrupt( v ) ); }
FN uint8_t gt_twi_enable_interrupt() { return (uint8_t) twi::enable::current( twi::enable::interrupt{} ); }
FN void nm_twi_enable_interrupt_off() { twi::enable::set( twi::enable::interrupt::off ); }
FN void nm_twi_enable_interrupt_on() { twi::enable::set( twi::enable::interrupt::on ); }
FN void sv_twi_enable_general_call( uint8_t v ) { twi::enable::set( twi::enable::general_call( v ) ); }
FN uint8_t gt_twi_enable_general_call() { return (uint8_t) twi::enable::current( twi::enable::general_call{} ); }
FN void nm_twi_enable_general_call_off() { twi::enable::set( twi::enable::general_call::off ); }
FN void nm_twi_enable_general_call_on() { twi::enable::set( twi::enable::general_call::on ); }
FN void sv_ac_input_select_bandgap_ref( uint8_t v ) { ac::input::select::set( ac::input::select::bandgap_ref( v ) ); }
FN uint8_t gt_ac_input_select_bandgap_ref() { return (uint8_t) ac::input::select::current( ac::input::select::bandgap_ref{} ); }
FN void nm_ac_input_select_bandgap_ref_off() { ac::input::select::set( ac::input::select::bandgap_ref::off ); }
FN void nm_ac_input_select_bandgap_ref_on() { ac::input::select::set( ac::input::select::bandgap_ref::on ); }
FN void sv_ac_output_interrupt_on( uint8_t v ) { ac::output::interrupt::set( ac::output::interrupt::on( v ) ); }
FN uint8_t gt_ac_output_interrupt_on() { return (uint8_t) ac::output::interrupt::current( ac::output::interrupt::on{} ); }
FN void nm_ac_output_interrupt_on_toggle() { ac::output::interrupt::set( ac::output::interrupt::on::toggle ); }
FN void nm_ac_output_interrupt_on_falling_edge() { ac::output::interrupt::set( ac::output::interrupt::on::falling_edge ); }
FN void nm_ac_output_interrupt_on_rising_edge() { ac::output::interrupt::set( ac::output::interrupt::on::rising_edge ); }
FN void sv_ac_enable_interrupt( uint8_t v ) { ac::enable::set( ac::enable::interrupt( v ) ); }
FN uint8_t gt_ac_enable_interrupt() { return (uint8_t) ac::enable::current( ac::enable::interrupt{} ); }
FN void nm_ac_enable_interrupt_off() { ac::enable::set( ac::enable::interrupt::off ); }
FN void nm_ac_enable_interrupt_on() { ac::enable::set( ac::enable::interrupt::on ); }
FN void sv_ac_enable_input_capture( uint8_t v ) { ac::enable::input::set( ac::enable::input::capture( v ) ); }
FN uint8_t gt_ac_enable_input_capture() { return (uint8_t) ac::enable::input::current( ac::enable::input::capture{} ); }
FN void nm_ac_enable_input_capture_off() { ac::enable::input::set( ac::enable::input::capture::off ); }
FN void nm_ac_enable_input_capture_on() { ac::enable::input::set( ac::enable::input::capture::on ); }
FN void sv_ac_disable_analog_comparator( uint8_t v ) { ac::disable::analog::set( ac::disable::analog::comparator( v ) ); }
FN uint8_t gt_ac_disable_analog_comparator() { return (uint8_t) ac::disable::analog::current( ac::disable::analog::comparator{} ); }
FN void nm_ac_disable_analog_comparator_off() { ac::disable::analog::set( ac::disable::analog::comparator::off ); }
FN void nm_ac_disable_analog_comparator_on() { ac::disable::analog::set( ac::disable::analog::comparator::on ); }
FN void sv_adc_conversion_adjustment( uint8_t v ) { adc::conversion::set( adc::conversion::adjustment( v ) ); }
FN uint8_t gt_adc_conversion_adjustment() { return (uint8_t) adc::conversion::current( adc::conversion::adjustment{} ); }
FN void nm_adc_conversion_adjustment_right() { adc::conversion::set( adc::conversion::adjustment::right ); }
FN void nm_adc_conversion_adjustment_left() { adc::conversion::set( adc::conversion::adjustment::left ); }
FN void sv_adc_input_reference( uint8_t v ) { adc::input::set( adc::input::reference( v ) ); }
FN uint8_t gt_adc_input_reference() { return (uint8_t) adc::input::current( adc::input::reference{} ); }
FN void nm_adc_input_reference_aref() { adc::input::set( adc::input::reference::aref ); }
FN void nm_adc_input_reference_avcc() { adc::input::set( adc::input::reference::avcc ); }
FN void nm_adc_input_reference_intern_1v1() { adc::input::set( adc::input::reference::intern_1v1 ); }
FN void sv_adc_input_channel( uint8_t v ) { adc::input::set( adc::input::channel( v ) ); }
FN uint8_t gt_adc_input_channel() { return (uint8_t) adc::input::current( adc::input::channel{} ); }
FN void nm_adc_input_channel_ch0() { adc::input::set( adc::input::channel::ch0 ); }
FN void nm_adc_input_channel_ch1() { adc::input::set( adc::input::channel::ch1 ); }
FN void nm_adc_input_channel_ch2() { adc::input::set( adc::input::channel::ch2 ); }
FN void nm_adc_input_channel_ch3() { adc::input::set( adc::input::channel::ch3 ); }
FN void nm_adc_input_channel_ch4() { adc::input::set( adc::input::channel::ch4 ); }
FN void nm_adc_input_channel_ch5() { adc::input::set( adc::input::channel::ch5 ); }
FN void nm_adc_input_channel_ch6() { adc::input::set( adc::input::channel::ch6 ); }
FN void nm_adc_input_channel_ch7() { adc::input::set( adc::input::channel::ch7 ); }
FN void nm_adc_input_channel_ch8() { adc::input::set( adc::input::channel::ch8 ); }
FN void nm_adc_input_channel_internal_1v1() { adc::input::set( adc::input::channel::internal_1v1 ); }
FN void nm_adc_input_channel_gnd() { adc::input::set( adc::input::channel::gnd ); }
FN void sv_adc_enable_adc( uint8_t v ) { adc::enable::set( adc::enable::adc( v ) ); }
FN uint8_t gt_adc_enable_adc() { return (uint8_t) adc::enable::current( adc::enable::adc{} ); }
FN void nm_adc_enable_adc_off() { adc::enable::set( adc::enable::adc::off ); }
FN void nm_adc_enable_adc_on() { adc::enable::set( adc::enable::adc::on ); }
FN void sv_adc_enable_interrupt( uint8_t v ) { adc::enable::set( adc::enable::interrupt( v ) ); }
FN uint8_t gt_adc_enable_interrupt() { return (uint8_t) adc::enable::current( adc::enable::interrupt{} ); }
FN void nm_adc_enable_interrupt_off() { adc::enable::set( adc::enable::interrupt::off ); }
FN void nm_adc_enable_interrupt_on() { adc::enable::set( adc::enable::interrupt::on ); }
FN void sv_adc_enable_auto_trigger( uint8_t v ) { adc::enable::set( adc::enable::auto_trigger( v ) ); }
FN uint8_t gt_adc_enable_auto_trigger() { return (uint8_t) adc::enable::current( adc::enable::auto_trigger{} ); }
FN void nm_adc_enable_auto_trigger_off() { adc::enable::set( adc::enable::auto_trigger::off ); }
FN void nm_adc_enable_auto_trigger_on() { adc::enable::set( adc::enable::auto_trigger::on ); }
FN void sv_adc_enable_comparator( uint8_t v ) { adc::enable::set( adc::enable::comparator( v ) ); }
FN uint8_t gt_adc_enable_comparator() { return (uint8_t) adc::enable::current( adc::enable::comparator{} ); }
FN void nm_adc_enable_comparator_off() { adc::enable::set( adc::enable::comparator::off ); }
FN void nm_adc_enable_comparator_on() { adc::enable::set( adc::enable::comparator::on ); }
FN void sv_adc_trigger_on( uint8_t v ) { adc::trigger::set( adc::trigger::on( v ) ); }
FN uint8_t gt_adc_trigger_on() { return (uint8_t) adc::trigger::current( adc::trigger::on{} ); }
FN void nm_adc_trigger_on_free_run() { adc::trigger::set( adc::trigger::on::free_run ); }
FN void nm_adc_trigger_on_ac() { adc::trigger::set( adc::trigger::on::ac ); }
FN void nm_adc_trigger_on_ei0() { adc::trigger::set( adc::trigger::on::ei0 ); }
FN void nm_adc_trigger_on_tc0_match_a() { adc::trigger::set( adc::trigger::on::tc0_match_a ); }
FN void nm_adc_trigger_on_tc0_overflow() { adc::trigger::set( adc::trigger::on::tc0_overflow ); }
FN void nm_adc_trigger_on_tc1_match_b() { adc::trigger::set( adc::trigger::on::tc1_match_b ); }
FN void nm_adc_trigger_on_tc1_overflow() { adc::trigger::set( adc::trigger::on::tc1_overflow ); }
FN void nm_adc_trigger_on_tc1_capture_event() { adc::trigger::set( adc::trigger::on::tc1_capture_event ); }
FN void sv_adc_prescale_factor( uint8_t v ) { adc::prescale::set( adc::prescale::factor( v ) ); }
FN uint8_t gt_adc_prescale_factor() { return (uint8_t) adc::prescale::current( adc::prescale::factor{} ); }
FN void nm_adc_prescale_factor_x02() { adc::prescale::set( adc::prescale::factor::x02 ); }
FN void nm_adc_prescale_factor_x2() { adc::prescale::set( adc::prescale::factor::x2 ); }
FN void nm_adc_prescale_factor_x4() { adc::prescale::set( adc::prescale::factor::x4 ); }
FN void nm_adc_prescale_factor_x8() { adc::prescale::set( adc::prescale::factor::x8 ); }
FN void nm_adc_prescale_factor_x16() { adc::prescale::set( adc::prescale::factor::x16 ); }
FN void nm_adc_prescale_factor_x32() { adc::prescale::set( adc::prescale::factor::x32 ); }
FN void nm_adc_prescale_factor_x64() { adc::prescale::set( adc::prescale::factor::x64 ); }
FN void nm_adc_prescale_factor_x128() { adc::prescale::set( adc::prescale::factor::x128 ); }
FN void wv_tc0( uint8_t v ) { tc0::output::set( tc0::output::waveform( v ) ); }
FN uint8_t wg_tc0() { return (uint8_t) tc0::output::current( tc0::output::waveform{} ); }
FN void wc_tc0( uint8_t v, uint8_t k ) { tc0::output::set( tc0::output::waveform( v ) ), tc0::input::set( tc0::input::clock( k ) ); }
FN void wn_tc0_normal() { tc0::output::set( tc0::output::waveform::normal ); }
FN void wn_tc0_pwm_phase_correct() { tc0::output::set( tc0::output::waveform::pwm_phase_correct ); }
FN void wn_tc0_ctc() { tc0::output::set( tc0::output::waveform::ctc ); }
FN void wn_tc0_fast_pwm() { tc0::output::set( tc0::output::waveform::fast_pwm ); }
FN void wn_tc0_pwm_phase_correct_ocr0a() { tc0::output::set( tc0::output::waveform::pwm_phase_correct_ocr0a ); }
FN void wn_tc0_fast_pwm_ocr0a() { tc0::output::set( tc0::output::waveform::fast_pwm_ocr0a ); }
FN void wv_tc1( uint8_t v ) { tc1::output::set( tc1::output::waveform( v ) ); }
FN uint8_t wg_tc1() { return (uint8_t) tc1::output::current( tc1::output::waveform{} ); }
FN void wc_tc1( uint8_t v, uint8_t k ) { tc1::output::set( tc1::output::waveform( v ) ), tc1::input::set( tc1::input::clock( k ) ); }
FN void wn_tc1_normal() { tc1::output::set( tc1::output::waveform::normal ); }
FN void wn_tc1_pwm_phase_correct_8bit() { tc1::output::set( tc1::output::waveform::pwm_phase_correct_8bit ); }
FN void wn_tc1_pwm_phase_correct_9bit() { tc1::output::set( tc1::output::waveform::pwm_phase_correct_9bit ); }
FN void wn_tc1_pwm_phase_correct_10bit() { tc1::output::set( tc1::output::waveform::pwm_phase_correct_10bit ); }
FN void wn_tc1_ctc_ocr1a() { tc1::output::set( tc1::output::waveform::ctc_ocr1a ); }
FN void wn_tc1_fast_pwm_phase_correct_8bit() { tc1::output::set( tc1::output::waveform::fast_pwm_phase_correct_8bit ); }
FN void wn_tc1_fast_pwm_phase_correct_9bit() { tc1::output::set( tc1::output::waveform::fast_pwm_phase_correct_9bit ); }
FN void wn_tc1_fast_pwm_phase_correct_10bit() { tc1::output::set( tc1::output::waveform::fast_pwm_phase_correct_10bit ); }
FN void wn_tc1_pwm_phase_frequency_correct_icr1() { tc1::output::set( tc1::output::waveform::pwm_phase_frequency_correct_icr1 ); }
FN void wn_tc1_pwm_phase_frequency_correct_ocr1a() { tc1::output::set( tc1::output::waveform::pwm_phase_frequency_correct_ocr1a ); }
FN void wn_tc1_pwm_phase_correct_icr1() { tc1::output::set( tc1::output::waveform::pwm_phase_correct_icr1 ); }
FN void wn_tc1_pwm_phase_correct_ocr1a() { tc1::output::set( tc1::output::waveform::pwm_phase_correct_ocr1a ); }
FN void wn_tc1_ctc_icr1() { tc1::output::set( tc1::output::waveform::ctc_icr1 ); }
FN void wn_tc1_fast_pwm_icr1() { tc1::output::set( tc1::output::waveform::fast_pwm_icr1 ); }
FN void wn_tc1_fast_pwm_ocr1a() { tc1::output::set( tc1::output::waveform::fast_pwm_ocr1a ); }
FN void vs_tc0_value_timer( uint8_t v ) { tc0::value::set( tc0::value::timer( v ) ); }
FN uint8_t vg_tc0_value_timer() { return (uint8_t) tc0::value::current( tc0::value::timer{} ); }
FN void vs_tc0_value_compare_a( uint8_t v ) { tc0::value::compare::set( tc0::value::compare::a( v ) ); }
FN uint8_t vg_tc0_value_compare_a() { return (uint8_t) tc0::value::compare::current( tc0::value::compare::a{} ); }
FN void vs_tc0_value_compare_b( uint8_t v ) { tc0::value::compare::set( tc0::value::compare::b( v ) ); }
FN uint8_t vg_tc0_value_compare_b() { return (uint8_t) tc0::value::compare::current( tc0::value::compare::b{} ); }
FN void vs_tc1_value_timer( uint16_t v ) { tc1::value::set( tc1::value::timer( v ) ); }
FN uint16_t vg_tc1_value_timer() { return (uint16_t) tc1::value::current( tc1::value::timer{} ); }
FN void vs_tc1_value_compare_a( uint16_t v ) { tc1::value::compare::set( tc1::value::compare::a( v ) ); }
FN uint16_t vg_tc1_value_compare_a() { return (uint16_t) tc1::value::compare::current( tc1::value::compare::a{} ); }
FN void vs_tc1_value_compare_b( uint16_t v ) { tc1::value::compare::set( tc1::value::compare::b( v ) ); }
FN uint16_t vg_tc1_value_compare_b() { return (uint16_t) tc1::value::compare::current( tc1::value::compare::b{} ); }
FN void vs_twi_control_rate( uint8_t v ) { twi::control::set( twi::control::rate( v ) ); }
FN uint8_t vg_twi_control_rate() { return (uint8_t) twi::control::current( twi::control::rate{} ); }
FN void vs_twi_protocol_data( uint8_t v ) { twi::protocol::set( twi::protocol::data( v ) ); }
FN uint8_t vg_twi_protocol_data() { return (uint8_t) twi::protocol::current( twi::protocol::data{} ); }
FN void vs_mem_eeprom_data( uint8_t v ) { mem::eeprom::set( mem::eeprom::data( v ) ); }
FN uint8_t vg_mem_eeprom_data() { return (uint8_t) mem::eeprom::current( mem::eeprom::data{} ); }
FN void vs_mem_eeprom_address( uint16_t v ) { mem::eeprom::set( mem::eeprom::address( v ) ); }
FN uint16_t vg_mem_eeprom_address() { return (uint16_t) mem::eeprom::current( mem::eeprom::address{} ); }
FN uint16_t adc_result() { return adc::conversion::result(); }
FN void fw_ei_int0( uint8_t v ) { ei::enable_external_int0( v ); }
FN uint8_t fr_ei_int0() { return ei::enabled_external_int0(); }
FN void fw_ei_int1( uint8_t v ) { ei::enable_external_int1( v ); }
FN uint8_t fr_ei_int1() { return ei::enabled_external_int1(); }
FN void fw_ei_pcint0( uint8_t v ) { ei::enable_pin_change_int0( v ); }
FN uint8_t fr_ei_pcint0() { return ei::enabled_pin_change_int0(); }
FN void fw_ei_pcint1( uint8_t v ) { ei::enable_pin_change_int1( v ); }
FN uint8_t fr_ei_pcint1() { return ei::enabled_pin_change_int1(); }
FN void fw_ei_pcint2( uint8_t v ) { ei::enable_pin_change_int2( v ); }
FN uint8_t fr_ei_pcint2() { return ei::enabled_pin_change_int2(); }
FN void fw_ei_pcmsk0( uint8_t v ) { ei::pin_change_interrupt_mask0( v ); }
FN uint8_t fr_ei_pcmsk0() { return ei::pin_change_interrupt_mask0(); }
FN void fw_ei_pcmsk1( uint8_t v ) { ei::pin_change_interrupt_mask1( v ); }
FN uint8_t fr_ei_pcmsk1() { return ei::pin_change_interrupt_mask1(); }
FN void fw_ei_pcmsk2( uint8_t v ) { ei::pin_change_interrupt_mask2( v ); }
FN uint8_t fr_ei_pcmsk2() { return ei::pin_change_interrupt_mask2(); }
FN void fw_ei_pcmsk0_bit0( uint8_t v ) { ei::pcmsk<ei::pcmsk0>::bit<0>::write( v ); }
FN uint8_t fr_ei_pcmsk0_bit0() { return ei::pcmsk<ei::pcmsk0>::bit<0>::read(); }
FN void fw_ei_pcmsk0_bit1( uint8_t v ) { ei::pcmsk<ei::pcmsk0>::bit<1>::write( v ); }
FN uint8_t fr_ei_pcmsk0_bit1() { return ei::pcmsk<ei::pcmsk0>::bit<1>::read(); }
FN void fw_ei_pcmsk0_bit2( uint8_t v ) { ei::pcmsk<ei::pcmsk0>::bit<2>::write( v ); }
FN uint8_t fr_ei_pcmsk0_bit2() { return ei::pcmsk<ei::pcmsk0>::bit<2>::read(); }
FN void fw_ei_pcmsk0_bit3( uint8_t v ) { ei::pcmsk<ei::pcmsk0>::bit<3>::write( v ); }
FN uint8_t fr_ei_pcmsk0_bit3() { return ei::pcmsk<ei::pcmsk0>::bit<3>::read(); }
FN void fw_ei_pcmsk0_bit4( uint8_t v ) { ei::pcmsk<ei::pcmsk0>::bit<4>::write( v ); }
FN uint8_t fr_ei_pcmsk0_bit4() { return ei::pcmsk<ei::pcmsk0>::bit<4>::read(); }
FN void fw_ei_pcmsk0_bit5( uint8_t v ) { ei::pcmsk<ei::pcmsk0>::bit<5>::write( v ); }
FN uint8_t fr_ei_pcmsk0_bit5() { return ei::pcmsk<ei::pcmsk0>::bit<5>::read(); }
FN void fw_ei_pcmsk0_bit6( uint8_t v ) { ei::pcmsk<ei::pcmsk0>::bit<6>::write( v ); }
FN uint8_t fr_ei_pcmsk0_bit6() { return ei::pcmsk<ei::pcmsk0>::bit<6>::read(); }
FN void fw_ei_pcmsk0_bit7( uint8_t v ) { ei::pcmsk<ei::pcmsk0>::bit<7>::write( v ); }
FN uint8_t fr_ei_pcmsk0_bit7() { return ei::pcmsk<ei::pcmsk0>::bit<7>::read(); }
FN void fw_ei_pcmsk1_bit0( uint8_t v ) { ei::pcmsk<ei::pcmsk1>::bit<0>::write( v ); }
FN uint8_t fr_ei_pcmsk1_bit0() { return ei::pcmsk<ei::pcmsk1>::bit<0>::read(); }
FN void fw_ei_pcmsk1_bit1( uint8_t v ) { ei::pcmsk<ei::pcmsk1>::bit<1>::write( v ); }
FN uint8_t fr_ei_pcmsk1_bit1() { return ei::pcmsk<ei::pcmsk1>::bit<1>::read(); }
FN void fw_ei_pcmsk1_bit2( uint8_t v ) { ei::pcmsk<ei::pcmsk1>::bit<2>::write( v ); }
FN uint8_t fr_ei_pcmsk1_bit2() { return ei::pcmsk<ei::pcmsk1>::bit<2>::read(); }
FN void fw_ei_pcmsk1_bit3( uint8_t v ) { ei::pcmsk<ei::pcmsk1>::bit<3>::write( v ); }
FN uint8_t fr_ei_pcmsk1_bit3() { return ei::pcmsk<ei::pcmsk1>::bit<3>::read(); }
FN void fw_ei_pcmsk1_bit4( uint8_t v ) { ei::pcmsk<ei::pcmsk1>::bit<4>::write( v ); }
FN uint8_t fr_ei_pcmsk1_bit4() { return ei::pcmsk<ei::pcmsk1>::bit<4>::read(); }
FN void fw_ei_pcmsk1_bit5( uint8_t v ) { ei::pcmsk<ei::pcmsk1>::bit<5>::write( v ); }
FN uint8_t fr_ei_pcmsk1_bit5() { return ei::pcmsk<ei::pcmsk1>::bit<5>::read(); }
FN void fw_ei_pcmsk1_bit6( uint8_t v ) { ei::pcmsk<ei::pcmsk1>::bit<6>::write( v ); }
FN uint8_t fr_ei_pcmsk1_bit6() { return ei::pcmsk<ei::pcmsk1>::bit<6>::read(); }
FN void fw_ei_pcmsk2_bit0( uint8_t v ) { ei::pcmsk<ei::pcmsk2>::bit<0>::write( v ); }
FN uint8_t fr_ei_pcmsk2_bit0() { return ei::pcmsk<ei::pcmsk2>::bit<0>::read(); }
FN void fw_ei_pcmsk2_bit1( uint8_t v ) { ei::pcmsk<ei::pcmsk2>::bit<1>::write( v ); }
FN uint8_t fr_ei_pcmsk2_bit1() { return ei::pcmsk<ei::pcmsk2>::bit<1>::read(); }
FN void fw_ei_pcmsk2_bit2( uint8_t v ) { ei::pcmsk<ei::pcmsk2>::bit<2>::write( v ); }
FN uint8_t fr_ei_pcmsk2_bit2() { return ei::pcmsk<ei::pcmsk2>::bit<2>::read(); }
FN void fw_ei_pcmsk2_bit3( uint8_t v ) { ei::pcmsk<ei::pcmsk2>::bit<3>::write( v ); }
FN uint8_t fr_ei_pcmsk2_bit3() { return ei::pcmsk<ei::pcmsk2>::bit<3>::read(); }
FN void fw_ei_pcmsk2_bit4( uint8_t v ) { ei::pcmsk<ei::pcmsk2>::bit<4>::write( v ); }
FN uint8_t fr_ei_pcmsk2_bit4() { return ei::pcmsk<ei::pcmsk2>::bit<4>::read(); }
FN void fw_ei_pcmsk2_bit5( uint8_t v ) { ei::pcmsk<ei::pcmsk2>::bit<5>::write( v ); }
FN uint8_t fr_ei_pcmsk2_bit5() { return ei::pcmsk<ei::pcmsk2>::bit<5>::read(); }
FN void fw_ei_pcmsk2_bit6( uint8_t v ) { ei::pcmsk<ei::pcmsk2>::bit<6>::write( v ); }
FN uint8_t fr_ei_pcmsk2_bit6() { return ei::pcmsk<ei::pcmsk2>::bit<6>::read(); }
FN void fw_ei_pcmsk2_bit7( uint8_t v ) { ei::pcmsk<ei::pcmsk2>::bit<7>::write( v ); }
FN uint8_t fr_ei_pcmsk2_bit7() { return ei::pcmsk<ei::pcmsk2>::bit<7>::read(); }
FN void fw_ei_sense0( uint8_t v ) { ei::interrupt_sense<eint::int0>( ei::sense( v ) ); }
FN uint8_t fr_ei_sense0() { return (uint8_t) ei::interrupt_sense<eint::int0>(); }
FN void fw_ei_sense1( uint8_t v ) { ei::interrupt_sense<eint::int1>( ei::sense( v ) ); }
FN uint8_t fr_ei_sense1() { return (uint8_t) ei::interrupt_sense<eint::int1>(); }
FN void fw_gp0( uint8_t v ) { mem::gpio<mem::r0>::whole::write( v ); }
FN uint8_t fr_gp0() { return mem::gpio<mem::r0>::whole::read(); }
FN void fw_gp1( uint8_t v ) { mem::gpio<mem::r1>::whole::write( v ); }
FN uint8_t fr_gp1() { return mem::gpio<mem::r1>::whole::read(); }
FN void fw_gp2( uint8_t v ) { mem::gpio<mem::r2>::whole::write( v ); }
FN uint8_t fr_gp2() { return mem::gpio<mem::r2>::whole::read(); }
FN void fw_gp0_bit0( uint8_t v ) { mem::gpio<mem::r0>::bit<0>::write( v ); }
FN uint8_t fr_gp0_bit0() { return mem::gpio<mem::r0>::bit<0>::read(); }
FN void fw_gp0_bit1( uint8_t v ) { mem::gpio<mem::r0>::bit<1>::write( v ); }
FN uint8_t fr_gp0_bit1() { return mem::gpio<mem::r0>::bit<1>::read(); }
FN void fw_gp0_bit2( uint8_t v ) { mem::gpio<mem::r0>::bit<2>::write( v ); }
FN uint8_t fr_gp0_bit2() { return mem::gpio<mem::r0>::bit<2>::read(); }
FN void fw_gp0_bit3( uint8_t v ) { mem::gpio<mem::r0>::bit<3>::write( v ); }
FN uint8_t fr_gp0_bit3() { return mem::gpio<mem::r0>::bit<3>::read(); }
FN void fw_gp0_bit4( uint8_t v ) { mem::gpio<mem::r0>::bit<4>::write( v ); }
FN uint8_t fr_gp0_bit4() { return mem::gpio<mem::r0>::bit<4>::read(); }
FN void fw_gp0_bit5( uint8_t v ) { mem::gpio<mem::r0>::bit<5>::write( v ); }
FN uint8_t fr_gp0_bit5() { return mem::gpio<mem::r0>::bit<5>::read(); }
FN void fw_gp0_bit6( uint8_t v ) { mem::gpio<mem::r0>::bit<6>::write( v ); }
FN uint8_t fr_gp0_bit6() { return mem::gpio<mem::r0>::bit<6>::read(); }
FN void fw_gp0_bit7( uint8_t v ) { mem::gpio<mem::r0>::bit<7>::write( v ); }
FN uint8_t fr_gp0_bit7() { return mem::gpio<mem::r0>::bit<7>::read(); }
FN void fw_gp1_bit0( uint8_t v ) { mem::gpio<mem::r1>::bit<0>::write( v ); }
FN uint8_t fr_gp1_bit0() { return mem::gpio<mem::r1>::bit<0>::read(); }
FN void fw_gp1_bit1( uint8_t v ) { mem::gpio<mem::r1>::bit<1>::write( v ); }
FN uint8_t fr_gp1_bit1() { return mem::gpio<mem::r1>::bit<1>::read(); }
FN void fw_gp1_bit2( uint8_t v ) { mem::gpio<mem::r1>::bit<2>::write( v ); }
FN uint8_t fr_gp1_bit2() { return mem::gpio<mem::r1>::bit<2>::read(); }
FN void fw_gp1_bit3( uint8_t v ) { mem::gpio<mem::r1>::bit<3>::write( v ); }
FN uint8_t fr_gp1_bit3() { return mem::gpio<mem::r1>::bit<3>::read(); }
FN void fw_gp1_bit4( uint8_t v ) { mem::gpio<mem::r1>::bit<4>::write( v ); }
FN uint8_t fr_gp1_bit4() { return mem::gpio<mem::r1>::bit<4>::read(); }
FN void fw_gp1_bit5( uint8_t v ) { mem::gpio<mem::r1>::bit<5>::write( v ); }
FN uint8_t fr_gp1_bit5() { return mem::gpio<mem::r1>::bit<5>::read(); }
FN void fw_gp1_bit6( uint8_t v ) { mem::gpio<mem::r1>::bit<6>::write( v ); }
FN uint8_t fr_gp1_bit6() { return mem::gpio<mem::r1>::bit<6>::read(); }
FN void fw_gp1_bit7( uint8_t v ) { mem::gpio<mem::r1>::bit<7>::write( v ); }
FN uint8_t fr_gp1_bit7() { return mem::gpio<mem::r1>::bit<7>::read(); }
FN void fw_gp2_bit0( uint8_t v ) { mem::gpio<mem::r2>::bit<0>::write( v ); }
FN uint8_t fr_gp2_bit0() { return mem::gpio<mem::r2>::bit<0>::read(); }
FN void fw_gp2_bit1( uint8_t v ) { mem::gpio<mem::r2>::bit<1>::write( v ); }
FN uint8_t fr_gp2_bit1() { return mem::gpio<mem::r2>::bit<1>::read(); }
FN void fw_gp2_bit2( uint8_t v ) { mem::gpio<mem::r2>::bit<2>::write( v ); }
FN uint8_t fr_gp2_bit2() { return mem::gpio<mem::r2>::bit<2>::read(); }
FN void fw_gp2_bit3( uint8_t v ) { mem::gpio<mem::r2>::bit<3>::write( v ); }
FN uint8_t fr_gp2_bit3() { return mem::gpio<mem::r2>::bit<3>::read(); }
FN void fw_gp2_bit4( uint8_t v ) { mem::gpio<mem::r2>::bit<4>::write( v ); }
FN uint8_t fr_gp2_bit4() { return mem::gpio<mem::r2>::bit<4>::read(); }
FN void fw_gp2_bit5( uint8_t v ) { mem::gpio<mem::r2>::bit<5>::write( v ); }
FN uint8_t fr_gp2_bit5() { return mem::gpio<mem::r2>::bit<5>::read(); }
FN void fw_gp2_bit6( uint8_t v ) { mem::gpio<mem::r2>::bit<6>::write( v ); }
FN uint8_t fr_gp2_bit6() { return mem::gpio<mem::r2>::bit<6>::read(); }
FN void fw_gp2_bit7( uint8_t v ) { mem::gpio<mem::r2>::bit<7>::write( v ); }
FN uint8_t fr_gp2_bit7() { return mem::gpio<mem::r2>::bit<7>::read(); }
FN void fw_ddrB( uint8_t v ) { gpio<port::B>::ddr::write( v ); }
FN uint8_t fr_ddrB() { return gpio<port::B>::ddr::read(); }
FN void fw_portB( uint8_t v ) { gpio<port::B>::port::write( v ); }
FN uint8_t fr_portB() { return gpio<port::B>::port::read(); }
FN void fw_dirB0( uint8_t v ) { gpio<port::B>::p<0>::dir::write( v ); }
FN uint8_t fr_dirB0() { return gpio<port::B>::p<0>::dir::read(); }
FN void fw_outB0( uint8_t v ) { gpio<port::B>::p<0>::out::write( v ); }
FN uint8_t fr_outB0() { return gpio<port::B>::p<0>::out::read(); }
FN void fw_dirB1( uint8_t v ) { gpio<port::B>::p<1>::dir::write( v ); }
FN uint8_t fr_dirB1() { return gpio<port::B>::p<1>::dir::read(); }
FN void fw_outB1( uint8_t v ) { gpio<port::B>::p<1>::out::write( v ); }
FN uint8_t fr_outB1() { return gpio<port::B>::p<1>::out::read(); }
FN void fw_dirB2( uint8_t v ) { gpio<port::B>::p<2>::dir::write( v ); }
FN uint8_t fr_dirB2() { return gpio<port::B>::p<2>::dir::read(); }
FN void fw_outB2( uint8_t v ) { gpio<port::B>::p<2>::out::write( v ); }
FN uint8_t fr_outB2() { return gpio<port::B>::p<2>::out::read(); }
FN void fw_dirB3( uint8_t v ) { gpio<port::B>::p<3>::dir::write( v ); }
FN uint8_t fr_dirB3() { return gpio<port::B>::p<3>::dir::read(); }
FN void fw_outB3( uint8_t v ) { gpio<port::B>::p<3>::out::write( v ); }
FN uint8_t fr_outB3() { return gpio<port::B>::p<3>::out::read(); }
FN void fw_dirB4( uint8_t v ) { gpio<port::B>::p<4>::dir::write( v ); }
FN uint8_t fr_dirB4() { return gpio<port::B>::p<4>::dir::read(); }
FN void fw_outB4( uint8_t v ) { gpio<port::B>::p<4>::out::write( v ); }
FN uint8_t fr_outB4() { return gpio<port::B>::p<4>::out::read(); }
FN void fw_dirB5( uint8_t v ) { gpio<port::B>::p<5>::dir::write( v ); }
FN uint8_t fr_dirB5() { return gpio<port::B>::p<5>::dir::read(); }
FN void fw_outB5( uint8_t v ) { gpio<port::B>::p<5>::out::write( v ); }
FN uint8_t fr_outB5() { return gpio<port::B>::p<5>::out::read(); }
FN void fw_dirB6( uint8_t v ) { gpio<port::B>::p<6>::dir::write( v ); }
FN uint8_t fr_dirB6() { return gpio<port::B>::p<6>::dir::read(); }
FN void fw_outB6( uint8_t v ) { gpio<port::B>::p<6>::out::write( v ); }
FN uint8_t fr_outB6() { return gpio<port::B>::p<6>::out::read(); }
FN void fw_dirB7( uint8_t v ) { gpio<port::B>::p<7>::dir::write( v ); }
FN uint8_t fr_dirB7() { return gpio<port::B>::p<7>::dir::read(); }
FN void fw_outB7( uint8_t v ) { gpio<port::B>::p<7>::out::write( v ); }
FN uint8_t fr_outB7() { return gpio<port::B>::p<7>::out::read(); }
FN void fw_ddrC( uint8_t v ) { gpio<port::C>::ddr::write( v ); }
FN uint8_t fr_ddrC() { return gpio<port::C>::ddr::read(); }
FN void fw_portC( uint8_t v ) { gpio<port::C>::port::write( v ); }
FN uint8_t fr_portC() { return gpio<port::C>::port::read(); }
FN void fw_dirC0( uint8_t v ) { gpio<port::C>::p<0>::dir::write( v ); }
FN uint8_t fr_dirC0() { return gpio<port::C>::p<0>::dir::read(); }
FN void fw_outC0( uint8_t v ) { gpio<port::C>::p<0>::out::write( v ); }
FN uint8_t fr_outC0() { return gpio<port::C>::p<0>::out::read(); }
FN void fw_dirC1( uint8_t v ) { gpio<port::C>::p<1>::dir::write( v ); }
FN uint8_t fr_dirC1() { return gpio<port::C>::p<1>::dir::read(); }
FN void fw_outC1( uint8_t v ) { gpio<port::C>::p<1>::out::write( v ); }
FN uint8_t fr_outC1() { return gpio<port::C>::p<1>::out::read(); }
FN void fw_dirC2( uint8_t v ) { gpio<port::C>::p<2>::dir::write( v ); }
FN uint8_t fr_dirC2() { return gpio<port::C>::p<2>::dir::read(); }
FN void fw_outC2( uint8_t v ) { gpio<port::C>::p<2>::out::write( v ); }
FN uint8_t fr_outC2() { return gpio<port::C>::p<2>::out::read(); }
FN void fw_dirC3( uint8_t v ) { gpio<port::C>::p<3>::dir::write( v ); }
FN uint8_t fr_dirC3() { return gpio<port::C>::p<3>::dir::read(); }
FN void fw_outC3( uint8_t v ) { gpio<port::C>::p<3>::out::write( v ); }
FN uint8_t fr_outC3() { return gpio<port::C>::p<3>::out::read(); }
FN void fw_dirC4( uint8_t v ) { gpio<port::C>::p<4>::dir::write( v ); }
FN uint8_t fr_dirC4() { return gpio<port::C>::p<4>::dir::read(); }
FN void fw_outC4( uint8_t v ) { gpio<port::C>::p<4>::out::write( v ); }
FN uint8_t fr_outC4() { return gpio<port::C>::p<4>::out::read(); }
FN void fw_dirC5( uint8_t v ) { gpio<port::C>::p<5>::dir::write( v ); }
FN uint8_t fr_dirC5() { return gpio<port::C>::p<5>::dir::read(); }
FN void fw_outC5( uint8_t v ) { gpio<port::C>::p<5>::out::write( v ); }
FN uint8_t fr_outC5() { return gpio<port::C>::p<5>::out::read(); }
FN void fw_dirC6( uint8_t v ) { gpio<port::C>::p<6>::dir::write( v ); }
FN uint8_t fr_dirC6() { return gpio<port::C>::p<6>::dir::read(); }
FN void fw_outC6( uint8_t v ) { gpio<port::C>::p<6>::out::write( v ); }
FN uint8_t fr_outC6() { return gpio<port::C>::p<6>::out::read(); }
FN void fw_ddrD( uint8_t v ) { gpio<port::D>::ddr::write( v ); }
FN uint8_t fr_ddrD() { return gpio<port::D>::ddr::read(); }
FN void fw_portD( uint8_t v ) { gpio<port::D>::port::write( v ); }
FN uint8_t fr_portD() { return gpio<port::D>::port::read(); }
FN void fw_dirD0( uint8_t v ) { gpio<port::D>::p<0>::dir::write( v ); }
FN uint8_t fr_dirD0() { return gpio<port::D>::p<0>::dir::read(); }
FN void fw_outD0( uint8_t v ) { gpio<port::D>::p<0>::out::write( v ); }
FN uint8_t fr_outD0() { return gpio<port::D>::p<0>::out::read(); }
FN void fw_dirD1( uint8_t v ) { gpio<port::D>::p<1>::dir::write( v ); }
FN uint8_t fr_dirD1() { return gpio<port::D>::p<1>::dir::read(); }
FN void fw_outD1( uint8_t v ) { gpio<port::D>::p<1>::out::write( v ); }
FN uint8_t fr_outD1() { return gpio<port::D>::p<1>::out::read(); }
FN void fw_dirD2( uint8_t v ) { gpio<port::D>::p<2>::dir::write( v ); }
FN uint8_t fr_dirD2() { return gpio<port::D>::p<2>::dir::read(); }
FN void fw_outD2( uint8_t v ) { gpio<port::D>::p<2>::out::write( v ); }
FN uint8_t fr_outD2() { return gpio<port::D>::p<2>::out::read(); }
FN void fw_dirD3( uint8_t v ) { gpio<port::D>::p<3>::dir::write( v ); }
FN uint8_t fr_dirD3() { return gpio<port::D>::p<3>::dir::read(); }
FN void fw_outD3( uint8_t v ) { gpio<port::D>::p<3>::out::write( v ); }
FN uint8_t fr_outD3() { return gpio<port::D>::p<3>::out::read(); }
FN void fw_dirD4( uint8_t v ) { gpio<port::D>::p<4>::dir::write( v ); }
FN uint8_t fr_dirD4() { return gpio<port::D>::p<4>::dir::read(); }
FN void fw_outD4( uint8_t v ) { gpio<port::D>::p<4>::out::write( v ); }
FN uint8_t fr_outD4() { return gpio<port::D>::p<4>::out::read(); }
FN void fw_dirD5( uint8_t v ) { gpio<port::D>::p<5>::dir::write( v ); }
FN uint8_t fr_dirD5() { return gpio<port::D>::p<5>::dir::read(); }
FN void fw_outD5( uint8_t v ) { gpio<port::D>::p<5>::out::write( v ); }
FN uint8_t fr_outD5() { return gpio<port::D>::p<5>::out::read(); }
FN void fw_dirD6( uint8_t v ) { gpio<port::D>::p<6>::dir::write( v ); }
FN uint8_t fr_dirD6() { return gpio<port::D>::p<6>::dir::read(); }
FN void fw_outD6( uint8_t v ) { gpio<port::D>::p<6>::out::write( v ); }
FN uint8_t fr_outD6() { return gpio<port::D>::p<6>::out::read(); }
FN void fw_dirD7( uint8_t v ) { gpio<port::D>::p<7>::dir::write( v ); }
FN uint8_t fr_dirD7() { return gpio<port::D>::p<7>::dir::read(); }
FN void fw_outD7( uint8_t v ) { gpio<port::D>::p<7>::out::write( v ); }
FN uint8_t fr_outD7() { return gpio<port::D>::p<7>::out::read(); }
FN void fw_tc1_noise( uint8_t v ) { tc1::enable::capture::input_capture_noise_canceler( v ); }
FN uint8_t fr_tc1_noise() { return tc1::enable::capture::input_capture_noise_canceler(); }
FN void fw_twi_address( uint8_t v ) { set( twi::protocol::address( v ) ); }
FN uint8_t fr_twi_address() { return (uint8_t) current( twi::protocol::address{} ); }
FN void fw_adc_didr0( uint8_t v ) { adc::reg::didr0::write( v ); }
FN uint8_t fr_adc_didr0() { return adc::reg::didr0::read(); }
FN void fw_ac_didr1( uint8_t v ) { ac::reg::didr1::write( v ); }
FN uint8_t fr_ac_didr1() { return ac::reg::didr1::read(); }
FN void on_twi_start() { set( twi::protocol::start{} ); }
FN uint8_t fr_twi_start() { return current( twi::protocol::start{} ); }
FN void on_twi_stop() { set( twi::protocol::stop{} ); }
FN uint8_t fr_twi_stop() { return current( twi::protocol::stop{} ); }
FN void on_twi_ack() { set( twi::protocol::ack{} ); }
FN uint8_t fr_twi_ack() { return current( twi::protocol::ack{} ); }
FN void on_adc_start() { adc::conversion::start(); }
FN uint8_t fr_adc_start() { return adc::reg::adcsra::adsc::read(); }
FN uint8_t fr_ac_state() { return current( ac::output::state{} ); }
FN uint8_t fr_twi_status() { return (uint8_t) current( twi::protocol::status{} ); }
FN uint8_t fr_twi_wcoll() { return current( twi::protocol::wcoll{} ); }
FN uint8_t fr_adc_lsb() { return adc::conversion::lsb(); }
FN uint8_t fr_adc_msb() { return adc::conversion::msb(); }
FN uint8_t fr_twi_flag_() { return current( twi::interrupt::flag{} ); }
FN uint8_t pinB() { return gpio<port::B>::pin::read(); }
FN uint8_t inpB0() { return gpio<port::B>::p<0>::inp::read(); }
FN uint8_t inpB1() { return gpio<port::B>::p<1>::inp::read(); }
FN uint8_t inpB2() { return gpio<port::B>::p<2>::inp::read(); }
FN uint8_t inpB3() { return gpio<port::B>::p<3>::inp::read(); }
FN uint8_t inpB4() { return gpio<port::B>::p<4>::inp::read(); }
FN uint8_t inpB5() { return gpio<port::B>::p<5>::inp::read(); }
FN uint8_t inpB6() { return gpio<port::B>::p<6>::inp::read(); }
FN uint8_t inpB7() { return gpio<port::B>::p<7>::inp::read(); }
FN uint8_t pinC() { return gpio<port::C>::pin::read(); }
FN uint8_t inpC0() { return gpio<port::C>::p<0>::inp::read(); }
FN uint8_t inpC1() { return gpio<port::C>::p<1>::inp::read(); }
FN uint8_t inpC2() { return gpio<port::C>::p<2>::inp::read(); }
FN uint8_t inpC3() { return gpio<port::C>::p<3>::inp::read(); }
FN uint8_t inpC4() { return gpio<port::C>::p<4>::inp::read(); }
FN uint8_t inpC5() { return gpio<port::C>::p<5>::inp::read(); }
FN uint8_t inpC6() { return gpio<port::C>::p<6>::inp::read(); }
FN uint8_t pinD() { return gpio<port::D>::pin::read(); }
FN uint8_t inpD0() { return gpio<port::D>::p<0>::inp::read(); }
FN uint8_t inpD1() { return gpio<port::D>::p<1>::inp::read(); }
FN uint8_t inpD2() { return gpio<port::D>::p<2>::inp::read(); }
FN uint8_t inpD3() { return gpio<port::D>::p<3>::inp::read(); }
FN uint8_t inpD4() { return gpio<port::D>::p<4>::inp::read(); }
FN uint8_t inpD5() { return gpio<port::D>::p<5>::inp::read(); }
FN uint8_t inpD6() { return gpio<port::D>::p<6>::inp::read(); }
FN uint8_t inpD7() { return gpio<port::D>::p<7>::inp::read(); }
FN void sn0_0() { ei::interrupt_sense<eint::int0>( ei::sense::low ); }
FN void sn0_1() { ei::interrupt_sense<eint::int0>( ei::sense::change ); }
FN void sn0_2() { ei::interrupt_sense<eint::int0>( ei::sense::falling_edge ); }
FN void sn0_3() { ei::interrupt_sense<eint::int0>( ei::sense::rising_edge ); }
FN void sn1_0() { ei::interrupt_sense<eint::int1>( ei::sense::low ); }
FN void sn1_1() { ei::interrupt_sense<eint::int1>( ei::sense::change ); }
FN void sn1_2() { ei::interrupt_sense<eint::int1>( ei::sense::falling_edge ); }
FN void sn1_3() { ei::interrupt_sense<eint::int1>( ei::sense::rising_edge ); }
FN uint8_t is_1() { return current( twi::protocol::status{} ) == twi::protocol::status::S_transmitted; }
FN uint8_t is_2() { return current( twi::protocol::status{} ) == twi::protocol::status::RS_transmitted; }
FN uint8_t is_3() { return current( twi::protocol::status{} ) == twi::protocol::status::SLAW_transmitted_ACK; }
FN uint8_t is_4() { return current( twi::protocol::status{} ) == twi::protocol::status::SLAW_transmitted_NACK; }
FN uint8_t is_5() { return current( twi::protocol::status{} ) == twi::protocol::status::Data_transmitted_ACK; }
FN uint8_t is_6() { return current( twi::protocol::status{} ) == twi::protocol::status::Data_transmitted_NACK; }
FN uint8_t is_7() { return current( twi::protocol::status{} ) == twi::protocol::status::Arbitration_lost; }
FN void pr_0( uint8_t v, uint8_t w ) { mem::eeprom::program::set( mem::eeprom::program::mode( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::master_write( w ) ); }
FN void pr_1( uint8_t v, uint8_t w ) { mem::eeprom::program::set( mem::eeprom::program::mode( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::write( w ) ); }
FN void pr_2( uint8_t v, uint8_t w ) { mem::eeprom::program::set( mem::eeprom::program::mode( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::read( w ) ); }
FN void pr_3( uint8_t v, uint8_t w ) { mem::eeprom::program::set( mem::eeprom::program::mode( v ) ), mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready( w ) ); }
FN void pr_4( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::master_write( v ) ), mem::eeprom::program::set( mem::eeprom::program::mode( w ) ); }
FN void pr_5( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::master_write( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::write( w ) ); }
FN void pr_6( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::master_write( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::read( w ) ); }
FN void pr_7( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::master_write( v ) ), mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready( w ) ); }
FN void pr_8( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::write( v ) ), mem::eeprom::program::set( mem::eeprom::program::mode( w ) ); }
FN void pr_9( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::write( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::master_write( w ) ); }
FN void pr_10( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::write( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::read( w ) ); }
FN void pr_11( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::write( v ) ), mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready( w ) ); }
FN void pr_12( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::read( v ) ), mem::eeprom::program::set( mem::eeprom::program::mode( w ) ); }
FN void pr_13( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::read( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::master_write( w ) ); }
FN void pr_14( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::read( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::write( w ) ); }
FN void pr_15( uint8_t v, uint8_t w ) { mem::eeprom::enable::set( mem::eeprom::enable::read( v ) ), mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready( w ) ); }
FN void pr_16( uint8_t v, uint8_t w ) { mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready( v ) ), mem::eeprom::program::set( mem::eeprom::program::mode( w ) ); }
FN void pr_17( uint8_t v, uint8_t w ) { mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::master_write( w ) ); }
FN void pr_18( uint8_t v, uint8_t w ) { mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::write( w ) ); }
FN void pr_19( uint8_t v, uint8_t w ) { mem::eeprom::interrupt::set( mem::eeprom::interrupt::on_ready( v ) ), mem::eeprom::enable::set( mem::eeprom::enable::read( w ) ); }
FN void pr_20( uint8_t v, uint8_t w ) { tc0::output::a::set( tc0::output::a::mode( v ) ), tc0::output::b::set( tc0::output::b::mode( w ) ); }
FN void pr_21( uint8_t v, uint8_t w ) { tc0::output::b::set( tc0::output::b::mode( v ) ), tc0::output::a::set( tc0::output::a::mode( w ) ); }
FN void pr_22( uint8_t v, uint8_t w ) { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_a( v ) ), tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_b( w ) ); }
FN void pr_23( uint8_t v, uint8_t w ) { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_a( v ) ), tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::overflow( w ) ); }
FN void pr_24( uint8_t v, uint8_t w ) { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_b( v ) ), tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_a( w ) ); }
FN void pr_25( uint8_t v, uint8_t w ) { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_b( v ) ), tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::overflow( w ) ); }
FN void pr_26( uint8_t v, uint8_t w ) { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::overflow( v ) ), tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_a( w ) ); }
FN void pr_27( uint8_t v, uint8_t w ) { tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::overflow( v ) ), tc0::enable::interrupt::on::set( tc0::enable::interrupt::on::match_b( w ) ); }
FN void pr_28( uint8_t v, uint8_t w ) { tc1::input::set( tc1::input::clock( v ) ), tc1::input::capture::set( tc1::input::capture::edge( w ) ); }
FN void pr_29( uint8_t v, uint8_t w ) { tc1::input::capture::set( tc1::input::capture::edge( v ) ), tc1::input::set( tc1::input::clock( w ) ); }
FN void pr_30( uint8_t v, uint8_t w ) { tc1::output::a::set( tc1::output::a::mode( v ) ), tc1::output::b::set( tc1::output::b::mode( w ) ); }
FN void pr_31( uint8_t v, uint8_t w ) { tc1::output::b::set( tc1::output::b::mode( v ) ), tc1::output::a::set( tc1::output::a::mode( w ) ); }
FN void pr_32( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::capture( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_a( w ) ); }
FN void pr_33( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::capture( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_b( w ) ); }
FN void pr_34( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::capture( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::overflow( w ) ); }
FN void pr_35( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_a( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::capture( w ) ); }
FN void pr_36( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_a( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_b( w ) ); }
FN void pr_37( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_a( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::overflow( w ) ); }
FN void pr_38( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_b( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::capture( w ) ); }
FN void pr_39( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_b( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_a( w ) ); }
FN void pr_40( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_b( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::overflow( w ) ); }
FN void pr_41( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::overflow( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::capture( w ) ); }
FN void pr_42( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::overflow( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_a( w ) ); }
FN void pr_43( uint8_t v, uint8_t w ) { tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::overflow( v ) ), tc1::enable::interrupt::on::set( tc1::enable::interrupt::on::match_b( w ) ); }
FN void pr_44( uint8_t v, uint8_t w ) { tcp::set( tcp::synchronization( v ) ), tcp::reset::prescaler::set( tcp::reset::prescaler::tc2( w ) ); }
FN void pr_45( uint8_t v, uint8_t w ) { tcp::set( tcp::synchronization( v ) ), tcp::reset::prescaler::set( tcp::reset::prescaler::tc01( w ) ); }
FN void pr_46( uint8_t v, uint8_t w ) { tcp::reset::prescaler::set( tcp::reset::prescaler::tc2( v ) ), tcp::set( tcp::synchronization( w ) ); }
FN void pr_47( uint8_t v, uint8_t w ) { tcp::reset::prescaler::set( tcp::reset::prescaler::tc2( v ) ), tcp::reset::prescaler::set( tcp::reset::prescaler::tc01( w ) ); }
FN void pr_48( uint8_t v, uint8_t w ) { tcp::reset::prescaler::set( tcp::reset::prescaler::tc01( v ) ), tcp::set( tcp::synchronization( w ) ); }
FN void pr_49( uint8_t v, uint8_t w ) { tcp::reset::prescaler::set( tcp::reset::prescaler::tc01( v ) ), tcp::reset::prescaler::set( tcp::reset::prescaler::tc2( w ) ); }
FN void pr_50( uint8_t v, uint8_t w ) { twi::enable::set( twi::enable::interface( v ) ), twi::enable::set( twi::enable::interrupt( w ) ); }
FN void pr_51( uint8_t v, uint8_t w ) { twi::enable::set( twi::enable::interrupt( v ) ), twi::enable::set( twi::enable::interface( w ) ); }
FN void pr_52( uint8_t v, uint8_t w ) { ac::input::select::set( ac::input::select::bandgap_ref( v ) ), ac::output::interrupt::set( ac::output::interrupt::on( w ) ); }
FN void pr_53( uint8_t v, uint8_t w ) { ac::input::select::set( ac::input::select::bandgap_ref( v ) ), ac::enable::set( ac::enable::interrupt( w ) ); }
FN void pr_54( uint8_t v, uint8_t w ) { ac::input::select::set( ac::input::select::bandgap_ref( v ) ), ac::enable::input::set( ac::enable::input::capture( w ) ); }
FN void pr_55( uint8_t v, uint8_t w ) { ac::input::select::set( ac::input::select::bandgap_ref( v ) ), ac::disable::analog::set( ac::disable::analog::comparator( w ) ); }
FN void pr_56( uint8_t v, uint8_t w ) { ac::output::interrupt::set( ac::output::interrupt::on( v ) ), ac::input::select::set( ac::input::select::bandgap_ref( w ) ); }
FN void pr_57( uint8_t v, uint8_t w ) { ac::output::interrupt::set( ac::output::interrupt::on( v ) ), ac::enable::set( ac::enable::interrupt( w ) ); }
FN void pr_58( uint8_t v, uint8_t w ) { ac::output::interrupt::set( ac::output::interrupt::on( v ) ), ac::enable::input::set( ac::enable::input::capture( w ) ); }
FN void pr_59( uint8_t v, uint8_t w ) { ac::output::interrupt::set( ac::output::interrupt::on( v ) ), ac::disable::analog::set( ac::disable::analog::comparator( w ) ); }
FN void pr_60( uint8_t v, uint8_t w ) { ac::enable::set( ac::enable::interrupt( v ) ), ac::input::select::set( ac::input::select::bandgap_ref( w ) ); }
FN void pr_61( uint8_t v, uint8_t w ) { ac::enable::set( ac::enable::interrupt( v ) ), ac::output::interrupt::set( ac::output::interrupt::on( w ) ); }
FN void pr_62( uint8_t v, uint8_t w ) { ac::enable::set( ac::enable::interrupt( v ) ), ac::enable::input::set( ac::enable::input::capture( w ) ); }
FN void pr_63( uint8_t v, uint8_t w ) { ac::enable::set( ac::enable::interrupt( v ) ), ac::disable::analog::set( ac::disable::analog::comparator( w ) ); }
FN void pr_64( uint8_t v, uint8_t w ) { ac::enable::input::set( ac::enable::input::capture( v ) ), ac::input::select::set( ac::input::select::bandgap_ref( w ) ); }
FN void pr_65( uint8_t v, uint8_t w ) { ac::enable::input::set( ac::enable::input::capture( v ) ), ac::output::interrupt::set( ac::output::interrupt::on( w ) ); }
FN void pr_66( uint8_t v, uint8_t w ) { ac::enable::input::set( ac::enable::input::capture( v ) ), ac::enable::set( ac::enable::interrupt( w ) ); }
FN void pr_67( uint8_t v, uint8_t w ) { ac::enable::input::set( ac::enable::input::capture( v ) ), ac::disable::analog::set( ac::disable::analog::comparator( w ) ); }
FN void pr_68( uint8_t v, uint8_t w ) { ac::disable::analog::set( ac::disable::analog::comparator( v ) ), ac::input::select::set( ac::input::select::bandgap_ref( w ) ); }
FN void pr_69( uint8_t v, uint8_t w ) { ac::disable::analog::set( ac::disable::analog::comparator( v ) ), ac::output::interrupt::set( ac::output::interrupt::on( w ) ); }
FN void pr_70( uint8_t v, uint8_t w ) { ac::disable::analog::set( ac::disable::analog::comparator( v ) ), ac::enable::set( ac::enable::interrupt( w ) ); }
FN void pr_71( uint8_t v, uint8_t w ) { ac::disable::analog::set( ac::disable::analog::comparator( v ) ), ac::enable::input::set( ac::enable::input::capture( w ) ); }
FN void pr_72( uint8_t v, uint8_t w ) { adc::conversion::set( adc::conversion::adjustment( v ) ), adc::input::set( adc::input::reference( w ) ); }
FN void pr_73( uint8_t v, uint8_t w ) { adc::conversion::set( adc::conversion::adjustment( v ) ), adc::input::set( adc::input::channel( w ) ); }
FN void pr_74( uint8_t v, uint8_t w ) { adc::input::set( adc::input::reference( v ) ), adc::conversion::set( adc::conversion::adjustment( w ) ); }
FN void pr_75( uint8_t v, uint8_t w ) { adc::input::set( adc::input::reference( v ) ), adc::input::set( adc::input::channel( w ) ); }
FN void pr_76( uint8_t v, uint8_t w ) { adc::input::set( adc::input::channel( v ) ), adc::conversion::set( adc::conversion::adjustment( w ) ); }
FN void pr_77( uint8_t v, uint8_t w ) { adc::input::set( adc::input::channel( v ) ), adc::input::set( adc::input::reference( w ) ); }
FN void pr_78( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::adc( v ) ), adc::enable::set( adc::enable::interrupt( w ) ); }
FN void pr_79( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::adc( v ) ), adc::enable::set( adc::enable::auto_trigger( w ) ); }
FN void pr_80( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::adc( v ) ), adc::prescale::set( adc::prescale::factor( w ) ); }
FN void pr_81( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::interrupt( v ) ), adc::enable::set( adc::enable::adc( w ) ); }
FN void pr_82( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::interrupt( v ) ), adc::enable::set( adc::enable::auto_trigger( w ) ); }
FN void pr_83( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::interrupt( v ) ), adc::prescale::set( adc::prescale::factor( w ) ); }
FN void pr_84( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::auto_trigger( v ) ), adc::enable::set( adc::enable::adc( w ) ); }
FN void pr_85( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::auto_trigger( v ) ), adc::enable::set( adc::enable::interrupt( w ) ); }
FN void pr_86( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::auto_trigger( v ) ), adc::prescale::set( adc::prescale::factor( w ) ); }
FN void pr_87( uint8_t v, uint8_t w ) { adc::enable::set( adc::enable::comparator( v ) ), adc::trigger::set( adc::trigger::on( w ) ); }
FN void pr_88( uint8_t v, uint8_t w ) { adc::trigger::set( adc::trigger::on( v ) ), adc::enable::set( adc::enable::comparator( w ) ); }
FN void pr_89( uint8_t v, uint8_t w ) { adc::prescale::set( adc::prescale::factor( v ) ), adc::enable::set( adc::enable::adc( w ) ); }
FN void pr_90( uint8_t v, uint8_t w ) { adc::prescale::set( adc::prescale::factor( v ) ), adc::enable::set( adc::enable::interrupt( w ) ); }
FN void pr_91( uint8_t v, uint8_t w ) { adc::prescale::set( adc::prescale::factor( v ) ), adc::enable::set( adc::enable::auto_trigger( w ) ); }
int main() { for (;;) ; }
