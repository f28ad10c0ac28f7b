// written by gen-settings.py: interrupt flags and compare strobes
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
#define FN extern "C" __attribute__((used, noinline))
FN void fc_tc0_a() { clear( tc0::interrupt::compare::flag::a{} ); }
FN uint8_t fg_tc0_a() { return 0 != current( tc0::interrupt::compare::flag::a{} ); }
FN void fc_tc0_b() { clear( tc0::interrupt::compare::flag::b{} ); }
FN uint8_t fg_tc0_b() { return 0 != current( tc0::interrupt::compare::flag::b{} ); }
FN void fc_tc0_ov() { clear( tc0::interrupt::overflow::flag{} ); }
FN uint8_t fg_tc0_ov() { return 0 != current( tc0::interrupt::overflow::flag{} ); }
FN void fc_tc1_a() { clear( tc1::interrupt::compare::flag::a{} ); }
FN uint8_t fg_tc1_a() { return 0 != current( tc1::interrupt::compare::flag::a{} ); }
FN void fc_tc1_b() { clear( tc1::interrupt::compare::flag::b{} ); }
FN uint8_t fg_tc1_b() { return 0 != current( tc1::interrupt::compare::flag::b{} ); }
FN void fc_tc1_ov() { clear( tc1::interrupt::overflow::flag{} ); }
FN uint8_t fg_tc1_ov() { return 0 != current( tc1::interrupt::overflow::flag{} ); }
FN void fc_tc1_icf() { clear( tc1::interrupt::capture::flag{} ); }
FN uint8_t fg_tc1_icf() { return 0 != current( tc1::interrupt::capture::flag{} ); }
FN void fc_adc() { clear( adc::interrupt::flag{} ); }
FN uint8_t fg_adc() { return 0 != current( adc::interrupt::flag{} ); }
FN void fc_ac() { clear( ac::interrupt::flag{} ); }
FN uint8_t fg_ac() { return 0 != current( ac::interrupt::flag{} ); }
FN void fc_twi() { clear( twi::interrupt::flag{} ); }
FN uint8_t fg_twi() { return 0 != current( twi::interrupt::flag{} ); }
FN void fc_int0() { ei::clear_external_int0_flag(); }
FN uint8_t fg_int0() { return 0 != ei::external_int0_flag(); }
FN void fc_int1() { ei::clear_external_int1_flag(); }
FN uint8_t fg_int1() { return 0 != ei::external_int1_flag(); }
FN void fc_pcint0() { ei::clear_pin_change_int0_flag(); }
FN uint8_t fg_pcint0() { return 0 != ei::pin_change_int0_flag(); }
FN void fc_pcint1() { ei::clear_pin_change_int1_flag(); }
FN uint8_t fg_pcint1() { return 0 != ei::pin_change_int1_flag(); }
FN void fc_pcint2() { ei::clear_pin_change_int2_flag(); }
FN uint8_t fg_pcint2() { return 0 != ei::pin_change_int2_flag(); }
FN void ss_tc0_fa() { set( tc0::control::compare::force::a{} ); }
FN void ss_tc0_fb() { set( tc0::control::compare::force::b{} ); }
FN void ss_tc1_fa() { set( tc1::control::compare::force::a{} ); }
FN void ss_tc1_fb() { set( tc1::control::compare::force::b{} ); }
FN uint8_t pl_tc0_a( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( tc0::interrupt::compare::flag::a{} ) ) { clear( tc0::interrupt::compare::flag::a{} ); return i; } return n; }
FN uint8_t pl_tc0_b( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( tc0::interrupt::compare::flag::b{} ) ) { clear( tc0::interrupt::compare::flag::b{} ); return i; } return n; }
FN uint8_t pl_tc0_ov( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( tc0::interrupt::overflow::flag{} ) ) { clear( tc0::interrupt::overflow::flag{} ); return i; } return n; }
FN uint8_t pl_tc1_a( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( tc1::interrupt::compare::flag::a{} ) ) { clear( tc1::interrupt::compare::flag::a{} ); return i; } return n; }
FN uint8_t pl_tc1_b( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( tc1::interrupt::compare::flag::b{} ) ) { clear( tc1::interrupt::compare::flag::b{} ); return i; } return n; }
FN uint8_t pl_tc1_ov( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( tc1::interrupt::overflow::flag{} ) ) { clear( tc1::interrupt::overflow::flag{} ); return i; } return n; }
FN uint8_t pl_tc1_icf( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( tc1::interrupt::capture::flag{} ) ) { clear( tc1::interrupt::capture::flag{} ); return i; } return n; }
FN uint8_t pl_adc( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( adc::interrupt::flag{} ) ) { clear( adc::interrupt::flag{} ); return i; } return n; }
FN uint8_t pl_ac( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( ac::interrupt::flag{} ) ) { clear( ac::interrupt::flag{} ); return i; } return n; }
FN uint8_t pl_twi( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( current( twi::interrupt::flag{} ) ) { clear( twi::interrupt::flag{} ); return i; } return n; }
FN uint8_t pl_int0( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( ei::external_int0_flag() ) { ei::clear_external_int0_flag(); return i; } return n; }
FN uint8_t pl_int1( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( ei::external_int1_flag() ) { ei::clear_external_int1_flag(); return i; } return n; }
FN uint8_t pl_pcint0( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( ei::pin_change_int0_flag() ) { ei::clear_pin_change_int0_flag(); return i; } return n; }
FN uint8_t pl_pcint1( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( ei::pin_change_int1_flag() ) { ei::clear_pin_change_int1_flag(); return i; } return n; }
FN uint8_t pl_pcint2( uint8_t n ) { for ( uint8_t i = 0; i != n; ++i ) if ( ei::pin_change_int2_flag() ) { ei::clear_pin_change_int2_flag(); return i; } return n; }
int main() { for (;;) ; }
