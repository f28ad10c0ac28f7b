// two-wire bus: initialization and the blocking write
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
#define FN extern "C" __attribute__((used, noinline))
FN uint8_t tw_write( uint8_t address, uint8_t byte ) { return twi::sync::write( address, byte ); }
FN uint8_t tw_write2( uint8_t address, uint8_t a, uint8_t b ) { uint8_t r = twi::sync::write( address, a ); return r | twi::sync::write( address, b ) << 1; }
FN void tw_init_default() { twi::sync::init(); }
FN void tw_init_rate( uint8_t rate ) { twi::sync::init( twi::control::rate( rate ) ); }
FN void tw_init( uint8_t rate, uint8_t ps ) { twi::sync::init( twi::control::rate( rate ), twi::control::prescale::factor( ps ) ); }
FN void tw_init_x1( uint8_t rate ) { twi::sync::init( twi::control::rate( rate ), twi::control::prescale::factor::x1 ); }
FN void tw_init_x4( uint8_t rate ) { twi::sync::init( twi::control::rate( rate ), twi::control::prescale::factor::x4 ); }
FN void tw_init_x16( uint8_t rate ) { twi::sync::init( twi::control::rate( rate ), twi::control::prescale::factor::x16 ); }
FN void tw_init_x64( uint8_t rate ) { twi::sync::init( twi::control::rate( rate ), twi::control::prescale::factor::x64 ); }
int main() { for (;;) ; }
