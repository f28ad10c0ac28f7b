// LEDs and pins of every port
#include "mcu/atmega328.hpp"
using namespace mcu; using namespace mcu::atmega328;
#define FN extern "C" __attribute__((used, noinline))
#define PIN(P, n) \
    FN void on_##P##n() { led<port::P, n>::on(); } FN void off_##P##n() { led<port::P, n>::off(); } FN void tog_##P##n() { led<port::P, n>::toggle(); } FN void ena_##P##n() { led<port::P, n>::enable(); } \
    FN void dset_##P##n() { gpio<port::P>::p<n>::dir::set(); } FN void dclr_##P##n() { gpio<port::P>::p<n>::dir::clear(); } FN void dwr_##P##n( uint8_t v ) { gpio<port::P>::p<n>::dir::write( v ); } \
    FN uint8_t drd_##P##n() { return gpio<port::P>::p<n>::dir::read(); } FN void dtog_##P##n() { gpio<port::P>::p<n>::dir::toggle(); } \
    FN void oset_##P##n() { gpio<port::P>::p<n>::out::set(); } FN void oclr_##P##n() { gpio<port::P>::p<n>::out::clear(); } FN void owr_##P##n( uint8_t v ) { gpio<port::P>::p<n>::out::write( v ); } \
    FN uint8_t ord_##P##n() { return gpio<port::P>::p<n>::out::read(); } FN void otog_##P##n() { gpio<port::P>::p<n>::out::toggle(); } \
    FN uint8_t ird_##P##n() { return gpio<port::P>::p<n>::inp::read(); }
#define PORT_(P) \
    FN void pw_##P( uint8_t v ) { gpio<port::P>::port::write( v ); } FN uint8_t pr_##P() { return gpio<port::P>::port::read(); } \
    FN void dw_##P( uint8_t v ) { gpio<port::P>::ddr::write( v ); } FN uint8_t dr_##P() { return gpio<port::P>::ddr::read(); } FN uint8_t ir_##P() { return gpio<port::P>::pin::read(); }
PORT_(B) PIN(B, 0) PIN(B, 1) PIN(B, 2) PIN(B, 3) PIN(B, 4) PIN(B, 5) PIN(B, 6) PIN(B, 7)
PORT_(C) PIN(C, 0) PIN(C, 1) PIN(C, 2) PIN(C, 3) PIN(C, 4) PIN(C, 5) PIN(C, 6)
PORT_(D) PIN(D, 0) PIN(D, 1) PIN(D, 2) PIN(D, 3) PIN(D, 4) PIN(D, 5) PIN(D, 6) PIN(D, 7)
FN void pwm_init() { tc1_pwm_on_a_pb1::init(); }
FN void pwm_write( uint16_t v ) { tc1_pwm_on_a_pb1::write( v ); }
FN uint16_t pwm_min() { return tc1_pwm_on_a_pb1::value_min; }
FN uint16_t pwm_max() { return tc1_pwm_on_a_pb1::value_max; }
int main() { for (;;) ; }
