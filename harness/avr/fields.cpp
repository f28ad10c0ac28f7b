// every bit field of an 8-bit register at an address of each of the three instruction ranges, and fields of a 16-bit register
#include "mcu/register.hpp"
using namespace mcu;
#define FN extern "C" __attribute__((used, noinline))
#define FIELD(A, h, l) \
    FN uint8_t rd_##A##_##h##_##l()            { return bitfield8_t<rw_t, A, h, l>::read(); } \
    FN void    wr_##A##_##h##_##l( uint8_t v ) { bitfield8_t<rw_t, A, h, l>::write( v ); } \
    FN void    lz_##A##_##h##_##l( uint8_t v ) { bitfield8_t<rw_t, A, h, l>::write_lazy( v ); }
#define BIT(A, b) \
    FN void    st_##A##_##b() { bitfield8_t<rw_t, A, b>::set(); } \
    FN void    cl_##A##_##b() { bitfield8_t<rw_t, A, b>::clear(); } \
    FN void    tg_##A##_##b() { bitfield8_t<rw_t, A, b>::toggle(); } \
    FN uint8_t ro_##A##_##b() { return bitfield8_t<r_t, A, b>::read(); }
#define WIDE(A, h, l) \
    FN uint16_t wrd_##h##_##l()             { return bitfield16_t<rw_t, A, h, l>::read(); } \
    FN void     wwr_##h##_##l( uint16_t v ) { bitfield16_t<rw_t, A, h, l>::write( v ); } \
    FN void     wlz_##h##_##l( uint16_t v ) { bitfield16_t<rw_t, A, h, l>::write_lazy( v ); }
#define ALL(A) FIELD(A,0,0) FIELD(A,1,0) FIELD(A,1,1) FIELD(A,2,0) FIELD(A,2,1) FIELD(A,2,2) FIELD(A,3,0) FIELD(A,3,1) FIELD(A,3,2) FIELD(A,3,3) FIELD(A,4,0) FIELD(A,4,1) FIELD(A,4,2) FIELD(A,4,3) FIELD(A,4,4) FIELD(A,5,0) FIELD(A,5,1) FIELD(A,5,2) FIELD(A,5,3) FIELD(A,5,4) FIELD(A,5,5) FIELD(A,6,0) FIELD(A,6,1) FIELD(A,6,2) FIELD(A,6,3) FIELD(A,6,4) FIELD(A,6,5) FIELD(A,6,6) FIELD(A,7,0) FIELD(A,7,1) FIELD(A,7,2) FIELD(A,7,3) FIELD(A,7,4) FIELD(A,7,5) FIELD(A,7,6) FIELD(A,7,7) BIT(A,0) BIT(A,1) BIT(A,2) BIT(A,3) BIT(A,4) BIT(A,5) BIT(A,6) BIT(A,7)
ALL(0x3e) ALL(0x4a) ALL(0x6d)
WIDE(0x4a,0,0) WIDE(0x4a,1,0) WIDE(0x4a,1,1) WIDE(0x4a,2,1) WIDE(0x4a,2,2) WIDE(0x4a,3,0) WIDE(0x4a,3,2) WIDE(0x4a,3,3) WIDE(0x4a,4,1) WIDE(0x4a,4,3) WIDE(0x4a,4,4) WIDE(0x4a,5,2) WIDE(0x4a,5,4) WIDE(0x4a,5,5) WIDE(0x4a,6,0) WIDE(0x4a,6,3) WIDE(0x4a,6,5) WIDE(0x4a,6,6) WIDE(0x4a,7,0) WIDE(0x4a,7,1) WIDE(0x4a,7,4) WIDE(0x4a,7,6) WIDE(0x4a,7,7) WIDE(0x4a,8,0) WIDE(0x4a,8,1) WIDE(0x4a,8,2) WIDE(0x4a,8,5) WIDE(0x4a,8,7) WIDE(0x4a,8,8) WIDE(0x4a,9,1) WIDE(0x4a,9,2) WIDE(0x4a,9,3) WIDE(0x4a,9,6) WIDE(0x4a,9,8) WIDE(0x4a,9,9) WIDE(0x4a,10,2) WIDE(0x4a,10,3) WIDE(0x4a,10,4) WIDE(0x4a,10,7) WIDE(0x4a,10,9) WIDE(0x4a,10,10) WIDE(0x4a,11,0) WIDE(0x4a,11,3) WIDE(0x4a,11,4) WIDE(0x4a,11,5) WIDE(0x4a,11,8) WIDE(0x4a,11,10) WIDE(0x4a,11,11) WIDE(0x4a,12,1) WIDE(0x4a,12,4) WIDE(0x4a,12,5) WIDE(0x4a,12,6) WIDE(0x4a,12,9) WIDE(0x4a,12,11) WIDE(0x4a,12,12) WIDE(0x4a,13,2) WIDE(0x4a,13,5) WIDE(0x4a,13,6) WIDE(0x4a,13,7) WIDE(0x4a,13,10) WIDE(0x4a,13,12) WIDE(0x4a,13,13) WIDE(0x4a,14,3) WIDE(0x4a,14,6) WIDE(0x4a,14,7) WIDE(0x4a,14,8) WIDE(0x4a,14,11) WIDE(0x4a,14,13) WIDE(0x4a,14,14) WIDE(0x4a,15,0) WIDE(0x4a,15,4) WIDE(0x4a,15,7) WIDE(0x4a,15,8) WIDE(0x4a,15,9) WIDE(0x4a,15,12) WIDE(0x4a,15,14) WIDE(0x4a,15,15)
FN uint8_t reg_rd()            { return register8_t<rw_t, 0x6d>::read(); }
FN void    reg_wr( uint8_t v ) { register8_t<rw_t, 0x6d>::write( v ); }
int main() { for (;;) ; }
