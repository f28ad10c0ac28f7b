// arithmetic of every width, to check the instruction simulator against the host compiler
#include <stdint.h>
#define FN extern "C" __attribute__((used, noinline))
#define OPS(n, t) \
    FN t add_##n( t a, t b ) { return a + b; } FN t sub_##n( t a, t b ) { return a - b; } FN t mul_##n( t a, t b ) { return a * b; } \
    FN t div_##n( t a, t b ) { return a / b; } FN t mod_##n( t a, t b ) { return a % b; } FN t shl_##n( t a, uint8_t k ) { return a << k; } \
    FN t shr_##n( t a, uint8_t k ) { return a >> k; } FN uint8_t lt_##n( t a, t b ) { return a < b; } FN uint8_t eq_##n( t a, t b ) { return a == b; } \
    FN t and_##n( t a, t b ) { return a & ~b; } FN t neg_##n( t a, t b ) { return -a ^ b; }
OPS( s8, int8_t ) OPS( u8, uint8_t ) OPS( s16, int16_t ) OPS( u16, uint16_t ) OPS( s32, int32_t ) OPS( u32, uint32_t )
OPS( s64, int64_t ) OPS( u64, uint64_t )
FN float add_f( float a, float b ) { return a + b; } FN float sub_f( float a, float b ) { return a - b; }
FN float mul_f( float a, float b ) { return a * b; } FN float div_f( float a, float b ) { return a / b; }
FN uint8_t lt_f( float a, float b ) { return a < b; } FN int32_t int_f( float a ) { return a; } FN float flt_f( int32_t a ) { return a; }
int main() { for (;;) ; }
