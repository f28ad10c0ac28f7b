FMT( s8, int8_t, 0 ) FMT( s8, int8_t, 1 ) FMT( s8, int8_t, 3 ) FMT( s8, int8_t, 4 ) FMT( s8, int8_t, 6 ) FMT( s8, int8_t, 7 )
FMT( s16, int16_t, 0 ) FMT( s16, int16_t, 1 ) FMT( s16, int16_t, 7 ) FMT( s16, int16_t, 8 ) FMT( s16, int16_t, 12 ) FMT( s16, int16_t, 15 )
FMT( s32, int32_t, 0 ) FMT( s32, int32_t, 1 ) FMT( s32, int32_t, 8 ) FMT( s32, int32_t, 15 ) FMT( s32, int32_t, 16 ) FMT( s32, int32_t, 24 ) FMT( s32, int32_t, 31 )
