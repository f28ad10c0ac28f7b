#include "mcu/register.hpp"
using namespace mcu;
#define FN extern "C" __attribute__((used, noinline))
template< address_t A, index_t h, index_t l > using F = bitfield8_t<rw_t, A, h, l>;
FN void cb_0x3e_00_11( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,1,1>::write_lazy( b ); }
FN void cb_0x3e_00_31( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,3,1>::write_lazy( b ); }
FN void cb_0x3e_00_32( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,3,2>::write_lazy( b ); }
FN void cb_0x3e_00_33( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,3,3>::write_lazy( b ); }
FN void cb_0x3e_00_51( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,5,1>::write_lazy( b ); }
FN void cb_0x3e_00_52( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,5,2>::write_lazy( b ); }
FN void cb_0x3e_00_53( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,5,3>::write_lazy( b ); }
FN void cb_0x3e_00_54( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,5,4>::write_lazy( b ); }
FN void cb_0x3e_00_55( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,5,5>::write_lazy( b ); }
FN void cb_0x3e_00_71( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,7,1>::write_lazy( b ); }
FN void cb_0x3e_00_72( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,7,2>::write_lazy( b ); }
FN void cb_0x3e_00_73( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,7,3>::write_lazy( b ); }
FN void cb_0x3e_00_74( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,7,4>::write_lazy( b ); }
FN void cb_0x3e_00_75( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,7,5>::write_lazy( b ); }
FN void cb_0x3e_00_76( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,7,6>::write_lazy( b ); }
FN void cb_0x3e_00_77( uint8_t a, uint8_t b ) { F<0x3e,0,0>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_10_22( uint8_t a, uint8_t b ) { F<0x3e,1,0>::write_lazy( a ), F<0x3e,2,2>::write_lazy( b ); }
FN void cb_0x3e_10_42( uint8_t a, uint8_t b ) { F<0x3e,1,0>::write_lazy( a ), F<0x3e,4,2>::write_lazy( b ); }
FN void cb_0x3e_10_43( uint8_t a, uint8_t b ) { F<0x3e,1,0>::write_lazy( a ), F<0x3e,4,3>::write_lazy( b ); }
FN void cb_0x3e_10_44( uint8_t a, uint8_t b ) { F<0x3e,1,0>::write_lazy( a ), F<0x3e,4,4>::write_lazy( b ); }
FN void cb_0x3e_10_62( uint8_t a, uint8_t b ) { F<0x3e,1,0>::write_lazy( a ), F<0x3e,6,2>::write_lazy( b ); }
FN void cb_0x3e_10_63( uint8_t a, uint8_t b ) { F<0x3e,1,0>::write_lazy( a ), F<0x3e,6,3>::write_lazy( b ); }
FN void cb_0x3e_10_64( uint8_t a, uint8_t b ) { F<0x3e,1,0>::write_lazy( a ), F<0x3e,6,4>::write_lazy( b ); }
FN void cb_0x3e_10_65( uint8_t a, uint8_t b ) { F<0x3e,1,0>::write_lazy( a ), F<0x3e,6,5>::write_lazy( b ); }
FN void cb_0x3e_10_66( uint8_t a, uint8_t b ) { F<0x3e,1,0>::write_lazy( a ), F<0x3e,6,6>::write_lazy( b ); }
FN void cb_0x3e_11_00( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_11_22( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,2,2>::write_lazy( b ); }
FN void cb_0x3e_11_42( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,4,2>::write_lazy( b ); }
FN void cb_0x3e_11_43( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,4,3>::write_lazy( b ); }
FN void cb_0x3e_11_44( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,4,4>::write_lazy( b ); }
FN void cb_0x3e_11_62( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,6,2>::write_lazy( b ); }
FN void cb_0x3e_11_63( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,6,3>::write_lazy( b ); }
FN void cb_0x3e_11_64( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,6,4>::write_lazy( b ); }
FN void cb_0x3e_11_65( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,6,5>::write_lazy( b ); }
FN void cb_0x3e_11_66( uint8_t a, uint8_t b ) { F<0x3e,1,1>::write_lazy( a ), F<0x3e,6,6>::write_lazy( b ); }
FN void cb_0x3e_20_33( uint8_t a, uint8_t b ) { F<0x3e,2,0>::write_lazy( a ), F<0x3e,3,3>::write_lazy( b ); }
FN void cb_0x3e_20_53( uint8_t a, uint8_t b ) { F<0x3e,2,0>::write_lazy( a ), F<0x3e,5,3>::write_lazy( b ); }
FN void cb_0x3e_20_54( uint8_t a, uint8_t b ) { F<0x3e,2,0>::write_lazy( a ), F<0x3e,5,4>::write_lazy( b ); }
FN void cb_0x3e_20_55( uint8_t a, uint8_t b ) { F<0x3e,2,0>::write_lazy( a ), F<0x3e,5,5>::write_lazy( b ); }
FN void cb_0x3e_20_73( uint8_t a, uint8_t b ) { F<0x3e,2,0>::write_lazy( a ), F<0x3e,7,3>::write_lazy( b ); }
FN void cb_0x3e_20_74( uint8_t a, uint8_t b ) { F<0x3e,2,0>::write_lazy( a ), F<0x3e,7,4>::write_lazy( b ); }
FN void cb_0x3e_20_75( uint8_t a, uint8_t b ) { F<0x3e,2,0>::write_lazy( a ), F<0x3e,7,5>::write_lazy( b ); }
FN void cb_0x3e_20_76( uint8_t a, uint8_t b ) { F<0x3e,2,0>::write_lazy( a ), F<0x3e,7,6>::write_lazy( b ); }
FN void cb_0x3e_20_77( uint8_t a, uint8_t b ) { F<0x3e,2,0>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_21_33( uint8_t a, uint8_t b ) { F<0x3e,2,1>::write_lazy( a ), F<0x3e,3,3>::write_lazy( b ); }
FN void cb_0x3e_21_53( uint8_t a, uint8_t b ) { F<0x3e,2,1>::write_lazy( a ), F<0x3e,5,3>::write_lazy( b ); }
FN void cb_0x3e_21_54( uint8_t a, uint8_t b ) { F<0x3e,2,1>::write_lazy( a ), F<0x3e,5,4>::write_lazy( b ); }
FN void cb_0x3e_21_55( uint8_t a, uint8_t b ) { F<0x3e,2,1>::write_lazy( a ), F<0x3e,5,5>::write_lazy( b ); }
FN void cb_0x3e_21_73( uint8_t a, uint8_t b ) { F<0x3e,2,1>::write_lazy( a ), F<0x3e,7,3>::write_lazy( b ); }
FN void cb_0x3e_21_74( uint8_t a, uint8_t b ) { F<0x3e,2,1>::write_lazy( a ), F<0x3e,7,4>::write_lazy( b ); }
FN void cb_0x3e_21_75( uint8_t a, uint8_t b ) { F<0x3e,2,1>::write_lazy( a ), F<0x3e,7,5>::write_lazy( b ); }
FN void cb_0x3e_21_76( uint8_t a, uint8_t b ) { F<0x3e,2,1>::write_lazy( a ), F<0x3e,7,6>::write_lazy( b ); }
FN void cb_0x3e_21_77( uint8_t a, uint8_t b ) { F<0x3e,2,1>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_22_10( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,1,0>::write_lazy( b ); }
FN void cb_0x3e_22_11( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,1,1>::write_lazy( b ); }
FN void cb_0x3e_22_33( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,3,3>::write_lazy( b ); }
FN void cb_0x3e_22_53( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,5,3>::write_lazy( b ); }
FN void cb_0x3e_22_54( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,5,4>::write_lazy( b ); }
FN void cb_0x3e_22_55( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,5,5>::write_lazy( b ); }
FN void cb_0x3e_22_73( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,7,3>::write_lazy( b ); }
FN void cb_0x3e_22_74( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,7,4>::write_lazy( b ); }
FN void cb_0x3e_22_75( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,7,5>::write_lazy( b ); }
FN void cb_0x3e_22_76( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,7,6>::write_lazy( b ); }
FN void cb_0x3e_22_77( uint8_t a, uint8_t b ) { F<0x3e,2,2>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_31_00( uint8_t a, uint8_t b ) { F<0x3e,3,1>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_31_44( uint8_t a, uint8_t b ) { F<0x3e,3,1>::write_lazy( a ), F<0x3e,4,4>::write_lazy( b ); }
FN void cb_0x3e_31_64( uint8_t a, uint8_t b ) { F<0x3e,3,1>::write_lazy( a ), F<0x3e,6,4>::write_lazy( b ); }
FN void cb_0x3e_31_65( uint8_t a, uint8_t b ) { F<0x3e,3,1>::write_lazy( a ), F<0x3e,6,5>::write_lazy( b ); }
FN void cb_0x3e_31_66( uint8_t a, uint8_t b ) { F<0x3e,3,1>::write_lazy( a ), F<0x3e,6,6>::write_lazy( b ); }
FN void cb_0x3e_32_00( uint8_t a, uint8_t b ) { F<0x3e,3,2>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_32_44( uint8_t a, uint8_t b ) { F<0x3e,3,2>::write_lazy( a ), F<0x3e,4,4>::write_lazy( b ); }
FN void cb_0x3e_32_64( uint8_t a, uint8_t b ) { F<0x3e,3,2>::write_lazy( a ), F<0x3e,6,4>::write_lazy( b ); }
FN void cb_0x3e_32_65( uint8_t a, uint8_t b ) { F<0x3e,3,2>::write_lazy( a ), F<0x3e,6,5>::write_lazy( b ); }
FN void cb_0x3e_32_66( uint8_t a, uint8_t b ) { F<0x3e,3,2>::write_lazy( a ), F<0x3e,6,6>::write_lazy( b ); }
FN void cb_0x3e_33_00( uint8_t a, uint8_t b ) { F<0x3e,3,3>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_33_20( uint8_t a, uint8_t b ) { F<0x3e,3,3>::write_lazy( a ), F<0x3e,2,0>::write_lazy( b ); }
FN void cb_0x3e_33_21( uint8_t a, uint8_t b ) { F<0x3e,3,3>::write_lazy( a ), F<0x3e,2,1>::write_lazy( b ); }
FN void cb_0x3e_33_22( uint8_t a, uint8_t b ) { F<0x3e,3,3>::write_lazy( a ), F<0x3e,2,2>::write_lazy( b ); }
FN void cb_0x3e_33_44( uint8_t a, uint8_t b ) { F<0x3e,3,3>::write_lazy( a ), F<0x3e,4,4>::write_lazy( b ); }
FN void cb_0x3e_33_64( uint8_t a, uint8_t b ) { F<0x3e,3,3>::write_lazy( a ), F<0x3e,6,4>::write_lazy( b ); }
FN void cb_0x3e_33_65( uint8_t a, uint8_t b ) { F<0x3e,3,3>::write_lazy( a ), F<0x3e,6,5>::write_lazy( b ); }
FN void cb_0x3e_33_66( uint8_t a, uint8_t b ) { F<0x3e,3,3>::write_lazy( a ), F<0x3e,6,6>::write_lazy( b ); }
FN void cb_0x3e_42_10( uint8_t a, uint8_t b ) { F<0x3e,4,2>::write_lazy( a ), F<0x3e,1,0>::write_lazy( b ); }
FN void cb_0x3e_42_11( uint8_t a, uint8_t b ) { F<0x3e,4,2>::write_lazy( a ), F<0x3e,1,1>::write_lazy( b ); }
FN void cb_0x3e_42_55( uint8_t a, uint8_t b ) { F<0x3e,4,2>::write_lazy( a ), F<0x3e,5,5>::write_lazy( b ); }
FN void cb_0x3e_42_75( uint8_t a, uint8_t b ) { F<0x3e,4,2>::write_lazy( a ), F<0x3e,7,5>::write_lazy( b ); }
FN void cb_0x3e_42_76( uint8_t a, uint8_t b ) { F<0x3e,4,2>::write_lazy( a ), F<0x3e,7,6>::write_lazy( b ); }
FN void cb_0x3e_42_77( uint8_t a, uint8_t b ) { F<0x3e,4,2>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_43_10( uint8_t a, uint8_t b ) { F<0x3e,4,3>::write_lazy( a ), F<0x3e,1,0>::write_lazy( b ); }
FN void cb_0x3e_43_11( uint8_t a, uint8_t b ) { F<0x3e,4,3>::write_lazy( a ), F<0x3e,1,1>::write_lazy( b ); }
FN void cb_0x3e_43_55( uint8_t a, uint8_t b ) { F<0x3e,4,3>::write_lazy( a ), F<0x3e,5,5>::write_lazy( b ); }
FN void cb_0x3e_43_75( uint8_t a, uint8_t b ) { F<0x3e,4,3>::write_lazy( a ), F<0x3e,7,5>::write_lazy( b ); }
FN void cb_0x3e_43_76( uint8_t a, uint8_t b ) { F<0x3e,4,3>::write_lazy( a ), F<0x3e,7,6>::write_lazy( b ); }
FN void cb_0x3e_43_77( uint8_t a, uint8_t b ) { F<0x3e,4,3>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_44_10( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,1,0>::write_lazy( b ); }
FN void cb_0x3e_44_11( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,1,1>::write_lazy( b ); }
FN void cb_0x3e_44_30( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,3,0>::write_lazy( b ); }
FN void cb_0x3e_44_31( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,3,1>::write_lazy( b ); }
FN void cb_0x3e_44_32( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,3,2>::write_lazy( b ); }
FN void cb_0x3e_44_33( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,3,3>::write_lazy( b ); }
FN void cb_0x3e_44_55( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,5,5>::write_lazy( b ); }
FN void cb_0x3e_44_75( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,7,5>::write_lazy( b ); }
FN void cb_0x3e_44_76( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,7,6>::write_lazy( b ); }
FN void cb_0x3e_44_77( uint8_t a, uint8_t b ) { F<0x3e,4,4>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_53_00( uint8_t a, uint8_t b ) { F<0x3e,5,3>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_53_20( uint8_t a, uint8_t b ) { F<0x3e,5,3>::write_lazy( a ), F<0x3e,2,0>::write_lazy( b ); }
FN void cb_0x3e_53_21( uint8_t a, uint8_t b ) { F<0x3e,5,3>::write_lazy( a ), F<0x3e,2,1>::write_lazy( b ); }
FN void cb_0x3e_53_22( uint8_t a, uint8_t b ) { F<0x3e,5,3>::write_lazy( a ), F<0x3e,2,2>::write_lazy( b ); }
FN void cb_0x3e_53_66( uint8_t a, uint8_t b ) { F<0x3e,5,3>::write_lazy( a ), F<0x3e,6,6>::write_lazy( b ); }
FN void cb_0x3e_54_00( uint8_t a, uint8_t b ) { F<0x3e,5,4>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_54_20( uint8_t a, uint8_t b ) { F<0x3e,5,4>::write_lazy( a ), F<0x3e,2,0>::write_lazy( b ); }
FN void cb_0x3e_54_21( uint8_t a, uint8_t b ) { F<0x3e,5,4>::write_lazy( a ), F<0x3e,2,1>::write_lazy( b ); }
FN void cb_0x3e_54_22( uint8_t a, uint8_t b ) { F<0x3e,5,4>::write_lazy( a ), F<0x3e,2,2>::write_lazy( b ); }
FN void cb_0x3e_54_66( uint8_t a, uint8_t b ) { F<0x3e,5,4>::write_lazy( a ), F<0x3e,6,6>::write_lazy( b ); }
FN void cb_0x3e_55_00( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_55_20( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,2,0>::write_lazy( b ); }
FN void cb_0x3e_55_21( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,2,1>::write_lazy( b ); }
FN void cb_0x3e_55_22( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,2,2>::write_lazy( b ); }
FN void cb_0x3e_55_40( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,4,0>::write_lazy( b ); }
FN void cb_0x3e_55_41( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,4,1>::write_lazy( b ); }
FN void cb_0x3e_55_42( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,4,2>::write_lazy( b ); }
FN void cb_0x3e_55_43( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,4,3>::write_lazy( b ); }
FN void cb_0x3e_55_44( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,4,4>::write_lazy( b ); }
FN void cb_0x3e_55_66( uint8_t a, uint8_t b ) { F<0x3e,5,5>::write_lazy( a ), F<0x3e,6,6>::write_lazy( b ); }
FN void cb_0x3e_64_10( uint8_t a, uint8_t b ) { F<0x3e,6,4>::write_lazy( a ), F<0x3e,1,0>::write_lazy( b ); }
FN void cb_0x3e_64_11( uint8_t a, uint8_t b ) { F<0x3e,6,4>::write_lazy( a ), F<0x3e,1,1>::write_lazy( b ); }
FN void cb_0x3e_64_30( uint8_t a, uint8_t b ) { F<0x3e,6,4>::write_lazy( a ), F<0x3e,3,0>::write_lazy( b ); }
FN void cb_0x3e_64_31( uint8_t a, uint8_t b ) { F<0x3e,6,4>::write_lazy( a ), F<0x3e,3,1>::write_lazy( b ); }
FN void cb_0x3e_64_32( uint8_t a, uint8_t b ) { F<0x3e,6,4>::write_lazy( a ), F<0x3e,3,2>::write_lazy( b ); }
FN void cb_0x3e_64_33( uint8_t a, uint8_t b ) { F<0x3e,6,4>::write_lazy( a ), F<0x3e,3,3>::write_lazy( b ); }
FN void cb_0x3e_64_77( uint8_t a, uint8_t b ) { F<0x3e,6,4>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_65_10( uint8_t a, uint8_t b ) { F<0x3e,6,5>::write_lazy( a ), F<0x3e,1,0>::write_lazy( b ); }
FN void cb_0x3e_65_11( uint8_t a, uint8_t b ) { F<0x3e,6,5>::write_lazy( a ), F<0x3e,1,1>::write_lazy( b ); }
FN void cb_0x3e_65_30( uint8_t a, uint8_t b ) { F<0x3e,6,5>::write_lazy( a ), F<0x3e,3,0>::write_lazy( b ); }
FN void cb_0x3e_65_31( uint8_t a, uint8_t b ) { F<0x3e,6,5>::write_lazy( a ), F<0x3e,3,1>::write_lazy( b ); }
FN void cb_0x3e_65_32( uint8_t a, uint8_t b ) { F<0x3e,6,5>::write_lazy( a ), F<0x3e,3,2>::write_lazy( b ); }
FN void cb_0x3e_65_33( uint8_t a, uint8_t b ) { F<0x3e,6,5>::write_lazy( a ), F<0x3e,3,3>::write_lazy( b ); }
FN void cb_0x3e_65_77( uint8_t a, uint8_t b ) { F<0x3e,6,5>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_66_10( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,1,0>::write_lazy( b ); }
FN void cb_0x3e_66_11( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,1,1>::write_lazy( b ); }
FN void cb_0x3e_66_30( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,3,0>::write_lazy( b ); }
FN void cb_0x3e_66_31( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,3,1>::write_lazy( b ); }
FN void cb_0x3e_66_32( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,3,2>::write_lazy( b ); }
FN void cb_0x3e_66_33( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,3,3>::write_lazy( b ); }
FN void cb_0x3e_66_50( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,5,0>::write_lazy( b ); }
FN void cb_0x3e_66_51( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,5,1>::write_lazy( b ); }
FN void cb_0x3e_66_52( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,5,2>::write_lazy( b ); }
FN void cb_0x3e_66_53( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,5,3>::write_lazy( b ); }
FN void cb_0x3e_66_54( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,5,4>::write_lazy( b ); }
FN void cb_0x3e_66_55( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,5,5>::write_lazy( b ); }
FN void cb_0x3e_66_77( uint8_t a, uint8_t b ) { F<0x3e,6,6>::write_lazy( a ), F<0x3e,7,7>::write_lazy( b ); }
FN void cb_0x3e_75_00( uint8_t a, uint8_t b ) { F<0x3e,7,5>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_75_20( uint8_t a, uint8_t b ) { F<0x3e,7,5>::write_lazy( a ), F<0x3e,2,0>::write_lazy( b ); }
FN void cb_0x3e_75_21( uint8_t a, uint8_t b ) { F<0x3e,7,5>::write_lazy( a ), F<0x3e,2,1>::write_lazy( b ); }
FN void cb_0x3e_75_22( uint8_t a, uint8_t b ) { F<0x3e,7,5>::write_lazy( a ), F<0x3e,2,2>::write_lazy( b ); }
FN void cb_0x3e_75_40( uint8_t a, uint8_t b ) { F<0x3e,7,5>::write_lazy( a ), F<0x3e,4,0>::write_lazy( b ); }
FN void cb_0x3e_75_41( uint8_t a, uint8_t b ) { F<0x3e,7,5>::write_lazy( a ), F<0x3e,4,1>::write_lazy( b ); }
FN void cb_0x3e_75_42( uint8_t a, uint8_t b ) { F<0x3e,7,5>::write_lazy( a ), F<0x3e,4,2>::write_lazy( b ); }
FN void cb_0x3e_75_43( uint8_t a, uint8_t b ) { F<0x3e,7,5>::write_lazy( a ), F<0x3e,4,3>::write_lazy( b ); }
FN void cb_0x3e_75_44( uint8_t a, uint8_t b ) { F<0x3e,7,5>::write_lazy( a ), F<0x3e,4,4>::write_lazy( b ); }
FN void cb_0x3e_76_00( uint8_t a, uint8_t b ) { F<0x3e,7,6>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_76_20( uint8_t a, uint8_t b ) { F<0x3e,7,6>::write_lazy( a ), F<0x3e,2,0>::write_lazy( b ); }
FN void cb_0x3e_76_21( uint8_t a, uint8_t b ) { F<0x3e,7,6>::write_lazy( a ), F<0x3e,2,1>::write_lazy( b ); }
FN void cb_0x3e_76_22( uint8_t a, uint8_t b ) { F<0x3e,7,6>::write_lazy( a ), F<0x3e,2,2>::write_lazy( b ); }
FN void cb_0x3e_76_40( uint8_t a, uint8_t b ) { F<0x3e,7,6>::write_lazy( a ), F<0x3e,4,0>::write_lazy( b ); }
FN void cb_0x3e_76_41( uint8_t a, uint8_t b ) { F<0x3e,7,6>::write_lazy( a ), F<0x3e,4,1>::write_lazy( b ); }
FN void cb_0x3e_76_42( uint8_t a, uint8_t b ) { F<0x3e,7,6>::write_lazy( a ), F<0x3e,4,2>::write_lazy( b ); }
FN void cb_0x3e_76_43( uint8_t a, uint8_t b ) { F<0x3e,7,6>::write_lazy( a ), F<0x3e,4,3>::write_lazy( b ); }
FN void cb_0x3e_76_44( uint8_t a, uint8_t b ) { F<0x3e,7,6>::write_lazy( a ), F<0x3e,4,4>::write_lazy( b ); }
FN void cb_0x3e_77_00( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,0,0>::write_lazy( b ); }
FN void cb_0x3e_77_20( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,2,0>::write_lazy( b ); }
FN void cb_0x3e_77_21( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,2,1>::write_lazy( b ); }
FN void cb_0x3e_77_22( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,2,2>::write_lazy( b ); }
FN void cb_0x3e_77_40( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,4,0>::write_lazy( b ); }
FN void cb_0x3e_77_41( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,4,1>::write_lazy( b ); }
FN void cb_0x3e_77_42( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,4,2>::write_lazy( b ); }
FN void cb_0x3e_77_43( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,4,3>::write_lazy( b ); }
FN void cb_0x3e_77_44( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,4,4>::write_lazy( b ); }
FN void cb_0x3e_77_60( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,6,0>::write_lazy( b ); }
FN void cb_0x3e_77_61( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,6,1>::write_lazy( b ); }
FN void cb_0x3e_77_62( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,6,2>::write_lazy( b ); }
FN void cb_0x3e_77_63( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,6,3>::write_lazy( b ); }
FN void cb_0x3e_77_64( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,6,4>::write_lazy( b ); }
FN void cb_0x3e_77_65( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,6,5>::write_lazy( b ); }
FN void cb_0x3e_77_66( uint8_t a, uint8_t b ) { F<0x3e,7,7>::write_lazy( a ), F<0x3e,6,6>::write_lazy( b ); }
FN void cb_0x6d_00_11_72( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,1,1>::write_lazy( b ), F<0x6d,7,2>::write_lazy( c ); }
FN void cb_0x6d_00_72_11( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,2>::write_lazy( b ), F<0x6d,1,1>::write_lazy( c ); }
FN void cb_0x6d_11_00_72( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,2>::write_lazy( c ); }
FN void cb_0x6d_11_72_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,1>::write_lazy( a ), F<0x6d,7,2>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_72_00_11( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,2>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,1,1>::write_lazy( c ); }
FN void cb_0x6d_72_11_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,2>::write_lazy( a ), F<0x6d,1,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_00_21_73( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,2,1>::write_lazy( b ), F<0x6d,7,3>::write_lazy( c ); }
FN void cb_0x6d_00_73_21( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,3>::write_lazy( b ), F<0x6d,2,1>::write_lazy( c ); }
FN void cb_0x6d_21_00_73( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,3>::write_lazy( c ); }
FN void cb_0x6d_21_73_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,1>::write_lazy( a ), F<0x6d,7,3>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_73_00_21( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,3>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,2,1>::write_lazy( c ); }
FN void cb_0x6d_73_21_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,3>::write_lazy( a ), F<0x6d,2,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_00_31_74( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,3,1>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ); }
FN void cb_0x6d_00_74_31( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,4>::write_lazy( b ), F<0x6d,3,1>::write_lazy( c ); }
FN void cb_0x6d_31_00_74( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ); }
FN void cb_0x6d_31_74_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,1>::write_lazy( a ), F<0x6d,7,4>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_74_00_31( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,4>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,3,1>::write_lazy( c ); }
FN void cb_0x6d_74_31_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,4>::write_lazy( a ), F<0x6d,3,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_00_41_75( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,4,1>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ); }
FN void cb_0x6d_00_75_41( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,4,1>::write_lazy( c ); }
FN void cb_0x6d_41_00_75( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ); }
FN void cb_0x6d_41_75_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,1>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_75_00_41( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,4,1>::write_lazy( c ); }
FN void cb_0x6d_75_41_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,4,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_00_51_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,5,1>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_00_76_51( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,5,1>::write_lazy( c ); }
FN void cb_0x6d_51_00_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_51_76_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,1>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_76_00_51( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,5,1>::write_lazy( c ); }
FN void cb_0x6d_76_51_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,5,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_00_61_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,6,1>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_00_77_61( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,1>::write_lazy( c ); }
FN void cb_0x6d_61_00_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_61_77_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,1>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_77_00_61( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,6,1>::write_lazy( c ); }
FN void cb_0x6d_77_61_00( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ); }
FN void cb_0x6d_10_22_73( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,2,2>::write_lazy( b ), F<0x6d,7,3>::write_lazy( c ); }
FN void cb_0x6d_10_73_22( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,7,3>::write_lazy( b ), F<0x6d,2,2>::write_lazy( c ); }
FN void cb_0x6d_22_10_73( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,2>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,7,3>::write_lazy( c ); }
FN void cb_0x6d_22_73_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,2>::write_lazy( a ), F<0x6d,7,3>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_73_10_22( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,3>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,2,2>::write_lazy( c ); }
FN void cb_0x6d_73_22_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,3>::write_lazy( a ), F<0x6d,2,2>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_10_32_74( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,3,2>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ); }
FN void cb_0x6d_10_74_32( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,7,4>::write_lazy( b ), F<0x6d,3,2>::write_lazy( c ); }
FN void cb_0x6d_32_10_74( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,2>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ); }
FN void cb_0x6d_32_74_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,2>::write_lazy( a ), F<0x6d,7,4>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_74_10_32( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,4>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,3,2>::write_lazy( c ); }
FN void cb_0x6d_74_32_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,4>::write_lazy( a ), F<0x6d,3,2>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_10_42_75( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,4,2>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ); }
FN void cb_0x6d_10_75_42( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,4,2>::write_lazy( c ); }
FN void cb_0x6d_42_10_75( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,2>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ); }
FN void cb_0x6d_42_75_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,2>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_75_10_42( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,4,2>::write_lazy( c ); }
FN void cb_0x6d_75_42_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,4,2>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_10_52_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,5,2>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_10_76_52( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,5,2>::write_lazy( c ); }
FN void cb_0x6d_52_10_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,2>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_52_76_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,2>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_76_10_52( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,5,2>::write_lazy( c ); }
FN void cb_0x6d_76_52_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,5,2>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_10_62_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,6,2>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_10_77_62( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,2>::write_lazy( c ); }
FN void cb_0x6d_62_10_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,2>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_62_77_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,2>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_77_10_62( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,6,2>::write_lazy( c ); }
FN void cb_0x6d_77_62_10( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,2>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ); }
FN void cb_0x6d_20_33_74( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,3,3>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ); }
FN void cb_0x6d_20_74_33( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,7,4>::write_lazy( b ), F<0x6d,3,3>::write_lazy( c ); }
FN void cb_0x6d_33_20_74( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,3>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ); }
FN void cb_0x6d_33_74_20( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,3>::write_lazy( a ), F<0x6d,7,4>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ); }
FN void cb_0x6d_74_20_33( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,4>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,3,3>::write_lazy( c ); }
FN void cb_0x6d_74_33_20( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,4>::write_lazy( a ), F<0x6d,3,3>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ); }
FN void cb_0x6d_20_43_75( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ); }
FN void cb_0x6d_20_75_43( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,4,3>::write_lazy( c ); }
FN void cb_0x6d_43_20_75( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,3>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ); }
FN void cb_0x6d_43_75_20( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,3>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ); }
FN void cb_0x6d_75_20_43( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,4,3>::write_lazy( c ); }
FN void cb_0x6d_75_43_20( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ); }
FN void cb_0x6d_20_53_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,5,3>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_20_76_53( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,5,3>::write_lazy( c ); }
FN void cb_0x6d_53_20_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,3>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_53_76_20( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,3>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ); }
FN void cb_0x6d_76_20_53( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,5,3>::write_lazy( c ); }
FN void cb_0x6d_76_53_20( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,5,3>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ); }
FN void cb_0x6d_20_63_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,6,3>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_20_77_63( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,3>::write_lazy( c ); }
FN void cb_0x6d_63_20_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,3>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_63_77_20( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,3>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ); }
FN void cb_0x6d_77_20_63( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,6,3>::write_lazy( c ); }
FN void cb_0x6d_77_63_20( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,3>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ); }
FN void cb_0x6d_30_44_75( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,0>::write_lazy( a ), F<0x6d,4,4>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ); }
FN void cb_0x6d_30_75_44( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,0>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,4,4>::write_lazy( c ); }
FN void cb_0x6d_44_30_75( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,4>::write_lazy( a ), F<0x6d,3,0>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ); }
FN void cb_0x6d_44_75_30( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,4>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,3,0>::write_lazy( c ); }
FN void cb_0x6d_75_30_44( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,3,0>::write_lazy( b ), F<0x6d,4,4>::write_lazy( c ); }
FN void cb_0x6d_75_44_30( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,4,4>::write_lazy( b ), F<0x6d,3,0>::write_lazy( c ); }
FN void cb_0x6d_30_54_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,0>::write_lazy( a ), F<0x6d,5,4>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_30_76_54( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,0>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,5,4>::write_lazy( c ); }
FN void cb_0x6d_54_30_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,4>::write_lazy( a ), F<0x6d,3,0>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_54_76_30( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,4>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,3,0>::write_lazy( c ); }
FN void cb_0x6d_76_30_54( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,3,0>::write_lazy( b ), F<0x6d,5,4>::write_lazy( c ); }
FN void cb_0x6d_76_54_30( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,5,4>::write_lazy( b ), F<0x6d,3,0>::write_lazy( c ); }
FN void cb_0x6d_30_64_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,0>::write_lazy( a ), F<0x6d,6,4>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_30_77_64( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,3,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,4>::write_lazy( c ); }
FN void cb_0x6d_64_30_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,4>::write_lazy( a ), F<0x6d,3,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_64_77_30( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,4>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,3,0>::write_lazy( c ); }
FN void cb_0x6d_77_30_64( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,3,0>::write_lazy( b ), F<0x6d,6,4>::write_lazy( c ); }
FN void cb_0x6d_77_64_30( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,4>::write_lazy( b ), F<0x6d,3,0>::write_lazy( c ); }
FN void cb_0x6d_40_55_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,0>::write_lazy( a ), F<0x6d,5,5>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_40_76_55( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,0>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,5,5>::write_lazy( c ); }
FN void cb_0x6d_55_40_76( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,5>::write_lazy( a ), F<0x6d,4,0>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ); }
FN void cb_0x6d_55_76_40( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,5>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,4,0>::write_lazy( c ); }
FN void cb_0x6d_76_40_55( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,4,0>::write_lazy( b ), F<0x6d,5,5>::write_lazy( c ); }
FN void cb_0x6d_76_55_40( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,5,5>::write_lazy( b ), F<0x6d,4,0>::write_lazy( c ); }
FN void cb_0x6d_40_65_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,0>::write_lazy( a ), F<0x6d,6,5>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_40_77_65( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,4,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,5>::write_lazy( c ); }
FN void cb_0x6d_65_40_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,5>::write_lazy( a ), F<0x6d,4,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_65_77_40( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,5>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,4,0>::write_lazy( c ); }
FN void cb_0x6d_77_40_65( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,4,0>::write_lazy( b ), F<0x6d,6,5>::write_lazy( c ); }
FN void cb_0x6d_77_65_40( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,5>::write_lazy( b ), F<0x6d,4,0>::write_lazy( c ); }
FN void cb_0x6d_50_66_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,0>::write_lazy( a ), F<0x6d,6,6>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_50_77_66( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,5,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,6>::write_lazy( c ); }
FN void cb_0x6d_66_50_77( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,6>::write_lazy( a ), F<0x6d,5,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ); }
FN void cb_0x6d_66_77_50( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,6,6>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,5,0>::write_lazy( c ); }
FN void cb_0x6d_77_50_66( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,5,0>::write_lazy( b ), F<0x6d,6,6>::write_lazy( c ); }
FN void cb_0x6d_77_66_50( uint8_t a, uint8_t b, uint8_t c ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,6>::write_lazy( b ), F<0x6d,5,0>::write_lazy( c ); }
FN void cb_0x6d_00_11_22_73( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,1,1>::write_lazy( b ), F<0x6d,2,2>::write_lazy( c ), F<0x6d,7,3>::write_lazy( d ); }
FN void cb_0x6d_11_00_73_22( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,3>::write_lazy( c ), F<0x6d,2,2>::write_lazy( d ); }
FN void cb_0x6d_22_11_00_73( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,2>::write_lazy( a ), F<0x6d,1,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,7,3>::write_lazy( d ); }
FN void cb_0x6d_73_11_22_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,3>::write_lazy( a ), F<0x6d,1,1>::write_lazy( b ), F<0x6d,2,2>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_00_11_74_32( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,1,1>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ), F<0x6d,3,2>::write_lazy( d ); }
FN void cb_0x6d_11_32_00_74( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,1>::write_lazy( a ), F<0x6d,3,2>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,7,4>::write_lazy( d ); }
FN void cb_0x6d_32_11_74_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,2>::write_lazy( a ), F<0x6d,1,1>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_74_32_00_11( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,4>::write_lazy( a ), F<0x6d,3,2>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,1,1>::write_lazy( d ); }
FN void cb_0x6d_00_42_11_75( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,4,2>::write_lazy( b ), F<0x6d,1,1>::write_lazy( c ), F<0x6d,7,5>::write_lazy( d ); }
FN void cb_0x6d_11_42_75_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,1>::write_lazy( a ), F<0x6d,4,2>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_42_75_00_11( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,2>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,1,1>::write_lazy( d ); }
FN void cb_0x6d_75_42_11_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,4,2>::write_lazy( b ), F<0x6d,1,1>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_00_52_76_11( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,5,2>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ), F<0x6d,1,1>::write_lazy( d ); }
FN void cb_0x6d_11_76_00_52( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,1>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,5,2>::write_lazy( d ); }
FN void cb_0x6d_52_76_11_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,2>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,1,1>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_00_77_11_62( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,1,1>::write_lazy( c ), F<0x6d,6,2>::write_lazy( d ); }
FN void cb_0x6d_11_77_62_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,1>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,2>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_77_00_11_62( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,1,1>::write_lazy( c ), F<0x6d,6,2>::write_lazy( d ); }
FN void cb_0x6d_00_74_33_21( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,4>::write_lazy( b ), F<0x6d,3,3>::write_lazy( c ), F<0x6d,2,1>::write_lazy( d ); }
FN void cb_0x6d_33_00_21_74( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,3>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,2,1>::write_lazy( c ), F<0x6d,7,4>::write_lazy( d ); }
FN void cb_0x6d_74_00_33_21( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,4>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,3,3>::write_lazy( c ), F<0x6d,2,1>::write_lazy( d ); }
FN void cb_0x6d_21_00_43_75( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,4,3>::write_lazy( c ), F<0x6d,7,5>::write_lazy( d ); }
FN void cb_0x6d_43_00_75_21( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,3>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ), F<0x6d,2,1>::write_lazy( d ); }
FN void cb_0x6d_75_21_00_43( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,2,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,4,3>::write_lazy( d ); }
FN void cb_0x6d_00_21_53_76( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,2,1>::write_lazy( b ), F<0x6d,5,3>::write_lazy( c ), F<0x6d,7,6>::write_lazy( d ); }
FN void cb_0x6d_21_00_76_53( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ), F<0x6d,5,3>::write_lazy( d ); }
FN void cb_0x6d_53_21_00_76( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,3>::write_lazy( a ), F<0x6d,2,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,7,6>::write_lazy( d ); }
FN void cb_0x6d_76_21_53_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,2,1>::write_lazy( b ), F<0x6d,5,3>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_00_21_77_63( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,2,1>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,6,3>::write_lazy( d ); }
FN void cb_0x6d_21_63_00_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,1>::write_lazy( a ), F<0x6d,6,3>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_63_21_77_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,3>::write_lazy( a ), F<0x6d,2,1>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_77_63_00_21( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,3>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,2,1>::write_lazy( d ); }
FN void cb_0x6d_00_44_31_75( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,4,4>::write_lazy( b ), F<0x6d,3,1>::write_lazy( c ), F<0x6d,7,5>::write_lazy( d ); }
FN void cb_0x6d_31_44_75_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,1>::write_lazy( a ), F<0x6d,4,4>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_44_75_00_31( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,4>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,3,1>::write_lazy( d ); }
FN void cb_0x6d_75_44_31_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,4,4>::write_lazy( b ), F<0x6d,3,1>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_00_54_76_31( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,5,4>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ), F<0x6d,3,1>::write_lazy( d ); }
FN void cb_0x6d_31_76_00_54( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,1>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,5,4>::write_lazy( d ); }
FN void cb_0x6d_54_76_31_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,4>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,3,1>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_00_77_31_64( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,3,1>::write_lazy( c ), F<0x6d,6,4>::write_lazy( d ); }
FN void cb_0x6d_31_77_64_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,1>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,4>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_77_00_31_64( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,3,1>::write_lazy( c ), F<0x6d,6,4>::write_lazy( d ); }
FN void cb_0x6d_00_76_55_41( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,5,5>::write_lazy( c ), F<0x6d,4,1>::write_lazy( d ); }
FN void cb_0x6d_55_00_41_76( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,5>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,4,1>::write_lazy( c ), F<0x6d,7,6>::write_lazy( d ); }
FN void cb_0x6d_76_00_55_41( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,5,5>::write_lazy( c ), F<0x6d,4,1>::write_lazy( d ); }
FN void cb_0x6d_41_00_65_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,6,5>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_65_00_77_41( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,5>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,4,1>::write_lazy( d ); }
FN void cb_0x6d_77_41_00_65( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,4,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,6,5>::write_lazy( d ); }
FN void cb_0x6d_00_51_66_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,0,0>::write_lazy( a ), F<0x6d,5,1>::write_lazy( b ), F<0x6d,6,6>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_51_00_77_66( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,1>::write_lazy( a ), F<0x6d,0,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,6,6>::write_lazy( d ); }
FN void cb_0x6d_66_51_00_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,6>::write_lazy( a ), F<0x6d,5,1>::write_lazy( b ), F<0x6d,0,0>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_77_51_66_00( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,5,1>::write_lazy( b ), F<0x6d,6,6>::write_lazy( c ), F<0x6d,0,0>::write_lazy( d ); }
FN void cb_0x6d_10_22_74_33( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,2,2>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ), F<0x6d,3,3>::write_lazy( d ); }
FN void cb_0x6d_22_33_10_74( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,2>::write_lazy( a ), F<0x6d,3,3>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,7,4>::write_lazy( d ); }
FN void cb_0x6d_33_22_74_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,3>::write_lazy( a ), F<0x6d,2,2>::write_lazy( b ), F<0x6d,7,4>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_74_33_10_22( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,4>::write_lazy( a ), F<0x6d,3,3>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,2,2>::write_lazy( d ); }
FN void cb_0x6d_10_43_22_75( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,2,2>::write_lazy( c ), F<0x6d,7,5>::write_lazy( d ); }
FN void cb_0x6d_22_43_75_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,2>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,7,5>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_43_75_10_22( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,3>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,2,2>::write_lazy( d ); }
FN void cb_0x6d_75_43_22_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,2,2>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_10_53_76_22( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,5,3>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ), F<0x6d,2,2>::write_lazy( d ); }
FN void cb_0x6d_22_76_10_53( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,2>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,5,3>::write_lazy( d ); }
FN void cb_0x6d_53_76_22_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,3>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,2,2>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_10_77_22_63( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,2,2>::write_lazy( c ), F<0x6d,6,3>::write_lazy( d ); }
FN void cb_0x6d_22_77_63_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,2>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,3>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_77_10_22_63( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,2,2>::write_lazy( c ), F<0x6d,6,3>::write_lazy( d ); }
FN void cb_0x6d_10_75_44_32( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,4,4>::write_lazy( c ), F<0x6d,3,2>::write_lazy( d ); }
FN void cb_0x6d_44_10_32_75( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,4>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,3,2>::write_lazy( c ), F<0x6d,7,5>::write_lazy( d ); }
FN void cb_0x6d_75_10_44_32( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,4,4>::write_lazy( c ), F<0x6d,3,2>::write_lazy( d ); }
FN void cb_0x6d_32_10_54_76( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,2>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,5,4>::write_lazy( c ), F<0x6d,7,6>::write_lazy( d ); }
FN void cb_0x6d_54_10_76_32( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,4>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ), F<0x6d,3,2>::write_lazy( d ); }
FN void cb_0x6d_76_32_10_54( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,3,2>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,5,4>::write_lazy( d ); }
FN void cb_0x6d_10_32_64_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,3,2>::write_lazy( b ), F<0x6d,6,4>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_32_10_77_64( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,2>::write_lazy( a ), F<0x6d,1,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,6,4>::write_lazy( d ); }
FN void cb_0x6d_64_32_10_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,4>::write_lazy( a ), F<0x6d,3,2>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_77_32_64_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,3,2>::write_lazy( b ), F<0x6d,6,4>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_10_42_76_55( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,4,2>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ), F<0x6d,5,5>::write_lazy( d ); }
FN void cb_0x6d_42_55_10_76( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,2>::write_lazy( a ), F<0x6d,5,5>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,7,6>::write_lazy( d ); }
FN void cb_0x6d_55_42_76_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,5>::write_lazy( a ), F<0x6d,4,2>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_76_55_10_42( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,5,5>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,4,2>::write_lazy( d ); }
FN void cb_0x6d_10_65_42_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,6,5>::write_lazy( b ), F<0x6d,4,2>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_42_65_77_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,2>::write_lazy( a ), F<0x6d,6,5>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_65_77_10_42( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,5>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,4,2>::write_lazy( d ); }
FN void cb_0x6d_77_65_42_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,5>::write_lazy( b ), F<0x6d,4,2>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_10_66_77_52( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,1,0>::write_lazy( a ), F<0x6d,6,6>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,5,2>::write_lazy( d ); }
FN void cb_0x6d_52_77_10_66( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,2>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,1,0>::write_lazy( c ), F<0x6d,6,6>::write_lazy( d ); }
FN void cb_0x6d_66_77_52_10( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,6>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,5,2>::write_lazy( c ), F<0x6d,1,0>::write_lazy( d ); }
FN void cb_0x6d_20_75_33_44( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,3,3>::write_lazy( c ), F<0x6d,4,4>::write_lazy( d ); }
FN void cb_0x6d_33_75_44_20( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,3>::write_lazy( a ), F<0x6d,7,5>::write_lazy( b ), F<0x6d,4,4>::write_lazy( c ), F<0x6d,2,0>::write_lazy( d ); }
FN void cb_0x6d_75_20_33_44( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,5>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,3,3>::write_lazy( c ), F<0x6d,4,4>::write_lazy( d ); }
FN void cb_0x6d_20_76_54_33( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,5,4>::write_lazy( c ), F<0x6d,3,3>::write_lazy( d ); }
FN void cb_0x6d_54_20_33_76( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,4>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,3,3>::write_lazy( c ), F<0x6d,7,6>::write_lazy( d ); }
FN void cb_0x6d_76_20_54_33( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,5,4>::write_lazy( c ), F<0x6d,3,3>::write_lazy( d ); }
FN void cb_0x6d_33_20_64_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,3>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,6,4>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_64_20_77_33( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,4>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,3,3>::write_lazy( d ); }
FN void cb_0x6d_77_33_20_64( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,3,3>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ), F<0x6d,6,4>::write_lazy( d ); }
FN void cb_0x6d_20_43_55_76( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,5,5>::write_lazy( c ), F<0x6d,7,6>::write_lazy( d ); }
FN void cb_0x6d_43_20_76_55( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,3>::write_lazy( a ), F<0x6d,2,0>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ), F<0x6d,5,5>::write_lazy( d ); }
FN void cb_0x6d_55_43_20_76( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,5>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ), F<0x6d,7,6>::write_lazy( d ); }
FN void cb_0x6d_76_43_55_20( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,6>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,5,5>::write_lazy( c ), F<0x6d,2,0>::write_lazy( d ); }
FN void cb_0x6d_20_43_77_65( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,6,5>::write_lazy( d ); }
FN void cb_0x6d_43_65_20_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,3>::write_lazy( a ), F<0x6d,6,5>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_65_43_77_20( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,5>::write_lazy( a ), F<0x6d,4,3>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,2,0>::write_lazy( d ); }
FN void cb_0x6d_77_65_20_43( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,5>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ), F<0x6d,4,3>::write_lazy( d ); }
FN void cb_0x6d_20_66_53_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,2,0>::write_lazy( a ), F<0x6d,6,6>::write_lazy( b ), F<0x6d,5,3>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_53_66_77_20( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,3>::write_lazy( a ), F<0x6d,6,6>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,2,0>::write_lazy( d ); }
FN void cb_0x6d_66_77_20_53( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,6>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,2,0>::write_lazy( c ), F<0x6d,5,3>::write_lazy( d ); }
FN void cb_0x6d_77_66_53_20( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,6,6>::write_lazy( b ), F<0x6d,5,3>::write_lazy( c ), F<0x6d,2,0>::write_lazy( d ); }
FN void cb_0x6d_30_55_76_44( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,0>::write_lazy( a ), F<0x6d,5,5>::write_lazy( b ), F<0x6d,7,6>::write_lazy( c ), F<0x6d,4,4>::write_lazy( d ); }
FN void cb_0x6d_44_76_30_55( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,4>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,3,0>::write_lazy( c ), F<0x6d,5,5>::write_lazy( d ); }
FN void cb_0x6d_55_76_44_30( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,5>::write_lazy( a ), F<0x6d,7,6>::write_lazy( b ), F<0x6d,4,4>::write_lazy( c ), F<0x6d,3,0>::write_lazy( d ); }
FN void cb_0x6d_30_77_44_65( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,4,4>::write_lazy( c ), F<0x6d,6,5>::write_lazy( d ); }
FN void cb_0x6d_44_77_65_30( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,4,4>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,5>::write_lazy( c ), F<0x6d,3,0>::write_lazy( d ); }
FN void cb_0x6d_77_30_44_65( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,3,0>::write_lazy( b ), F<0x6d,4,4>::write_lazy( c ), F<0x6d,6,5>::write_lazy( d ); }
FN void cb_0x6d_30_77_66_54( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,3,0>::write_lazy( a ), F<0x6d,7,7>::write_lazy( b ), F<0x6d,6,6>::write_lazy( c ), F<0x6d,5,4>::write_lazy( d ); }
FN void cb_0x6d_66_30_54_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,6>::write_lazy( a ), F<0x6d,3,0>::write_lazy( b ), F<0x6d,5,4>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_77_30_66_54( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,3,0>::write_lazy( b ), F<0x6d,6,6>::write_lazy( c ), F<0x6d,5,4>::write_lazy( d ); }
FN void cb_0x6d_55_40_66_77( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,5,5>::write_lazy( a ), F<0x6d,4,0>::write_lazy( b ), F<0x6d,6,6>::write_lazy( c ), F<0x6d,7,7>::write_lazy( d ); }
FN void cb_0x6d_66_40_77_55( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,6,6>::write_lazy( a ), F<0x6d,4,0>::write_lazy( b ), F<0x6d,7,7>::write_lazy( c ), F<0x6d,5,5>::write_lazy( d ); }
FN void cb_0x6d_77_55_40_66( uint8_t a, uint8_t b, uint8_t c, uint8_t d ) { F<0x6d,7,7>::write_lazy( a ), F<0x6d,5,5>::write_lazy( b ), F<0x6d,4,0>::write_lazy( c ), F<0x6d,6,6>::write_lazy( d ); }
FN void cb_0x4a_77_66_55_44_33( uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ), F<0x4a,5,5>::write_lazy( c ), F<0x4a,4,4>::write_lazy( d ), F<0x4a,3,3>::write_lazy( e ); }
FN void cb_0x4a_00_11_22_33_44( uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ), F<0x4a,2,2>::write_lazy( c ), F<0x4a,3,3>::write_lazy( d ), F<0x4a,4,4>::write_lazy( e ); }
FN void cb_0x4a_53_77_00_66_21( uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ), F<0x4a,0,0>::write_lazy( c ), F<0x4a,6,6>::write_lazy( d ), F<0x4a,2,1>::write_lazy( e ); }
FN void gr( uint8_t a, uint8_t b, uint8_t c ) { F<0x4a,7,6>::write_lazy( a ), ( F<0x4a,5,3>::write_lazy( b ), F<0x4a,1,0>::write_lazy( c ) ); }
FN void nm( uint8_t a, uint8_t b )            { auto p = F<0x4a,7,6>::write_lazy( a ); F<0x6d,7,0>::write( b ); }
FN void dc( uint8_t a, uint8_t b )            { auto p = F<0x4a,7,6>::write_lazy( a ); p.discard(); F<0x4a,5,3>::write_lazy( b ); }
FN void sq( uint8_t a, uint8_t b )            { F<0x4a,7,6>::write_lazy( a ); F<0x4a,5,3>::write_lazy( b ); }
FN void if_( uint8_t a, uint8_t b, uint8_t c ) { if ( c ) F<0x4a,7,6>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); else F<0x4a,2,0>::write_lazy( a ); }
int main() { for (;;) ; }
