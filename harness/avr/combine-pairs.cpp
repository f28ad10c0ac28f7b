#include "mcu/register.hpp"
using namespace mcu;
#define FN extern "C" __attribute__((used, noinline))
template< address_t A, index_t h, index_t l > using F = bitfield8_t<rw_t, A, h, l>;
FN void cb_0x4a_00_11( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_00_21( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_00_22( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_00_31( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_00_32( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_00_33( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_00_41( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,4,1>::write_lazy( b ); }
FN void cb_0x4a_00_42( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,4,2>::write_lazy( b ); }
FN void cb_0x4a_00_43( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_00_44( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_00_51( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,5,1>::write_lazy( b ); }
FN void cb_0x4a_00_52( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,5,2>::write_lazy( b ); }
FN void cb_0x4a_00_53( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); }
FN void cb_0x4a_00_54( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_00_55( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_00_61( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,6,1>::write_lazy( b ); }
FN void cb_0x4a_00_62( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,6,2>::write_lazy( b ); }
FN void cb_0x4a_00_63( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,6,3>::write_lazy( b ); }
FN void cb_0x4a_00_64( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_00_65( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_00_66( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_00_71( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,7,1>::write_lazy( b ); }
FN void cb_0x4a_00_72( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,7,2>::write_lazy( b ); }
FN void cb_0x4a_00_73( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,7,3>::write_lazy( b ); }
FN void cb_0x4a_00_74( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_00_75( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_00_76( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_00_77( uint8_t a, uint8_t b ) { F<0x4a,0,0>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_10_22( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_10_32( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_10_33( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_10_42( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,4,2>::write_lazy( b ); }
FN void cb_0x4a_10_43( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_10_44( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_10_52( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,5,2>::write_lazy( b ); }
FN void cb_0x4a_10_53( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); }
FN void cb_0x4a_10_54( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_10_55( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_10_62( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,6,2>::write_lazy( b ); }
FN void cb_0x4a_10_63( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,6,3>::write_lazy( b ); }
FN void cb_0x4a_10_64( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_10_65( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_10_66( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_10_72( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,7,2>::write_lazy( b ); }
FN void cb_0x4a_10_73( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,7,3>::write_lazy( b ); }
FN void cb_0x4a_10_74( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_10_75( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_10_76( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_10_77( uint8_t a, uint8_t b ) { F<0x4a,1,0>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_11_00( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_11_22( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_11_32( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_11_33( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_11_42( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,4,2>::write_lazy( b ); }
FN void cb_0x4a_11_43( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_11_44( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_11_52( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,5,2>::write_lazy( b ); }
FN void cb_0x4a_11_53( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); }
FN void cb_0x4a_11_54( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_11_55( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_11_62( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,6,2>::write_lazy( b ); }
FN void cb_0x4a_11_63( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,6,3>::write_lazy( b ); }
FN void cb_0x4a_11_64( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_11_65( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_11_66( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_11_72( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,7,2>::write_lazy( b ); }
FN void cb_0x4a_11_73( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,7,3>::write_lazy( b ); }
FN void cb_0x4a_11_74( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_11_75( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_11_76( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_11_77( uint8_t a, uint8_t b ) { F<0x4a,1,1>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_20_33( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_20_43( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_20_44( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_20_53( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); }
FN void cb_0x4a_20_54( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_20_55( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_20_63( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,6,3>::write_lazy( b ); }
FN void cb_0x4a_20_64( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_20_65( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_20_66( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_20_73( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,7,3>::write_lazy( b ); }
FN void cb_0x4a_20_74( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_20_75( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_20_76( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_20_77( uint8_t a, uint8_t b ) { F<0x4a,2,0>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_21_00( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_21_33( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_21_43( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_21_44( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_21_53( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); }
FN void cb_0x4a_21_54( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_21_55( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_21_63( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,6,3>::write_lazy( b ); }
FN void cb_0x4a_21_64( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_21_65( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_21_66( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_21_73( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,7,3>::write_lazy( b ); }
FN void cb_0x4a_21_74( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_21_75( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_21_76( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_21_77( uint8_t a, uint8_t b ) { F<0x4a,2,1>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_22_00( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_22_10( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_22_11( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_22_33( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_22_43( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_22_44( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_22_53( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); }
FN void cb_0x4a_22_54( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_22_55( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_22_63( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,6,3>::write_lazy( b ); }
FN void cb_0x4a_22_64( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_22_65( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_22_66( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_22_73( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,7,3>::write_lazy( b ); }
FN void cb_0x4a_22_74( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_22_75( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_22_76( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_22_77( uint8_t a, uint8_t b ) { F<0x4a,2,2>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_30_44( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_30_54( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_30_55( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_30_64( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_30_65( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_30_66( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_30_74( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_30_75( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_30_76( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_30_77( uint8_t a, uint8_t b ) { F<0x4a,3,0>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_31_00( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_31_44( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_31_54( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_31_55( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_31_64( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_31_65( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_31_66( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_31_74( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_31_75( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_31_76( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_31_77( uint8_t a, uint8_t b ) { F<0x4a,3,1>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_32_00( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_32_10( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_32_11( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_32_44( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_32_54( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_32_55( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_32_64( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_32_65( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_32_66( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_32_74( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_32_75( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_32_76( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_32_77( uint8_t a, uint8_t b ) { F<0x4a,3,2>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_33_00( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_33_10( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_33_11( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_33_20( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_33_21( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_33_22( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_33_44( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_33_54( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_33_55( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_33_64( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_33_65( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_33_66( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_33_74( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,7,4>::write_lazy( b ); }
FN void cb_0x4a_33_75( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_33_76( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_33_77( uint8_t a, uint8_t b ) { F<0x4a,3,3>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_40_55( uint8_t a, uint8_t b ) { F<0x4a,4,0>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_40_65( uint8_t a, uint8_t b ) { F<0x4a,4,0>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_40_66( uint8_t a, uint8_t b ) { F<0x4a,4,0>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_40_75( uint8_t a, uint8_t b ) { F<0x4a,4,0>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_40_76( uint8_t a, uint8_t b ) { F<0x4a,4,0>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_40_77( uint8_t a, uint8_t b ) { F<0x4a,4,0>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_41_00( uint8_t a, uint8_t b ) { F<0x4a,4,1>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_41_55( uint8_t a, uint8_t b ) { F<0x4a,4,1>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_41_65( uint8_t a, uint8_t b ) { F<0x4a,4,1>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_41_66( uint8_t a, uint8_t b ) { F<0x4a,4,1>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_41_75( uint8_t a, uint8_t b ) { F<0x4a,4,1>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_41_76( uint8_t a, uint8_t b ) { F<0x4a,4,1>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_41_77( uint8_t a, uint8_t b ) { F<0x4a,4,1>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_42_00( uint8_t a, uint8_t b ) { F<0x4a,4,2>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_42_10( uint8_t a, uint8_t b ) { F<0x4a,4,2>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_42_11( uint8_t a, uint8_t b ) { F<0x4a,4,2>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_42_55( uint8_t a, uint8_t b ) { F<0x4a,4,2>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_42_65( uint8_t a, uint8_t b ) { F<0x4a,4,2>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_42_66( uint8_t a, uint8_t b ) { F<0x4a,4,2>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_42_75( uint8_t a, uint8_t b ) { F<0x4a,4,2>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_42_76( uint8_t a, uint8_t b ) { F<0x4a,4,2>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_42_77( uint8_t a, uint8_t b ) { F<0x4a,4,2>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_43_00( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_43_10( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_43_11( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_43_20( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_43_21( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_43_22( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_43_55( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_43_65( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_43_66( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_43_75( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_43_76( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_43_77( uint8_t a, uint8_t b ) { F<0x4a,4,3>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_44_00( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_44_10( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_44_11( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_44_20( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_44_21( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_44_22( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_44_30( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_44_31( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_44_32( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_44_33( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_44_55( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_44_65( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_44_66( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_44_75( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,7,5>::write_lazy( b ); }
FN void cb_0x4a_44_76( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_44_77( uint8_t a, uint8_t b ) { F<0x4a,4,4>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_50_66( uint8_t a, uint8_t b ) { F<0x4a,5,0>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_50_76( uint8_t a, uint8_t b ) { F<0x4a,5,0>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_50_77( uint8_t a, uint8_t b ) { F<0x4a,5,0>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_51_00( uint8_t a, uint8_t b ) { F<0x4a,5,1>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_51_66( uint8_t a, uint8_t b ) { F<0x4a,5,1>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_51_76( uint8_t a, uint8_t b ) { F<0x4a,5,1>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_51_77( uint8_t a, uint8_t b ) { F<0x4a,5,1>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_52_00( uint8_t a, uint8_t b ) { F<0x4a,5,2>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_52_10( uint8_t a, uint8_t b ) { F<0x4a,5,2>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_52_11( uint8_t a, uint8_t b ) { F<0x4a,5,2>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_52_66( uint8_t a, uint8_t b ) { F<0x4a,5,2>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_52_76( uint8_t a, uint8_t b ) { F<0x4a,5,2>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_52_77( uint8_t a, uint8_t b ) { F<0x4a,5,2>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_53_00( uint8_t a, uint8_t b ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_53_10( uint8_t a, uint8_t b ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_53_11( uint8_t a, uint8_t b ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_53_20( uint8_t a, uint8_t b ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_53_21( uint8_t a, uint8_t b ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_53_22( uint8_t a, uint8_t b ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_53_66( uint8_t a, uint8_t b ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_53_76( uint8_t a, uint8_t b ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_53_77( uint8_t a, uint8_t b ) { F<0x4a,5,3>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_54_00( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_54_10( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_54_11( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_54_20( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_54_21( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_54_22( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_54_30( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_54_31( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_54_32( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_54_33( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_54_66( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_54_76( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_54_77( uint8_t a, uint8_t b ) { F<0x4a,5,4>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_55_00( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_55_10( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_55_11( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_55_20( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_55_21( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_55_22( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_55_30( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_55_31( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_55_32( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_55_33( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_55_40( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,4,0>::write_lazy( b ); }
FN void cb_0x4a_55_41( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,4,1>::write_lazy( b ); }
FN void cb_0x4a_55_42( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,4,2>::write_lazy( b ); }
FN void cb_0x4a_55_43( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_55_44( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_55_66( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
FN void cb_0x4a_55_76( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,7,6>::write_lazy( b ); }
FN void cb_0x4a_55_77( uint8_t a, uint8_t b ) { F<0x4a,5,5>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_60_77( uint8_t a, uint8_t b ) { F<0x4a,6,0>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_61_00( uint8_t a, uint8_t b ) { F<0x4a,6,1>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_61_77( uint8_t a, uint8_t b ) { F<0x4a,6,1>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_62_00( uint8_t a, uint8_t b ) { F<0x4a,6,2>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_62_10( uint8_t a, uint8_t b ) { F<0x4a,6,2>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_62_11( uint8_t a, uint8_t b ) { F<0x4a,6,2>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_62_77( uint8_t a, uint8_t b ) { F<0x4a,6,2>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_63_00( uint8_t a, uint8_t b ) { F<0x4a,6,3>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_63_10( uint8_t a, uint8_t b ) { F<0x4a,6,3>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_63_11( uint8_t a, uint8_t b ) { F<0x4a,6,3>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_63_20( uint8_t a, uint8_t b ) { F<0x4a,6,3>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_63_21( uint8_t a, uint8_t b ) { F<0x4a,6,3>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_63_22( uint8_t a, uint8_t b ) { F<0x4a,6,3>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_63_77( uint8_t a, uint8_t b ) { F<0x4a,6,3>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_64_00( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_64_10( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_64_11( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_64_20( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_64_21( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_64_22( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_64_30( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_64_31( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_64_32( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_64_33( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_64_77( uint8_t a, uint8_t b ) { F<0x4a,6,4>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_65_00( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_65_10( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_65_11( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_65_20( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_65_21( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_65_22( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_65_30( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_65_31( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_65_32( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_65_33( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_65_40( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,4,0>::write_lazy( b ); }
FN void cb_0x4a_65_41( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,4,1>::write_lazy( b ); }
FN void cb_0x4a_65_42( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,4,2>::write_lazy( b ); }
FN void cb_0x4a_65_43( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_65_44( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_65_77( uint8_t a, uint8_t b ) { F<0x4a,6,5>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_66_00( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_66_10( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_66_11( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_66_20( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_66_21( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_66_22( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_66_30( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_66_31( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_66_32( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_66_33( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_66_40( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,4,0>::write_lazy( b ); }
FN void cb_0x4a_66_41( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,4,1>::write_lazy( b ); }
FN void cb_0x4a_66_42( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,4,2>::write_lazy( b ); }
FN void cb_0x4a_66_43( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_66_44( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_66_50( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,5,0>::write_lazy( b ); }
FN void cb_0x4a_66_51( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,5,1>::write_lazy( b ); }
FN void cb_0x4a_66_52( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,5,2>::write_lazy( b ); }
FN void cb_0x4a_66_53( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); }
FN void cb_0x4a_66_54( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_66_55( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_66_77( uint8_t a, uint8_t b ) { F<0x4a,6,6>::write_lazy( a ), F<0x4a,7,7>::write_lazy( b ); }
FN void cb_0x4a_71_00( uint8_t a, uint8_t b ) { F<0x4a,7,1>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_72_00( uint8_t a, uint8_t b ) { F<0x4a,7,2>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_72_10( uint8_t a, uint8_t b ) { F<0x4a,7,2>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_72_11( uint8_t a, uint8_t b ) { F<0x4a,7,2>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_73_00( uint8_t a, uint8_t b ) { F<0x4a,7,3>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_73_10( uint8_t a, uint8_t b ) { F<0x4a,7,3>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_73_11( uint8_t a, uint8_t b ) { F<0x4a,7,3>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_73_20( uint8_t a, uint8_t b ) { F<0x4a,7,3>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_73_21( uint8_t a, uint8_t b ) { F<0x4a,7,3>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_73_22( uint8_t a, uint8_t b ) { F<0x4a,7,3>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_74_00( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_74_10( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_74_11( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_74_20( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_74_21( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_74_22( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_74_30( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_74_31( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_74_32( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_74_33( uint8_t a, uint8_t b ) { F<0x4a,7,4>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_75_00( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_75_10( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_75_11( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_75_20( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_75_21( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_75_22( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_75_30( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_75_31( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_75_32( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_75_33( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_75_40( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,4,0>::write_lazy( b ); }
FN void cb_0x4a_75_41( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,4,1>::write_lazy( b ); }
FN void cb_0x4a_75_42( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,4,2>::write_lazy( b ); }
FN void cb_0x4a_75_43( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_75_44( uint8_t a, uint8_t b ) { F<0x4a,7,5>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_76_00( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_76_10( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_76_11( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_76_20( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_76_21( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_76_22( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_76_30( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_76_31( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_76_32( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_76_33( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_76_40( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,4,0>::write_lazy( b ); }
FN void cb_0x4a_76_41( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,4,1>::write_lazy( b ); }
FN void cb_0x4a_76_42( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,4,2>::write_lazy( b ); }
FN void cb_0x4a_76_43( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_76_44( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_76_50( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,5,0>::write_lazy( b ); }
FN void cb_0x4a_76_51( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,5,1>::write_lazy( b ); }
FN void cb_0x4a_76_52( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,5,2>::write_lazy( b ); }
FN void cb_0x4a_76_53( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); }
FN void cb_0x4a_76_54( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_76_55( uint8_t a, uint8_t b ) { F<0x4a,7,6>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_77_00( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,0,0>::write_lazy( b ); }
FN void cb_0x4a_77_10( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,1,0>::write_lazy( b ); }
FN void cb_0x4a_77_11( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,1,1>::write_lazy( b ); }
FN void cb_0x4a_77_20( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,2,0>::write_lazy( b ); }
FN void cb_0x4a_77_21( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,2,1>::write_lazy( b ); }
FN void cb_0x4a_77_22( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,2,2>::write_lazy( b ); }
FN void cb_0x4a_77_30( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,3,0>::write_lazy( b ); }
FN void cb_0x4a_77_31( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,3,1>::write_lazy( b ); }
FN void cb_0x4a_77_32( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,3,2>::write_lazy( b ); }
FN void cb_0x4a_77_33( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,3,3>::write_lazy( b ); }
FN void cb_0x4a_77_40( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,4,0>::write_lazy( b ); }
FN void cb_0x4a_77_41( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,4,1>::write_lazy( b ); }
FN void cb_0x4a_77_42( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,4,2>::write_lazy( b ); }
FN void cb_0x4a_77_43( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,4,3>::write_lazy( b ); }
FN void cb_0x4a_77_44( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,4,4>::write_lazy( b ); }
FN void cb_0x4a_77_50( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,5,0>::write_lazy( b ); }
FN void cb_0x4a_77_51( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,5,1>::write_lazy( b ); }
FN void cb_0x4a_77_52( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,5,2>::write_lazy( b ); }
FN void cb_0x4a_77_53( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); }
FN void cb_0x4a_77_54( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,5,4>::write_lazy( b ); }
FN void cb_0x4a_77_55( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,5,5>::write_lazy( b ); }
FN void cb_0x4a_77_60( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,6,0>::write_lazy( b ); }
FN void cb_0x4a_77_61( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,6,1>::write_lazy( b ); }
FN void cb_0x4a_77_62( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,6,2>::write_lazy( b ); }
FN void cb_0x4a_77_63( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,6,3>::write_lazy( b ); }
FN void cb_0x4a_77_64( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,6,4>::write_lazy( b ); }
FN void cb_0x4a_77_65( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,6,5>::write_lazy( b ); }
FN void cb_0x4a_77_66( uint8_t a, uint8_t b ) { F<0x4a,7,7>::write_lazy( a ), F<0x4a,6,6>::write_lazy( b ); }
int main() { for (;;) ; }
