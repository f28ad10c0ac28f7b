// exact rationals (boost cpp_rational, expression templates off): every comparison in these explorers is exact
#ifndef VERIF_RATIONAL_HPP
#define VERIF_RATIONAL_HPP
#include <boost/multiprecision/cpp_int.hpp>
using Rat = boost::multiprecision::number<boost::multiprecision::cpp_rational_backend, boost::multiprecision::et_off>;
inline double dbl( Rat const & r ) { return r.convert_to<double>(); }
inline double dbl( double r ) { return r; }
inline std::uint64_t hash_rat( Rat const & r )
{
    double d = dbl( r ); if ( d == 0 ) d = 0; std::uint64_t u; memcpy( &u, &d, 8 ); return u;
}
#endif
