// D03: type 1 Chebyshev designs have the equiripple magnitude of the smallest order that meets the specification.
#include "cheb_common.hpp"
MC_MAIN( all<1>( mc::ctx() ); )
