// D04: type 2 Chebyshev designs have the inverse-Chebyshev magnitude of the smallest order that meets the specification.
#include "cheb_common.hpp"
MC_MAIN( all<2>( mc::ctx() ); )
