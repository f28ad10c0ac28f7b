#ifndef VERIF_FIXED_COMMON_HPP
#define VERIF_FIXED_COMMON_HPP
#include "mc.hpp"
#include "num/fixed-point.hpp"
#include <cmath>
#include <limits>
#include <vector>
#include <set>
#include <utility>

using i128 = __int128;

// boundary values of a representation: every +-2^k + {-2..2}, every two-bit pattern, the ends
template< typename T >
std::vector<T> boundary( bool dense )
{
    std::set<long long> s; const long long lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    auto put = [&]( long long v ) { if ( v >= lo && v <= hi ) s.insert( v ); };
    const int bits = int( sizeof(T) ) * 8;
    for ( int k = 0; k < bits; ++k ) for ( int d = -2; d <= 2; ++d ) { put( ( 1LL << k ) + d ); put( -( 1LL << k ) + d ); }
    if ( dense ) for ( int k = 0; k < bits; ++k ) for ( int j = 0; j < k; ++j ) { put( ( 1LL << k ) + ( 1LL << j ) ); put( -( 1LL << k ) - ( 1LL << j ) ); put( ( 1LL << k ) - ( 1LL << j ) ); }
    for ( long long v : { 3LL, 5LL, 7LL, 10LL, 25LL, 99LL, 100LL, 1000LL, 12345LL, 46341LL, 1000000007LL, 0x55555555LL } ) { put( v ); put( -v ); }
    return std::vector<T>( s.begin(), s.end() );
}

template< typename FP, typename T > FP mk( T raw ) { return FP( FP::construct, raw ); }
template< typename T > long long ll( T v ) { return static_cast<long long>( v ); }

// run f.template operator()<F>() for F = 0..digits
template< typename T, typename Fn, int... F >
void for_f( Fn fn, std::integer_sequence<int, F...> ) { ( fn( std::integral_constant<int, F>{} ), ... ); }
template< typename T, typename Fn > void for_all_f( Fn fn ) { for_f<T>( fn, std::make_integer_sequence<int, std::numeric_limits<T>::digits + 1>{} ); }

template< typename T > char const * tname() { return sizeof(T) == 1 ? "int8" : sizeof(T) == 2 ? "int16" : "int32"; }
#endif
