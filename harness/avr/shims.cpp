// the replacements of parts of std on the microcontroller
#include "std/algorithm.hpp"
#include "std/complex.hpp"
#include "std/cstdint.hpp"
#include "std/limits.hpp"
#include "std/tuple.hpp"
#include "std/type_traits.hpp"
#include "std/utility.hpp"
#include "num/constants.hpp"
#include "core/shims.hpp"
#include "core/traits.hpp"
#include <stdint.h>
#define FN extern "C" __attribute__((used, noinline))
using namespace std20;

#define LIMIT( n, T ) FN T min_##n() { return numeric_limits<T>::min(); } FN T max_##n() { return numeric_limits<T>::max(); } FN uint16_t facts_##n() { return numeric_limits<T>::digits | numeric_limits<T>::is_signed << 8 | numeric_limits<T>::is_integer << 9 | is_integral_v<T> << 10 | is_signed_v<T> << 11 | is_integral<T>::value << 12 | is_signed<T>::value << 13; }
LIMIT( i8, int8_t ) LIMIT( u8, uint8_t ) LIMIT( i16, int16_t ) LIMIT( u16, uint16_t ) LIMIT( i32, int32_t ) LIMIT( u32, uint32_t ) LIMIT( i64, int64_t ) LIMIT( u64, uint64_t )
FN uint16_t facts_f() { return numeric_limits<float>::is_signed << 8 | numeric_limits<float>::is_integer << 9 | is_integral_v<float> << 10 | is_signed_v<float> << 11; }
FN uint16_t facts_d() { return numeric_limits<double>::is_signed << 8 | numeric_limits<double>::is_integer << 9 | is_integral_v<double> << 10 | is_signed_v<double> << 11; }
FN uint16_t sizes() { return sizeof( std20::int8_t ) | sizeof( std20::int16_t ) << 4 | sizeof( std20::int32_t ) << 8 | sizeof( std20::int64_t ) << 12; }

template< typename T, enable_if_t<is_integral_v<T>, int> = 0 > uint8_t kind( T ) { return 1; }
template< typename T, enable_if_t<!is_integral_v<T>, int> = 0 > uint8_t kind( T ) { return 2; }
// one bit for each statement that holds:
FN uint64_t traits()
{
    uint64_t f = 0; uint8_t i = 0; auto t = [&]( bool b ) { f |= uint64_t( b ) << i++; };
    t( is_same_v<remove_reference_t<int &>, int> ); t( is_same_v<remove_reference_t<int &&>, int> ); t( is_same_v<remove_reference_t<int>, int> ); t( is_same_v<remove_reference_t<int const &>, int const> );
    t( is_same_v<remove_const_t<int const>, int> ); t( is_same_v<remove_const_t<int>, int> ); t( is_same_v<remove_const_t<int volatile>, int volatile> ); t( is_same_v<remove_const_t<int const *>, int const *> );
    t( is_same_v<remove_volatile_t<int volatile>, int> ); t( is_same_v<remove_volatile_t<int const>, int const> ); t( is_same_v<remove_volatile_t<int volatile const>, int const> );
    t( is_same_v<remove_cv_t<int const volatile>, int> ); t( is_same_v<remove_cv_t<int const>, int> ); t( is_same_v<remove_cv_t<int volatile>, int> ); t( is_same_v<remove_cv_t<int>, int> ); t( is_same_v<remove_cv_t<int const &>, int const &> );
    t( !is_same_v<int, unsigned> ); t( !is_same<int, int const>::value ); t( is_same<int, int>::value ); t( kind( 1 ) == 1 ); t( kind( 1.0f ) == 2 ); t( kind( 1L ) == 1 );
    t( integral_constant<int, 7>::value == 7 ); t( integral_constant<int, -7>()() == -7 ); t( int( integral_constant<int, 9>() ) == 9 ); t( is_same_v<integral_constant<char, 1>::value_type, char> );
    t( true_type::value ); t( !false_type::value ); t( is_same_v<enable_if_t<true, long>, long> ); t( is_same_v<enable_if_t<true>, void> );
    t( is_same_v<core::identity_t<long>, long> ); t( is_same_v<decltype( move( i ) ), uint8_t &&> );
    return f;
}
FN uint8_t trait_count() { return 32; }

extern "C" { __attribute__((used)) uint8_t s[16], d[16]; }
FN uint8_t copy_( uint8_t from, uint8_t n, uint8_t to ) { return copy( s + from, s + from + n, d + to ) - d; }
FN uint8_t slide_( uint8_t from, uint8_t n, uint8_t to ) { return copy( s + from, s + from + n, s + to ) - s; }
FN void fill_( uint8_t from, uint8_t n, uint8_t v ) { fill( d + from, d + from + n, v ); }
FN void fill_own( uint8_t from, uint8_t n, uint8_t of ) { fill( d + from, d + from + n, s[of] ); }
FN uint8_t equal_( uint8_t n, uint8_t from ) { return equal( s, s + n, d + from ); }
FN uint8_t equal_by( uint8_t n, uint8_t from ) { return equal( s, s + n, d + from, []( uint8_t x, uint8_t y ) { return x <= y; } ); }
// ranges that need more than an 8-bit count
extern "C" { __attribute__((used)) uint8_t ls[300], ld[300]; }
FN uint16_t long_copy( uint16_t n ) { return copy( ls, ls + n, ld ) - ld; }
FN void long_fill( uint16_t n, uint8_t v ) { fill( ld, ld + n, v ); }
FN uint8_t long_equal( uint16_t n ) { return equal( ls, ls + n, ld ); }
FN uint8_t long_equal_by( uint16_t n ) { return equal( ls, ls + n, ld, []( uint8_t x, uint8_t y ) { return x == y; } ); }
FN void swap_( uint8_t i, uint8_t k ) { swap( s[i], s[k] ); }
FN uint32_t swap_wide( uint16_t x, uint16_t y ) { swap( x, y ); return x | uint32_t( y ) << 16; }
static uint8_t collect( std::initializer_list<uint8_t> l ) { uint8_t n = 0; for ( auto x : l ) d[n++] = x; if ( std::begin( l ) != l.begin() || std::end( l ) != l.end() || l.end() - l.begin() != int( l.size() ) ) return 99; return l.size(); }
FN uint8_t list_( uint8_t n ) { switch ( n ) { case 0: return collect( {} ); case 1: return collect( { s[0] } ); case 2: return collect( { s[0], s[1] } ); case 3: return collect( { s[0], s[1], s[2] } ); case 4: return collect( { s[0], s[1], s[2], s[3] } ); default: return collect( { s[0], s[1], s[2], s[3], s[4], s[5], s[6] } ); } }
FN uint8_t empty_list() { std::initializer_list<int> l; return l.size() == 0 && l.begin() == l.end(); }
struct Moved { uint8_t v; Moved( uint8_t x ) : v( x ) {} Moved( Moved && o ) : v( o.v ) { o.v = 0xee; } Moved & operator=( Moved && o ) { v = o.v; o.v = 0xdd; return *this; } };
FN uint16_t swap_moved( uint8_t x, uint8_t y ) { Moved p( x ), q( y ); swap( p, q ); return p.v | q.v << 8; }
FN float pi_float() { return num::pi<float>; }
FN float pi_double() { return num::pi<double>; }
static float re, im;
FN void cx_new( float x, float y ) { complex<float> const z( x, y ); re = z.real(); im = z.imag(); }
FN void cx_real( float x, float ) { complex<float> const z( x ); re = z.real(); im = z.imag(); }
FN void cx_none( float, float ) { complex<float> const z; re = z.real(); im = z.imag(); }
FN void cx_copy( float x, float y ) { complex<float> const z( x, y ); complex<float> const w( z ); re = w.real(); im = w.imag(); }
FN void cx_assign( float x, float y ) { complex<float> const z( x, y ); complex<float> w( 9, 8 ); complex<float> const & q = (w = z); re = q.real(); im = &q == &w ? w.imag() : 77; }
FN void cx_scalar( float x, float y ) { complex<float> w( 9, y ); complex<float> const & q = (w = x); re = q.real(); im = &q == &w ? w.imag() : 77; }
FN void cx_other( float x, float y ) { complex<int> const z{ int( x ), int( y ) }; complex<float> w( 9, 8 ); complex<float> const & q = (w = z); re = q.real(); im = &q == &w ? w.imag() : 77; }
FN void cx_convert( float x, float y ) { complex<int> const z{ int( x ), int( y ) }; complex<float> const w( z ); re = w.real(); im = w.imag(); }
FN void cx_parts( float x, float y ) { complex<float> w( 9, 8 ); w.real( x ); w.imag( y ); re = w.real(); im = w.imag(); }
FN float cx_re() { return re; }
FN float cx_im() { return im; }
FN int16_t as_int( float x ) { return core::as<int>( x ); }
FN uint8_t as_byte( int16_t x ) { return core::as<uint8_t>( x ); }
FN float as_float( int16_t x ) { return core::as<float>( x ); }
FN uint8_t ignored( uint8_t x ) { ignore i; i = x; return x; }
int main() { for (;;) ; }
