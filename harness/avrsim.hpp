// avrsim.hpp - an instruction-level ATmega328P: the real firmware image, compiled by avr-g++ from /repo's
// headers, is executed instruction by instruction, so that every access to a device register is seen and an
// interrupt can be placed at every instruction boundary.
#ifndef VERIF_AVRSIM_HPP
#define VERIF_AVRSIM_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace avr {

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t;

struct Fault : std::runtime_error { using runtime_error::runtime_error; };

// The image: flash contents and symbols of a 32-bit little-endian ELF file.

struct Image
{
    std::vector<u16> flash = std::vector<u16>( 65536, 0xffff )    /* more than the device has: an image of all tests may need it */;
    std::map<std::string, u32> sym;

    static u32 rd( std::vector<u8> const & b, size_t o, int n )
    {
        u32 v = 0;
        for ( int i = n; i--; ) v = v << 8 | b.at( o + i );
        return v;
    }

    explicit Image( char const * path )
    {
        FILE * f = fopen( path, "rb" );
        if ( !f ) throw Fault( std::string( "no image " ) + path );
        std::vector<u8> b; u8 buf[65536]; size_t n;
        while ( (n = fread( buf, 1, sizeof buf, f )) ) b.insert( b.end(), buf, buf + n );
        fclose( f );
        if ( b.size() < 52 || memcmp( b.data(), "\177ELF", 4 ) ) throw Fault( "not an ELF image" );
        u32 phoff = rd( b, 28, 4 ), shoff = rd( b, 32, 4 ), phn = rd( b, 44, 2 ), shn = rd( b, 48, 2 );
        for ( u32 i = 0; i < phn; ++i )
        {
            size_t p = phoff + 32 * i;
            if ( rd( b, p, 4 ) != 1 ) continue;
            u32 off = rd( b, p + 4, 4 ), pa = rd( b, p + 12, 4 ), fs = rd( b, p + 16, 4 );
            for ( u32 k = 0; k < fs; ++k )
            {
                u32 a = pa + k;
                if ( a / 2 >= flash.size() ) throw Fault( "image does not fit" );
                u16 & w = flash[a / 2];
                w = a & 1 ? u16( (w & 0x00ff) | b.at( off + k ) << 8 ) : u16( (w & 0xff00) | b.at( off + k ) );
            }
        }
        for ( u32 i = 0; i < shn; ++i )
        {
            size_t s = shoff + 40 * i;
            if ( rd( b, s + 4, 4 ) != 2 ) continue;
            u32 off = rd( b, s + 16, 4 ), size = rd( b, s + 20, 4 ), link = rd( b, s + 24, 4 );
            u32 str = rd( b, shoff + 40 * link + 16, 4 );
            for ( u32 k = 0; k < size; k += 16 )
                sym[ reinterpret_cast<char const *>( &b.at( str + rd( b, off + k, 4 ) ) ) ] = rd( b, off + k + 4, 4 );
        }
    }

    u32 at( std::string const & name ) const
    {
        auto p = sym.find( name );
        if ( p == sym.end() ) throw Fault( "no symbol " + name );
        return p->second;
    }
    bool has( std::string const & name ) const { return sym.count( name ); }
};

// One access to a device register (0x20..0xff; not SREG, SPL, SPH):

struct Access
{
    u8 address; bool write; u8 value; u8 mask;      // mask: the bits the instruction addresses (one for sbi, cbi)
    bool operator==( Access const & o ) const { return address == o.address && write == o.write && value == o.value && mask == o.mask; }
};

enum : u8 { C = 0, Z, N, V, S, H, T, I };
constexpr u8 a_spl = 0x5d, a_sph = 0x5e, a_sreg = 0x5f;
constexpr u16 home = 0xfff0;                        // word address a called function returns to

struct Cpu
{
    Image const * image;
    u8  data[0x900];
    u16 pc = 0;
    std::uint64_t steps = 0;
    bool delay = false;             // the instruction after sei executes before an interrupt is taken
    std::vector<Access> log;

    explicit Cpu( Image const & im ) : image( &im ) { memset( data, 0, sizeof data ); sp( 0x8ff ); }
    virtual ~Cpu() {}

    // the device: what reading and writing a register does.
    virtual u8   dev_read ( u8 a ) { return data[a]; }
    virtual void dev_write( u8 a, u8 value, u8 mask ) { data[a] = u8( (data[a] & ~mask) | (value & mask) ); }

    u16  sp() const { return data[a_spl] | data[a_sph] << 8; }
    void sp( u16 v ) { data[a_spl] = v & 255; data[a_sph] = v >> 8; }
    u8 & r( int i ) { return data[i]; }
    u8 & sreg() { return data[a_sreg]; }
    bool f( u8 b ) const { return data[a_sreg] >> b & 1; }
    void f( u8 b, bool v ) { data[a_sreg] = u8( (data[a_sreg] & ~(1 << b)) | v << b ); }
    u16  pair( int i ) const { return data[i] | data[i + 1] << 8; }
    void pair( int i, u16 v ) { data[i] = v & 255; data[i + 1] = v >> 8; }

    static bool plain( u16 a ) { return a < 0x20 || a >= 0x100 || a == a_spl || a == a_sph || a == a_sreg; }

    u8 load( u16 a )
    {
        if ( a >= 0x900 ) throw Fault( "load outside memory" );
        if ( plain( a ) ) return data[a];
        u8 v = dev_read( u8( a ) );
        log.push_back( { u8( a ), false, v, 0xff } );
        return v;
    }
    void store( u16 a, u8 v, u8 mask = 0xff )
    {
        if ( a >= 0x900 ) throw Fault( "store outside memory" );
        if ( plain( a ) ) { bool i = a == a_sreg && !f( I ); data[a] = u8( (data[a] & ~mask) | (v & mask) ); if ( i && f( I ) ) delay = true; return; }
        log.push_back( { u8( a ), true, v, mask } );
        dev_write( u8( a ), v, mask );
    }
    void push( u8 v ) { u16 s = sp(); if ( s < 0x100 ) throw Fault( "stack overflow" ); store( s, v ); sp( s - 1 ); }
    u8   pop() { u16 s = sp() + 1; sp( s ); return load( s ); }
    void push_pc( u16 v ) { push( v & 255 ); push( v >> 8 ); }
    u16  pop_pc() { u16 hi = pop(); return hi << 8 | pop(); }

    u16 fetch( u16 a ) const { return image->flash[a]; }
    static bool two_words( u16 op ) { return (op & 0xfe0c) == 0x940c || (op & 0xfc0f) == 0x9000; }

    void interrupt( u32 vector )    // vector number; the table has two-word entries
    {
        push_pc( pc ); f( I, false ); pc = u16( vector * 2 );
    }

    void flags_logic( u8 v ) { f( V, false ); f( N, v >> 7 ); f( Z, v == 0 ); f( S, v >> 7 ); }
    u8 add( u8 a, u8 b, bool c )
    {
        u8 v = u8( a + b + c ), k = u8( (a & b) | ((a | b) & ~v) );
        f( H, k >> 3 & 1 ); f( C, k >> 7 ); f( V, ((a & b & ~v) | (~a & ~b & v)) >> 7 & 1 ); f( N, v >> 7 ); f( Z, v == 0 ); f( S, f( N ) ^ f( V ) );
        return v;
    }
    u8 sub( u8 a, u8 b, bool c, bool keep_z )
    {
        u8 v = u8( a - b - c ), k = u8( (~a & b) | ((~a | b) & v) );
        f( H, k >> 3 & 1 ); f( C, k >> 7 ); f( V, ((a & ~b & ~v) | (~a & b & v)) >> 7 & 1 ); f( N, v >> 7 );
        f( Z, v == 0 && (!keep_z || f( Z )) ); f( S, f( N ) ^ f( V ) );
        return v;
    }
    void skip_if( bool c ) { if ( c ) pc = u16( pc + (two_words( fetch( pc ) ) ? 2 : 1) ); }

    void step()
    {
        ++steps;
        delay = false;
        u16 op = fetch( pc++ );
        int d5 = op >> 4 & 31, r5 = (op & 15) | (op >> 5 & 16), d4 = 16 + (op >> 4 & 15), k8 = (op >> 4 & 0xf0) | (op & 15);
        switch ( op >> 12 )
        {
        case 0x0:
            switch ( op >> 8 & 15 )
            {
            case 0: if ( op ) break; return;                                                     // nop
            case 1: pair( (op >> 4 & 15) * 2, pair( (op & 15) * 2 ) ); return;                   // movw
            case 2: return mul( (std::int8_t) r( d4 ) * (std::int8_t) r( 16 + (op & 15) ), false );     // muls
            case 3:
            {
                int d = 16 + (op >> 4 & 7), s = 16 + (op & 7);
                switch ( (op >> 6 & 2) | (op >> 3 & 1) )
                {
                case 0: return mul( (std::int8_t) r( d ) * r( s ), false );                      // mulsu
                case 1: return mul( r( d ) * r( s ), true );                                     // fmul
                case 2: return mul( (std::int8_t) r( d ) * (std::int8_t) r( s ), true );         // fmuls
                default: return mul( (std::int8_t) r( d ) * r( s ), true );                      // fmulsu
                }
            }
            case 4: case 5: case 6: case 7: sub( r( d5 ), r( r5 ), f( C ), true ); return;       // cpc
            case 8: case 9: case 10: case 11: r( d5 ) = sub( r( d5 ), r( r5 ), f( C ), true ); return;  // sbc
            default: r( d5 ) = add( r( d5 ), r( r5 ), false ); return;                           // add
            }
            break;
        case 0x1:
            switch ( op >> 10 & 3 )
            {
            case 0: skip_if( r( d5 ) == r( r5 ) ); return;                                       // cpse
            case 1: sub( r( d5 ), r( r5 ), false, false ); return;                               // cp
            case 2: r( d5 ) = sub( r( d5 ), r( r5 ), false, false ); return;                     // sub
            default: r( d5 ) = add( r( d5 ), r( r5 ), f( C ) ); return;                          // adc
            }
        case 0x2:
            switch ( op >> 10 & 3 )
            {
            case 0: flags_logic( r( d5 ) &= r( r5 ) ); return;
            case 1: flags_logic( r( d5 ) ^= r( r5 ) ); return;
            case 2: flags_logic( r( d5 ) |= r( r5 ) ); return;
            default: r( d5 ) = r( r5 ); return;
            }
        case 0x3: sub( r( d4 ), k8, false, false ); return;                                      // cpi
        case 0x4: r( d4 ) = sub( r( d4 ), k8, f( C ), true ); return;                            // sbci
        case 0x5: r( d4 ) = sub( r( d4 ), k8, false, false ); return;                            // subi
        case 0x6: flags_logic( r( d4 ) |= k8 ); return;                                          // ori
        case 0x7: flags_logic( r( d4 ) &= k8 ); return;                                          // andi
        case 0x8: case 0xa:                                                                      // ldd, std
        {
            int q = (op & 7) | (op >> 7 & 0x18) | (op >> 8 & 0x20);
            u16 a = u16( pair( op & 8 ? 28 : 30 ) + q );
            if ( op & 0x200 ) store( a, r( d5 ) ); else r( d5 ) = load( a );
            return;
        }
        case 0x9: return group9( op, d5, r5 );
        case 0xb:
        {
            u16 a = u16( 0x20 + ((op & 15) | (op >> 5 & 0x30)) );
            if ( op & 0x800 ) store( a, r( d5 ) ); else r( d5 ) = load( a );                     // out, in
            return;
        }
        case 0xc: pc = u16( pc + (std::int16_t( op << 4 ) >> 4) ); return;                       // rjmp
        case 0xd: push_pc( pc ); pc = u16( pc + (std::int16_t( op << 4 ) >> 4) ); return;        // rcall
        case 0xe: r( d4 ) = k8; return;                                                          // ldi
        case 0xf:
            switch ( op >> 9 & 7 )
            {
            case 0: case 1: case 2: case 3:                                                      // brbs, brbc
                if ( f( op & 7 ) != bool( op & 0x400 ) ) pc = u16( pc + (std::int8_t( op >> 2 & 0xfe ) >> 1) );
                return;
            case 4: if ( op & 8 ) break; r( d5 ) = u8( (r( d5 ) & ~(1 << (op & 7))) | f( T ) << (op & 7) ); return;    // bld
            case 5: if ( op & 8 ) break; f( T, r( d5 ) >> (op & 7) & 1 ); return;                // bst
            case 6: if ( op & 8 ) break; skip_if( !(r( d5 ) >> (op & 7) & 1) ); return;          // sbrc
            default: if ( op & 8 ) break; skip_if( r( d5 ) >> (op & 7) & 1 ); return;            // sbrs
            }
            break;
        }
        bad( op );
    }

    [[noreturn]] void bad( u16 op ) { char b[64]; snprintf( b, sizeof b, "instruction %04x at %04x", op, 2 * (pc - 1) ); throw Fault( b ); }

    void mul( int p, bool shift )
    {
        u16 v = u16( p );
        f( C, v >> 15 );
        if ( shift ) v = u16( v << 1 );
        f( Z, v == 0 );
        pair( 0, v );
    }

    void group9( u16 op, int d5, int r5 )
    {
        switch ( op >> 8 & 15 )
        {
        case 0: case 1: case 2: case 3:
        {
            bool st = op & 0x200;
            auto mem = [&]( u16 a ) { if ( st ) store( a, r( d5 ) ); else r( d5 ) = load( a ); };
            auto inc = [&]( int p ) { u16 a = pair( p ); mem( a ); pair( p, a + 1 ); };
            auto dec = [&]( int p ) { u16 a = pair( p ) - 1; pair( p, a ); mem( a ); };
            auto lpm = [&]( int d ) { u16 a = pair( 30 ); r( d ) = u8( fetch( a / 2 ) >> (a & 1) * 8 ); };
            switch ( op & 15 )
            {
            case 0x0: mem( fetch( pc++ ) ); return;
            case 0x1: inc( 30 ); return;
            case 0x2: dec( 30 ); return;
            case 0x4: if ( st ) break; lpm( d5 ); return;
            case 0x5: if ( st ) break; lpm( d5 ); pair( 30, pair( 30 ) + 1 ); return;
            case 0x9: inc( 28 ); return;
            case 0xa: dec( 28 ); return;
            case 0xc: mem( pair( 26 ) ); return;
            case 0xd: inc( 26 ); return;
            case 0xe: dec( 26 ); return;
            case 0xf: if ( st ) push( r( d5 ) ); else r( d5 ) = pop(); return;
            }
            break;
        }
        case 4: case 5:
            switch ( op & 15 )
            {
            case 0: { u8 v = r( d5 ) = u8( ~r( d5 ) ); flags_logic( v ); f( C, true ); return; }          // com
            case 1: r( d5 ) = sub( 0, r( d5 ), false, false ); return;                                    // neg
            case 2: r( d5 ) = u8( r( d5 ) << 4 | r( d5 ) >> 4 ); return;                                  // swap
            case 3: { u8 v = ++r( d5 ); f( V, v == 0x80 ); f( N, v >> 7 ); f( Z, !v ); f( S, f( N ) ^ f( V ) ); return; }    // inc
            case 5: case 6: case 7:                                                                       // asr, lsr, ror
            {
                u8 a = r( d5 ), v = u8( a >> 1 | ((op & 15) == 5 ? a & 0x80 : (op & 15) == 7 ? f( C ) << 7 : 0) );
                f( C, a & 1 ); f( N, v >> 7 ); f( Z, !v ); f( V, f( N ) ^ f( C ) ); f( S, f( N ) ^ f( V ) ); r( d5 ) = v; return;
            }
            case 8:
                if ( !(op & 0x100) ) { bool set = !(op & 0x80); delay = set && (op >> 4 & 7) == I && !f( I ); f( op >> 4 & 7, set ); return; }  // bset, bclr
                if ( op == 0x9508 ) { pc = pop_pc(); return; }                                            // ret
                if ( op == 0x9518 ) { pc = pop_pc(); delay = !f( I ); f( I, true ); return; }            // reti
                if ( op == 0x95a8 ) return;                                                               // wdr
                if ( op == 0x95c8 ) { u16 a = pair( 30 ); r( 0 ) = u8( fetch( a / 2 ) >> (a & 1) * 8 ); return; }
                break;
            case 9:
                if ( op == 0x9409 ) { pc = pair( 30 ); return; }                                          // ijmp
                if ( op == 0x9509 ) { push_pc( pc ); pc = pair( 30 ); return; }                           // icall
                break;
            case 10: { u8 v = --r( d5 ); f( V, v == 0x7f ); f( N, v >> 7 ); f( Z, !v ); f( S, f( N ) ^ f( V ) ); return; }    // dec
            case 12: case 13: pc = fetch( pc ); return;                                                   // jmp
            case 14: case 15: push_pc( pc + 1 ); pc = fetch( pc ); return;                                // call
            }
            break;
        case 6: case 7:                                                                                   // adiw, sbiw
        {
            int d = 24 + (op >> 4 & 3) * 2, k = (op & 15) | (op >> 2 & 0x30);
            u16 a = pair( d ), v = u16( op & 0x100 ? a - k : a + k );
            bool am = a >> 15, vm = v >> 15;
            if ( op & 0x100 ) { f( V, am && !vm ); f( C, !am && vm ); } else { f( V, !am && vm ); f( C, am && !vm ); }
            f( N, vm ); f( Z, !v ); f( S, f( N ) ^ f( V ) ); pair( d, v ); return;
        }
        case 8: case 10:                                                                                  // cbi, sbi
            store( u16( 0x20 + (op >> 3 & 31) ), op & 0x200 ? 0xff : 0, u8( 1 << (op & 7) ) ); return;
        case 9: case 11:                                                                                  // sbic, sbis
        {
            u8 v = load( u16( 0x20 + (op >> 3 & 31) ) );
            skip_if( bool( v >> (op & 7) & 1 ) == bool( op & 0x200 ) ); return;
        }
        default: mul( r( d5 ) * r( r5 ), false ); return;                                                 // mul
        }
        bad( op );
    }

    // run the start-up code up to main():
    void boot()
    {
        pc = 0;
        u16 m = u16( image->at( "main" ) / 2 );
        for ( int i = 0; pc != m; ++i ) { if ( i > 1000000 ) throw Fault( "start-up code does not reach main()" ); step(); }
        steps = 0; log.clear();
    }

    // prepare a call; registers get recognisable contents, arguments are put by arg():
    void enter( u32 address )
    {
        push_pc( home );
        pc = u16( address / 2 );
        log.clear();
    }
    bool running() const { return pc != home; }

    void run( std::uint64_t limit = 2000000 )
    {
        for ( std::uint64_t i = 0; running(); ++i ) { if ( i > limit ) throw Fault( "function does not return" ); step(); }
    }
    u32 result32() const { return data[22] | data[23] << 8 | data[24] << 16 | u32( data[25] ) << 24; }
    u16 result16() const { return data[24] | data[25] << 8; }
    u8  result8() const { return data[24]; }
    std::uint64_t result64() const { std::uint64_t v = 0; for ( int i = 8; i--; ) v = v << 8 | data[18 + i]; return v; }

    u32 call( u32 address, std::initializer_list<u32> words = {} )     // 16-bit arguments in r24, r22, r20, ...
    {
        enter( address );
        int at = 24;
        for ( u32 w : words ) { pair( at, u16( w ) ); at -= 2; }
        run();
        return result32();
    }
    u32 peek( u32 address, int n ) const { u32 v = 0; for ( int i = n; i--; ) v = v << 8 | data[(address & 0xffff) + i]; return v; }
    void poke( u32 address, u32 v, int n ) { for ( int i = 0; i < n; ++i, v >>= 8 ) data[(address & 0xffff) + i] = u8( v ); }
};

} // namespace avr

#endif
