// U05: multi-byte values shared with an interrupt: the interrupt strikes before every instruction of an access.
#include "regs_common.hpp"
#include <set>

using Bytes = std::vector<u8>;
static std::string text( Bytes const & b ) { std::string t; for ( auto x : b ) { char s[4]; snprintf( s, sizeof s, "%02x", x ); t += s; } return t; }
static mc::u64 finger( Bytes const & b ) { mc::u64 h = b.size(); for ( auto x : b ) h = mc::mix( h, x ); return h; }

struct Var { char const * id; int size; };
static std::vector<Var> const vars = { { "vu8", 1 }, { "vu16", 2 }, { "vu32", 4 }, { "vu64", 8 }, { "vf", 4 }, { "vs16", 2 }, { "vs32", 4 },
    { "u8", 1 }, { "u16", 2 }, { "u32", 4 }, { "u64", 8 }, { "f", 4 }, { "s6", 6 } };

// values that differ in every byte: before, written, and two from the interrupt; and values that differ by a carry
static Bytes value( int set, int which, int size )
{
    Bytes b;
    for ( int i = 0; i < size; ++i ) b.push_back( set == 0 ? u8( 0x11 * (which + 1) + 0x23 * i ) : set == 1 ? u8( which & 1 ? 0 : 0xff ) : u8( which == 0 ? (i + 1 < size ? 0xff : 0x3f) : which == 1 ? (i + 1 < size ? 0 : 0x40) : 0x80 + which + i ) );
    return b;
}

// r24 and below, as avr-gcc passes and returns values
static int first_register( int size ) { return size <= 2 ? 24 : size <= 4 ? 22 : 18; }

struct World
{
    mc::Ctx & m; Mega & c; Image const & im;
    bool pending = false; int taken = 0, raised = 0; bool reader = false; int raise[2]; int steps = 0; bool late = false;
    World( mc::Ctx & m_, std::string const & fw ) : m( m_ ), c( device( fw ) ), im( image( fw ) ) { raise[0] = raise[1] = 1 << 30; }
    void put( char const * s, Bytes const & b, int offset = 0 ) { for ( size_t i = 0; i < b.size(); ++i ) c.data[(im.at( s ) & 0xffff) + offset + i] = b[i]; }
    Bytes get( char const * s, int n, int offset = 0 ) { Bytes b; for ( int i = 0; i < n; ++i ) b.push_back( c.data[(im.at( s ) & 0xffff) + offset + i] ); return b; }
    void prepare( int size, bool reads, bool pwm, u32 at, std::vector<Bytes> const & in )
    {
        c.poke( im.at( "isr_size" ), size, 1 ); c.poke( im.at( "isr_reads" ), reads, 1 ); c.poke( im.at( "isr_pwm" ), pwm, 1 ); c.poke( im.at( "isr_n" ), 0, 1 );
        c.poke( im.at( "isr_at" ), at & 0xffff, 2 );
        for ( int k = 0; k < 4; ++k ) { put( "isr_in", Bytes( 8, u8( 0xee ) ), 8 * k ); put( "isr_seen", Bytes( 8, u8( 0xee ) ), 8 * k ); }
        for ( size_t k = 0; k < in.size(); ++k ) put( "isr_in", in[k], int( 8 * k ) );
    }
    bool boundary()
    {
        for ( int k = 0; k < 2; ++k ) if ( raise[k] == steps ) { if ( !pending ) ++raised; pending = true; }
        if ( pending && c.f( I ) && !c.delay ) { pending = false; ++taken; c.interrupt( 14 ); return true; }
        return false;
    }
    // runs the function entered; true when the interrupts raised were taken within it
    void run()
    {
        u8 r1 = c.r( 1 );
        for ( ;; )
        {
            boundary();
            if ( !c.running() && !(pending && c.delay) ) break;
            if ( !c.running() ) { c.delay = false; continue; }        // the caller executes an instruction
            c.step(); m.step(); if ( ++steps > 20000 ) throw Fault( "does not return" );
        }
        m.check( c.f( I ), "interrupts-off", [&]{ return std::string( "interrupts are disabled after the access" ); } );
        m.check( taken == raised, "interrupt-lost", [&]{ return mc::cat( raised, " interrupts raised, ", taken, " taken by the return of the access" ); } );
        m.check( c.r( 1 ) == r1, "registers", [&]{ return std::string( "zero register" ); } );
    }
    // instruction count without interrupts, and the handler's
    int length( u32 f ) { Cpu & d = c; std::vector<u8> save( d.data, d.data + sizeof d.data ); d.f( I, true ); d.enter( f ); int n = 0; while ( d.running() ) { d.step(); if ( ++n > 20000 ) throw Fault( "does not return" ); } memcpy( d.data, save.data(), sizeof d.data ); d.log.clear(); return n; }
    int handler() { Cpu & d = c; std::vector<u8> save( d.data, d.data + sizeof d.data ); d.pc = home; d.f( I, true ); d.interrupt( 14 ); int n = 0; while ( d.running() ) { d.step(); if ( ++n > 20000 ) throw Fault( "handler does not return" ); } memcpy( d.data, save.data(), sizeof d.data ); d.log.clear(); return n; }
    // interrupts at up to two of all instruction boundaries
    void schedule( int n, int h )
    {
        int a = m.choose( n + 2 ); if ( a == n + 1 ) return;
        raise[0] = a;
        int b = m.choose( n + h - a + 3 ); if ( b ) raise[1] = a + b;
    }
    std::string when() const { std::string t; for ( int k = 0; k < 2; ++k ) if ( raise[k] < 1 << 30 ) t += mc::cat( t.empty() ? ", interrupt raised before instruction " : " and ", raise[k] ); return t; }
};

static void accesses( std::string const & fw )
{
    mc::explore( "read " + fw, 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & v = m.pick( vars ); int set = m.choose( 3 ); World w( m, fw ); u32 f = w.im.at( mc::cat( "rd_", v.id ) ); std::string var = mc::cat( "var_", v.id );
        std::vector<Bytes> val; for ( int k = 0; k < 4; ++k ) val.push_back( value( set, k, v.size ) );
        w.prepare( v.size, false, false, w.im.at( var ), { val[2], val[3] } ); w.put( var.c_str(), val[0] );
        w.schedule( w.length( f ), w.handler() );
        w.c.f( I, true ); w.c.delay = false; w.c.enter( f ); w.run();
        Bytes got; for ( int i = 0; i < v.size; ++i ) got.push_back( w.c.data[first_register( v.size ) + i] );
        m.state( mc::mix( finger( got ), mc::mix( f, mc::u64( w.taken ) ) ) );
        bool ok = got == val[0]; for ( int k = 0; k < w.taken; ++k ) ok = ok || got == val[2 + k];
        m.check( ok, "torn-read", [&]{ return mc::cat( fw, ": atomic read of ", v.id, " yields ", text( got ), "; it held ", text( val[0] ), " ", text( val[2] ), " ", text( val[3] ), w.when() ); } );
        m.check( w.get( var.c_str(), v.size ) == (w.taken ? val[1 + w.taken] : val[0]), "read-writes", [&]{ return mc::cat( fw, ": reading ", v.id, " leaves ", text( w.get( var.c_str(), v.size ) ), w.when() ); } );
        m.sample( [&]{ return mc::cat( v.id, w.when(), ": ", text( got ) ); } );
    } ); } );
    mc::explore( "write " + fw, 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & v = m.pick( vars ); int set = m.choose( 3 ); bool reads = m.choose( 2 ); World w( m, fw ); u32 f = w.im.at( mc::cat( "wr_", v.id ) ); std::string var = mc::cat( "var_", v.id );
        std::vector<Bytes> val; for ( int k = 0; k < 4; ++k ) val.push_back( value( set, k, v.size ) );
        w.prepare( v.size, reads, false, w.im.at( var ), { val[2], val[3] } ); w.put( var.c_str(), val[0] );
        auto args = [&]{ int at = v.size == 1 ? 24 : 26 - v.size; for ( int i = 0; i < v.size; ++i ) w.c.data[at + i] = val[1][i]; };
        args(); w.schedule( w.length( f ), w.handler() );
        args(); w.c.f( I, true ); w.c.delay = false; w.c.enter( f ); w.run();
        Bytes end = w.get( var.c_str(), v.size ); m.state( mc::mix( finger( end ), mc::mix( f, mc::u64( w.taken * 2 + reads ) ) ) );
        auto bad = [&]( char const * what, Bytes const & b ) { return mc::cat( fw, ": atomic write of ", text( val[1] ), " to ", v.id, " holding ", text( val[0] ), ": ", what, " ", text( b ), w.when() ); };
        if ( reads )
        {
            m.check( end == val[1], "write", [&]{ return bad( "leaves", end ); } );
            bool written = false;
            for ( int k = 0; k < w.taken; ++k )
            {
                Bytes s = w.get( "isr_seen", v.size, 8 * k );
                m.check( s == val[0] || s == val[1], "torn-write", [&]{ return bad( "the interrupt sees", s ); } );
                m.check( !written || s == val[1], "write-undone", [&]{ return bad( "the second interrupt sees", s ); } );
                written = s == val[1] && val[0] != val[1];
            }
        }
        else m.check( end == val[1] || (w.taken && end == val[1 + w.taken]), "torn-write", [&]{ return bad( "leaves", end ); } );
    } ); } );
    mc::explore( "several " + fw, 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        int what = m.choose( 6 ); int set = m.choose( 2 ) * 2; World w( m, fw );
        std::vector<Bytes> val; for ( int k = 0; k < 4; ++k ) val.push_back( value( set, k, 4 ) );
        auto index = [&]( Bytes const & b ) { for ( int k = 0; k < 4; ++k ) if ( b == val[k] ) return k == 0 ? 0 : k - 1; return -1; };       // position in the history 0, 2, 3
        auto put4 = [&]( int at, Bytes const & b ) { for ( int i = 0; i < 4; ++i ) w.c.data[at + i] = b[i]; };
        if ( what == 0 )        // by reference
        {
            u32 var = w.im.at( "var_u32" ); w.prepare( 4, false, false, var, { val[2], val[3] } ); w.put( "var_u32", val[0] );
            u32 f = w.im.at( "rd_ref" ); w.c.pair( 24, u16( var ) ); w.schedule( w.length( f ), w.handler() );
            w.c.pair( 24, u16( var ) ); w.c.f( I, true ); w.c.enter( f ); w.run(); Bytes got; for ( int i = 0; i < 4; ++i ) got.push_back( w.c.data[22 + i] );
            m.state( mc::mix( finger( got ), f ) ); m.check( index( got ) >= 0 && index( got ) <= w.taken && got != val[1], "torn-read", [&]{ return mc::cat( "by reference: ", text( got ), w.when() ); } );
        }
        else if ( what == 1 )   // two reads in a row: the second is not older than the first
        {
            u32 out = w.im.at( "isr_seen" ); w.prepare( 4, false, false, w.im.at( "var_u32" ), { val[2], val[3] } ); w.put( "var_u32", val[0] );
            u32 f = w.im.at( "rd_twice" ); w.c.pair( 24, u16( out ) ); w.schedule( w.length( f ), w.handler() );
            w.put( "var_u32", val[0] ); w.c.pair( 24, u16( out ) ); w.c.f( I, true ); w.c.enter( f ); w.run(); Bytes a = w.get( "isr_seen", 4 ); Bytes b = w.get( "isr_seen", 4, 4 );
            m.state( mc::mix( finger( a ), finger( b ) ) );
            m.check( a != val[1] && b != val[1] && index( a ) >= 0 && index( b ) >= index( a ) && index( b ) <= w.taken, "torn-read", [&]{ return mc::cat( "two reads: ", text( a ), " ", text( b ), w.when() ); } );
        }
        else if ( what == 2 )   // two writes in a row, looked at by the interrupt
        {
            w.prepare( 4, true, false, w.im.at( "var_u32" ), {} ); w.put( "var_u32", val[0] ); u32 f = w.im.at( "wr_twice" );
            auto args = [&]{ put4( 22, val[1] ); put4( 18, val[2] ); }; args(); w.schedule( w.length( f ), w.handler() ); args(); w.c.f( I, true ); w.c.enter( f ); w.run();
            int last = 0; m.check( w.get( "var_u32", 4 ) == val[2], "write", [&]{ return mc::cat( "two writes leave ", text( w.get( "var_u32", 4 ) ), w.when() ); } );
            for ( int k = 0; k < w.taken; ++k )
            {
                Bytes s = w.get( "isr_seen", 4, 8 * k ); int n = s == val[0] ? 0 : s == val[1] ? 1 : s == val[2] ? 2 : -1; m.state( mc::mix( finger( s ), mc::u64( k ) ) );
                m.check( n >= last, "torn-write", [&]{ return mc::cat( "two writes: the interrupt sees ", text( s ), w.when() ); } ); last = n;
            }
        }
        else if ( what == 3 )   // waiting for the value the interrupt sets
        {
            Bytes v0 = value( set, 0, 2 ); Bytes v1 = value( set, 1, 2 ); w.prepare( 2, false, false, w.im.at( "var_u16" ), { v1, v1 } ); w.put( "var_u16", v0 ); u32 f = w.im.at( "wait_for" );
            int a = m.choose( 60 ); w.raise[0] = a; w.c.data[24] = v1[0]; w.c.data[25] = v1[1]; w.c.f( I, true ); w.c.enter( f ); w.run();
            m.state( mc::mix( 33, mc::mix( a, w.c.result8() ) ) );
            m.check( w.c.result8() < 60 && w.get( "var_u16", 2 ) == v1, "wait", [&]{ return mc::cat( "waiting for ", text( v1 ), " from ", text( v0 ), ": ", +w.c.result8(), " rounds", w.when() ); } );
        }
        else if ( what == 4 )   // a byte written to a wider variable
        {
            w.prepare( 4, true, false, w.im.at( "var_vu32" ), {} ); w.put( "var_vu32", val[0] ); u32 f = w.im.at( "wr_narrow" ); w.c.data[24] = 0xc7; w.schedule( w.length( f ), w.handler() );
            Bytes const want = { 0xc7, 0, 0, 0 }; w.c.data[24] = 0xc7; w.c.f( I, true ); w.c.enter( f ); w.run();
            m.check( w.get( "var_vu32", 4 ) == want, "write", [&]{ return mc::cat( "a byte written: ", text( w.get( "var_vu32", 4 ) ), w.when() ); } );
            for ( int k = 0; k < w.taken; ++k ) { Bytes s = w.get( "isr_seen", 4, 8 * k ); m.state( finger( s ) ); m.check( s == val[0] || s == want, "torn-write", [&]{ return mc::cat( "a byte written: the interrupt sees ", text( s ), w.when() ); } ); }
        }
        else                    // compare value A of timer 1, while the interrupt sets B through the same temporary byte
        {
            unsigned how = unsigned( m.choose( 3 ) ); unsigned v = m.pick( std::vector<unsigned>{ 3, 0x0ff, 0x100, 0x2a5, 0x3ff } ); background( w.c, 0 );
            w.prepare( 2, false, true, 0, { Bytes{ 0x5a, 0x01 }, Bytes{ 0xc3, 0x02 } } ); u32 f = w.im.at( how == 0 ? "pwm" : how == 1 ? "oc1a" : "rd_oc1a" );
            auto args = [&]{ w.c.pair( 24, u16( v ) ); w.c.data[OCR1AL_] = how == 2 ? u8( v ) : 0x77; w.c.data[OCR1AH_] = how == 2 ? u8( v >> 8 ) : 0x01; w.c.data[OCR1BL_] = 0x88; w.c.data[OCR1BH_] = 0x03; };
            args(); w.schedule( w.length( f ), w.handler() ); args(); w.c.f( I, true ); w.c.enter( f ); w.run();
            unsigned a = w.c.data[OCR1AL_] | w.c.data[OCR1AH_] << 8; unsigned b = w.c.data[OCR1BL_] | w.c.data[OCR1BH_] << 8; m.state( mc::mix( mc::mix( a, b ), f ) );
            m.check( a == v && (how < 2 || w.c.result16() == v), "compare-value", [&]{ return mc::cat( how == 2 ? "reading" : "writing", " compare value ", v, ": it is ", a, " result ", w.c.result16(), w.when() ); } );
            m.check( b == (w.taken == 0 ? 0x388u : w.taken == 1 ? 0x15au : 0x2c3u), "other-compare-value", [&]{ return mc::cat( "compare value B is ", b, w.when() ); } );
        }
    } ); } );
    mc::explore( "status register " + fw, 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        unsigned old = unsigned( m.choose( 256 ) ); int how = m.choose( 4 ); unsigned v = unsigned( m.choose( how == 1 ? 1 : 256 ) ); World w( m, fw );
        static char const * const name[] = { "sreg", "sreg_cli", "sreg_early", "sreg_nested" };
        w.c.data[24] = u8( v ); w.c.enter( w.im.at( name[how] ) ); w.c.sreg() = u8( old ); w.c.run(); m.step(); m.state( mc::mix( mc::mix( old, v ), mc::u64( how ) ) );
        m.check( w.c.sreg() == old, "status-register", [&]{ return mc::cat( name[how], ": status register ", hex( old ), " is ", hex( w.c.sreg() ), " after the scope that set it to ", hex( v ) ); } );
        if ( how == 3 ) m.check( w.c.result8() == v, "status-register", [&]{ return mc::cat( "inner scope restores ", hex( v ), " to ", hex( w.c.result8() ) ); } );
    } ); } );
}

MC_MAIN( accesses( "atomic" ); accesses( "atomic-s" ); accesses( "atomic-3" ); )
