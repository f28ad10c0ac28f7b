// U06: the two-wire bus: initialization for every rate and prescaler, and the blocking write against a bus that answers
// every step with any status after any delay.
#include "regs_common.hpp"

enum Kind { START, STOP, BYTE, COLLISION, CUT, EARLY };
struct Event { Kind k; u8 v; bool operator==( Event const & o ) const { return k == o.k && v == o.v; } };

// the two-wire interface: a one written to TWINT starts an action, which completes with a status of the script after a number of readings of TWCR
struct Bus : Mega
{
    std::vector<Event> ev; std::vector<u8> status; std::vector<int> delay_; size_t at = 0; int left = -1;
    explicit Bus( Mega const & c ) : Mega( c ) {}
    u8 dev_read( u8 a ) override
    {
        if ( a == TWCR_ && left >= 0 && left-- == 0 )
        {
            data[TWCR_] |= 0x80;
            data[TWSR_] = u8( (data[TWSR_] & 3) | (at < status.size() ? status[at] : 0xf8) ); ++at;
        }
        return Mega::dev_read( a );
    }
    void go() { left = at < delay_.size() ? delay_[at] : 1; data[TWSR_] |= 0xf8; }
    void dev_write( u8 a, u8 v, u8 mask ) override
    {
        if ( a == TWDR_ && left >= 0 ) { ev.push_back( { COLLISION, v } ); return; }
        if ( a != TWCR_ ) { Mega::dev_write( a, v, mask ); return; }
        u8 w = u8( (data[a] & ~mask) | (v & mask) );
        bool act = v & mask & 0x80;
        if ( left >= 0 && !(w & 4) ) { ev.push_back( { CUT, 0 } ); left = -1; }
        data[a] = u8( (data[a] & 0x8a & ~(v & mask & 0x80)) | (w & 0x75) );
        if ( !act || !(w & 4) ) return;
        if ( left >= 0 ) ev.push_back( { EARLY, v } );
        if ( w & 0x20 ) { ev.push_back( { START, 0 } ); go(); }
        else if ( w & 0x10 ) { ev.push_back( { STOP, 0 } ); data[a] &= u8( ~0x10 ); data[TWSR_] |= 0xf8; left = -1; }
        else { ev.push_back( { BYTE, data[TWDR_] } ); go(); }
    }
};

static std::string text( std::vector<Event> const & e )
{
    std::string t;
    for ( auto & x : e ) t += x.k == START ? " start" : x.k == STOP ? " stop" : x.k == BYTE ? " " + hex( x.v ) : x.k == COLLISION ? " collision(" + hex( x.v ) + ")" : x.k == CUT ? " interface-off" : " start-before-end";
    return t;
}
static Image const & im() { return image( "twi" ); }

// what a write of `byte` must put on the bus when the steps end with these statuses; after a failing step, only a stop may follow
static void judge( mc::Ctx & m, std::vector<Event> const & ev, size_t from, size_t to, bool error, u8 address, u8 byte, u8 const * s, std::string const & what )
{
    static u8 const good[3] = { 0x08, 0x18, 0x28 };
    std::vector<Event> want{ { START, 0 } }; int fail = -1;
    for ( int k = 0; k < 3; ++k ) { if ( k == 1 ) want.push_back( { BYTE, address } ); if ( k == 2 ) want.push_back( { BYTE, byte } ); if ( s[k] != good[k] ) { fail = k; break; } }
    if ( fail < 0 ) want.push_back( { STOP, 0 } );
    std::vector<Event> got( ev.begin() + from, ev.begin() + to );
    if ( fail >= 0 && !got.empty() && got.back().k == STOP && want.back().k != STOP ) got.pop_back();
    m.check( got == want, "bus", [&]{ return mc::cat( what, ": bus carries", text( got ), ", not", text( want ) ); } );
    m.check( error == (fail >= 0), "result", [&]{ return mc::cat( what, ": reports ", error ? "an error" : "success" ); } );
}
static std::string name( u8 address, u8 byte, std::vector<u8> const & s ) { std::string t = mc::cat( "write ", hex( byte ), " to ", hex( address ), ", statuses" ); for ( auto x : s ) t += " " + hex( x ); return t; }

static void write( mc::Ctx & m, u8 address, u8 byte, std::vector<u8> s, std::vector<int> d, u8 twcr, u8 twsr, int bg )
{
    Bus b( device( "twi" ) ); background( b, bg ); b.data[TWCR_] = twcr; b.data[TWSR_] = u8( (twsr & 3) | 0xf8 ); b.status = s; b.delay_ = d; File f = file( b );
    b.enter( im().at( "tw_write" ) ); b.data[24] = address; b.data[22] = byte; b.run( 4000000 ); m.step();
    mc::u64 h = b.result8(); for ( auto & e : b.ev ) h = mc::mix( h, mc::mix( e.k, e.v ) ); m.state( h );
    std::string what = name( address, byte, s );
    judge( m, b.ev, 0, b.ev.size(), b.result8() & 1, address, byte, s.data(), what );
    for ( unsigned a = 0x20; a < 0x100; ++a )
        if ( !Cpu::plain( u16( a ) ) && a != TWCR_ && a != TWSR_ && a != TWDR_ )
            m.check( b.data[a] == f.v[a], "elsewhere", [&]{ return mc::cat( what, ": register ", hex( a ), " becomes ", hex( b.data[a] ) ); } );
    m.check( (b.data[TWSR_] & 3) == (twsr & 3), "prescaler", [&]{ return what; } );
    m.check( b.data[TWCR_] & 4, "interface-off", [&]{ return what; } );
    m.sample( [&]{ return mc::cat( what, ":", text( b.ev ) ); } );
}

MC_MAIN(
    mc::explore( "every address and byte", 1, []( mc::Ctx & m ) { guarded( m, [&]
    {
        unsigned address = unsigned( m.choose( 256 ) ); unsigned byte = unsigned( m.choose( 256 ) ); int fail = m.choose( 4 );
        u8 s[3] = { 0x08, 0x18, 0x28 }; if ( fail < 3 ) s[fail] = fail == 0 ? 0x10 : fail == 1 ? 0x20 : 0x30;
        write( m, u8( address ), u8( byte ), { s[0], s[1], s[2] }, { 1, 0, 2 }, 0x04, 0, 0 );
    } ); } );
    mc::explore( "every answer", 3, []( mc::Ctx & m ) { guarded( m, [&]
    {
        std::vector<u8> s; for ( int k = 0; k < 3; ++k ) s.push_back( u8( m.choose( 32 ) * 8 ) ); int ps = m.choose( 4 ); int bg = m.choose( m.thorough ? 3 : 2 );
        if ( s[0] != 0x08 && s[1] != 0x18 && !m.thorough ) throw mc::Prune{};
        write( m, 0x46, 0x9d, s, { 0, 1, 0 }, u8( bg ? 0x04 : 0x00 ), u8( ps ), bg );
    } ); } );
    mc::explore( "every delay", 3, []( mc::Ctx & m ) { guarded( m, [&]
    {   // from every earlier content of the control register, in particular with its flag still set
        static int const delays[] = { 0, 1, 2, 3, 7, 300 };
        std::vector<int> d; for ( int k = 0; k < 3; ++k ) d.push_back( delays[m.choose( 6 )] ); int cr = m.choose( 64 ); int fail = m.choose( 7 );
        u8 s[3] = { 0x08, 0x18, 0x28 }; if ( fail < 6 ) s[fail / 2] = fail % 2 ? 0x38 : 0x00;
        u8 twcr = u8( (cr & 32) << 2 | (cr & 31) << 2 ); if ( twcr & 0x10 ) twcr = u8( twcr & ~0x10 );
        write( m, 0x7a, 0x51, { s[0], s[1], s[2] }, d, twcr, 2, 0 );
    } ); } );
    mc::explore( "very long steps", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {   // longer than an 8-bit and a 16-bit count of readings
        int slow = m.choose( 3 ); int d = m.choose( 2 ) ? 66000 : 1000; int fail = m.choose( 4 ); std::vector<int> delays( 3, 1 ); delays[slow] = d;
        u8 s[3] = { 0x08, 0x18, 0x28 }; if ( fail < 3 ) s[fail] = 0x38;
        write( m, 0x64, 0xa7, { s[0], s[1], s[2] }, delays, 4, 1, 1 );
    } ); } );
    mc::explore( "writes in a row", 3, []( mc::Ctx & m ) { guarded( m, [&]
    {
        u8 s[6]; for ( int k = 0; k < 6; ++k ) s[k] = u8( std::vector<u8>{ u8( 0x08 + 0x10 * (k % 3) ), 0x38, u8( 0x10 * (k % 3 + 1) ) }[ m.choose( 3 ) ] );
        int const d = m.choose( 3 ); u8 good[3] = { 0x08, 0x18, 0x28 };
        Bus b( device( "twi" ) ); background( b, 1 ); b.data[TWCR_] = 4; b.data[TWSR_] = 0xf9; b.delay_ = std::vector<int>( 6, d );
        int fail = 0; while ( fail < 3 && s[fail] == good[fail] ) ++fail;           // the second write's answers follow the first's used ones
        int used = fail < 3 ? fail + 1 : 3; for ( int k = 0; k < used; ++k ) b.status.push_back( s[k] ); for ( int k = 3; k < 6; ++k ) b.status.push_back( s[k] );
        b.enter( im().at( "tw_write2" ) ); b.data[24] = 0x22; b.data[22] = 0xab; b.data[20] = 0x54; b.run( 200000 ); m.step();
        size_t cut = 1; while ( cut < b.ev.size() && b.ev[cut].k != START ) ++cut;
        mc::u64 h = b.result8(); for ( auto & e : b.ev ) h = mc::mix( h, mc::mix( e.k, e.v ) ); m.state( h );
        m.check( !b.ev.empty(), "bus", [&]{ return std::string( "nothing on the bus" ); } ); if ( b.ev.empty() ) return;
        judge( m, b.ev, 0, cut, b.result8() & 1, 0x22, 0xab, s, "first of two writes" );
        judge( m, b.ev, cut, b.ev.size(), b.result8() & 2, 0x22, 0x54, s + 3, "second of two writes" );
    } ); } );
    mc::explore( "initialization", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {   // rate, prescaler and pull-ups as asked for, interface on, nothing on the bus, no other register or bit touched
        int how = m.choose( 7 ); unsigned rate = unsigned( m.choose( 256 ) ); int ps = m.choose( 4 ); unsigned port = unsigned( m.choose( 16 ) ); int bg = m.choose( 3 );
        if ( (how != 2 && ps) || (how == 0 && rate) ) return;
        static char const * const fn[] = { "tw_init_default", "tw_init_rate", "tw_init", "tw_init_x1", "tw_init_x4", "tw_init_x16", "tw_init_x64" };
        Bus b( device( "twi" ) ); background( b, bg ); u8 was = u8( b.data[PORTC_] = u8( (port & 3) << 4 | (port & 4 ? 0x4e : 0) | (port & 8 ? 0x01 : 0) ) );
        b.data[TWCR_] = u8( bg == 1 ? 0x44 : 0 ); File f = file( b );
        b.enter( im().at( fn[how] ) ); b.data[24] = u8( rate ); b.data[22] = u8( ps ); b.run(); m.step();
        unsigned r = how == 0 ? 12 : rate; unsigned p = unsigned( how == 2 ? ps : how < 2 ? 0 : how - 3 );
        std::string what = mc::cat( fn[how], " rate ", rate, " prescaler ", ps, " with port C ", hex( was ) ); m.state( mc::mix( mc::mix( r, p ), b.data[PORTC_] ) );
        m.check( b.data[TWBR_] == r, "rate", [&]{ return mc::cat( what, ": TWBR is ", +b.data[TWBR_] ); } );
        m.check( (b.data[TWSR_] & 3) == p, "prescaler", [&]{ return mc::cat( what, ": prescaler bits are ", b.data[TWSR_] & 3 ); } );
        m.check( b.data[PORTC_] == (was | 0x30), "pull-ups", [&]{ return mc::cat( what, ": port C is ", hex( b.data[PORTC_] ) ); } );
        m.check( b.data[TWCR_] & 4, "interface-off", [&]{ return what; } );
        m.check( b.ev.empty(), "bus", [&]{ return mc::cat( what, ": bus carries", text( b.ev ) ); } );
        for ( unsigned a = 0x20; a < 0x100; ++a )
            if ( !Cpu::plain( u16( a ) ) && a != TWCR_ && a != TWSR_ && a != TWBR_ && a != PORTC_ )
                m.check( b.data[a] == f.v[a], "elsewhere", [&]{ return mc::cat( what, ": register ", hex( a ), " becomes ", hex( b.data[a] ) ); } );
    } ); } );
)
