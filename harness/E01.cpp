// E01: the ADC to DAC example as a whole, on the device model: what its pins, PWM and converter do, whenever the interrupts strike.
#include "regs_common.hpp"

static char const * const FW = "example";
enum { TICK = 14, CONVERTED = 21 };                 // vector numbers: timer 0 compare match A, conversion complete
enum { F_CPU = 16000000 };

static int const top = 1023, half = 1023 / 2;
static int dac_of( int v ) { return v < 3 ? 3 : v; }     // value the 10-bit fast PWM accepts

struct Board
{
    Mega c; bool tick = false; std::uint64_t steps = 0; int led_changes = 0, pwm_changes = 0; bool led_was_off = false; std::vector<int> pwm_seen;
    explicit Board( Mega const & m ) : c( m ) {}
    bool led() const { return c.data[PORTB_] >> 5 & 1; }
    int pwm() const { return c.data[OCR1AL_] | c.data[OCR1AH_] << 8; }
    bool i() const { return c.data[a_sreg] >> avr::I & 1; }
    void watch() { led_changes = pwm_changes = 0; led_was_off = !led(); pwm_seen.clear(); }
    void convert( int v )           // a conversion finishes
    {
        c.adc_done( u16( v ) ); c.data[ADCSRA_] |= 0x10;
    }
    // one interrupt or one instruction
    void go()
    {
        bool l = led(); int p = pwm();
        if ( i() && !c.delay )
        {
            if ( tick && (c.data[TIMSK0_] & 2) ) { tick = false; c.interrupt( TICK ); return; }
            if ( (c.data[ADCSRA_] & 0x18) == 0x18 ) { c.data[ADCSRA_] &= u8( ~0x10 ); c.interrupt( CONVERTED ); return; }
        }
        c.step(); c.log.clear(); ++steps;
        if ( led() != l ) ++led_changes;
        if ( !led() ) led_was_off = true;
        if ( pwm() != p ) { ++pwm_changes; pwm_seen.push_back( pwm() ); }
    }
    void go( int n ) { while ( n-- > 0 ) go(); }
    void ms( int n, int spare = 300 ) { while ( n-- > 0 ) { tick = true; go( spare ); } }
};

static Board power_up( char const * fw = FW )
{
    Board b( device( fw ) );
    for ( int n = 0; !b.i(); ++n ) { b.go(); if ( n > 5000 ) throw Fault( "interrupts are never enabled" ); }
    return b;
}

// the board after so many ticks, with a result converted
static Board const & after( int ticks, int value )
{
    static std::map<std::pair<int, int>, Board> all; auto key = std::make_pair( ticks, value ); auto p = all.find( key );
    if ( p != all.end() ) return p->second;
    Board b = power_up();
    if ( ticks <= 1 ) { b.go( 300 ); b.convert( value ); b.go( 300 ); if ( ticks ) b.ms( 1 ); }
    else
    {
        int from = ticks - 100; while ( from > 0 && from % 100 == 0 ) --from;       // not in between the two reads of a hundredth
        if ( from < 0 ) from = 0;
        b = after( from <= 1 ? 0 : from, value ); b.ms( ticks - (from <= 1 ? 0 : from) );
    }
    return all.emplace( key, b ).first->second;
}

static void checks()
{
    mc::explore( "settings", 1, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        Board b = power_up(); u8 const * d = b.c.data; int what = m.choose( 12 ); m.state( mc::u64( what ) );
        auto is = [&]( char const * name, unsigned got, unsigned want ) { m.check( got == want, "setting", [&]{ return mc::cat( "after initialization, ", name, " is ", hex( got ), " instead of ", hex( want ) ); } ); };
        switch ( what )
        {
            case 0: is( "direction of PB5, PB1", d[DDRB_] & 0x22, 0x22 ); is( "other pins of port B", d[DDRB_] & 0xdd, 0 ); break;
            case 1: is( "ADMUX", d[ADMUX_], 0x40 ); break;
            case 2: is( "ADCSRA less the flag", d[ADCSRA_] & 0xef, 0xef ); break;
            case 3: is( "ADCSRB", d[ADCSRB_] & 0x47, 0 ); break;
            case 4: is( "waveform mode of timer 0", (d[TCCR0A_] & 3) | (d[TCCR0B_] & 8), 2 ); break;
            case 5:
            {
                static int const clock[8] = { 0, 1, 8, 64, 256, 1024, 0, 0 }; long div = clock[d[TCCR0B_] & 7];
                long period = div * (d[OCR0A_] + 1);
                m.check( period * 1000 == F_CPU, period == 16064 ? "tick-of-251-counts" : "tick", [&]{ return mc::cat( "the millisecond tick of timer 0 takes ", period, " clocks of ", long( F_CPU ) ); } ); break;
            }
            case 6: is( "timer 0 interrupts", d[TIMSK0_] & 7, 2 ); break;
            case 7: is( "outputs of timer 0", d[TCCR0A_] & 0xf0, 0 ); break;
            case 8: is( "waveform mode of timer 1", (d[TCCR1A_] & 3) | (d[TCCR1B_] & 0x18), 3 | 8 ); break;
            case 9: is( "outputs of timer 1", d[TCCR1A_] & 0xf0, 0x80 ); break;
            case 10: m.check( (d[TCCR1B_] & 7) >= 1 && (d[TCCR1B_] & 7) <= 5, "setting", [&]{ return std::string( "timer 1 has no clock" ); } ); is( "timer 1 interrupts", d[TIMSK1_] & 0x27, 0 ); break;
            case 11: is( "other directions", d[DDRC_] | d[DDRD_], 0 ); is( "power reduction", d[PRR_], 0 ); is( "other interrupts", d[TIMSK2_] | d[EIMSK_] | d[PCICR_] | (d[TWCR_] & 1), 0 ); break;
        }
        m.sample( [&]{ return mc::cat( "setting ", what ); } );
    } ); } );

    // the first 600 ms
    mc::explore( "blink", 1, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        int k = m.choose( 8 ); int phase = m.choose( 40 ); int conv = m.choose( 12 );      // interrupt of a conversion before instruction 5 * conv
        static int const ticks[8] = { 99, 195, 199, 299, 399, 499, 599, 58 }; int before = ticks[k]; bool toggles = before % 100 == 99;
        Board b = after( before, 512 ); m.step( before + 1 );
        b.go( phase ); bool was = b.led(); b.watch(); b.tick = true; b.go( 5 * conv ); b.convert( 3 ); b.go( 400 );
        auto what = [&]{ return mc::cat( "tick ", before + 1, " before instruction ", phase, ", conversion ", 5 * conv, " later" ); };
        int done = (before + 1) / 100;
        m.check( was == ((done - toggles) & 1), "blink", [&]{ return mc::cat( what(), ": led ", was, " before" ); } );
        m.check( b.led_changes == (toggles ? 1 : 0), "blink", [&]{ return mc::cat( what(), ": led changes ", b.led_changes, " times" ); } );
        m.check( b.pwm_changes == 0, "dac", [&]{ return mc::cat( what(), ": the pwm changes to ", b.pwm() ); } );
        b.watch(); b.ms( 3 ); m.check( b.led_changes == 0, "blink", [&]{ return mc::cat( what(), ": led changes within three ticks after" ); } );
        m.state( mc::mix( before, mc::mix( phase, conv ) ) ); m.sample( what );
    } ); } );

    // the smaller examples: the LED toggled each second; the LED on while the result is in the upper half
    mc::explore( "heartbeat", 1, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        int gap = 40 + m.choose( m.thorough ? 60 : 12 ); Board b = power_up( "example-blink" ); u8 const * d = b.c.data;
        static int const clock[8] = { 0, 1, 8, 64, 256, 1024, 0, 0 }; long period = long( clock[d[TCCR0B_] & 7] ) * (d[OCR0A_] + 1);
        m.check( period * 1000 == F_CPU, period == 16064 ? "tick-of-251-counts" : "tick", [&]{ return mc::cat( "heartbeat example: the millisecond tick of timer 0 takes ", period, " clocks of ", long( F_CPU ) ); } );
        m.check( ((d[TCCR0A_] & 3) | (d[TCCR0B_] & 8)) == 2 && (d[TIMSK0_] & 7) == 2 && (d[DDRB_] & 0x20), "setting", [&]{ return std::string( "heartbeat example: timer or pin is not set up" ); } );
        for ( int t = 1; t <= 4100; ++t )
        {
            b.watch(); b.ms( 1, gap ); m.step( gap ); m.state( mc::mix( mc::u64( t ), mc::mix( b.led(), gap ) ) );
            m.check( b.led_changes == (t % 1000 == 0), "blink", [&]{ return mc::cat( "heartbeat example, tick ", t, ": led changes ", b.led_changes, " times" ); } );
        }
        m.sample( [&]{ return mc::cat( "4100 ticks, ", gap, " instructions each" ); } );
    } ); } );
    mc::explore( "upper half", 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        static std::vector<int> const values = { 0, 3, 255, 256, 511, 516, 767, 768, 1020, 1023 };
        int v0 = m.pick( values ), v1 = m.pick( values ), at = m.choose( 60 ), gap = m.choose( 70 ); Board b = power_up( "example-adc" ); u8 const * d = b.c.data;
        m.check( d[ADMUX_] == 0x40 && (d[ADCSRA_] & 0xef) == 0xef && (d[ADCSRB_] & 0x47) == 0 && (d[DDRB_] & 0x20), "setting", [&]{ return mc::cat( "converter example: ADMUX ", hex( d[ADMUX_] ), ", ADCSRA ", hex( d[ADCSRA_] ), ", ADCSRB ", hex( d[ADCSRB_] ) ); } );
        b.convert( v0 ); b.go( 200 ); auto what = [&]{ return mc::cat( "converter example, result ", v0, ", then ", v1, " after ", at, " and again after ", gap, " instructions: led ", b.led(), ", changed ", b.led_changes, " times" ); };
        m.check( b.led() == (v0 > 512), "led", what );
        b.go( at ); b.watch(); b.convert( v1 ); b.go( gap ); b.convert( v1 ); b.go( 200 ); m.step( 400 + at + gap );
        m.check( b.led() == (v1 > 512), "led", what );
        m.check( b.led_changes == ((v0 > 512) != (v1 > 512)) , "led", what );
        m.state( mc::mix( mc::mix( v0, v1 ), mc::mix( at, mc::mix( gap, b.led() ) ) ) ); m.sample( what );
    } ); } );

    static std::vector<std::pair<int, int>> const pairs = { { 255, 256 }, { 256, 255 }, { 511, 512 }, { 512, 511 }, { 0, 1023 }, { 1023, 0 }, { 2, 3 }, { 3, 2 }, { 0x155, 0x2aa }, { 0x2aa, 0x155 }, { 767, 768 }, { 4, 1 } };

    // a tick of the continuous part, with conversions about it
    auto loop = [&]( mc::Ctx & m, bool second, bool two )
    {
        auto & p = m.pick( pairs ); int v0 = p.first, v1 = p.second, v2 = two ? 0x3ff ^ v0 : v1;
        static std::vector<int> const plain = { 699, 899, 1099, 1899, 640, 1409 }, full = { 999, 1999 };
        int before = m.pick( second ? full : plain ); bool hundred = before % 100 == 99;
        int phase = two ? m.choose( m.thorough ? 45 : 6 ) * (m.thorough ? 1 : 3) : m.choose( 45 ); int at = m.choose( two ? 40 : 130 ), gap = two ? m.choose( 45 ) : 0; if ( two ) at *= 4;
        Board b = after( before, v0 ); b.go( phase ); bool was = b.led(); int pwm = b.pwm(); b.watch(); b.tick = true;
        int last = v1; b.go( at ); b.convert( v1 ); if ( two ) { b.go( gap ); bool lost = b.c.adc_locked; b.convert( v2 ); if ( !lost ) last = v2; } b.go( 500 ); m.step( 600 );
        auto what = [&]{ return mc::cat( "tick ", before + 1, ", ", phase, " instructions into the loop, result ", v0, ", ", v1, " converted ", at, " later", two ? mc::cat( " and ", v2, " ", gap, " after that" ) : std::string() ); };
        auto ok = [&]( int got ) { return got == dac_of( v0 ) || got == dac_of( v1 ) || got == dac_of( v2 ); };
        bool all = v0 > half && v1 > half && v2 > half, none = v0 <= half && v1 <= half && v2 <= half;
        if ( second )
        {
            m.check( ok( b.pwm() ), "dac", [&]{ return mc::cat( what(), ": pwm value ", b.pwm() ); } );
            m.check( b.pwm_changes <= 1, "dac", [&]{ return mc::cat( what(), ": pwm value changes ", b.pwm_changes, " times, ", b.pwm_seen[0], " first" ); } );
            m.check( b.led_was_off, "led", [&]{ return mc::cat( what(), ": the led stays on" ); } );
            m.check( !none || !b.led(), "led", [&]{ return mc::cat( what(), ": the led is on after the second" ); } );
        }
        else
        {
            m.check( b.pwm_changes == 0 && b.pwm() == pwm, "dac", [&]{ return mc::cat( what(), ": pwm value ", b.pwm() ); } );
            if ( !hundred || none ) m.check( b.led() == was && b.led_changes == 0, "led", [&]{ return mc::cat( what(), ": the led changes" ); } );
            if ( hundred && all ) m.check( b.led(), "led", [&]{ return mc::cat( what(), ": the led is off" ); } );
            m.check( b.led_changes <= 1 && (b.led() || !was), "led", [&]{ return mc::cat( what(), ": the led goes off" ); } );
        }
        m.check( b.i(), "interrupts-off", [&]{ return mc::cat( what(), ": interrupts are disabled" ); } );
        int end = b.pwm();
        // the result is the last one converted from here on
        b.watch(); b.ms( 2 ); m.check( b.pwm_changes == 0 && b.led_changes == 0, "led", [&]{ return mc::cat( what(), ": led or pwm changes in the two ticks after" ); } );
        if ( two && second )
        {
            // the handler read the last result in one piece: an eleventh of a second shows it on the led only; run to the next second
            if ( gap % 5 == 0 && phase % 3 == 0 && at % 16 == 0 )
            {
                b.ms( 998, 120 ); m.step( 120000 );
                m.check( b.pwm() == dac_of( last ), "dac", [&]{ return mc::cat( what(), ": a second later, pwm value ", b.pwm() ); } );
            }
        }
        m.state( mc::mix( mc::mix( before, end ), mc::mix( b.led(), mc::mix( phase, mc::mix( at, gap ) ) ) ) ); m.sample( what );
    };
    mc::explore( "loop", 2, [&]( mc::Ctx & m ) { guarded( m, [&] { loop( m, m.choose( 2 ), false ); } ); } );
    mc::explore( "two conversions", 2, [&]( mc::Ctx & m ) { guarded( m, [&] { loop( m, m.choose( 2 ), true ); } ); } );

    // seconds on end: ticks and conversions at their own rates
    mc::explore( "seconds", 1, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        int tick = 231 + 13 * m.choose( 6 ), adc = 71 + 17 * m.choose( 12 ), start = m.choose( 3 ); int n = m.thorough ? 5400 : 2400;
        static int const step[3] = { 1, 37, 511 };
        Board b = power_up(); int v = 0; std::uint64_t t0 = b.steps, next_tick = t0 + tick, next_adc = t0 + adc; int t = 0; bool was = false; int pwm = b.pwm();
        std::vector<int> recent( 1, 0 ); int toggles = 0;
        auto what = [&]{ return mc::cat( "a tick in ", tick, " and a conversion in ", adc, " instructions, tick ", t ); };
        b.watch();
        for ( ;; )
        {
            if ( b.steps >= next_adc ) { next_adc += adc; v = (v + step[start]) & top; b.convert( v ); recent.push_back( v ); }
            if ( b.steps >= next_tick )
            {
                // what the tick before this one did
                auto some = [&]( auto f ) { for ( int r : recent ) if ( f( r ) ) return true; return false; };
                bool hundred = t > 0 && t % 100 == 0, second = t > 0 && t % 1000 == 0;
                if ( t <= 600 ) { toggles += b.led_changes; m.check( b.led_changes == hundred, "blink", [&]{ return mc::cat( what(), ": led changes ", b.led_changes, " times" ); } ); }
                else if ( hundred )
                {
                    bool high = some( []( int r ) { return r > half; } ), low = some( []( int r ) { return r <= half; } );
                    if ( second ) m.check( high || !b.led(), "led", [&]{ return mc::cat( what(), ": led on" ); } );
                    else m.check( b.led() ? high || was : low, "led", [&]{ return mc::cat( what(), ": led ", b.led(), ", result ", recent.back() ); } );
                }
                else m.check( b.led_changes == 0, "led", [&]{ return mc::cat( what(), ": led changes" ); } );
                if ( second ) m.check( some( [&]( int r ) { return b.pwm() == dac_of( r ); } ), "dac", [&]{ return mc::cat( what(), ": pwm value ", b.pwm(), ", result ", recent.back() ); } );
                else m.check( b.pwm_changes == 0 && b.pwm() == pwm, "dac", [&]{ return mc::cat( what(), ": pwm value ", b.pwm() ); } );
                m.state( mc::mix( mc::mix( t % 1000, b.pwm() ), mc::mix( b.led(), mc::mix( tick, adc ) ) ) );
                was = b.led(); pwm = b.pwm(); b.watch();
                if ( recent.size() > 2 ) recent.erase( recent.begin(), recent.end() - 2 );      // one may still be pending
                if ( ++t > n ) break;
                b.tick = true; next_tick += tick;
            }
            b.go();
        }
        m.step( int( b.steps ) );
        m.check( toggles == 6, "blink", [&]{ return mc::cat( toggles, " toggles" ); } );
        m.sample( what );
    } ); } );
}

MC_MAIN( checks(); )
