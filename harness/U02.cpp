// U02: lazily written fields joined by commas reach the register as one write: every combination x every register content x values.
#include "avrdev.hpp"
using namespace avr;

struct Field { int h, l; unsigned mask() const { return ((2u << h) - 1) & ~((1u << l) - 1); } unsigned n() const { return 1u << (h - l + 1); } };
struct Combo { std::string name; u32 addr; u8 reg; std::vector<Field> f; };

static std::vector<Combo> combos( std::string const & fw )
{
    std::vector<Combo> v;
    for ( auto & s : image( fw ).sym )
        if ( s.first.compare( 0, 3, "cb_" ) == 0 )
        {
            Combo c{ s.first, s.second, u8( strtol( s.first.substr( 3, 4 ).c_str(), nullptr, 16 ) ), {} };
            for ( size_t i = 7; i + 2 < s.first.size(); i += 3 ) c.f.push_back( { s.first[i + 1] - '0', s.first[i + 2] - '0' } );
            v.push_back( c );
        }
    return v;
}

// expected accesses of a statement list: the writes, in order, with the register contents they leave
static void judge( mc::Ctx & m, Mega & c, std::string const & n, std::vector<std::pair<u8, u8>> want, std::map<u8, u8> old )
{
    std::vector<std::pair<u8, u8>> got; bool stray = false;
    auto now = old;
    for ( auto & x : c.log )
    {
        if ( !now.count( x.address ) ) stray = true;
        if ( x.write ) { u8 v = u8( (now[x.address] & ~x.mask) | (x.value & x.mask) ); now[x.address] = v; got.push_back( { x.address, v } ); }
    }
    m.check( !stray, "other-register", [&]{ return n; } );
    m.check( got == want, got.size() == want.size() ? "value" : "writes", [&]{ std::string t = n + ":"; for ( auto & o : old ) { t += mc::cat( " ", hex( o.first ), "=", hex( o.second ) ); }
        t += " writes"; for ( auto & p : got ) { t += " " + hex( p.second ); } t += ", not"; for ( auto & p : want ) t += " " + hex( p.second ); return t; } );
}

static void run( std::string const & fw )
{
    auto const cs = combos( fw );
    mc::explore( "combined " + fw, 2, [&]( mc::Ctx & m ) { guarded( m, [&]
    {
        auto & k = m.pick( cs ); unsigned old = unsigned( m.choose( 256 ) ); Mega & c = device( fw );
        unsigned total = 1; for ( auto & f : k.f ) total *= f.n();
        for ( unsigned t = 0; t < total; ++t )
        {
            unsigned r = t; unsigned want = old; int at = 24; c.data[k.reg] = u8( old );
            c.enter( k.addr );
            for ( auto & f : k.f ) { unsigned v = r % f.n(); r /= f.n(); want = (want & ~f.mask()) | v << f.l; c.pair( at, u16( v ) ); at -= 2; }
            c.run(); m.step(); m.state( mc::mix( k.addr, want ) );
            judge( m, c, k.name, { { k.reg, u8( want ) } }, { { k.reg, u8( old ) } } );
        }
        m.sample( [&]{ return mc::cat( k.name, " from ", hex( old ), ", ", total, " value combinations" ); } );
    } ); } );
}

MC_MAIN(
    run( "combine-pairs" ); run( "combine-more" );
    mc::explore( "statements", 2, []( mc::Ctx & m ) { guarded( m, [&]
    {
        Mega & c = device( "combine-more" ); Image const & im = image( "combine-more" );
        unsigned old = unsigned( m.choose( 256 ) ); unsigned a = unsigned( m.choose( 4 ) ); unsigned b = unsigned( m.choose( 8 ) ); unsigned d = unsigned( m.choose( 4 ) );
        using W = std::vector<std::pair<u8, u8>>; u8 const A = 0x4a; u8 const B = 0x6d;
        auto go = [&]( char const * fn, unsigned x, unsigned y, unsigned z, W w, std::map<u8, u8> o ) { for ( auto & p : o ) c.data[p.first] = p.second; c.call( im.at( fn ), { x, y, z } ); m.step(); judge( m, c, fn, w, o ); };
        u8 w1 = u8( (old & 0x3f) | a << 6 ); u8 w2 = u8( (w1 & ~0x38) | b << 3 ); u8 o8 = u8( old );
        go( "gr", a, b, d, W{ { A, u8( (w2 & ~3) | d ) } }, { { A, o8 } } );
        go( "nm", a, b, 0, W{ { B, u8( b ) }, { A, w1 } }, { { A, o8 }, { B, u8( ~old ) } } );
        go( "dc", a, b, 0, W{ { A, u8( (old & ~0x38) | b << 3 ) } }, { { A, o8 } } );
        go( "sq", a, b, 0, W{ { A, w1 }, { A, w2 } }, { { A, o8 } } );
        go( "if_", a, b, 1, W{ { A, w2 } }, { { A, o8 } } ); go( "if_", a, b, 0, W{ { A, u8( (old & ~7) | a ) } }, { { A, o8 } } );
        m.state( mc::mix( mc::mix( old, a ), b * 4 + d ) );
    } ); } );
)
