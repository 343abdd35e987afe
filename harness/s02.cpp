// S02: LZW round trip and behaviour on damaged input
#include "cx.hpp"
using namespace vp;
static std::string press( std::string const& s ) { std::istringstream i( s ); std::ostringstream o; lzw::compress( i, o ); return o.str(); }
static std::string gen( Rng& r, int kind, size_t n )
{
    std::string s; s.reserve( n );
    switch ( kind )
    {
        case 0: for ( size_t i = 0; i < n; ++i ) s += char( r.next() ); break;
        case 1: s.assign( n, char( r.next() ) ); break;
        case 2: { int p = r.range( 1, 12 ); std::string u; for ( int i = 0; i < p; ++i ) u += char( r.next() ); while ( s.size() < n ) s += u; s.resize( n ); break; }
        case 3: { char a = r.next(), b = r.next(); for ( size_t i = 0; i < n; ++i ) s += r.flip() ? a : b; break; }
        case 4: { while ( s.size() < n ) s += sf( "%.9g ", r.real( -1, 1 ) ); s.resize( n ); break; }
        case 5: for ( size_t i = 0; i < n; ++i ) s += char( i ); break;
        default: { while ( s.size() < n ) { if ( s.size() > 10 && r.flip() ) { size_t b = r.below( s.size() ), l = r.range( 1, 40 ); s += s.substr( b, l ); } else s += char( r.next() ); } s.resize( n ); }
    }
    return s;
}
static char const* KN[] = { "random bytes", "one byte repeated", "periodic", "two letters", "decimal text", "counting bytes", "copies of earlier parts" };
static void trip( Ctx& c, int kind, size_t n )
{
    auto s = gen( c.rng, kind, n ); c.describe( sf( "%s, %zu bytes", KN[kind], s.size() ) ); auto z = press( s ); std::istringstream i( z ); std::ostringstream o; int rc = lzw::decompress( i, o ); c.require( rc == 0, "returned", sf( "%d", rc ) ); auto t = o.str(); c.require( t.size() == s.size(), "length", sf( "%zu bytes in, %zu out", s.size(), t.size() ) ); for ( size_t k = 0; k < s.size(); ++k ) if ( s[k] != t[k] ) c.fail( "content", sf( "first differs at %zu of %zu", k, s.size() ) ); ++c.checks;
    c.count( "bytes round-tripped", s.size() ); c.count( "compressed bytes", z.size() );
}
// sizes around the points where the code width grows (dictionary sizes 2^k) are drawn often
SCEN( "round-trip", 260, 12000 ) { auto& r = c.rng; int k = r.below( 7 ); size_t n = r.flip( 0.1 ) ? r.below( 4 ) : r.flip( 0.4 ) ? std::max<long>( 0, ( 1L << r.range( 8, 13 ) ) - 257 + r.range( -4, 4 ) ) : r.below( 20000 ); trip( c, k, n ); }
SCEN( "round-trip-every-short-string", 60, 60 ) { auto& r = c.rng; c.describe( "all strings over a small alphabet" ); char al[3] = { char( r.next() ), char( r.next() ), char( r.next() ) }; int len = c.kase % 7; long N = 1; for ( int i = 0; i < len; ++i ) N *= 3; for ( long x = 0; x < N; ++x ) { std::string s; long y = x; for ( int i = 0; i < len; ++i ) { s += al[y % 3]; y /= 3; } std::istringstream i( press( s ) ); std::ostringstream o; lzw::decompress( i, o ); c.require( o.str() == s, "short-string", sf( "length %d number %ld", len, x ) ); } c.count( "short strings", N ); }
// dictionary overflow: over a million entries are needed
SCEN( "round-trip-dictionary-overflow", 4, 60 ) { auto& r = c.rng; int k = c.kase % 4 == 0 ? 0 : c.kase % 4 == 1 ? 4 : c.kase % 4 == 2 ? 6 : 0; trip( c, k, k == 0 ? r.range( 2400000, 4800000 ) : k == 4 ? r.range( 6000000, 9000000 ) : 9000000 ); }
// strings so repetitive that single codes stand for thousands of bytes
SCEN( "round-trip-long-strings", 6, 80 ) { auto& r = c.rng; trip( c, c.kase % 2 ? 2 : 1, r.range( 6000000, c.kase % 3 ? 12000000 : 36000000 ) ); }
SCEN( "binary-file", 10, 200 ) { auto& r = c.rng; auto s = gen( r, r.below( 7 ), r.below( 5000 ) ); std::string f = tmp_dir() + sf( "/lzw.%d", getpid() ); c.describe( sf( "%zu bytes through files", s.size() ) ); { std::ofstream o{ f, std::ios::binary }; o << s; } { std::ifstream i{ f, std::ios::binary }; std::ofstream o{ f + ".z", std::ios::binary }; lzw::compress( i, o ); } { std::ifstream i{ f + ".z", std::ios::binary }; std::ofstream o{ f, std::ios::binary }; lzw::decompress( i, o ); } auto t = read_file( f ); unlink( f.c_str() ); unlink( ( f + ".z" ).c_str() ); c.require( t == s, "file-round-trip" ); }
static void damaged( Ctx& c, std::string const& z, std::string const& what, std::string const* original )
{
    c.describe( what ); auto d = isolated( [&]{ std::istringstream i( z ); std::ostringstream o; int rc = lzw::decompress( i, o ); if ( original && rc == 0 && o.str() != *original ) { std::cerr << "RETURNED other contents\n"; } }, 50 );
    c.require( !d.died || d.kind == "abort:assertion" || d.kind == "exception" || d.kind == "signal:6", "damaged-input:" + d.kind, what + ": " + d.text ); c.count( d.died ? "damage reported" : "damage decoded" );
}
SCEN( "damaged", 120, 6000 )
{
    auto& r = c.rng; auto s = gen( r, r.below( 7 ), r.flip() ? r.below( 40 ) : r.below( 3000 ) ); auto z = press( s ); std::string what = sf( "%zu compressed bytes, ", z.size() ); int w = r.below( 5 );
    if ( w == 0 ) { z.resize( r.below( z.size() + 1 ) ); what += sf( "cut to %zu", z.size() ); auto d = isolated( [&]{ std::istringstream i( z ); std::ostringstream o; lzw::decompress( i, o ); std::cerr << "RETURNED\n"; } ); (void)d; }
    else if ( w == 1 ) { for ( int k = r.range( 1, 3 ); k--; ) z[r.below( z.size() )] ^= 1 << r.below( 8 ); what += "bits flipped"; }
    else if ( w == 2 ) { for ( int k = r.range( 1, 30 ); k--; ) z[r.below( z.size() )] = r.next(); what += "bytes overwritten"; }
    else if ( w == 3 ) { size_t b = r.below( z.size() ), l = r.range( 1, 20 ); z.erase( b, l ); what += "bytes removed"; }
    else { z = gen( r, 0, r.below( 200 ) ); what = sf( "%zu random bytes", z.size() ); }
    damaged( c, z, what, nullptr );
}
SCEN( "truncated-is-reported", 60, 1500 ) { auto& r = c.rng; auto s = gen( r, r.below( 7 ), r.below( 3000 ) ); auto z = press( s ); size_t cut = r.below( z.size() > 2 ? z.size() - 2 : 1 ); z.resize( cut ); c.describe( sf( "cut to %zu bytes", cut ) ); auto d = isolated( [&]{ std::istringstream i( z ); std::ostringstream o; int rc = lzw::decompress( i, o ); if ( rc == 0 && o.str() == s ) return; if ( rc == 0 ) std::cerr << "SILENT\n"; _exit( rc == 0 ? 3 : 2 ); } ); c.require( d.kind != "exit:3", "truncation-accepted-silently" ); c.require( !d.died || d.kind == "exit:2" || d.kind == "abort:assertion" || d.kind == "exception", "truncated:" + d.kind, d.text ); c.count( "truncations reported", d.died ); }
// the first code of a well-formed stream is a single byte; codes naming the next entry while there is no previous string
SCEN( "damaged-first-codes", 60, 600 ) { auto& r = c.rng; int n = r.range( 1, 6 ); std::string z; unsigned long acc = 0; int b = 0; std::string what = "codes"; for ( int i = 0; i < n; ++i ) { unsigned k = r.pick( { 0u, 255u, 257u, 258u, 259u, 256u + unsigned( i ), 257u + unsigned( i ), 511u, unsigned( r.below( 512 ) ) } ); what += sf( " %u", k ); acc |= (unsigned long) k << b; b += 9; while ( b >= 8 ) { z += char( acc ); acc >>= 8; b -= 8; } } if ( b ) z += char( acc ); damaged( c, z, what, nullptr ); }
// damage near the point where the full dictionary is thrown away: the code before it must be a byte in a well-formed stream
SCEN( "damaged-at-dictionary-reset", 3, 60 )
{
    auto& r = c.rng; auto s = gen( r, 0, 2900000 ); auto z = press( s ); size_t bit = 9, dict = 257, last = 0; unsigned width = 9; while ( dict < ( 1u << 20 ) ) { while ( ( dict >> width ) ) ++width; last = bit; bit += width; ++dict; } // position of the codes that complete the dictionary
    auto set = [&]( size_t p, unsigned long v, unsigned w ) { for ( unsigned i = 0; i < w; ++i ) { size_t q = p + i; if ( q / 8 >= z.size() ) return; z[q / 8] = ( z[q / 8] & ~( 1 << ( q % 8 ) ) ) | ( ( ( v >> i ) & 1 ) << ( q % 8 ) ); } };
    unsigned long big = r.range( 300, 500000 ); set( last, big, 20 ); size_t p = last + 20; for ( int k = 0; k < 200; ++k, p += 9 ) set( p, k == 0 ? 65 : 257, 9 ); damaged( c, z, sf( "codes around the dictionary reset replaced by %lu", big ), nullptr );
}
