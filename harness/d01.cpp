// D01: dataset loaders: well-formed files give exactly their contents, damaged ones are reported or yield only what the file holds
#include "cx.hpp"
#include <ceras.hpp>
#include <fstream>
#include <filesystem>
using namespace vp; using namespace ceras; namespace fs = std::filesystem;
using Bytes = std::vector<unsigned char>;
static char const* FN[4] = { "train-images-idx3-ubyte", "train-labels-idx1-ubyte", "t10k-images-idx3-ubyte", "t10k-labels-idx1-ubyte" };
struct Set { Bytes f[4]; bool missing[4] = { false, false, false, false }; };
static void be32( Bytes& b, unsigned v ) { for ( int k = 3; k >= 0; --k ) b.push_back( v >> ( 8 * k ) ); }
static Set make( Rng& r, size_t ntrain, size_t ntest )
{
    Set s; size_t n[2] = { ntrain, ntest };
    for ( int k = 0; k < 2; ++k )
    {
        auto& a = s.f[2*k]; be32( a, 2051 ); be32( a, n[k] ); be32( a, 28 ); be32( a, 28 ); int style = r.below( 4 ); for ( size_t i = 0; i < n[k] * 784; ++i ) a.push_back( style == 0 ? r.below( 256 ) : style == 1 ? 255 : style == 2 ? i % 251 : ( r.flip( 0.1 ) ? 26 : 10 ) );
        auto& l = s.f[2*k+1]; be32( l, 2049 ); be32( l, n[k] ); for ( size_t i = 0; i < n[k]; ++i ) l.push_back( r.flip( 0.1 ) ? ( r.flip() ? 9 : 0 ) : r.below( 10 ) );
    }
    return s;
}
static std::string put( Set const& s, std::string const& dir ) { fs::create_directories( dir ); for ( int i = 0; i < 4; ++i ) { auto p = dir + "/" + FN[i]; fs::remove( p ); if ( s.missing[i] ) continue; std::ofstream o( p, std::ios::binary ); o.write( (char const*) s.f[i].data(), s.f[i].size() ); } return dir; }
using Loaded = std::tuple<tensor<std::uint8_t>, tensor<std::uint8_t>, tensor<std::uint8_t>, tensor<std::uint8_t>>;
static Loaded load( bool fashion, std::string const& d ) { if ( fashion ) return dataset::fashion_mnist::load_data( d ); return dataset::mnist::load_data( d ); }
// the payload must be whole in a well-formed file; for a damaged one the tensors may hold only leading whole records of it
static void judge( Ctx& c, Loaded const& L, Set const& s, bool exact, std::string const& log )
{
    tensor<std::uint8_t> const* t[4] = { &std::get<0>( L ), &std::get<1>( L ), &std::get<2>( L ), &std::get<3>( L ) };
    for ( int i = 0; i < 4; ++i )
    {
        auto& f = s.f[i]; bool img = i % 2 == 0; size_t off = img ? 16 : 8, rec = img ? 784 : 1, have = f.size() >= off ? ( f.size() - off ) / rec : 0; auto sh = t[i]->shape(); std::string w = log + " " + FN[i];
        c.require( sh.size() == ( img ? 3 : 2 ) && ( img ? sh[1] == 28 && sh[2] == 28 : sh[1] == 10 ), "wrong-shape", w + " " + str( Shape( sh.begin(), sh.end() ) ) ); size_t n = sh[0]; if ( exact ) c.require( n == have, "wrong-number-of-samples", w + sf( " %zu for %zu", n, have ) ); else c.require( n <= have, "more-samples-than-the-file-holds", w + sf( " %zu for %zu", n, have ) ); c.require( t[i]->size() == n * ( img ? 784 : 10 ), "size-does-not-match-shape", w );
        auto p = t[i]->data(); c.checks += t[i]->size();
        if ( img ) { for ( size_t k = 0; k < n * 784; ++k ) if ( p[k] != f[16+k] ) c.fail( "pixel-differs", w + sf( " image %zu pixel %zu: %d instead of %d", k / 784, k % 784, p[k], f[16+k] ) ); }
        else for ( size_t k = 0; k < n; ++k ) for ( size_t q = 0; q < 10; ++q ) if ( p[k*10+q] != ( f[8+k] == q ) ) c.fail( "label-differs", w + sf( " sample %zu class %zu: %d for label %d", k, q, p[k*10+q], f[8+k] ) );
    }
}
static std::string newdir() { static int n = 0; return tmp_dir() + "/d01-" + std::to_string( getpid() ) + "-" + std::to_string( n++ ); }
SCEN( "well-formed", 60, 3000 )
{
    auto& r = c.rng; bool fashion = r.flip(); size_t a = r.flip( 0.15 ) ? r.range( 0, 1 ) : r.range( 1, 30 ), b = r.flip( 0.15 ) ? r.range( 0, 1 ) : r.range( 1, 12 ); auto s = make( r, a, b ); auto d = put( s, newdir() + ( r.flip( 0.3 ) ? "/a b/c.d" : "" ) ); std::string log = sf( "%s %zu+%zu", fashion ? "fashion_mnist" : "mnist", a, b ); c.describe( log ); auto L = load( fashion, d ); judge( c, L, s, true, log ); c.count( "images loaded", a + b );
    auto L2 = load( fashion, d ); judge( c, L2, s, true, log + " second load" ); judge( c, L, s, true, log + " first result after the second load" ); fs::remove_all( d );
}
// a labels file stands on its own: more labels than images, more than 65536 of them
SCEN( "well-formed/many-labels", 4, 40 )
{
    auto& r = c.rng; bool fashion = r.flip(); auto s = make( r, r.range( 1, 3 ), r.range( 1, 3 ) ); size_t n = r.pick( { 65535, 65536, 65537, 70001, 131073 } ); auto& l = s.f[r.flip() ? 1 : 3]; l.clear(); be32( l, 2049 ); be32( l, n ); for ( size_t i = 0; i < n; ++i ) l.push_back( r.below( 10 ) );
    auto d = put( s, newdir() ); std::string log = sf( "%s %zu labels", fashion ? "fashion_mnist" : "mnist", n ); c.describe( log ); auto L = load( fashion, d ); judge( c, L, s, true, log ); fs::remove_all( d ); c.count( "labels loaded", n );
}
// several directories, both loaders, files replaced between loads: each call answers for the files that are there when it is made
SCEN( "well-formed/histories", 40, 2000 )
{
    auto& r = c.rng; size_t nd = r.range( 2, 4 ); std::vector<std::string> dirs; std::vector<Set> sets; std::vector<std::tuple<Loaded, Set, std::string>> kept; for ( size_t i = 0; i < nd; ++i ) { sets.push_back( make( r, r.range( 0, 8 ), r.range( 0, 5 ) ) ); dirs.push_back( put( sets.back(), newdir() ) ); } std::string log;
    for ( int k = 0, n = r.range( 3, 9 ); k < n; ++k ) { size_t i = r.below( nd ); bool fashion = r.flip(); if ( r.flip( 0.3 ) ) { sets[i] = make( r, r.range( 0, 8 ), r.range( 0, 5 ) ); put( sets[i], dirs[i] ); log += sf( " rewrite %zu", i ); } log += sf( " load %zu %s", i, fashion ? "fashion" : "mnist" ); auto p = dirs[i]; if ( r.flip( 0.3 ) ) p += "/"; auto L = load( fashion, p ); judge( c, L, sets[i], true, log ); kept.emplace_back( L, sets[i], log ); c.count( "loads in histories" ); }
    c.describe( log ); for ( auto& [L, s, l] : kept ) judge( c, L, s, true, l + " (looked at again at the end)" ); for ( auto& d : dirs ) fs::remove_all( d );
}
SCEN( "damaged", 160, 6000 )
{
    auto& r = c.rng; bool fashion = r.flip(); auto s = make( r, r.range( 1, 6 ), r.range( 1, 4 ) ); std::string log = fashion ? "fashion_mnist" : "mnist"; bool must_report = false;
    for ( int k = r.flip( 0.8 ) ? 1 : 2; k--; )
    {
        int w = r.below( 4 ); auto& f = s.f[w]; size_t off = w % 2 ? 8 : 16; log += std::string( " " ) + FN[w];
        switch ( r.below( 7 ) )
        {
            case 0: f.resize( r.below( f.size() + 1 ) ); log += sf( " cut to %zu", f.size() ); break;
            case 1: f.resize( r.below( off + 2 ) ); log += sf( " cut to %zu", f.size() ); break;
            case 2: { int n = r.flip() ? r.range( 1, 40 ) : r.range( 700, 900 ); for ( int i = 0; i < n; ++i ) f.push_back( r.below( 256 ) ); log += sf( " %d bytes more", n ); break; }
            case 3: s.missing[w] = true; must_report = true; log += " missing"; break;
            case 4: { if ( w % 2 == 0 ) w = 1; auto& g = s.f[w]; if ( g.size() > 8 ) { size_t k = r.range( 8, (int) g.size() - 1 ); g[k] = r.range( 10, 255 ); log += sf( " label byte of %s set to %d", FN[w], g[k] ); } break; }
            case 5: for ( int i = r.range( 1, 8 ); i-- && !f.empty(); ) f[r.below( f.size() )] = r.below( 256 ); log += " bytes overwritten"; break;
            default: f.clear(); log += " emptied";
        }
    }
    c.describe( log ); auto d = put( s, newdir() ); bool done = false;
    auto death = isolated( [&]{ auto L = load( fashion, d ); judge( c, L, s, false, log ); } );
    fs::remove_all( d );
    if ( death.died && death.kind != "abort:assertion" && death.kind != "exception" ) c.fail( death.kind, log + " " + death.text ); c.require( !( must_report && !death.died ), "missing-file-not-reported", log ); c.count( death.died ? "damage reported" : "damage harmless" ); ++c.checks; (void) done;
}
SCEN( "missing-directory", 6, 20 )
{
    bool fashion = c.rng.flip(); c.describe( fashion ? "fashion_mnist" : "mnist" ); auto death = isolated( [&]{ load( fashion, tmp_dir() + "/no-such-directory" ); } ); c.require( death.died && death.kind == "abort:assertion", "missing-directory-not-reported", death.kind + " " + death.text );
}
