// I01: images: lossless write/read round trips, lossy ones within tolerance, scaling of non-byte images, resizing against the two documented filters
#include "cx.hpp"
#include <ceras.hpp>
#include <utils/imageio.hpp>
#include <filesystem>
#include <fstream>
using namespace vp; using namespace ceras; namespace fs = std::filesystem; using U8 = tensor<unsigned char>;
static std::string scratch() { auto d = tmp_dir() + "/i01-" + std::to_string( getpid() ); fs::create_directories( d ); return d; }
static U8 image( Rng& r, std::vector<unsigned long> const& s, int style )
{
    U8 a{ s }; size_t ch = s.size() == 3 ? s[2] : 1, n = a.size(); int base = r.below( 256 );
    for ( size_t i = 0; i < n; ++i ) a.data()[i] = style == 0 ? r.below( 256 ) : style == 1 ? base : style == 2 ? ( i / ch ) * 3 + i % ch * 40 : style == 3 ? ( r.flip( 0.05 ) ? r.below( 256 ) : ( i ? a.data()[i-1] : 0 ) ) : ( r.flip() ? 255 : 0 );
    return a;
}
static std::string dims( std::vector<unsigned long> const& s ) { return str( Shape( s.begin(), s.end() ) ); }
// compares an image read back with the original; `want` channels in the file
static void compare( Ctx& c, U8 const& got, U8 const& org, size_t want, bool alpha, int tol, std::string const& log )
{
    auto o = org.shape(); size_t w = o[0], h = o[1], ch = o.size() == 3 ? o[2] : 1; auto g = got.shape(); c.require( g.size() == 3 && g[0] == w && g[1] == h && g[2] == want, "wrong-shape", log + " read back " + dims( g ) + " written " + dims( o ) ); c.checks += w * h * want;
    for ( size_t i = 0; i < w * h; ++i ) for ( size_t q = 0; q < want; ++q ) { if ( q == 3 && !alpha ) continue; int a = got.data()[i*want+q], b = org.data()[i*ch+( ch == 1 ? 0 : q )]; if ( std::abs( a - b ) > tol ) c.fail( "pixel-differs", log + sf( " pixel (row %zu, column %zu) channel %zu: %d instead of %d", i / w, i % w, q, a, b ) ); }
}
SCEN( "write-and-read", 240, 8000 )
{
    auto& r = c.rng; static char const* EXT[] = { ".png", ".bmp", ".tga", ".jpg", ".jpeg", ".hdr", "", "/in.dir/plain", ".xyz", ".PNG" }; int e = r.below( 10 ); size_t CH[] = { 1, 3, 4 }; size_t ch = CH[r.below( 3 )]; bool flat = ch == 1 && r.flip(); std::vector<unsigned long> s{ (unsigned long) r.range( 1, r.flip( 0.2 ) ? 150 : 24 ), (unsigned long) r.range( 1, 24 ) }; if ( !flat ) s.push_back( ch );
    int style = r.below( 5 ); bool smooth = e >= 3 && e <= 4; if ( smooth ) style = 1; auto img = image( r, s, style ); std::string ext = EXT[e]; if ( ext == ".bmp" && ch == 4 ) for ( size_t i = 3; i < img.size(); i += 4 ) img.data()[i] = 255;
    std::string d = scratch(), p = d + "/image" + ext, q = p; if ( ext == "/in.dir/plain" ) { fs::create_directories( d + "/in.dir" ); p = d + "/in.dir/plain"; q = p + ".png"; } else if ( ext == "" || ext == ".xyz" || ext == ".PNG" ) q = p + ".png"; std::string log = sf( "%s%s style %d", ext.c_str(), dims( s ).c_str(), style ); c.describe( log ); auto before = img.deep_copy();
    c.require( imageio::imwrite( p, img ), "write-failed", log ); c.require( !std::memcmp( before.data(), img.data(), img.size() ), "writing-changed-the-image", log ); c.require( fs::exists( q ), "file-not-written", log + " " + q ); size_t files = 0; for ( auto& x : fs::recursive_directory_iterator( d ) ) files += x.is_regular_file(); c.require( files == 1, "other-files-written", log );
    auto back = imageio::imread( q ); size_t want = ch; bool alpha = true; int tol = 0; if ( ext == ".bmp" ) want = 3; if ( e == 3 || e == 4 ) { want = 3; tol = 6; } if ( ext == ".hdr" ) { want = 3; tol = 2; if ( ch != 1 ) tol = 40; }
    compare( c, back, img, want, alpha, tol, log ); fs::remove_all( d ); c.count( "pixels read back", img.size() );
}
SCEN( "relative-path", 12, 100 )
{
    auto& r = c.rng; auto d = scratch(); fs::current_path( d ); std::string name = r.flip() ? "plain" : r.flip() ? "./plain" : "plain.png", file = name == "plain.png" ? name : "plain.png"; auto img = image( r, { 5, 4, 3 }, 0 ); c.describe( name ); bool ok = imageio::imwrite( name, img ); c.require( ok && fs::exists( file ), "file-not-written", name ); auto b = imageio::imread( file ); compare( c, b, img, 3, true, 0, name ); fs::current_path( tmp_dir() ); fs::remove_all( d );
}
template< typename T > void scaled( Ctx& c, char const* what )
{
    auto& r = c.rng; size_t CH[] = { 1, 3, 4 }; size_t ch = CH[r.below( 3 )]; std::vector<unsigned long> s{ (unsigned long) r.range( 1, 20 ), (unsigned long) r.range( 1, 20 ) }; if ( ch > 1 || r.flip() ) s.push_back( ch ); tensor<T> t{ s }; double lo = std::is_unsigned_v<T> ? 0 : r.real( -100, 50 ), hi = lo + r.real( 1, 300 ); for ( size_t i = 0; i < t.size(); ++i ) t.data()[i] = static_cast<T>( r.real( lo, hi ) ); if ( r.flip( 0.1 ) ) for ( size_t i = 0; i < t.size(); ++i ) t.data()[i] = T( 3 );
    double mn = 1e300, mx = -1e300; for ( size_t i = 0; i < t.size(); ++i ) { mn = std::min<double>( mn, t.data()[i] ); mx = std::max<double>( mx, t.data()[i] ); } auto d = scratch(); std::string log = std::string( what ) + dims( s ); c.describe( log ); c.require( imageio::imwrite( d + "/a.png", t ), "write-failed", log ); auto b = imageio::imread( d + "/a.png" ); fs::remove_all( d ); auto g = b.shape(); c.require( g.size() == 3 && g[0] == s[0] && g[1] == s[1] && g[2] == ch, "wrong-shape", log + dims( g ) );
    for ( size_t i = 0; i < t.size(); ++i ) { double w = 255.0 * ( t.data()[i] - mn ) / ( mx - mn + 1e-10 ); int v = b.data()[i]; ++c.checks; if ( v > w + 1e-2 || v < w - 1.01 ) c.fail( "scaled-pixel-differs", log + sf( " element %zu: %d instead of %g", i, v, w ) ); } c.count( "pixels scaled", t.size() );
}
SCEN( "write-other-types", 60, 2000 ) { switch ( c.rng.below( 4 ) ) { case 0: scaled<float>( c, "float" ); break; case 1: scaled<double>( c, "double" ); break; case 2: scaled<int>( c, "int" ); break; default: scaled<unsigned short>( c, "unsigned short" ); } }
SCEN( "unreadable", 80, 3000 )
{
    auto& r = c.rng; auto d = scratch(); int w = r.below( 5 ); std::string log; std::string p = d + "/a.png";
    if ( w == 0 ) { log = "missing"; } else if ( w == 1 ) { std::ofstream( p ).flush(); log = "empty"; } else if ( w == 2 ) { std::ofstream o( p, std::ios::binary ); for ( int i = r.range( 1, 400 ); i--; ) o.put( 'a' + r.below( 20 ) ); log = "not an image"; }
    else { static char const* EXT[] = { ".png", ".bmp", ".tga" }; std::string e = EXT[r.below( 2 )]; p = d + "/a" + e; auto img = image( r, { (unsigned long) r.range( 2, 30 ), (unsigned long) r.range( 2, 30 ), r.flip() ? 3ul : 1ul }, r.below( 5 ) ); imageio::imwrite( p, img ); auto n = fs::file_size( p ); auto k = r.below( w == 3 ? n / 2 : std::min<u64>( n, 40 ) ); fs::resize_file( p, k ); log = sf( "%s cut to %zu of %zu", e.c_str(), (size_t) k, (size_t) n ); if ( e == ".bmp" && k >= 18 ) log += " (pixels)" /* the decoder takes missing bytes of the header for zeros */; }
    c.describe( log ); auto dead = isolated( [&]{ imageio::imread( p ); } ); c.require( !dead.died || dead.kind == "abort:assertion", "damaged-image", log + " " + dead.kind + " " + dead.text ); c.count( dead.died ? "damage stopped" : "damage survived" ); if ( dead.died ) { fs::remove_all( d ); return; } auto got = imageio::imread( p ); if ( log.find( "(pixels)" ) == std::string::npos ) c.require( got.size() == 0, "damaged-image-accepted", log + dims( got.shape() ) ); else { ++c.checks; size_t n = 1; for ( auto q : got.shape() ) n *= q; c.require( got.size() == 0 || got.size() == n, "size-does-not-match-shape", log ); } c.require( !imageio::imwrite( d + "/no/such/dir/a.png", image( r, { 3, 3, 3 }, 0 ) ), "unwritable-path-not-reported", log ); fs::remove_all( d );
}
// one axis of the resizing: Catmull-Rom when enlarging, Mitchell (stretched) otherwise, edge pixels repeated, weights normalised
static std::vector<std::vector<double>> weights( size_t in, size_t out )
{
    double s = double( out ) / in; std::vector<std::vector<double>> W( out, std::vector<double>( in, 0 ) ); auto cat = []( double x ) { x = std::fabs( x ); return x < 1 ? 1 - x * x * ( 2.5 - 1.5 * x ) : x < 2 ? 2 - x * ( 4 + x * ( 0.5 * x - 2.5 ) ) : 0.0; }; auto mit = []( double x ) { x = std::fabs( x ); return x < 1 ? ( 16 + x * x * ( 21 * x - 36 ) ) / 18 : x < 2 ? ( 32 + x * ( -60 + x * ( 36 - 7 * x ) ) ) / 18 : 0.0; };
    for ( size_t o = 0; o < out; ++o ) { double tot = 0; long reach = long( 2 / std::min( s, 1.0 ) ) + 3, mid = long( ( o + 0.5 ) / s ); for ( long i = mid - reach; i <= mid + reach; ++i ) { double k = s > 1 ? cat( ( o + 0.5 ) / s - ( i + 0.5 ) ) : mit( ( o + 0.5 ) - ( i + 0.5 ) * s ); tot += k; W[o][std::clamp<long>( i, 0, in - 1 )] += k; } for ( auto& w : W[o] ) w /= tot; }
    return W;
}
SCEN( "resize", 160, 5000 )
{
    auto& r = c.rng; bool flat = r.flip( 0.4 ); size_t ch = flat ? 1 : r.range( 1, 4 ); std::vector<unsigned long> s{ (unsigned long) r.range( 1, 20 ), (unsigned long) r.range( 1, 20 ) }, t{ (unsigned long) r.range( 1, 30 ), (unsigned long) r.range( 1, 30 ) }; if ( r.flip( 0.1 ) ) t = s; if ( !flat ) { s.push_back( ch ); t.push_back( ch ); } int style = r.below( 5 ); auto img = image( r, s, style ); std::string log = dims( s ) + " to " + dims( t ) + sf( " style %d", style ); c.describe( log ); auto before = img.deep_copy();
    auto out = imageio::imresize( img, t ); c.require( out.shape() == t, "wrong-shape", log + dims( out.shape() ) ); c.require( !std::memcmp( before.data(), img.data(), img.size() ), "resizing-changed-the-image", log );
    size_t w = s[0], h = s[1], W = t[0], H = t[1]; auto cx = weights( w, W ), cy = weights( h, H );
    for ( size_t y = 0; y < H; ++y ) for ( size_t x = 0; x < W; ++x ) for ( size_t q = 0; q < ch; ++q )
    {
        double v = 0; for ( size_t i = 0; i < h; ++i ) if ( cy[y][i] != 0 ) for ( size_t j = 0; j < w; ++j ) v += cy[y][i] * cx[x][j] * img.data()[( i * w + j ) * ch + q]; v = std::clamp( v, 0.0, 255.0 ); int g = out.data()[( y * W + x ) * ch + q]; ++c.checks; if ( std::fabs( g - v ) > ( style == 1 ? 0.6 : 1.5 ) ) c.fail( "resized-pixel-differs", log + sf( " row %zu column %zu channel %zu: %d instead of %.2f", y, x, q, g, v ) );
    }
    c.count( "pixels resized", out.size() );
}
SCEN( "resize-misuse", 16, 200 )
{
    auto& r = c.rng; bool in3 = r.flip(); auto img = in3 ? image( r, { 4, 5, 3 }, 0 ) : image( r, { 4, 5 }, 0 ); std::vector<unsigned long> t; if ( in3 ) t = r.flip() ? std::vector<unsigned long>{ 3, 3 } : std::vector<unsigned long>{ 3, 3, 4 }; else t = { 3, 3, 3 }; std::string log = dims( img.shape() ) + " to " + dims( t ); c.describe( log ); auto d = isolated( [&]{ auto o = imageio::imresize( img, t ); } ); c.require( d.died && ( d.kind == "abort:assertion" || d.kind == "exception" ), "misuse-not-stopped", log + " " + d.kind + " " + d.text );
}
