// S01: saving a session and restoring it, in the same process (after the variables were disturbed) and in another process that builds the same model.
#include "cx.hpp"
using namespace vp; using namespace ceras;
template< typename T > T wild( Rng& r )
{
    using L = std::numeric_limits<T>; switch ( r.below( 8 ) ) { case 0: return r.pick( { T( 0 ), -T( 0 ), L::max(), -L::max(), L::min(), L::lowest(), T( 1 ) / T( 3 ), T( 0.1 ), L::epsilon() } );
        case 1: case 2: case 3: { for ( ;; ) { T v; if constexpr ( sizeof( T ) == 4 ) { uint32_t b = r.next(); std::memcpy( &v, &b, 4 ); } else { u64 b = r.next(); std::memcpy( &v, &b, 8 ); } if ( std::isfinite( v ) && ( v == 0 || std::abs( v ) >= L::min() ) ) return v; } }
        case 4: return std::nextafter( T( r.range( -100, 100 ) ), T( 1000 ) ); default: return static_cast<T>( r.real( -2, 2 ) ); }
}
template< typename T > bool bits( std::vector<T> const& a, std::vector<T> const& b ) { return a.size() == b.size() && ( a.empty() || !std::memcmp( a.data(), b.data(), a.size() * sizeof( T ) ) ); }
static std::string one_file() { return tmp_dir() + sf( "/session.%d", getpid() ); }
static bool exists( std::string const& f ) { struct stat s; return ::stat( f.c_str(), &s ) == 0; }
template< typename T > void trip( Ctx& c )
{
    auto& r = c.rng; wipe<T>(); auto& s = sess<T>(); int n = r.range( 0, 7 ); std::vector<Var<T>> v; std::vector<ceras::tensor<T>> t; std::vector<std::vector<T>> want; std::vector<Shape> shp; bool plain = r.flip( 0.4 ); std::string d = plain ? "plain:" : "compressed:";
    bool large = r.flip( 0.02 ), alike = r.flip( 0.3 ); Shape common = rshape( r, 1, 3, 4, 40 ); for ( int i = 0; i < n; ++i ) { if ( r.flip( 0.2 ) ) { for ( int k = r.range( 1, 9 ); k--; ) generate_uid(); } Shape sh = large ? Shape{ (size_t) r.range( 200, 500 ), (size_t) r.range( 50, 100 ) } : alike ? common : rshape( r, 1, 4, 6, 200 ); ceras::tensor<T> x{ sh }; for ( size_t k = 0; k < x.size(); ++k ) x[k] = wild<T>( r ); v.emplace_back( x, T( 0 ), T( 0 ), r.flip( 0.8 ) ); want.push_back( raw( x ) ); shp.push_back( sh ); d += " " + str( sh ); }
    c.describe( d ); std::string f = one_file(); auto twin = v; std::vector<bool> tr; for ( auto& a : v ) tr.push_back( a.trainable() );
    if ( r.flip( 0.2 ) ) { std::ofstream o{ f }; for ( int i = 0; i < 5000; ++i ) o << "left over from an earlier, longer file "; } // saving over an existing file
    int times = r.range( 1, 2 ); for ( int i = 0; i < times; ++i ) { if ( plain ) s.save_original( f ); else r.flip() ? s.save( f ) : s.serialize( f ); }
    if ( r.flip( 0.15 ) ) s.variables_.rehash( r.below( 200 ) );
    auto check = [&]( char const* k ) { for ( int i = 0; i < n; ++i ) { auto const& a = std::as_const( twin[i] ); c.require( a.data().shape() == shp[i], std::string( k ) + ":shape", sf( "variable %d has shape ", i ) + str( a.data().shape() ) ); auto b = raw( a.data() ); for ( size_t q = 0; q < b.size(); ++q ) { ++c.checks; if ( std::memcmp( &b[q], &want[i][q], sizeof( T ) ) ) c.fail( std::string( k ) + ":value", sf( "variable %d element %zu was %.20g is %.20g", i, q, (double) want[i][q], (double) b[q] ) ); } c.require( a.trainable() == tr[i], std::string( k ) + ":trainable", sf( "variable %d", i ) ); } };
    check( "saving-changed-variable" ); c.require( !exists( f + ".tmp" ), "temporary-file-left", "after save" ); c.require( s.variables_.size() == (size_t) n, "saving-changed-session" );
    for ( int round = r.range( 1, 3 ); round--; )
    {
        std::vector<int> touched; for ( int i = 0; i < n; ++i ) switch ( r.below( 4 ) ) { case 0: for ( auto& x : v[i].data() ) x = static_cast<T>( r.real( -9, 9 ) ); break; case 1: v[i].data() = ceras::tensor<T>{ rshape( r, 1, 3 ), T( 7 ) }; break; case 2: v[i].data() = ceras::tensor<T>{}; break; default: break; }
        // variables created after the save are not in the file and stay as they are
        Var<T> other{ tens<T>( rnd( r, { 3, 2 } ) ) }; auto keep = raw( other.data() ); std::vector<Var<T>> more; if ( r.flip( 0.4 ) ) for ( int i = r.range( 5, r.flip( 0.2 ) ? 400 : 60 ); i--; ) more.emplace_back( tens<T>( Nd{ alike ? common : Shape{ 2 }, double( i ) } ) ); c.count( "variables created between saving and restoring", more.size() );
        if ( plain ) s.restore_original( f ); else r.flip() ? s.restore( f ) : s.deserialize( f );
        check( "restored" ); c.require( bits( raw( std::as_const( other ).data() ), keep ), "restore-changed-other-variable" ); for ( size_t i = 0; i < more.size(); ++i ) { for ( auto q : raw( std::as_const( more[i] ).data() ) ) c.require( q == T( more.size() - 1 - i ), "restore-changed-other-variable" ); s.variables_.erase( more[i].id_ ); } c.require( !exists( f + ".tmp" ), "temporary-file-left", "after restore" ); s.variables_.erase( other.id_ );
    }
    // an expression over the restored variables uses the restored data
    if ( n ) { auto e = -v[n - 1]; auto y = raw( s.run( e ) ); for ( auto& q : y ) q = -q; c.require( bits( y, want[n - 1] ), "expression-over-restored-variable" ); }
    unlink( f.c_str() ); c.count( "variables restored", n );
}
SCEN( "round-trip-float", 150, 6000 ) { trip<float>( c ); }
SCEN( "round-trip-double", 110, 5000 ) { trip<double>( c ); }

using TT = ceras::tensor<float>;
// one process trains and saves, another one builds the same model and restores: same predictions
template< typename Build > void two_processes( Ctx& c, Build build, char const* what, size_t in, bool images )
{
    auto& r = c.rng; wipe<float>(); for ( int k = r.below( 20 ); k--; ) generate_uid(); unsigned long seed = r.next(); std::string f = one_file(), g = f + ".pred"; size_t n = r.range( 1, 5 ); unsigned steps = r.range( 0, 4 ); c.describe( sf( "%s, %u steps, %zu samples", what, steps, n ) );
    Nd X = rnd( r, images ? Shape{ n, 6, 6, 2 } : Shape{ n, in }, -1, 1 ), Y = rnd( r, { n, 2 }, 0, 1 ); bool weights = r.flip(); c.describe( weights ? "save_weights" : "session.save" );
    auto side = [&]( bool first ) { return isolated( [&]
    {
        random_generator.seed( first ? seed : seed + 99 ); auto i = images ? Input( { 6, 6, 2 } ) : Input( { in } ); auto m = model{ i, build( i ) }; auto& s = sess<float>();
        if ( first ) { auto cm = m.compile( MeanSquaredError(), SGD( n, 0.05f, 0.9f ) ); for ( unsigned k = 0; k < steps; ++k ) cm.train_on_batch( tens<float>( X ), tens<float>( Y ) ); if ( weights ) m.save_weights( f ); else s.save( f ); }
        else { if ( weights ) m.load_weights( f ); else s.restore( f ); }
        auto p = raw( m.predict( tens<float>( X ) ) ); std::ofstream o{ g + ( first ? "1" : "2" ), std::ios::binary }; o.write( (char const*) p.data(), p.size() * 4 );
    } ); };
    auto a = side( true ); c.require( !a.died, "saving-process:" + a.kind, a.text ); auto b = side( false ); c.require( !b.died, "restoring-process:" + b.kind, b.text );
    std::string p = read_file( g + "1" ), q = read_file( g + "2" ); unlink( f.c_str() ); unlink( ( g + "1" ).c_str() ); unlink( ( g + "2" ).c_str() );
    c.require( p.size() == n * 2 * 4, "prediction-size" ); c.require( p == q, "prediction-after-restore", std::string( what ) + sf( ": first value %.9g before, %.9g after", *(float const*) p.data(), *(float const*) q.data() ) ); c.count( "processes restored" );
}
SCEN( "another-process-dense", 25, 500 ) { size_t in = c.rng.range( 1, 20 ); unsigned long h = c.rng.range( 1, 30 ); two_processes( c, [&]( auto i ) { return Dense( 2 )( relu( Dense( h )( i ) ) ); }, "two dense layers", in, false ); }
SCEN( "another-process-convolution", 15, 300 ) { two_processes( c, [&]( auto i ) { return Flatten()( Conv2D( 2, { 6, 6 } )( i ) ); }, "convolution", 0, true ); }
SCEN( "another-process-normalization", 15, 300 ) { two_processes( c, [&]( auto i ) { return Dense( 2 )( BatchNormalization( 0.8f )( Dense( 4 )( i ) ) ); }, "batch normalization", 3, false ); }

SCEN( "bad-file", 40, 600 )
{
    auto& r = c.rng; wipe<float>(); auto& s = sess<float>(); Var<float> a{ tens<float>( rnd( r, { 3, 4 } ) ) }; auto keep = raw( a.data() ); std::string f = one_file(); int w = r.below( 6 ); static char const* N[] = { "plain file missing", "compressed file missing", "variable of the file unknown to the session", "compressed file truncated", "plain file lacks a tensor", "directory missing when saving" }; c.describe( N[w] );
    if ( w == 2 || w == 3 || w == 4 )
    {
        std::vector<Var<float>> more; for ( int i = 0; i < 3; ++i ) more.emplace_back( tens<float>( rnd( r, { 2, 3 } ) ) ); if ( w != 4 ) s.save( f ); else s.save_original( f );
        if ( w == 2 ) s.variables_.erase( more[1].id_ ); else { auto t = read_file( f ); size_t cut = w == 3 ? r.below( t.size() ) : t.rfind( "3 " ); if ( w == 4 ) { size_t e = t.size(); for ( int k = r.range( 2, 5 ); k--; ) e = t.rfind( '\n', e - 1 ); cut = e + 1; } std::ofstream o{ f, std::ios::binary }; o.write( t.data(), cut ); }
    }
    auto d = isolated( [&]{ if ( w == 0 ) s.restore_original( f ); else if ( w == 4 ) s.restore_original( f ); else if ( w == 5 ) s.save( f + "/no/such/directory" ); else s.restore( f ); std::cerr << "RETURNED\n"; } ); unlink( f.c_str() ); unlink( ( f + ".tmp" ).c_str() );
    c.require( d.kind == "abort:assertion" || d.kind == "exception" || d.kind == "signal:6", "bad-file-not-reported", std::string( N[w] ) + ": " + d.kind + " " + d.text ); c.count( "bad files reported" );
}
