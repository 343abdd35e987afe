// T08: save/load round trip, bit for bit
#include "cx.hpp"
using namespace vp; using ceras::tensor;
template< typename T > T wild( Rng& r )
{
    using L = std::numeric_limits<T>; if constexpr ( std::is_integral_v<T> ) return r.pick( { L::min(), L::max(), T( 0 ), T( r.next() ), T( r.range( -100, 100 ) ) } );
    else switch ( r.below( 8 ) ) { case 0: return r.pick( { T( 0 ), -T( 0 ), L::max(), -L::max(), L::min(), L::lowest(), T( 1 ) / T( 3 ), T( 0.1 ) } );
        case 1: case 2: case 3: { for ( ;; ) { T v; if constexpr ( sizeof( T ) == 4 ) { uint32_t b = r.next(); std::memcpy( &v, &b, 4 ); } else { u64 b = r.next(); std::memcpy( &v, &b, 8 ); } if ( std::isfinite( v ) ) return v; } }
        case 4: return std::nextafter( T( r.range( -100, 100 ) ), T( 1000 ) ); default: return static_cast<T>( r.real( -2, 2 ) ); }
}
template< typename T > void trip( Ctx& c )
{
    using namespace ceras; Shape s = rshape( c.rng, 1, 5, 6, 300 ); if ( c.kase % 40 == 7 ) { s = Shape( c.rng.range( 1, 3 ), 1 ); size_t k = c.rng.below( s.size() ); s[k] = c.rng.pick( { 1025ul, 4097ul, 5000ul, 9001ul, 20000ul } ) + c.rng.below( 50 ); if ( k ) s[0] = c.rng.range( 1, 3 ); c.count( "large tensors" ); } c.describe( str( s ) ); tensor<T> t{ s }; for ( size_t i = 0; i < t.size(); ++i ) t[i] = wild<T>( c.rng ); auto before = raw( t ); std::string f = tmp_dir() + "/t.txt";
    auto eq = [&]( tensor<T> const& u, char const* k ) { ++c.checks; if ( u.shape() != s ) c.fail( std::string( k ) + ":shape", str( u.shape() ) ); auto x = raw( u ); for ( size_t i = 0; i < x.size(); ++i ) { ++c.checks; if ( std::memcmp( &x[i], &before[i], sizeof( T ) ) ) c.fail( std::string( k ) + ":value", sf( "element %zu wrote %.20g read %.20g", i, (double) before[i], (double) x[i] ) ); } };
    save_tensor( f, t ); eq( t, "writer-changed-tensor" ); eq( load_tensor<T>( f ), "round-trip" ); save_tensor( f, load_tensor<T>( f ) ); eq( load_tensor<T>( f ), "second-round-trip" ); c.count( "values round-tripped", t.size() );
    // several tensors through one stream, read into used tensors
    { std::stringstream ss; ss.precision( std::numeric_limits<T>::max_digits10 ); int n = c.rng.range( 2, 4 ); for ( int i = 0; i < n; ++i ) write_tensor( ss, t ); tensor<T> u{ rshape( c.rng, 1, 3 ), T( 3 ) }; for ( int i = 0; i < n; ++i ) { read_tensor( ss, u ); eq( u, "stream-round-trip" ); } }
    std::remove( f.c_str() );
}
SCEN( "round-trip-float", 120, 8000 ) { trip<float>( c ); }
SCEN( "round-trip-double", 120, 8000 ) { trip<double>( c ); }
SCEN( "round-trip-int", 40, 2000 ) { trip<int>( c ); }
SCEN( "missing-or-short-file", 30, 600 )
{
    using namespace ceras; std::string f = tmp_dir() + "/t.txt"; std::remove( f.c_str() ); tensor<double> t{ Shape{ 3, 4 }, 1.5 }; int w = c.rng.below( 3 ); c.describe( w == 0 ? "missing file" : w == 1 ? "data line shorter than the shape says" : "data line longer than the shape says" );
    if ( w ) { std::ofstream o{ f }; o << "3 4 \n"; int n = w == 1 ? c.rng.range( 0, 11 ) : c.rng.range( 13, 20 ); for ( int i = 0; i < n; ++i ) o << i << " "; o << "\n"; }
    auto d = isolated( [&]{ auto u = load_tensor<double>( f ); std::cerr << "RETURNED " << u.size() << "\n"; } ); std::remove( f.c_str() );
    c.require( d.kind == "abort:assertion" || d.kind == "exception" || d.kind == "signal:6", "bad-file-not-reported", d.kind + " " + d.text );
}
