// T05: tensor reductions and statistics
#include "cx.hpp"
using namespace vp; using ceras::tensor;
static double vsum( std::vector<double> const& v ) { long double s = 0; for ( auto x : v ) s += x; return s; }
static double vmean( std::vector<double> const& v ) { return vsum( v ) / v.size(); }
static double vvar( std::vector<double> const& v ) { double m = vmean( v ); long double s = 0; for ( auto x : v ) s += ( x - m ) * ( x - m ); return s / v.size(); }
static double vmax( std::vector<double> const& v ) { return *std::max_element( v.begin(), v.end() ); }
static double vmin( std::vector<double> const& v ) { return *std::min_element( v.begin(), v.end() ); }

template< typename T > Nd draw( Ctx& c, Shape const& s, std::string& what )
{
    Nd a; switch ( c.rng.below( 6 ) )
    {
        case 0: a = rnd( c.rng, s, -5, -0.5 ); what = "all negative"; break; case 1: a = rnd( c.rng, s, 0.5, 5 ); what = "all positive"; break;
        case 2: a = Nd{ s, c.rng.real( -3, 3 ) }; what = "constant"; break; case 3: a = rnd( c.rng, s, -1e-3, 1e-3 ); what = "tiny"; break;
        case 4: a = rnd( c.rng, s, -1e5, 1e5 ); what = "large"; break; default: a = rnd( c.rng, s, -3, 3 ); what = "mixed";
    }
    quant<T>( a ); return a;
}
template< typename T > void whole( Ctx& c )
{
    using namespace ceras; Shape s = rshape( c.rng, 1, 5, 6, 500 ); std::string w; Nd a = draw<T>( c, s, w ); c.describe( str( s ) + " " + w ); auto t = tens<T>( a ); double n = a.size(), mag = 0; for ( auto x : a.v ) mag = std::max( mag, std::abs( x ) );
    double e = sizeof( T ) == 4 ? 1e-6 * n : 1e-13 * n; auto eq = [&]( double got, double want, char const* k, double scale ) { ++c.checks; if ( !close( got, want, e, e * scale ) ) c.fail( k, sf( "%.12g expected %.12g", got, want ) ); };
    eq( sum( t ), vsum( a.v ), "sum", mag * n ); eq( mean( t ), vmean( a.v ), "mean", mag ); eq( max( t ), vmax( a.v ), "max", 0 ); eq( min( t ), vmin( a.v ), "min", 0 ); eq( amax( t ), vmax( a.v ), "amax", 0 ); eq( amin( t ), vmin( a.v ), "amin", 0 );
    eq( nd( reduce_sum( t ) ).v[0], vsum( a.v ), "reduce_sum", mag * n ); eq( nd( reduce_mean( t ) ).v[0], vmean( a.v ), "reduce_mean", mag ); c.require( reduce_sum( t ).shape() == Shape{ 1 } && reduce_mean( t ).shape() == Shape{ 1 }, "reduce-shape" );
    eq( ceras::var( t ), vvar( a.v ), "var", mag * mag ); eq( ceras::std( t ), std::sqrt( vvar( a.v ) ), "std", mag * 1e3 );
    c.count( "whole-tensor reductions", 10 );
}
template< typename T > void axis( Ctx& c )
{
    using namespace ceras; Shape s = rshape( c.rng, 1, 5, 6, 500 ); std::string w; Nd a = draw<T>( c, s, w ); bool def = c.rng.flip( 0.15 ); unsigned long ax = def ? s.size() - 1 : c.rng.below( s.size() ); unsigned long pass = def ? -1UL : ax; bool keep = c.rng.flip();
    c.describe( str( s ) + sf( " axis %ld keepdims %d ", (long) pass, keep ) + w ); auto t = tens<T>( a ); double mag = 0; for ( auto x : a.v ) mag = std::max( mag, std::abs( x ) ); double n = s[ax], e = ( sizeof( T ) == 4 ? 1e-6 : 1e-13 ) * n;
    same( c, sum( t, pass, keep ), along( a, ax, keep, vsum ), e, e * mag * n, "sum-axis" ); same( c, mean( t, pass, keep ), along( a, ax, keep, vmean ), e, e * mag, "mean-axis" );
    same( c, max( t, pass, keep ), along( a, ax, keep, vmax ), 0, 0, "max-axis" ); same( c, min( t, pass, keep ), along( a, ax, keep, vmin ), 0, 0, "min-axis" );
    same( c, variance( t, pass, keep ), along( a, ax, keep, vvar ), e * 10, e * mag * mag * 10, "variance-axis" ); same( c, standard_deviation( t, pass, keep ), along( a, ax, keep, []( auto const& v ) { return std::sqrt( vvar( v ) ); } ), 1e-3, 2e-3 * mag, "standard-deviation-axis" );
    same( c, reduce( t, pass, T( 0 ), []( T x, T y ) { return x + y; }, keep ), along( a, ax, keep, vsum ), e, e * mag * n, "reduce-custom" );
    T i0 = c.rng.pick( { T( 0 ), T( 1 ), T( -2.5 ), T( 10 ) } ); auto vi = [&]( auto f ) { return [=]( std::vector<double> const& v ) { return f( v ); }; }; // with an initial value that takes part once
    same( c, reduce( t, pass, i0, []( T x, T y ) { return x + y; }, keep ), along( a, ax, keep, vi( [i0]( auto const& v ) { return vsum( v ) + i0; } ) ), e, e * ( mag * n + 10 ), "reduce-from-initial-value" );
    same( c, reduce( t, pass, i0, []( T x, T y ) { return x > y ? x : y; }, keep ), along( a, ax, keep, vi( [i0]( auto const& v ) { return std::max<double>( vmax( v ), i0 ); } ) ), 0, 0, "reduce-from-initial-value" );
    same( c, sum( t, pass, true ), along( a, ax, true, vsum ), e, e * mag * n, "sum-axis" );
    c.count( "axis reductions", 8 );
}
SCEN( "whole-double", 150, 10000 ) { whole<double>( c ); }
SCEN( "whole-float", 100, 8000 ) { whole<float>( c ); }
SCEN( "axis-double", 250, 16000 ) { axis<double>( c ); }
SCEN( "axis-float", 150, 10000 ) { axis<float>( c ); }
SCEN( "integers", 60, 3000 )
{
    using namespace ceras; Shape s = rshape( c.rng, 1, 4, 6, 200 ); unsigned long ax = c.rng.below( s.size() ); c.describe( "int " + str( s ) + sf( " axis %lu", ax ) ); tensor<int> t{ s }; Nd a{ s }; for ( size_t i = 0; i < a.size(); ++i ) { t[i] = c.rng.range( -50, 20 ); a.v[i] = t[i]; }
    c.require( sum( t ) == vsum( a.v ) && max( t ) == vmax( a.v ) && min( t ) == vmin( a.v ), "int-whole", sf( "max %d expected %g", max( t ), vmax( a.v ) ) ); same( c, nd( sum( t, ax ) ), along( a, ax, false, vsum ), 0, 0, "int-sum-axis" ); same( c, nd( max( t, ax ) ), along( a, ax, false, vmax ), 0, 0, "int-max-axis" ); same( c, nd( min( t, ax ) ), along( a, ax, false, vmin ), 0, 0, "int-min-axis" );
}
// values a double cannot tell apart
SCEN( "long", 40, 3000 )
{
    using namespace ceras; Rng& r = c.rng; Shape s; do s = rshape( r, 1, 4, 6, 200 ); while ( prod( s ) > 500 ); unsigned long ax = r.below( s.size() ); long base = r.pick( { 0L, 1L << 53, -( 1L << 53 ), 1L << 54, -( 1L << 54 ) } ); bool keep = r.flip(); c.describe( sf( "long about %ld axis %lu ", base, ax ) + str( s ) ); tensor<long> t{ s }; for ( auto& x : t ) x = base + r.range( -9, 9 );
    long S = 0, M = t[0], m = t[0]; for ( auto x : t ) { S += x; M = std::max( M, x ); m = std::min( m, x ); } auto eq = [&]( long got, long want, char const* k ) { ++c.checks; if ( got != want ) c.fail( k, sf( "%ld expected %ld", got, want ) ); };
    { eq( sum( t ), S, "long-sum" ); eq( reduce_sum( t )[0], S, "long-reduce-sum" ); } eq( max( t ), M, "long-max" ); eq( min( t ), m, "long-min" ); eq( amax( t ), M, "long-amax" ); eq( amin( t ), m, "long-amin" );
    auto line = [&]( tensor<long> const& got, auto f, long init, char const* k ) { unsigned long n = s[ax], post = 1, pre = 1; for ( size_t i = 0; i < ax; ++i ) pre *= s[i]; for ( size_t i = ax + 1; i < s.size(); ++i ) post *= s[i]; Shape w = s; if ( keep ) w[ax] = 1; else w.erase( w.begin() + ax ); c.require( got.shape() == w, std::string( k ) + ":shape", str( got.shape() ) ); for ( size_t i = 0; i < pre; ++i ) for ( size_t j = 0; j < post; ++j ) { long v = init; for ( size_t q = 0; q < n; ++q ) v = f( v, t[( i * n + q ) * post + j] ); eq( got[i * post + j], v, k ); } };
    line( sum( t, ax, keep ), []( long x, long y ) { return x + y; }, 0, "long-sum-axis" ); line( max( t, ax, keep ), []( long x, long y ) { return std::max( x, y ); }, std::numeric_limits<long>::min(), "long-max-axis" ); line( min( t, ax, keep ), []( long x, long y ) { return std::min( x, y ); }, std::numeric_limits<long>::max(), "long-min-axis" ); c.count( "reductions of long integers", 9 );
}
SCEN( "softmax", 80, 4000 )
{
    Shape s = rshape( c.rng, 1, 4, 7, 300 ); Nd a = rnd( c.rng, s, -1, 1 ); double sc = c.rng.pick( { 1.0, 30.0, 600.0 } ); for ( auto& x : a.v ) x *= sc; c.describe( "softmax " + str( s ) + sf( " scale %g", sc ) ); auto r = ceras::softmax( tens<double>( a ) ); Nd w{ s }; size_t n = s.back();
    for ( size_t i = 0; i < a.size(); i += n ) { double m = -1e300, z = 0; for ( size_t j = 0; j < n; ++j ) m = std::max( m, a.v[i + j] ); for ( size_t j = 0; j < n; ++j ) z += std::exp( a.v[i + j] - m ); double t = 0; for ( size_t j = 0; j < n; ++j ) { w.v[i + j] = std::exp( a.v[i + j] - m ) / z; t += r[i + j]; } ++c.checks; if ( std::abs( t - 1 ) > 1e-6 ) c.fail( "softmax-sum", sf( "%g", t ) ); }
    same( c, r, w, 2e-8, 1e-12, "softmax" ); /* the denominator is shifted by eps = 1e-8 */
}
