// T07: generators: shape, bounds, statistics over many draws, reproducibility under reseeding
#include "cx.hpp"
using namespace vp; using ceras::tensor;
struct Mom { double mean = 0, var = 0, mn = 1e300, mx = -1e300; size_t n = 0; };
template< typename T > Mom mom( tensor<T> const& t ) { Mom m; m.n = t.size(); for ( size_t i = 0; i < m.n; ++i ) { double x = t[i]; m.mean += x; m.mn = std::min( m.mn, x ); m.mx = std::max( m.mx, x ); } m.mean /= m.n; for ( size_t i = 0; i < m.n; ++i ) m.var += ( t[i] - m.mean ) * ( t[i] - m.mean ); m.var /= m.n; return m; }
// 8-sigma band on the sample mean/variance of n draws: deterministic seeds, so this never flickers
static void stat( Ctx& c, Mom const& m, double mean, double var, double kurt, char const* k )
{
    ++c.checks; double n = m.n; if ( std::abs( m.mean - mean ) > 8 * std::sqrt( var / n ) + 1e-6 * std::abs( mean ) ) c.fail( k, sf( "mean of %zu samples %.6g expected %.6g", m.n, m.mean, mean ) ); if ( std::abs( m.var - var ) > 8 * var * std::sqrt( ( kurt - 1 ) / n ) + 1e-6 * var ) c.fail( k, sf( "variance of %zu samples %.6g expected %.6g", m.n, m.var, var ) ); c.count( "samples drawn", m.n );
}
template< typename T > void gen( Ctx& c )
{
    using namespace ceras; Rng& r = c.rng; Shape s = rshape( r, 1, 4, 6, 300 ); T lo = r.real( -5, 2 ), hi = lo + r.real( 0.1, 6 ); T mu = r.real( -3, 3 ), sd = r.real( 0.2, 3 ); unsigned seed = r.next(); c.describe( str( s ) + sf( " [%g,%g] N(%g,%g)", lo, hi, mu, sd ) );
    auto inb = [&]( tensor<T> const& t, Shape const& ws, double a, double b, char const* k ) { ++c.checks; if ( t.shape() != ws ) c.fail( std::string( k ) + ":shape", str( t.shape() ) ); for ( size_t i = 0; i < t.size(); ++i ) { ++c.checks; if ( !( t[i] >= a && t[i] <= b ) ) c.fail( std::string( k ) + ":bounds", sf( "%g not in [%g,%g]", (double) t[i], a, b ) ); } };
    auto twice = [&]( auto f, char const* k ) { random_generator.seed( seed ); auto a = f(); auto a2 = f(); random_generator.seed( seed ); auto b = f(); auto b2 = f(); c.require( raw( a ) == raw( b ) && raw( a2 ) == raw( b2 ) && a.shape() == b.shape(), std::string( k ) + ":reseed" ); if ( a.size() > 8 ) c.require( raw( a ) != raw( a2 ), std::string( k ) + ":repeats-itself" ); return a; };
    inb( twice( [&]{ return random<T>( s, lo, hi ); }, "random" ), s, lo, hi, "random" ); inb( twice( [&]{ return random<T>( s ); }, "random01" ), s, 0, 1, "random01" ); inb( ceras::rand<T>( s, lo, hi ), s, lo, hi, "rand" );
    tensor<T> like{ s, T( 3 ) }; inb( twice( [&]{ return random_like( like, lo, hi ); }, "random_like" ), s, lo, hi, "random_like" ); c.require( twice( [&]{ return randn<T>( s, mu, sd ); }, "randn" ).shape() == s, "randn-shape" ); c.require( twice( [&]{ return randn_like( like, mu, sd ); }, "randn_like" ).shape() == s, "randn_like-shape" );
    T tl = mu - sd * T( r.real( 0, 2 ) ), th = mu + sd * T( r.real( 0.2, 2 ) ); inb( twice( [&]{ return truncated_normal<T>( s, mu, sd, tl, th ); }, "truncated" ), s, tl, th, "truncated_normal" );
    { // bounds that most draws miss: far in a tail, a narrow slice, one-sided
        double a, w; switch ( r.below( 4 ) ) { case 0: a = r.real( 2, 3 ); w = r.real( 0.3, 2 ); break; case 1: a = r.real( -1, 1 ); w = r.real( 0.001, 0.02 ); break; case 2: a = -r.real( 3, 4 ); w = r.real( 0.5, 1.2 ); break; default: a = r.real( 1.5, 3 ); w = 50; }
        Shape ts{ (unsigned long) r.range( 1, 40 ), (unsigned long) r.range( 1, 5 ) }; T l = mu + sd * T( a ), h = mu + sd * T( a + w ); if ( l < h ) { auto t = truncated_normal<T>( ts, mu, sd, l, h ); inb( t, ts, l, h, "truncated_normal-tail" ); c.count( "samples from tails and slices", t.size() ); } }
    unsigned long p = r.range( 1, 30 ), q = r.range( 1, 30 ); double b = std::sqrt( 6.0 / ( p + q ) ); inb( twice( [&]{ return glorot_uniform<T>( { p, q } ); }, "glorot" ), { p, q }, -b * ( 1 + 1e-6 ), b * ( 1 + 1e-6 ), "glorot_uniform" );
    same( c, zeros<T>( s ), Nd{ s }, 0, 0, "zeros" ); same( c, ones<T>( s ), Nd{ s, 1 }, 0, 0, "ones" ); same( c, zeros_like( like ), Nd{ s }, 0, 0, "zeros_like" ); same( c, ones_like( like ), Nd{ s, 1 }, 0, 0, "ones_like" );
    unsigned long n = r.flip( 0.15 ) ? r.range( 1000, 120000 ) : r.range( 2, 60 ); T stop = lo + T( r.real( -4, 6 ) ); bool ep = r.flip(); Nd w{ Shape{ n } }; for ( size_t i = 0; i < n; ++i ) w.v[i] = lo + ( (double) stop - lo ) * i / ( ep ? n - 1 : n ); double e = sizeof( T ) == 4 ? 2e-5 : 1e-13; same( c, linspace<T>( lo, stop, n, ep ), w, e, e, "linspace" ); if ( ep ) same( c, linspace<T>( lo, stop, n ), w, e, e, "linspace-default" );
    { auto big = tensor<T>{ s, T( 100 ) }; auto po = twice( [&]{ return poisson( big ); }, "poisson" ); c.require( po.shape() == s, "poisson-shape" ); for ( size_t i = 0; i < po.size(); ++i ) { ++c.checks; if ( po[i] < 0 || po[i] != std::floor( (double) po[i] ) ) c.fail( "poisson-value", sf( "%g", (double) po[i] ) ); } tensor<T> z{ s, T( 0 ) }; same( c, poisson( z ), Nd{ s }, 0, 0, "poisson-zero-rate" ); }
}
SCEN( "generate-double", 60, 3000 ) { gen<double>( c ); }
SCEN( "generate-float", 40, 2000 ) { gen<float>( c ); }
SCEN( "statistics", 16, 200 )
{
    using namespace ceras; Rng& r = c.rng; double lo = r.real( -5, 2 ), w = r.real( 0.5, 6 ), mu = r.real( -3, 3 ), sd = r.real( 0.2, 3 ); c.describe( sf( "U[%g,%g] N(%g,%g)", lo, lo + w, mu, sd ) ); Shape s{ 40, 500 };
    auto u = mom( random<double>( s, lo, lo + w ) ); stat( c, u, lo + w / 2, w * w / 12, 1.8, "uniform" ); c.require( u.mn < lo + 0.01 * w && u.mx > lo + 0.99 * w, "uniform-covers-interval" ); stat( c, mom( randn<double>( s, mu, sd ) ), mu, sd * sd, 3, "normal" ); stat( c, mom( randn_like( zeros<double>( s ), mu, sd ) ), mu, sd * sd, 3, "normal-like" );
    stat( c, mom( random_like( zeros<double>( s ), lo, lo + w ) ), lo + w / 2, w * w / 12, 1.8, "uniform-like" ); stat( c, mom( truncated_normal<double>( s, mu, sd, mu - sd, mu + sd ) ), mu, sd * sd * 0.29112509, 2.1, "truncated" ); double rate = r.pick( { 1.0, 2.5, 7.0, 33.25, 200.0 } ); stat( c, mom( poisson( tensor<double>{ s, rate } ) ), rate, rate, 3 + 1 / rate, "poisson" ); stat( c, mom( glorot_uniform<double>( { 100, 200 } ) ), 0, 6.0 / 300 / 3, 1.8, "glorot" );
}
