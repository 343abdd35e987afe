// A04: reduction expressions: value, predicted shape, and where the gradient goes.
#include "cx.hpp"
using namespace vp; using namespace ceras;
using V1 = std::vector<double>;
template< typename T > struct Red { char const* name; std::function<Ex_<T>( Var<T>, unsigned long )> mk; std::function<double( V1 const& )> f; bool axis; int grad; }; // grad: 0 exact, 1 batch convention of the mean
static double s_( V1 const& e ) { long double s = 0; for ( auto x : e ) s += x; return (double) s; }
template< typename T > std::vector<Red<T>> const& reds()
{
    static std::vector<Red<T>> v{
        { "sum_reduce", []( Var<T> x, unsigned long ) { return erase<T>( sum_reduce( x ) ); }, s_, false, 0 },
        { "reduce_sum", []( Var<T> x, unsigned long ) { return erase<T>( reduce_sum( x ) ); }, s_, false, 0 },
        { "mean_reduce", []( Var<T> x, unsigned long ) { return erase<T>( mean_reduce( x ) ); }, []( V1 const& e ) { return s_( e ) / e.size(); }, false, 1 },
        { "reduce_mean", []( Var<T> x, unsigned long ) { return erase<T>( reduce_mean( x ) ); }, []( V1 const& e ) { return s_( e ) / e.size(); }, false, 1 },
        { "mean", []( Var<T> x, unsigned long ) { return erase<T>( mean( x ) ); }, []( V1 const& e ) { return s_( e ) / e.size(); }, false, 1 },
        { "reduce_sum axis", []( Var<T> x, unsigned long a ) { return erase<T>( reduce_sum( a )( x ) ); }, s_, true, 0 },
        { "reduce_max axis", []( Var<T> x, unsigned long a ) { return erase<T>( reduce_max( a )( x ) ); }, []( V1 const& e ) { return *std::max_element( e.begin(), e.end() ); }, true, 0 },
        { "reduce_min axis", []( Var<T> x, unsigned long a ) { return erase<T>( reduce_min( a )( x ) ); }, []( V1 const& e ) { return *std::min_element( e.begin(), e.end() ); }, true, 0 },
    };
    return v;
}
static Nd regime( Ctx& c, Shape const& s, int& m ) { Nd x = rnd_distinct( c.rng, s ); m = c.rng.below( 6 ); for ( auto& q : x.v ) switch ( m ) { case 1: q = -std::abs( q ) - 0.1; break; case 2: q = std::abs( q ) + 0.1; break; case 3: q *= 1e4; break; case 4: q *= 1e-3; break; case 5: q += 50; break; } return x; }
template< typename T > void one( Ctx& c, int rounds )
{
    auto const& op = reds<T>()[ c.kase % reds<T>().size() ]; bool fl = sizeof( T ) == 4; Shape s = rshape( c.rng, 1, 5, 5, 120 ); bool last = op.axis && c.rng.flip( 0.2 ); unsigned long ax = last ? s.size() - 1 : c.rng.below( s.size() ); int m = 0;
    Nd x = regime( c, s, m ); c.describe( sf( "%s<%s>(%ld) regime %d ", op.name, fl ? "float" : "double", last ? -1 : (long) ax, m ) + str( s ) ); quant<T>( x ); if ( fl ) { Nd y = x; std::sort( y.v.begin(), y.v.end() ); for ( size_t i = 1; i < y.size(); ++i ) if ( y.v[i] == y.v[i - 1] ) { ++c.checks; return; } }
    auto v = var<T>( x ); auto e = op.mk( v, last ? (unsigned long) -1 : ax ); double big = 0; for ( auto q : x.v ) big = std::max( big, std::abs( q ) ); double sc = op.axis ? s[ax] : x.size();
    Opt o; o.shape = true; o.rounds = rounds; o.rtol = fl ? 3e-5 : 1e-12; o.atol = ( fl ? 3e-6 : 1e-14 ) * ( 1 + big * sc ); o.grtol = fl ? 1e-5 : 1e-12; o.gatol = fl ? 1e-6 : 1e-12;
    o.redraw = [&]( size_t, Nd const& q ) { Shape t = q.shape; for ( auto& d : t ) if ( c.rng.flip( 0.4 ) ) d = c.rng.range( 1, 4 ); int mm; Nd r = regime( c, t, mm ); for ( auto& z : r.v ) if ( mm == 3 || mm == 5 ) z = z - std::floor( z ) + z / 100; return m == 3 ? rnd_distinct( c.rng, t ) : rnd_distinct( c.rng, t, -2, 5 ); };
    auto f = op.f; bool axis = op.axis; int gk = op.grad;
    auto ref = [=]( std::vector<Nd> const& q ) { if ( axis ) return along( q[0], ax, false, f ); return Nd{ Shape{ 1 }, f( q[0].v ) }; };
    o.agrad = [=]( std::vector<Nd> const& q, Nd const& seed ) // exact: linear or selecting reductions
    {
        Nd g{ q[0].shape }; if ( !axis ) { double k = gk ? 1.0 / ( q[0].shape.size() == 1 ? 1 : q[0].shape[0] ) : 1; for ( auto& z : g.v ) z = seed.v[0] * k; return std::vector<Nd>{ g }; }
        Nd w = ref( q ); for ( size_t k = 0; k < g.size(); ++k ) { Shape i = unrank( g.shape, k ), j = i; j.erase( j.begin() + ax ); size_t w_ = w.idx( j ); g.v[k] = std::string( op.name ) == "reduce_sum axis" || q[0].v[k] == w.v[w_] ? seed.v[w_] : 0; } return std::vector<Nd>{ g };
    };
    c.count( op.name ); check_ex<T>( c, { v }, e, ref, o );
}
SCEN( "A04/double", 320, 12000 ) { one<double>( c, 1 + c.rng.below( 3 ) ); }
SCEN( "A04/float", 240, 8000 ) { one<float>( c, 1 + c.rng.below( 3 ) ); }
// ties: the gradient of a tied extremum goes to positions where it is attained and adds up to the incoming gradient
SCEN( "A04/ties", 80, 2000 )
{
    auto& r = c.rng; Shape s = rshape( r, 1, 4, 4, 60 ); unsigned long a = r.below( s.size() ); Nd x{ s }; for ( auto& q : x.v ) q = (double) r.range( -1, 1 ); bool mx = r.flip(); c.describe( sf( "ties %s %lu ", mx ? "max" : "min", a ) + str( s ) ); auto v = var<double>( x ); auto e = mx ? erase<double>( reduce_max( a )( v ) ) : erase<double>( reduce_min( a )( v ) );
    Nd w = along( x, a, false, [mx]( V1 const& q ) { return mx ? *std::max_element( q.begin(), q.end() ) : *std::min_element( q.begin(), q.end() ); } ); same( c, e.run(), w, 0, 0, "forward" ); Nd g = rnd( r, w.shape ); e.back( tens<double>( g ) ); Nd got = nd( v.gradient() ); Nd back = along( got, a, false, s_ ); same( c, back, g, 1e-12, 1e-12, "gradient", "sum over the reduced axis" );
    for ( size_t k = 0; k < x.size(); ++k ) { Shape i = unrank( s, k ); i.erase( i.begin() + a ); c.require( got.v[k] == 0 || x.v[k] == w.v[w.idx( i )], "gradient:not-at-the-extremum" ); }
}
// norm-like and composed: sum of squares, mean of a product, reductions of reductions
SCEN( "A04/composed", 120, 4000 )
{
    auto& r = c.rng; int k = c.kase % 5; Shape s = rshape( r, 2, 3, 4, 40 ); unsigned long a = r.below( s.size() ), b = r.below( s.size() - 1 ); c.describe( sf( "composed %d axes %lu %lu ", k, a, b ) + str( s ) ); Nd x = rnd_distinct( r, s ); auto v = var<double>( x ); Ex_<double> e; RefFn f; auto mx = []( V1 const& q ) { return *std::max_element( q.begin(), q.end() ); };
    if ( k == 0 ) { e = erase<double>( sum_reduce( square( v ) ) ); f = []( auto const& q ) { return Nd{ Shape{ 1 }, s_( q[0].map( []( double z ) { return z * z; } ).v ) }; }; }
    if ( k == 1 ) { e = erase<double>( reduce_sum( b )( reduce_max( a )( v ) ) ); f = [=]( auto const& q ) { return along( along( q[0], a, false, mx ), b, false, s_ ); }; }
    if ( k == 2 ) { e = erase<double>( reduce_max( b )( reduce_sum( a )( v ) ) ); f = [=]( auto const& q ) { return along( along( q[0], a, false, s_ ), b, false, mx ); }; }
    if ( k == 3 ) { e = erase<double>( sum_reduce( reduce_min( a )( v * 2.0 ) ) ); f = [=]( auto const& q ) { return Nd{ Shape{ 1 }, 2 * s_( along( q[0], a, false, []( V1 const& z ) { return *std::min_element( z.begin(), z.end() ); } ).v ) }; }; }
    if ( k == 4 ) { e = erase<double>( elementwise_product( v, v ) - sum_reduce( v ) ); f = []( auto const& q ) { double t = s_( q[0].v ); return q[0].map( [t]( double z ) { return z * z - t; } ); }; }
    Opt o; o.rtol = 1e-11; o.atol = 1e-11; o.grtol = 1e-5; o.gatol = 1e-5; o.rounds = 2; check_ex<double>( c, { v }, e, f, o );
}
// is the propagated gradient of a mean the gradient of the mean?
SCEN( "A04/gradient-of-reported-mean", 12, 60 )
{
    auto& r = c.rng; Shape s{ (unsigned long) r.range( 2, 4 ), (unsigned long) r.range( 2, 4 ) }; c.describe( "mean_reduce " + str( s ) ); auto v = var<double>( rnd( r, s ) ); auto e = mean_reduce( v ); auto y = sess<double>().run( e ); e.backward( ceras::ones_like( y ) ); Nd g = nd( v.gradient() ); bool exact = true, conv = true; for ( auto q : g.v ) { if ( !close( q, 1.0 / g.size(), 1e-9, 0 ) ) exact = false; if ( !close( q, 1.0 / s[0], 1e-9, 0 ) ) conv = false; } ++c.checks;
    if ( !exact && conv ) c.fail( "gradient-divided-by-leading-dimension-only", "mean_reduce: every element receives 1/batch instead of 1/size" ); if ( !exact ) c.fail( "gradient", brief( g.v ) );
}
