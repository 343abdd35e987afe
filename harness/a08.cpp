// A08: losses: documented value, gradient with respect to the prediction (with the library's batch convention for the averaging losses).
#include "cx.hpp"
using namespace vp; using namespace ceras;

using LF = std::function<double( Nd const&, Nd const& )>; // truth, prediction -> loss
enum Scale { EXACT, MEAN, CE };
template< typename T > struct Loss { char const* name; std::function<Ex_<T>( Var<T>, Var<T> )> make; std::function<Ex_<T>( ceras::place_holder<tensor<T>>, Var<T> )> layer; LF f; Scale sc; int dom; bool dist; double smooth; };
static double eps_() { return ceras::eps; }
static LF sum_of( std::function<double( double, double )> g, bool mean ) { return [=]( Nd const& t, Nd const& p ) { double s = 0; for ( size_t i = 0; i < t.size(); ++i ) s += g( t.v[i], p.v[i] ); return mean ? s / t.size() : s; }; }
static LF ce( double sm ) { return [sm]( Nd const& t, Nd const& p ) { double s = 0; size_t n = t.shape.back(); for ( size_t i = 0; i < t.size(); i += n ) { double m = -1e300, z = 0; for ( size_t j = 0; j < n; ++j ) m = std::max( m, p.v[i + j] ); for ( size_t j = 0; j < n; ++j ) z += std::exp( p.v[i + j] - m ); for ( size_t j = 0; j < n; ++j ) { double w = t.v[i + j] > 0.5 ? 1 - sm : sm / ( n - 1 ); s -= w * std::max( std::log( eps_() ), p.v[i + j] - m - std::log( z ) ); } } return s / t.shape[0]; }; }
template< typename T > std::vector<Loss<T>> losses()
{
    std::vector<Loss<T>> v; using X = Var<T>; using P = ceras::place_holder<tensor<T>>;
#define E_( CALL ) []( X t, X p ) { return erase<T>( CALL ); }
#define L_( CALL ) []( P t, X p ) { return erase<T>( CALL ); }
    v.push_back( { "mean_squared_error", E_( mean_squared_error( t, p ) ), L_( MeanSquaredError()( p )( t ) ), sum_of( []( double a, double b ) { return ( a - b ) * ( a - b ); }, true ), MEAN, 0, true, 0 } );
    v.push_back( { "mse", E_( mse( t, p ) ), L_( MSE()( p )( t ) ), sum_of( []( double a, double b ) { return ( a - b ) * ( a - b ); }, true ), MEAN, 0, true, 0 } );
    v.push_back( { "mean_absolute_error", E_( mean_absolute_error( t, p ) ), L_( MeanAbsoluteError()( p )( t ) ), sum_of( []( double a, double b ) { return std::abs( a - b ); }, true ), MEAN, 0, true, 0 } );
    v.push_back( { "mae", E_( mae( t, p ) ), L_( MAE()( p )( t ) ), sum_of( []( double a, double b ) { return std::abs( a - b ); }, true ), MEAN, 0, true, 0 } );
    v.push_back( { "squared_loss", E_( squared_loss( t, p ) ), nullptr, sum_of( []( double a, double b ) { return ( a - b ) * ( a - b ); }, false ), EXACT, 0, true, 0 } );
    v.push_back( { "abs_loss", E_( abs_loss( t, p ) ), nullptr, sum_of( []( double a, double b ) { return std::abs( a - b ); }, false ), EXACT, 0, true, 0 } );
    v.push_back( { "mean_squared_logarithmic_error", E_( mean_squared_logarithmic_error( t, p ) ), nullptr, sum_of( []( double a, double b ) { double q = std::log( 1 + a ) - std::log( 1 + b ); return q * q; }, true ), MEAN, 1, true, 0 } );
    v.push_back( { "cross_entropy", E_( cross_entropy( t, p ) ), nullptr, sum_of( []( double a, double b ) { return -a * std::log( b ); }, false ), EXACT, 1, false, 0 } );
    v.push_back( { "binary_cross_entropy_loss", E_( binary_cross_entropy_loss( t, p ) ), L_( BinaryCrossentropy()( p )( t ) ), sum_of( []( double a, double b ) { return -a * std::log( b ) - ( 1 - a ) * std::log( 1 - b ); }, true ), MEAN, 2, false, 0 } );
    v.push_back( { "hinge_loss", E_( hinge_loss( t, p ) ), L_( Hinge()( p )( t ) ), sum_of( []( double a, double b ) { return std::max( 0.0, 1 - a * b ); }, true ), MEAN, 3, false, 0 } );
    v.push_back( { "cross_entropy_loss", E_( cross_entropy_loss( t, p ) ), L_( CategoricalCrossentropy()( p )( t ) ), ce( 0 ), CE, 4, false, 0 } );
    v.push_back( { "cross_entropy_loss smoothed", E_( cross_entropy_loss( t, p, T( 0.1 ) ) ), L_( CategoricalCrossentropy( T( 0.1 ) )( p )( t ) ), ce( T( 0.1 ) ), CE, 4, false, 0.1 } );
    return v;
}
static void draw( Ctx& c, int dom, Shape const& s, Nd& t, Nd& p )
{
    t = Nd{ s }; p = Nd{ s };
    for ( size_t i = 0; i < t.size(); ++i ) switch ( dom )
    {
        case 0: t.v[i] = c.rng.real( -2, 2 ); do p.v[i] = c.rng.real( -2, 2 ); while ( std::abs( p.v[i] - t.v[i] ) < 0.05 ); break;
        case 1: t.v[i] = c.rng.real( 0.05, 3 ); do p.v[i] = c.rng.real( 0.05, 3 ); while ( std::abs( p.v[i] - t.v[i] ) < 0.05 ); break;
        case 2: t.v[i] = c.rng.flip( 0.7 ) ? (double) c.rng.below( 2 ) : c.rng.unit(); p.v[i] = c.rng.real( 0.03, 0.97 ); break;
        case 3: t.v[i] = c.rng.flip() ? 1 : -1; do p.v[i] = c.rng.real( -2, 2 ); while ( std::abs( 1 - t.v[i] * p.v[i] ) < 0.05 ); break;
        default: p.v[i] = c.rng.real( -4, 4 ); break;
    }
    if ( dom == 4 ) for ( size_t i = 0; i < t.size(); i += s.back() ) t.v[i + c.rng.below( s.back() )] = 1;
}
static Shape lshape( Ctx& c, int dom, Scale sc ) { if ( dom == 4 ) { Shape s = rshape( c.rng, 2, 3, 5, 60 ); s.back() = c.rng.range( 2, 6 ); return s; } return rshape( c.rng, sc == EXACT ? 1 : 1, 3, 5, 60 ); }
// averaging losses follow the batch convention: the optimizers divide by the batch size, so cross entropy propagates the sum over the batch, and
// the element averages propagate the sum over each sample's features divided by the leading dimension
static double scale( Scale sc, Shape const& s ) { double n = prod( s ); return sc == EXACT ? 1 : sc == CE ? s[0] : n / ( s.size() == 1 ? 1 : s[0] ); }

template< typename T > void one( Ctx& c, bool layer )
{
    static auto const ls = losses<T>(); auto const& l = ls[c.kase % ls.size()]; if ( layer && !l.layer ) { layer = false; } bool dbl = sizeof( T ) == 8; Shape sh = lshape( c, l.dom, l.sc );
    c.describe( sf( "%s%s<%s> %s", l.name, layer ? " (layer form on a placeholder)" : "", dbl ? "double" : "float", str( sh ).c_str() ) ); Nd t, p; draw( c, l.dom, sh, t, p ); quant<T>( t ); quant<T>( p );
    auto vt = var<T>( t ); auto vp_ = var<T>( p ); ceras::place_holder<tensor<T>> ph; Ex_<T> e = layer ? l.layer( ph, vp_ ) : l.make( vt, vp_ );
    for ( int round = 0; round < 3; ++round )
    {
        if ( round ) { Shape s2 = sh; if ( s2.size() > 1 && c.rng.flip() ) s2[0] = c.rng.range( 1, 5 ); draw( c, l.dom, s2, t, p ); quant<T>( t ); quant<T>( p ); vt.data() = tens<T>( t ); vp_.data() = tens<T>( p ); }
        if ( layer ) sess<T>().bind( ph, tens<T>( t ) ); double want = l.f( t, p ); auto r = e.run(); c.require( r.size() == 1, "forward:not-a-scalar", str( r.shape() ) ); double tol = dbl ? ( l.sc == CE ? 1e-7 : 1e-10 ) : 5e-5;
        same( c, nd( r ), Nd{ r.shape(), want }, tol, tol, "forward", sf( "round %d", round ) ); double w = c.rng.flip() ? 1 : c.rng.real( -2, 2 ); w = (T) w; auto g = tens<T>( Nd{ r.shape(), w } ); Snap<T> sg{ g, "incoming gradient" }; e.back( g ); sg.check( c );
        auto ng = numgrad( [&]( auto const& q ) { return Nd{ Shape{ 1 }, l.f( t, q[0] ) }; }, { p }, Nd{ Shape{ 1 }, w * scale( l.sc, t.shape ) } ); same( c, vp_.gradient(), ng[0], dbl ? 1e-5 : 2e-3, dbl ? 1e-6 : 1e-3, "gradient", sf( "round %d", round ) ); c.count( l.name );
        Snap<T>{ vp_.data(), "p" }; c.require( nd( vp_.data() ).v == p.v, "prediction-modified" ); c.require( nd( vt.data() ).v == ( layer ? nd( vt.data() ).v : t.v ), "truth-modified" );
    }
}
SCEN( "A08/double", 240, 6000 ) { one<double>( c, false ); }
SCEN( "A08/float", 120, 3000 ) { one<float>( c, false ); }
SCEN( "A08/layer-forms", 180, 4000 ) { one<float>( c, true ); }
SCEN( "A08/perfect", 60, 1000 )
{
    static auto const ls = losses<double>(); auto const& l = ls[c.kase % ls.size()]; Shape sh = lshape( c, l.dom, l.sc ); c.describe( sf( "perfect prediction %s %s", l.name, str( sh ).c_str() ) ); Nd t, p; draw( c, l.dom, sh, t, p );
    auto vt = var<double>( t ), vq = var<double>( t ); if ( l.dist ) { auto r = nd( l.make( vt, vq ).run() ); c.require( r.v[0] == 0, "forward:perfect-not-zero", sf( "%g", r.v[0] ) ); }
    else if ( l.dom == 4 ) { Nd q = t; for ( auto& v : q.v ) v *= 60; auto vh = var<double>( q ); auto r = nd( l.make( vt, vh ).run() ); if ( l.smooth == 0 ) c.require( r.v[0] >= 0 && r.v[0] < 1e-6, "forward:perfect", sf( "%g", r.v[0] ) ); else c.require( r.v[0] > 0, "forward:smoothed" ); }
    else if ( l.dom == 3 ) { Nd q = t; for ( auto& v : q.v ) v *= c.rng.real( 1, 5 ); auto vh = var<double>( q ); auto r = nd( l.make( vt, vh ).run() ); c.require( r.v[0] == 0, "forward:hinge-beyond-margin" ); }
    else c.count( "losses without a perfect prediction" ), ++c.checks;
}
// is the propagated gradient the gradient of the reported (averaged) value itself?
SCEN( "A08/gradient-of-reported-value", 24, 200 )
{
    static auto const ls = losses<double>(); auto const& l = ls[c.kase % ls.size()]; Shape sh{ (unsigned long) c.rng.range( 2, 4 ), (unsigned long) c.rng.range( 2, 4 ) }; c.describe( sf( "%s %s", l.name, str( sh ).c_str() ) ); Nd t, p; draw( c, l.dom, sh, t, p ); auto vt = var<double>( t ), vq = var<double>( p ); auto e = l.make( vt, vq ); auto r = e.run(); e.back( tens<double>( Nd{ r.shape(), 1.0 } ) );
    auto ng = numgrad( [&]( auto const& q ) { return Nd{ Shape{ 1 }, l.f( t, q[0] ) }; }, { p }, Nd{ Shape{ 1 }, 1.0 } ); Nd g = nd( vq.gradient() ); double k = scale( l.sc, sh ); bool conv = true, exact = true; for ( size_t i = 0; i < g.size(); ++i ) { if ( !close( g.v[i], k * ng[0].v[i], 1e-5, 1e-6 ) ) conv = false; if ( !close( g.v[i], ng[0].v[i], 1e-5, 1e-6 ) ) exact = false; } ++c.checks;
    if ( !exact && conv ) c.fail( "gradient-scaled-by-batch-convention", sf( "%s: gradient is %g times the gradient of the reported mean", l.name, k ) ); if ( !exact ) c.fail( "gradient", l.name );
}
