// A01: unary elementwise operations against <cmath>, with analytic derivatives, over whole domains.
#include "cx.hpp"
using namespace vp;
using F = std::function<double( double )>;
struct Op1 { char const* name; std::function<Ex_<double>( Var<double> const& )> d; std::function<Ex_<float>( Var<float> const& )> f; F fn, df; double lo, hi; std::vector<double> kinks; double frel; };
#ifndef PART
#define PART 0
#endif
#define OP( NAME, CALL, FN, DF, LO, HI, ... ) { NAME, []( Var<double> const& v ) { return erase<double>( ceras::CALL ); }, []( Var<float> const& v ) { return erase<float>( ceras::CALL ); }, \
    []( double x ) { return FN; }, []( double x ) { return DF; }, LO, HI, { __VA_ARGS__ }, 0 }
#define OPS( NAME, EXPR, FN, DF, LO, HI, ... ) { NAME, []( Var<double> const& v ) { using namespace ceras; return erase<double>( EXPR ); }, []( Var<float> const& v ) { using namespace ceras; return erase<float>( EXPR ); }, \
    []( double x ) { return FN; }, []( double x ) { return DF; }, LO, HI, { __VA_ARGS__ }, 0 }
static double sg( double x ) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static std::vector<Op1> const& table()
{
    static std::vector<Op1> t{
#if PART == 0
        OP( "abs", abs( v ), std::abs( x ), sg( x ), -5, 5, 0 ),
        OP( "fabs", fabs( v ), std::abs( x ), sg( x ), -5, 5, 0 ),
        OP( "acos", acos( v ), std::acos( x ), -1 / std::sqrt( 1 - x * x ), -0.999, 0.999 ),
        OP( "acosh", acosh( v ), std::acosh( x ), 1 / std::sqrt( x * x - 1 ), 1.01, 50 ),
        OP( "asin", asin( v ), std::asin( x ), 1 / std::sqrt( 1 - x * x ), -0.999, 0.999 ),
        OP( "asinh", asinh( v ), std::asinh( x ), 1 / std::sqrt( 1 + x * x ), -30, 30 ),
        OP( "atan", atan( v ), std::atan( x ), 1 / ( 1 + x * x ), -30, 30 ),
        OP( "atanh", atanh( v ), std::atanh( x ), 1 / ( 1 - x * x ), -0.999, 0.999 ),
        OP( "cbrt", cbrt( v ), std::cbrt( x ), 1 / ( 3 * std::cbrt( x ) * std::cbrt( x ) ), -30, 30, 0 ),
        OP( "ceil", ceil( v ), std::ceil( x ), 1 /* straight-through */, -30, 30, 0 ),
        OP( "cos", cos( v ), std::cos( x ), -std::sin( x ), -20, 20 ),
        OP( "cosh", cosh( v ), std::cosh( x ), std::sinh( x ), -8, 8 ),
        OP( "erf", erf( v ), std::erf( x ), 2 / std::sqrt( M_PI ) * std::exp( -x * x ), -4, 4 ),
        OP( "erfc", erfc( v ), std::erfc( x ), -2 / std::sqrt( M_PI ) * std::exp( -x * x ), -4, 4 ),
        OP( "exp", exp( v ), std::exp( x ), std::exp( x ), -12, 12 ),
        OP( "exp2", exp2( v ), std::exp2( x ), std::log( 2. ) * std::exp2( x ), -12, 12 ),
        OP( "expm1", expm1( v ), std::expm1( x ), std::exp( x ), -8, 8 ),
        OP( "floor", floor( v ), std::floor( x ), 1 /* straight-through */, -30, 30, 0 ),
        OPS( "square", square( v ), x * x, 2 * x, -8, 8 ),
        OPS( "negative", negative( v ), -x, -1, -8, 8 ),
        OPS( "unary minus", -v, -x, -1, -8, 8 ),
        OPS( "identity", identity( v ), x, 1, -8, 8 ),
        OPS( "clip", clip( -1.0, 1.5 )( v ), std::min( 1.5, std::max( -1.0, x ) ), x < -1 || x > 1.5 ? 0 : 1, -4, 4, -1, 1.5 ),
        OPS( "clip from below", clip( 0.25 )( v ), std::max( 0.25, x ), x < 0.25 ? 0 : 1, -4, 4, 0.25 ),
#else
        OP( "llrint", llrint( v ), std::nearbyint( x ), 1 /* straight-through */, -30, 30, 0 ),
        OP( "llround", llround( v ), std::round( x ), 1 /* straight-through */, -30, 30, 0 ),
        OP( "log", log( v ), std::log( x ), 1 / x, 0.01, 40 ),
        OP( "log10", log10( v ), std::log10( x ), 1 / ( x * std::log( 10. ) ), 0.01, 40 ),
        OP( "log1p", log1p( v ), std::log1p( x ), 1 / ( 1 + x ), -0.95, 40 ),
        OP( "log2", log2( v ), std::log2( x ), 1 / ( x * std::log( 2. ) ), 0.01, 40 ),
        OP( "lrint", lrint( v ), std::nearbyint( x ), 1 /* straight-through */, -30, 30, 0 ),
        OP( "lround", lround( v ), std::round( x ), 1 /* straight-through */, -30, 30, 0 ),
        OP( "nearbyint", nearbyint( v ), std::nearbyint( x ), 1 /* straight-through */, -30, 30, 0 ),
        OP( "rint", rint( v ), std::nearbyint( x ), 1 /* straight-through */, -30, 30, 0 ),
        OP( "round", round( v ), std::round( x ), 1 /* straight-through */, -30, 30, 0 ),
        OP( "trunc", trunc( v ), std::trunc( x ), 1 /* straight-through */, -30, 30, 0 ),
        OPS( "sign", sign( v ), sg( x ), 0, -4, 4, 0 ),
        OP( "sin", sin( v ), std::sin( x ), std::cos( x ), -20, 20 ),
        OP( "sinh", sinh( v ), std::sinh( x ), std::cosh( x ), -8, 8 ),
        OP( "sqrt", sqrt( v ), std::sqrt( x ), 0.5 / std::sqrt( x ), 0.01, 60 ),
        OP( "tan", tan( v ), std::tan( x ), 1 / ( std::cos( x ) * std::cos( x ) ), -1.4, 1.4 ),
        OP( "tanh", tanh( v ), std::tanh( x ), 1 - std::tanh( x ) * std::tanh( x ), -4, 4 ),
        OPS( "inverse", inverse( v ), 1 / x, -1 / ( x * x ), -6, 6, 0 ),
        OPS( "ex + a", v + 2.25, x + 2.25, 1, -8, 8 ),
        OPS( "a + ex", 2 + v, x + 2, 1, -8, 8 ),
        OPS( "ex - a", v - 2.25f, x - 2.25, 1, -8, 8 ),
        OPS( "a - ex", 3 - v, 3 - x, -1, -8, 8 ),
        OPS( "ex - unsigned", v - 3u, x - 3, 1, -8, 8 ),
        OPS( "ex * a", v * 2.5, x * 2.5, 2.5, -8, 8 ),
        OPS( "a * ex", -3 * v, -3 * x, -3, -8, 8 ),
        OPS( "ex / a", v / 4, x / 4, 0.25, -8, 8 ),
        OPS( "a / ex", 3.0 / v, 3 / x, -3 / ( x * x ), -6, 6, 0 ),
        OPS( "unary plus", ( +v ) * 1.0, x, 1, -8, 8 ),
        OPS( "pow 2.5", pow( v, 2.5 ), std::pow( x, 2.5 ), 2.5 * std::pow( x, 1.5 ), 0.05, 9 ),
        OPS( "pow 3", pow( v, 3 ), x * x * x, 3 * x * x, -6, 6 ),
        OPS( "pow -1", pow( v, -1.0 ), 1 / x, -1 / ( x * x ), -6, 6, 0 ),
        OPS( "pow 1", pow( v, 1.0 ), x, 1, -6, 6 ),
        OPS( "pow 2", pow( v, 2.0 ), x * x, 2 * x, -6, 6 ),
        OPS( "pow 4", pow( v, 4 ), x * x * x * x, 4 * x * x * x, -6, 6 ),
        OPS( "ones_like", ceras::ones_like( v ), 1, 0, -8, 8 ),
        OPS( "zeros_like", ceras::zeros_like( v ), 0, 0, -8, 8 ),
#endif
    };
    return t;
}
template< typename T > static void go( Ctx& c, Op1 const& op, Ex_<T> e, Var<T> v, Nd first, int rounds )
{
    bool fl = std::is_same_v<T, float>;
    Opt o; o.rtol = fl ? 3e-6 : 1e-13; o.atol = fl ? 1e-6 : 1e-14; o.grtol = fl ? 2e-4 : 1e-9; o.gatol = fl ? 1e-5 : 1e-11; o.rounds = rounds; o.shape = true;
    o.redraw = [&]( size_t, Nd const& a ) { Shape s = c.rng.flip( 0.4 ) ? rshape( c.rng, 1, 4, 5, 120 ) : a.shape; return rnd_off( c.rng, s, op.lo, op.hi, op.kinks, 1e-3 ); };
    o.agrad = [&]( std::vector<Nd> const& xs, Nd const& seed ) { Nd g = seed; for ( size_t i = 0; i < g.size(); ++i ) g.v[i] = seed.v[i] * op.df( xs[0].v[i] ); return std::vector<Nd>{ g }; };
    check_ex<T>( c, { v }, e, [&]( std::vector<Nd> const& xs ) { return xs[0].map( op.fn ); }, o );
}
SCEN( "unary", 380, 20000 )
{
    auto const& op = table()[ c.kase % table().size() ]; bool fl = c.rng.flip( 0.3 ); Shape s = rshape( c.rng, 1, 4, 6, 200 );
    c.describe( sf( "%s %s %s", op.name, fl ? "float" : "double", str( s ).c_str() ) ); c.count( op.name );
    Nd x = rnd_off( c.rng, s, op.lo, op.hi, op.kinks, 1e-3 );
    int rounds = 1 + c.rng.below( 3 );
    if ( fl ) { quant<float>( x ); auto v = var<float>( x ); go<float>( c, op, op.f( v ), v, x, rounds ); }
    else { auto v = var<double>( x ); go<double>( c, op, op.d( v ), v, x, rounds ); }
}
// a unary operation applied to the same operand from two places contributes to the gradient once per use
SCEN( "unary-twice", 60, 2000 )
{
    auto const& op = table()[ c.kase % table().size() ]; Shape s = rshape( c.rng, 1, 3, 5, 60 ); c.describe( sf( "%s twice %s", op.name, str( s ).c_str() ) );
    Nd x = rnd_off( c.rng, s, op.lo, op.hi, op.kinks, 1e-3 ); auto v = var<double>( x ); auto a = op.d( v ), b = op.d( v );
    auto ra = a.run(); Snap<double> sa{ ra, "first result" }; Nd g = rnd( c.rng, s, -1, 1 ); a.back( tens<double>( g ) ); Nd g1 = nd( v.gradient() );
    auto rb = b.run(); sa.check( c ); same( c, rb, nd( ra ), 0, 0, "repeat" ); b.back( tens<double>( g ) ); same( c, v.gradient(), g1, 1e-14, 0, "repeat-gradient" );
    a.run(); a.back( tens<double>( g ) ); a.back( tens<double>( g ) ); Nd g2 = g1; for ( auto& q : g2.v ) q *= 2; same( c, v.gradient(), g2, 1e-12, 1e-300, "accumulated-gradient" );
}
// arguments random drawing never meets: zeros, tiny and huge numbers, exact halves and their neighbours, saturated arguments.
// The value must agree to relative precision; the gradient where the analytic derivative is finite and no kink is hit.
template< typename T > static void special( Ctx& c, Op1 const& op, std::function<Ex_<T>( Var<T> const& )> mk )
{
    auto& r = c.rng; bool fl = std::is_same_v<T, float>; std::vector<double> all{ 0., -0., 0.5, std::nextafter( (T) 0.5, (T) 0 ), std::nextafter( (T) 0.5, (T) 1 ), 1, 1.5, 2, 2.5, 3.5, 0.25, 4.5, 1e6 + 0.5, 8388607.5, 8388609, 16777217, 20.5, 30, 60, 80, 1e4, 1e9 + 0.5, 1e15 };
    for ( double q : { 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-12, 1e-18, 1e-25, 1e-30 } ) all.push_back( q * r.real( 1, 2 ) ); if ( !fl ) for ( double q : { 1e-60, 1e-150, 1e-290, 1e60, 1e150, 700., 300., 4503599627370495.5 } ) all.push_back( q ); for ( int i = 0; i < 6; ++i ) all.push_back( r.range( 0, 40 ) * 0.5 );
    std::vector<double> xs; bool rounding = std::strstr( op.name, "ll" ) == op.name || std::strstr( op.name, "lr" ) == op.name; bool bounded = !std::strcmp( op.name, "inverse" ) || !std::strcmp( op.name, "a / ex" ); /* the reciprocal is bounded by 1/eps around zero */ double big = fl ? 1e37 : 1e300, tiny = fl ? 1e-36 : 1e-300;
    for ( double x : all ) for ( double q : { x, -x } ) { q = (T) q; double y = op.fn( q ); if ( bounded && std::abs( q ) < 2e-8 ) continue; if ( !std::isfinite( y ) || std::abs( y ) > big || ( y != 0 && std::abs( y ) < tiny ) || ( rounding && std::abs( q ) > 9e17 ) ) continue; if ( std::strcmp( op.name, "tan" ) == 0 || std::strcmp( op.name, "sin" ) == 0 || std::strcmp( op.name, "cos" ) == 0 ) if ( std::abs( q ) > 1e3 ) continue; xs.push_back( q ); }
    for ( size_t i = xs.size(); i-- > 1; ) std::swap( xs[i], xs[r.below( i + 1 )] ); if ( r.flip() && xs.size() > 3 ) xs.resize( r.range( 1, (int) xs.size() ) );
    Nd x{ Shape{ xs.size() }, xs }; auto v = var<T>( x ); auto e = mk( v ); auto got = e.run(); c.count( "special arguments", xs.size() ); same( c, got, x.map( op.fn ), fl ? 4e-6 : 2e-13, fl ? 1e-36 : 1e-300, "special", op.name );
    Nd g = rnd( r, x.shape, -1.5, 1.5 ); quant<T>( g ); e.back( tens<T>( g ) ); auto gg = nd( v.gradient() ); c.require( gg.shape == x.shape, "special-gradient:shape", op.name );
    for ( size_t i = 0; i < xs.size(); ++i ) { double q = xs[i], d = op.df( q ) * g[i]; bool near = false; for ( double k : op.kinks ) near = near || std::abs( q - k ) < 1e-3; if ( near || q < op.lo || q > op.hi || !std::isfinite( d ) || std::abs( d ) > big ) continue; c.count( "special gradients" ); ++c.checks; if ( !close( gg[i], d, fl ? 2e-4 : 1e-9, fl ? 1e-5 : 1e-11 ) ) c.fail( "special-gradient:value", sf( "%s at %.17g: %.12g expected %.12g", op.name, q, gg[i], d ) ); }
}
SCEN( "unary-special", 220, 6000 )
{
    auto const& op = table()[ c.kase % table().size() ]; bool fl = ( c.kase / table().size() ) % 3 == 1; c.describe( sf( "%s special arguments %s", op.name, fl ? "float" : "double" ) );
    if ( fl ) special<float>( c, op, op.f ); else special<double>( c, op, op.d );
}
#if PART == 0
SCEN( "abs-at-zero", 4, 8 )
{
    c.describe( "abs at zero" ); auto v = var<double>( Nd{ Shape{ 3 }, std::vector<double>{ 0., -1., 2. } } ); auto e = ceras::abs( v ); auto r = sess<double>().run( e ); e.backward( ceras::ones_like( r ) );
    same( c, v.gradient(), Nd{ Shape{ 3 }, std::vector<double>{ 0., -1., 1. } }, 0, 0, "abs-zero" );
}
#endif
