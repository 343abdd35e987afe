// A07: activation functions: documented value on the whole real line, true derivative (softmax: Jacobian), incoming gradient untouched.
#include "cx.hpp"
using namespace vp; using namespace ceras;
using F1 = std::function<double( double )>;
static double sg( double x ) { return x >= 0 ? 1 / ( 1 + std::exp( -x ) ) : std::exp( x ) / ( 1 + std::exp( x ) ); }
static double sp( double x ) { return std::max( x, 0.0 ) + std::log1p( std::exp( -std::abs( x ) ) ); }

template< typename T > struct Act { char const* name; std::function<Ex_<T>( Var<T> )> make; F1 f; std::vector<double> kinks; double big; };
template< typename T > std::vector<Act<T>> acts()
{
    std::vector<Act<T>> v; using X = Var<T>;
#define A_( NAME, EXPR, FUN, BIG, ... ) v.push_back( { NAME, []( X x ) { return erase<T>( EXPR ); }, []( double x ) -> double { return FUN; }, { __VA_ARGS__ }, BIG } )
#if PART == 0
    A_( "relu", relu( x ), x > 0 ? x : 0, 1e30, 0 );
    A_( "relu6", relu6( x ), x < 0 ? 0 : x > 6 ? 6 : x, 1e30, 0, 6 );
    A_( "leaky_relu 0.2", leaky_relu( T( 0.2 ) )( x ), x > 0 ? x : T( 0.2 ) * x, 1e30, 0 );
    A_( "leaky_relu 0.7", leaky_relu( T( 0.7 ) )( x ), x > 0 ? x : T( 0.7 ) * x, 1e30, 0 );
    A_( "prelu 0.1", prelu( T( 0.1 ) )( x ), x > 0 ? x : T( 0.1 ) * x, 1e30, 0 );
    A_( "negative_relu", negative_relu( x ), x > 0 ? -x : 0, 1e30, 0 );
    A_( "elu 1", elu( T( 1 ) )( x ), x > 0 ? x : std::exp( x ) - 1, 600, 0 );
    A_( "elu 0.5", elu( T( 0.5 ) )( x ), x > 0 ? x : T( 0.5 ) * ( std::exp( x ) - 1 ), 600, 0 );
    A_( "selu", selu( x ), x >= 0 ? T( 1.0507 ) * x : T( 1.0507 ) * T( 1.67326 ) * ( std::exp( x ) - 1 ), 600, 0 );
    A_( "hard_sigmoid", hard_sigmoid( x ), x > 1 ? 1 : x < -1 ? 0 : ( x + 1 ) / 2, 1e30, -1, 1 );
    A_( "exponential", exponential( x ), std::exp( x ), 80, -1e9 );
    A_( "sigmoid", sigmoid( x ), sg( x ), 1e4, -1e9 );
#else
    A_( "softplus", softplus( x ), sp( x ), 1e4, -1e9 );
    A_( "softsign", softsign( x ), x / ( 1 + std::abs( x ) ), 1e6, -1e9 );
    A_( "gelu", gelu( x ), 0.5 * x * ( 1 + std::tanh( 0.79788456080286535588 * x * ( 1 + 0.044715 * x * x ) ) ), 1e3, -1e9 );
    A_( "swish", swish( x ), x * sg( x ), 600, -1e9 );
    A_( "silu", silu( x ), x * sg( x ), 600, -1e9 );
    A_( "tank_shrink", tank_shrink( x ), x - std::tanh( x ), 1e6, -1e9 );
    A_( "mish", mish( x ), x * std::tanh( sp( x ) ), 600, -1e9 );
    A_( "lisht", lisht( x ), x * std::tanh( x ), 1e6, -1e9 );
    A_( "gaussian", gaussian( x ), std::exp( -x * x ), 20, -1e9 );
    if constexpr ( std::is_same_v<T, double> )
    {
        A_( "soft_sign", soft_sign( x ), sg( 40 * x ), 1e3, -1e9 ); A_( "unit_step", unit_step( x ), sg( 40 * x ), 1e3, -1e9 ); A_( "binary_step", binary_step( x ), sg( 40 * x ), 1e3, -1e9 );
        A_( "heaviside_step 1.5", heaviside_step( 1.5 )( x ), sg( 3 * x ), 1e3, -1e9 );
    }
#endif
    return v;
}
template< typename T > void one( Ctx& c )
{
    static auto const t = acts<T>(); auto const& a = t[c.kase % t.size()]; bool dbl = sizeof( T ) == 8; Shape sh = rshape( c.rng, 1, 4, 5, 60 ); int regime = c.rng.below( 4 ); double m = regime == 0 ? 1 : regime == 1 ? 4 : regime == 2 ? 10 : 0.3;
    c.describe( sf( "%s<%s> %s |x|<=%g", a.name, dbl ? "double" : "float", str( sh ).c_str(), m ) );
    Nd X = rnd_off( c.rng, sh, -m, m, a.kinks, dbl ? 0.01 : 0.05 ); quant<T>( X ); auto x = var<T>( X );
    Opt o; o.rounds = c.rng.range( 1, 3 ); o.shape = true; o.rtol = dbl ? 1e-10 : 3e-5; o.atol = dbl ? 1e-10 : 3e-5; o.grtol = dbl ? 2e-6 : 2e-3; o.gatol = dbl ? 2e-6 : 2e-3; F1 f = a.f;
    o.redraw = [&]( size_t, Nd const& n ) { Shape q = n.shape; if ( c.rng.flip( 0.3 ) ) q[0] = c.rng.range( 1, 5 ); return rnd_off( c.rng, q, -m, m, a.kinks, dbl ? 0.01 : 0.05 ); };
    check_ex<T>( c, { x }, a.make( x ), [f]( auto const& q ) { return q[0].map( f ); }, o ); c.count( a.name );
}
SCEN( "A07/double", 400, 12000 ) { one<double>( c ); }
SCEN( "A07/float", 200, 5000 ) { one<float>( c ); }
// large arguments: the value stays the documented one and the gradient stays finite
SCEN( "A07/large", 200, 4000 )
{
    static auto const t = acts<double>(); auto const& a = t[c.kase % t.size()]; Shape sh = rshape( c.rng, 1, 3, 5, 40 ); c.describe( sf( "%s %s up to %g", a.name, str( sh ).c_str(), a.big ) );
    Nd X{ sh }; for ( auto& v : X.v ) v = ( c.rng.flip() ? 1 : -1 ) * a.big * std::pow( 10, -c.rng.real( 0, 2 ) ); auto x = var<double>( X ); auto e = a.make( x ); F1 f = a.f; same( c, nd( e.run() ), X.map( f ), 1e-9, 1e-9, "forward" );
    e.back( tens<double>( Nd{ sh, 1.0 } ) ); for ( auto v : raw( x.gradient() ) ) c.require( std::isfinite( v ), "gradient:not-finite", a.name ); if ( std::string( a.name ) == "exponential" || std::string( a.name ) == "gaussian" ) return; 
    Nd d{ sh }; for ( size_t i = 0; i < X.size(); ++i ) { double h = std::abs( X.v[i] ) * 1e-6; d.v[i] = ( f( X.v[i] + h ) - f( X.v[i] - h ) ) / ( ( X.v[i] + h ) - ( X.v[i] - h ) ); }
    if ( a.big <= 1e6 || true ) for ( size_t i = 0; i < X.size(); ++i ) if ( std::abs( X.v[i] ) > 25 ) c.require( close( x.gradient().data()[i], d.v[i], 1e-3, 1e-3 ), "gradient:value", sf( "at %g: %g expected %g", X.v[i], x.gradient().data()[i], d.v[i] ) );
}
#if PART == 1
static Nd softmax_ref( Nd const& x ) { return Nd{ x.shape, [&]{ std::vector<double> r( x.size() ); size_t n = x.shape.back(); for ( size_t i = 0; i < x.size(); i += n ) { double m = -1e300, s = 0; for ( size_t j = 0; j < n; ++j ) m = std::max( m, x.v[i + j] ); for ( size_t j = 0; j < n; ++j ) s += r[i + j] = std::exp( x.v[i + j] - m ); for ( size_t j = 0; j < n; ++j ) r[i + j] /= s; } return r; }() }; }
SCEN( "A07/softmax", 120, 3000 )
{
    Shape sh = rshape( c.rng, 1, 4, 6, 60 ); double m = c.rng.pick( { 1.0, 5.0, 30.0 } ); c.describe( "softmax " + str( sh ) + sf( " |x|<=%g", m ) ); auto x = var<double>( rnd( c.rng, sh, -m, m ) ); auto e = erase<double>( softmax( x ) );
    Nd p = nd( e.run() ); size_t n = sh.back(); for ( size_t i = 0; i < p.size(); i += n ) { double s = 0; for ( size_t j = 0; j < n; ++j ) { c.require( p.v[i + j] > 0 && p.v[i + j] <= 1, "softmax:range" ); s += p.v[i + j]; } c.require( close( s, 1, 1e-12, 1e-12 ), "softmax:sum", sf( "%.15g", s ) ); }
    Opt o; o.rounds = 2; o.shape = true; o.grtol = 1e-6; o.gatol = 1e-7; o.redraw = [&]( size_t, Nd const& q ) { Shape s = q.shape; if ( s.size() > 1 && c.rng.flip() ) s[0] = c.rng.range( 1, 5 ); return rnd( c.rng, s, -m, m ); };
    check_ex<double>( c, { x }, e, []( auto const& q ) { return softmax_ref( q[0] ); }, o );
}
SCEN( "A07/softmax-extreme", 60, 1500 )
{
    Shape sh = rshape( c.rng, 1, 3, 6, 60 ); c.describe( "softmax of extreme rows " + str( sh ) ); Nd X{ sh }; for ( auto& v : X.v ) v = c.rng.pick( { 0.0, 700.0, -700.0, 1e5, -1e5, 3.0 } ); auto x = var<double>( X ); auto e = erase<double>( softmax( x ) ); same( c, nd( e.run() ), softmax_ref( X ), 1e-9, 1e-300, "forward" );
    e.back( tens<double>( Nd{ sh, 1.0 } ) ); same( c, x.gradient(), Nd{ sh }, 0, 1e-12, "gradient" );
}
SCEN( "A07/crelu", 40, 800 )
{
    Shape sh = rshape( c.rng, 1, 3, 5, 60 ); c.describe( "crelu " + str( sh ) ); auto x = var<double>( rnd_off( c.rng, sh, -2, 2, { 0 } ) ); Opt o; o.rounds = 2;
    check_expr<double>( c, { x }, crelu( x ), []( auto const& q ) { Shape s = q[0].shape; size_t n = s.back(); s.back() *= 2; Nd r{ s }; for ( size_t k = 0; k < q[0].size(); ++k ) { double v = q[0].v[k]; r.v[k / n * 2 * n + k % n] = std::max( v, 0.0 ); r.v[k / n * 2 * n + n + k % n] = std::max( -v, 0.0 ); } return r; }, o );
}
#endif
