// A02: binary arithmetic expressions: value and both gradients, every broadcastable shape pair.
#include "cx.hpp"
using namespace vp;
static Opt opt( bool fl ) { Opt o; o.rtol = fl ? 1e-5 : 1e-12; o.atol = fl ? 1e-5 : 1e-12; o.grtol = fl ? 3e-3 : 1e-5; o.gatol = fl ? 3e-3 : 1e-6; o.shape = true; return o; }
// a pair of shapes broadcastable by the numpy rule
static void bpair( Rng& r, Shape& a, Shape& b )
{
    for ( ;; )
    {
        Shape full = rshape( r, 1, 4, 4, 80 ); auto cut = [&]( Shape s ) { size_t k = r.below( s.size() ); s.erase( s.begin(), s.begin() + ( r.flip( 0.4 ) ? k : 0 ) ); for ( auto& x : s ) if ( r.flip( 0.25 ) ) x = 1; return s; };
        a = r.flip( 0.4 ) ? full : cut( full ); b = r.flip( 0.4 ) ? full : cut( full ); return;
    }
}
// one operand's shape is a suffix of the other's (possibly padded with leading ones)
static void spair( Rng& r, Shape& a, Shape& b )
{
    a = rshape( r, 1, 4, 4, 80 ); size_t k = r.below( a.size() ); b = Shape( a.begin() + k, a.end() ); if ( k && r.flip( 0.4 ) ) b.insert( b.begin(), r.below( k + 1 ), 1UL ); if ( r.flip() ) std::swap( a, b );
}
struct Op2 { char const* name; int kind; /* 0 same shape, 1 suffix, 2 numpy broadcast */ std::function<Ex_<double>( Var<double> const&, Var<double> const& )> d; std::function<Ex_<float>( Var<float> const&, Var<float> const& )> f; std::function<double( double, double )> fn; bool away0; };
#define OP( NAME, KIND, EXPR, FN, AWAY ) { NAME, KIND, []( Var<double> const& u, Var<double> const& v ) { using namespace ceras; return erase<double>( EXPR ); }, []( Var<float> const& u, Var<float> const& v ) { using namespace ceras; return erase<float>( EXPR ); }, []( double x, double y ) { return FN; }, AWAY }
static std::vector<Op2> const& table()
{
    static std::vector<Op2> t{
        OP( "plus", 2, plus( u, v ), x + y, false ), OP( "operator +", 2, u + v, x + y, false ), OP( "minus", 2, minus( u, v ), x - y, false ), OP( "operator -", 2, u - v, x - y, false ),
        OP( "elementwise_product", 1, elementwise_product( u, v ), x * y, false ), OP( "elementwise_multiply", 1, elementwise_multiply( u, v ), x * y, false ), OP( "hadamard_product", 1, hadamard_product( u, v ), x * y, false ),
        OP( "divide", 1, divide( u, v ), x / y, true ), OP( "operator /", 1, u / v, x / y, true ), OP( "hypot", 2, hypot( u, v ), std::sqrt( x * x + y * y ), true ),
        OP( "maximum", 0, maximum( u, v ), std::max( x, y ), false ), OP( "minimum", 0, minimum( u, v ), std::min( x, y ), false ), OP( "atan2", 0, atan2( u, v ), std::atan2( x, y ), true ),
        OP( "equal", 0, equal( u, v, 0.5f ), std::abs( x - y ) > 0.5 ? 0. : 1., false ),
    };
    return t;
}
template< typename T > static void go2( Ctx& c, Op2 const& op, Nd a, Nd b, auto const& make )
{
    bool fl = std::is_same_v<T, float>; if ( fl ) { quant<float>( a ); quant<float>( b ); }
    auto u = var<T>( a ), v = var<T>( b ); Opt o = opt( fl ); o.rounds = 1 + c.rng.below( 2 );
    std::vector<Nd> orig{ a, b };
    o.redraw = [&]( size_t i, Nd const& q ) { Nd r = q; if ( i == 0 ) for ( auto& x : r.v ) x = -x; return r; }; // keeps distances away from the kinks of max/min/equal below 0.5? checked in draw
    check_ex<T>( c, { u, v }, make( u, v ), [&]( std::vector<Nd> const& xs ) { return bin( xs[0], xs[1], op.fn ); }, o );
}
SCEN( "binary", 280, 12000 )
{
    auto const& op = table()[ c.kase % table().size() ]; Shape sa, sb;
    if ( op.kind == 0 ) sa = sb = rshape( c.rng, 1, 4, 5, 100 ); else if ( op.kind == 1 ) spair( c.rng, sa, sb ); else bpair( c.rng, sa, sb );
    bool fl = c.rng.flip( 0.25 ); c.describe( sf( "%s %s %s %s", op.name, fl ? "float" : "double", str( sa ).c_str(), str( sb ).c_str() ) ); c.count( op.name );
    Nd a = rnd_off( c.rng, sa, -3, 3, op.away0 ? std::vector<double>{ 0 } : std::vector<double>{}, 0.3 ), b = rnd_off( c.rng, sb, -3, 3, op.away0 ? std::vector<double>{ 0 } : std::vector<double>{}, 0.3 );
    if ( op.kind == 0 ) for ( size_t i = 0; i < a.size(); ++i ) for ( int k = 0; k < 100; ++k )
    { // keep both u and -u away from the kinks
        bool bad = false; for ( double s : { 1., -1. } ) { double d = std::abs( s * a.v[i] - b.v[i] ); if ( d < 0.02 || std::abs( d - 0.5 ) < 0.02 ) bad = true; } if ( !bad ) break; a.v[i] = c.rng.real( 0.4, 3 ) * ( c.rng.flip() ? 1 : -1 );
    }
    if ( fl ) go2<float>( c, op, a, b, op.f ); else go2<double>( c, op, a, b, op.d );
}
SCEN( "matrix-product", 40, 2500 )
{
    unsigned long m = c.rng.range( 1, 7 ), k = c.rng.range( 1, 7 ), n = c.rng.range( 1, 7 ); if ( c.rng.flip( 0.1 ) ) { m = c.rng.range( 20, 40 ); n = 20; }
    bool fl = c.rng.flip( 0.25 ); c.describe( sf( "matmul %s %lux%lux%lu", fl ? "float" : "double", m, k, n ) );
    Nd a = rnd( c.rng, { m, k } ), b = rnd( c.rng, { k, n } ); quant<float>( a ); quant<float>( b ); Opt o = opt( fl ); o.rounds = 2;
    unsigned long m2 = c.rng.range( 1, 9 );
    o.redraw = [&]( size_t i, Nd const& q ) { return i == 0 ? rnd( c.rng, { m2, k } ) : rnd( c.rng, q.shape ); };
    auto ref = []( std::vector<Nd> const& xs ) { return matmul( xs[0], xs[1] ); };
    if ( fl ) { auto u = var<float>( a ), v = var<float>( b ); check_ex<float>( c, { u, v }, erase<float>( u * v ), ref, o ); }
    else { auto u = var<double>( a ), v = var<double>( b ); check_ex<double>( c, { u, v }, c.rng.flip() ? erase<double>( u * v ) : erase<double>( ceras::multiply( u, v ) ), ref, o ); }
}
// an operand used on both sides
SCEN( "same-operand", 30, 1000 )
{
    Shape s = rshape( c.rng, 1, 3, 5, 60 ); Nd a = rnd_off( c.rng, s, -3, 3, { 0 }, 0.3 ); auto u = var<double>( a ); int w = c.rng.below( 6 ); c.describe( sf( "same operand form %d %s", w, str( s ).c_str() ) ); Opt o = opt( false );
    using namespace ceras;
    Ex_<double> e = w == 0 ? erase<double>( u + u ) : w == 1 ? erase<double>( u - u ) : w == 2 ? erase<double>( ceras::elementwise_product( u, u ) ) : w == 3 ? erase<double>( u / u ) : w == 4 ? erase<double>( ceras::elementwise_product( ceras::elementwise_product( u, u ), u ) ) : erase<double>( hypot( u, u ) );
    check_ex<double>( c, { u }, e, [w]( std::vector<Nd> const& xs ) { return xs[0].map( [w]( double x ) { return w == 0 ? 2 * x : w == 1 ? 0 : w == 2 ? x * x : w == 3 ? 1 : w == 4 ? x * x * x : std::sqrt( 2 * x * x ); } ); }, o );
}
// value expressions on either side
SCEN( "value-operand", 40, 1500 )
{
    Shape s = rshape( c.rng, 1, 4, 5, 80 ); Nd a = rnd_off( c.rng, s, -3, 3, { 0 }, 0.3 ); auto u = var<double>( a ); double q = c.rng.real( 0.5, 3 ) * ( c.rng.flip() ? 1 : -1 ); ceras::value<double> k{ q };
    int w = c.rng.below( 7 ); c.describe( sf( "value form %d %s", w, str( s ).c_str() ) ); Opt o = opt( false ); o.rounds = 2; using namespace ceras;
    Ex_<double> e = w == 0 ? erase<double>( u + k ) : w == 1 ? erase<double>( k + u ) : w == 2 ? erase<double>( u - k ) : w == 3 ? erase<double>( k - u ) : w == 4 ? erase<double>( u * k ) : w == 5 ? erase<double>( k * u ) : erase<double>( k / u );
    check_ex<double>( c, { u }, e, [w, q]( std::vector<Nd> const& xs ) { return xs[0].map( [w, q]( double x ) { return w == 0 || w == 1 ? x + q : w == 2 ? x - q : w == 3 ? q - x : w == 6 ? q / x : x * q; } ); }, o );
}
// constants take part but receive no gradient
SCEN( "constant-operand", 30, 1000 )
{
    Shape s = rshape( c.rng, 1, 3, 5, 60 ); Nd a = rnd( c.rng, s, 0.5, 3 ), b = rnd( c.rng, s, 0.5, 3 ); auto u = var<double>( a ); ceras::constant<ceras::tensor<double>> k{ tens<double>( b ) }; Snap<double> sk{ k.data(), "constant" };
    int w = c.rng.below( 4 ); c.describe( sf( "constant form %d %s", w, str( s ).c_str() ) ); Opt o = opt( false ); o.rounds = 2; using namespace ceras;
    Ex_<double> e = w == 0 ? erase<double>( u + k ) : w == 1 ? erase<double>( k - u ) : w == 2 ? erase<double>( ceras::elementwise_product( u, k ) ) : erase<double>( k / u );
    check_ex<double>( c, { u }, e, [&]( std::vector<Nd> const& xs ) { return bin( xs[0], b, [w]( double x, double y ) { return w == 0 ? x + y : w == 1 ? y - x : w == 2 ? x * y : y / x; } ); }, o );
    sk.check( c );
}
// where both operands tie, the incoming gradient is split between them without loss
SCEN( "ties", 10, 200 )
{
    Shape s = rshape( c.rng, 1, 3, 5, 60 ); Nd a = rnd( c.rng, s ); auto u = var<double>( a ), v = var<double>( a ); bool mx = c.rng.flip(); c.describe( sf( "%s tie %s", mx ? "max" : "min", str( s ).c_str() ) );
    Nd g = rnd( c.rng, s ); auto run = [&]( auto e ) { auto r = sess<double>().run( e ); same( c, r, a, 0, 0, "tie-value" ); e.backward( tens<double>( g ) ); }; if ( mx ) run( ceras::maximum( u, v ) ); else run( ceras::minimum( u, v ) );
    Nd sum = bin( nd( u.gradient() ), nd( v.gradient() ), []( double x, double y ) { return x + y; } ); same( c, sum, g, 1e-14, 0, "tie-gradient" );
}
