// O01: every optimizer step mirrored by its recurrence, from the gradient the library itself computes (A10 decides the gradient).
#include "graph.hpp"
using namespace vp; using namespace ceras;
enum Kind { SGD_, ADAGRAD, RMSPROP, ADADELTA, ADAM, GD, NK };
static char const* names[] = { "sgd", "adagrad", "rmsprop", "adadelta", "adam", "gradient_descent" };
template< typename T > struct Hyper { int k; unsigned long batch; T lr, a, b, decay; bool nesterov; };
// one step object of erased type
struct Step { virtual ~Step() {} virtual void go() = 0; };
template< typename O > struct Step_ : Step { O o; bool sess_run; template< typename F > Step_( F f, bool s ) : o( f() ), sess_run{ s } {} void go() override { if ( sess_run ) sess<typename O::tensor_type::value_type>().run( o ); else o.forward(); } };
template< typename F > std::unique_ptr<Step> step( F f, bool s ) { return std::make_unique<Step_<decltype( f() )>>( f, s ); }
template< typename T, typename L > std::unique_ptr<Step> make( Hyper<T> const& h, L& loss, Rng& r )
{
    bool f = r.flip(), s = r.flip();
    switch ( h.k )
    {
        case SGD_: if ( f ) return step( [&]{ return SGD( h.batch, h.lr, h.a, h.decay, h.nesterov )( loss ); }, s ); return step( [&]{ return sgd<L, T>( loss, h.batch, h.lr, h.a, h.decay, h.nesterov ); }, s );
        case ADAGRAD: if ( f ) return step( [&]{ return Adagrad( h.batch, h.lr, h.decay )( loss ); }, s ); return step( [&]{ return ada_grad<L, T>( loss, h.batch, h.lr, h.decay ); }, s );
        case RMSPROP: if ( f ) return step( [&]{ return RMSprop( h.batch, h.lr, h.a, h.decay )( loss ); }, s ); return step( [&]{ return rms_prop<L, T>( loss, h.batch, h.lr, h.a, h.decay ); }, s );
        case ADADELTA: if ( f ) return step( [&]{ return Adadelta( h.batch, h.a )( loss ); }, s ); return step( [&]{ return ada_delta<L, T>( loss, h.batch, h.a ); }, s );
        case ADAM: if ( f ) return step( [&]{ return Adam( h.batch, h.lr, h.a, h.b )( loss ); }, s ); return step( [&]{ return adam<L, T>( loss, h.batch, h.lr, h.a, h.b ); }, s );
        default: return step( [&]{ return gradient_descent<L, T>( loss, h.batch, h.lr, h.a ); }, s );
    }
}
template< typename T > struct Mirror
{
    Hyper<T> h; double lr; unsigned long it = 0; std::map<int, std::vector<Nd>> st; double const eps = 1e-8;
    explicit Mirror( Hyper<T> const& q ) : h{ q } { lr = ( q.k == ADADELTA ? 1.0 : (double) q.lr ) / q.batch; }
    void decay() { if ( h.k <= RMSPROP ) lr /= 1.0 + std::max<double>( 0, h.decay ) * it; }
    // the new data of variable i, and how large its terms are
    Nd next( int i, Nd const& d, Nd const& g )
    {
        auto& s = st[i]; while ( s.size() < 2 ) s.push_back( Nd{ d.shape } ); Nd &m = s[0], &v = s[1]; Nd r = d; double a = h.a;
        for ( size_t k = 0; k < d.size(); ++k ) switch ( h.k )
        {
            case SGD_: { double mom = std::max( 0.0, a ); m[k] = mom * m[k] - lr * g[k]; r[k] += h.nesterov ? mom * m[k] - lr * g[k] : m[k]; break; }
            case ADAGRAD: m[k] += g[k] * g[k]; r[k] -= lr * g[k] / ( eps + std::sqrt( m[k] ) ); break;
            case RMSPROP: m[k] = it == 0 ? g[k] * g[k] : a * m[k] + ( 1 - a ) * g[k] * g[k]; r[k] -= lr * g[k] / ( eps + std::sqrt( m[k] ) ); break;
            case ADADELTA: { m[k] = a * m[k] + ( 1 - a ) * g[k] * g[k]; double u = g[k] * lr * std::sqrt( ( v[k] + eps ) / ( m[k] + eps ) ); r[k] -= u; v[k] = a * v[k] + ( 1 - a ) * u * u; break; }
            case ADAM: { double b = h.b; m[k] = a * m[k] + ( 1 - a ) * g[k]; v[k] = b * v[k] + ( 1 - b ) * g[k] * g[k]; double l = lr * std::sqrt( 1 - std::pow( b, it + 1.0 ) ) / ( 1 - std::pow( a, it + 1.0 ) ); r[k] -= it > 1 ? l * m[k] / ( eps + std::sqrt( v[k] ) ) : lr * g[k]; break; }
            default: r[k] -= lr * g[k];
        }
        return r;
    }
};
template< typename T > Hyper<T> draw( Rng& r, int k )
{
    Hyper<T> h{}; h.k = k; h.batch = r.pick( { 1, 1, 2, 7, 32 } ); h.lr = (T) ( std::pow( 10.0, r.real( -3, -0.3 ) ) * h.batch ); h.decay = (T) ( r.flip() ? 0 : r.flip( 0.1 ) ? -0.5 : r.real( 0.001, 0.5 ) ); h.nesterov = r.flip();
    h.a = (T) ( k == SGD_ ? ( r.flip( 0.3 ) ? 0 : r.flip( 0.1 ) ? -0.3 : r.real( 0.1, 0.98 ) ) : r.real( 0.5, 0.99 ) ); h.b = (T) r.real( 0.9, 0.9995 ); return h;
}
// runs the step and compares; grads: computed by an own forward/backward pair just before
template< typename T > struct Watch
{
    Ctx& c; std::vector<Var<T>> vs; std::function<void()> fwd; std::function<void( ceras::tensor<T> const& )> bwd; double rt, at;
    bool one( Mirror<T>& m, Step& s, std::string const& when )
    {
        learning_phase = 1; fwd(); bwd( ceras::ones<T>( { 1 } ) ); std::vector<Nd> g, d; for ( auto& v : vs ) { d.push_back( nd( v.data() ) ); Nd q = nd( v.gradient() ); if ( q.shape != d.back().shape ) q = Nd{ d.back().shape }; g.push_back( q ); }
        for ( auto& q : g ) for ( auto x : q.v ) if ( !std::isfinite( x ) || std::abs( x ) > 1e6 ) return false;
        for ( auto& q : d ) for ( auto x : q.v ) if ( !std::isfinite( x ) || std::abs( x ) > 1e4 ) return false;
        fwd(); m.decay();
        std::vector<Nd> want; for ( size_t i = 0; i < vs.size(); ++i ) want.push_back( vs[i].trainable() ? m.next( i, d[i], g[i] ) : d[i] );
        s.go(); c.count( "optimizer steps mirrored" );
        for ( size_t i = 0; i < vs.size(); ++i )
        {
            Nd got = nd( vs[i].data() ); std::string x = sf( "%s, step %lu of %s, variable %zu (%s)", when.c_str(), m.it, names[m.h.k], i, vs[i].trainable() ? "trainable" : "frozen" ); ++c.checks;
            if ( got.shape != want[i].shape ) c.fail( "step:shape", x + " shape " + str( got.shape ) + " was " + str( want[i].shape ) );
            if ( !vs[i].trainable() ) { if ( got.v != d[i].v ) c.fail( "frozen-variable-changed", x ); if ( nd( vs[i].gradient() ).v != g[i].v && !nd( vs[i].gradient() ).v.empty() ) for ( auto q : nd( vs[i].gradient() ).v ) if ( q != 0 ) c.fail( "frozen-variable-gradient", x ); continue; }
            for ( size_t k = 0; k < got.size(); ++k ) { double u = std::abs( want[i][k] - d[i][k] ), tol = at + rt * ( std::abs( d[i][k] ) + u ); ++c.checks; if ( !( std::abs( got[k] - want[i][k] ) <= tol ) ) c.fail( "step:value", x + sf( " element %zu became %.12g, recurrence gives %.12g (was %.12g, gradient %.12g)", k, got[k], want[i][k], d[i][k], g[i][k] ) ); }
            for ( auto q : nd( vs[i].gradient() ).v ) { ++c.checks; if ( q != 0 ) c.fail( "gradient-not-cleared", x ); }
        }
        ++m.it; return true;
    }
};
// double: random graphs, several steps, data re-drawn between steps
static void run_graph( Ctx& c, int k )
{
    auto& r = c.rng; Graph g; GOpt o; o.nodes = r.range( 1, 5 ); o.count = false; draw_graph( g, r, o ); double scale = r.pick( { 1.0, 0.1, 1e-4, 1e-7, 0.01 } ); Node loss = N( sum_reduce( N( scale * g.n[g.outs[0]].ex ) ) );
    // gradients that vanish for a step, wholly or in some elements, and come back
    ceras::place_holder<ceras::tensor<double>> gate; gate.bind( ceras::ones<double>( { 1 } ) ); auto kept = var<double>( rnd( r, { 4 }, -1.5, 1.5 ) ); ceras::place_holder<ceras::tensor<double>> mask; mask.bind( ceras::ones<double>( { 4 } ) ); bool gated = r.flip( 0.5 );
    if ( gated ) loss = N( sum_reduce( N( elementwise_product( gate, N( loss + N( scale * N( sum_reduce( N( elementwise_product( mask, N( square( kept ) ) ) ) ) ) ) ) ) ) ) );
    auto h = draw<double>( r, k ); c.describe( sf( "%s batch %lu lr %g a %g b %g decay %g nesterov %d scale %g; ", names[k], h.batch, h.lr, h.a, h.b, h.decay, h.nesterov, scale ) + g.desc );
    std::vector<Var<double>> vs; for ( auto& l : g.leaves ) if ( l.var ) vs.push_back( *l.var ); vs.push_back( var<double>( rnd( r, rshape( r, 1, 3 ) ) ) ); // the last one takes no part in the loss
    vs.push_back( kept );
    Watch<double> w{ c, vs, [&]{ sess<double>().run( loss ); }, [&]( auto const& t ) { loss.backward( t ); }, 1e-11, 1e-14 };
    auto fits = [&]{ for ( auto& l : g.leaves ) { if ( l.var ) l.data = nd( l.var->data() ); if ( l.ph ) l.data = nd( l.ph->forward() ); } try { g.eval( g.data() ); return true; } catch ( NoFit ) { c.count( "runs ended at the border of the domain" ); return false; } };
    auto s = make<double>( h, loss, r ); Mirror<double> m{ h }; int steps = r.range( 3, c.thorough ? 40 : 9 );
    for ( int i = 0; i < steps; ++i )
    {
        if ( r.flip( 0.3 ) ) for ( auto& l : g.leaves ) if ( l.ph ) { l.ph->bind( tens<double>( rnd( r, l.data.shape, l.lo, l.hi ) ) ); }
        if ( r.flip( 0.15 ) ) { auto& v = vs[r.below( vs.size() )]; bool t = v.trainable(); v.trainable( !t ); c.count( "variables frozen or thawed" ); }
        if ( gated ) { gate.bind( tens<double>( Nd{ { 1 }, r.flip( 0.25 ) ? 0.0 : 1.0 } ) ); Nd q{ { 4 } }; for ( auto& x : q.v ) x = r.flip( 0.3 ) ? 0 : r.real( 0.5, 1.5 ); mask.bind( tens<double>( q ) ); }
        if ( !fits() || !w.one( m, *s, "graph" ) ) { c.count( "runs ended by divergence" ); break; }
    }
    // another optimizer over the same variables starts from its own state
    if ( r.flip( 0.5 ) ) { int k2 = r.below( NK ); auto h2 = draw<double>( r, k2 ); auto s2 = make<double>( h2, loss, r ); Mirror<double> m2{ h2 }; for ( int i = 0, n = r.range( 2, 4 ); i < n; ++i ) if ( !fits() || !w.one( m2, *s2, sf( "after %s", names[k] ) ) ) break; c.count( "optimizers changed over the same variables" ); }
}
// each optimizer type gets an equal share of the cases
SCEN( "O01/graph", 420, 24000 ) { run_graph( c, c.kase % NK ); }
SCEN( "O01/float-network", 240, 12000 )
{
    auto& r = c.rng; int k = c.kase % NK; unsigned long n = r.range( 1, 6 ), in = r.range( 1, 4 ), out = r.range( 1, 3 ); using TT = ceras::tensor<float>; ceras::place_holder<TT> x, y; auto W = var<float>( rnd( r, { in, out } ) ), b = var<float>( rnd( r, { 1, out } ) ); x.bind( tens<float>( rnd( r, { n, in } ) ) ); y.bind( tens<float>( rnd( r, { n, out } ) ) );
    auto loss = mean_squared_error( y, x * W + b ); typedef decltype( loss ) L; auto h = draw<float>( r, k ); c.describe( sf( "float %s batch %lu lr %g a %g b %g decay %g nesterov %d in %lu out %lu n %lu", names[k], h.batch, h.lr, h.a, h.b, h.decay, h.nesterov, in, out, n ) );
    bool frozen = r.flip( 0.2 ); if ( frozen ) b.trainable( false );
    Watch<float> w{ c, { W, b }, [&]{ sess<float>().run( loss ); }, [&]( auto const& t ) { loss.backward( t ); }, 4e-5, 1e-7 }; auto s = make<float>( h, loss, r ); Mirror<float> m{ h };
    for ( int i = 0, q = r.range( 2, 8 ); i < q; ++i ) { if ( r.flip() ) { unsigned long z = r.range( 1, 6 ); x.bind( tens<float>( rnd( r, { z, in } ) ) ); y.bind( tens<float>( rnd( r, { z, out } ) ) ); } if ( !w.one( m, *s, "network" ) ) break; }
}
// long runs: what only shows after hundreds of steps (corrections that die out, accumulated decay, forgotten state)
SCEN( "O01/long-run", 60, 1200 )
{
    auto& r = c.rng; int k = c.kase % NK; Shape s = rshape( r, 1, 2, 4, 8 ); auto v = var<double>( rnd( r, s ) ), u = var<double>( rnd( r, s ) ); ceras::place_holder<ceras::tensor<double>> p; p.bind( tens<double>( rnd( r, s ) ) ); Node loss = N( sum_reduce( N( N( square( N( v - p ) ) ) + N( elementwise_product( p, u ) ) ) ) );
    auto h = draw<double>( r, k ); h.lr = (double) h.batch * std::pow( 10.0, r.real( -3, -1.5 ) ); if ( h.decay > 0 ) h.decay = std::pow( 10.0, r.real( -6, -3 ) ); h.b = r.flip() ? 0.999 : h.b; int steps = r.range( 70, c.thorough ? 1500 : 320 ); c.describe( sf( "%s batch %lu lr %g a %g b %g decay %g nesterov %d, %d steps", names[k], h.batch, h.lr, h.a, h.b, h.decay, h.nesterov, steps ) );
    Watch<double> w{ c, { v, u }, [&]{ sess<double>().run( loss ); }, [&]( auto const& t ) { loss.backward( t ); }, 1e-10, 1e-13 }; auto st = make<double>( h, loss, r ); Mirror<double> m{ h };
    for ( int i = 0; i < steps; ++i ) { if ( r.flip( 0.1 ) ) { Nd q = rnd( r, s ); if ( r.flip( 0.3 ) ) for ( auto& x : q.v ) if ( r.flip() ) x = 0; p.bind( tens<double>( q ) ); } if ( !w.one( m, *st, "long run" ) ) { c.count( "runs ended by divergence" ); break; } }
}
// the optimizer's published purpose on a problem with a known closed-form trajectory: d <- d - lr*g from L = 1/2 a (d-t)^2
SCEN( "O01/closed-form-descent", 60, 2000 )
{
    auto& r = c.rng; double a = r.real( 0.1, 2 ), t = r.real( -2, 2 ), d0 = r.real( -2, 2 ), lr = r.real( 0.01, 0.5 ); unsigned long b = r.range( 1, 5 ); auto v = var<double>( Nd{ { 1 }, { d0 } } ); Node loss = N( sum_reduce( N( ( 0.5 * a ) * square( N( v - t ) ) ) ) ); int n = r.range( 1, 30 ); bool gd = r.flip();
    c.describe( sf( "a %g t %g d0 %g lr %g steps %d", a, t, d0, lr, n ) ); sgd<Node, double> o{ loss, b, lr * b }; gradient_descent<Node, double> q{ loss, b, lr * b }; for ( int i = 0; i < n; ++i ) { auto l = sess<double>().run( loss ); double dd = d0 - t; double e = t + dd * std::pow( 1 - lr * a, i ); c.require( close( l.as_scalar(), 0.5 * a * ( e - t ) * ( e - t ), 1e-9, 1e-12 ), "loss-trajectory", sf( "step %d loss %g", i, l.as_scalar() ) ); gd ? q.forward() : o.forward(); }
    c.require( close( v.data()[0], t + ( d0 - t ) * std::pow( 1 - lr * a, n ), 1e-9, 1e-12 ), "trajectory", sf( "after %d steps %.12g", n, v.data()[0] ) ); c.count( "closed-form trajectories" );
}
