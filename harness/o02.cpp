// O02: regularization terms of the gradient, and trainability through histories of runs, backward passes, toggles and optimizer steps.
#include "graph.hpp"
using namespace vp; using namespace ceras;
static Nd penalty( Nd const& d, double l1, double l2 ) { Nd p{ d.shape }; for ( size_t i = 0; i < d.size(); ++i ) { if ( l1 >= 1e-8 ) p[i] += d[i] >= 0 ? l1 : -l1; if ( l2 >= 1e-8 ) p[i] += 2 * l2 * d[i]; } return p; }
// gradient of every variable over a history, against (dual number) gradient + penalty once per learning-phase run
SCEN( "O02/gradient", 300, 20000 )
{
    auto& r = c.rng; Graph g; GOpt o; o.nodes = r.range( 1, 7 ); o.count = false; draw_graph( g, r, o ); auto strength = [&]() -> double { return r.pick( { 0.0, 0.0, 0.3, 0.01, 1.5, 1e-6 } ); };
    std::map<int, std::pair<double, double>> reg; std::string ds;
    for ( size_t i = 0; i < g.leaves.size(); ++i ) if ( auto& l = g.leaves[i]; l.var )
    {
        if ( r.flip( 0.3 ) ) for ( auto& x : l.data.v ) if ( r.flip( 0.4 ) ) x = 0; std::copy( l.data.v.begin(), l.data.v.end(), l.var->data().begin() );
        double a = strength(), b = strength(); reg[i] = { a, b }; l.var->l1_regularizer() = a; l.var->l2_regularizer() = b; ds += sf( "leaf%zu l1=%g l2=%g ", i, a, b );
    }
    try { g.eval( g.data() ); } catch ( NoFit ) { c.count( "draws outside the domain" ); return; }
    c.describe( ds + g.desc ); int out = g.outs[0]; auto& ex = g.n[out].ex; std::string log; std::map<int, Nd> acc; std::map<int, bool> pend; // pend: the penalty of this run is still to be added
    auto used = g.reach( out ); auto in = [&]( int w ) { for ( int i : used ) if ( g.n[i].leaf == w ) return true; return false; };
    Nd val; int runs = 0; double sc = 1;
    for ( int s = 0, n = r.range( 3, 9 ); s < n || !runs; ++s )
    {
        int w = runs ? r.below( 6 ) : 0;
        if ( w < 2 ) { learning_phase = r.flip( 0.8 ) || !runs ? 1 : 0; log += sf( " run(phase %d)", learning_phase ); val = nd( run_node( ex ) ); leaves_intact( c, g, "run" ); ++runs; if ( learning_phase == 1 ) for ( auto& [i, p] : reg ) if ( in( i ) ) { acc[i] = Nd{ g.leaves[i].data.shape }; pend[i] = true; } learning_phase = 1; }
        else if ( w < 4 ) { log += " backward"; Nd seed = rnd( r, val.shape ); ex.backward( tens<double>( seed ) ); leaves_intact( c, g, "backward" ); auto xs = g.data(); for ( auto& [i, p] : reg ) if ( in( i ) && g.leaves[i].var->trainable() ) { Nd q = g.grad( xs, out, i, seed, &sc ), e = penalty( xs[i], p.first, p.second ); for ( size_t k = 0; k < q.size(); ++k ) acc[i][k] += q[k] + ( pend[i] ? e[k] : 0 ); pend[i] = false; c.count( "penalties expected" ); } }
        else if ( w == 4 ) { auto it = std::next( reg.begin(), r.below( reg.size() ) ); bool t = !g.leaves[it->first].var->trainable(); g.leaves[it->first].var->trainable( t ); log += sf( " leaf%d %s", it->first, t ? "thawed" : "frozen" ); c.count( "trainability toggles" ); }
        else { auto it = std::next( reg.begin(), r.below( reg.size() ) ); double a = strength(), b = strength(); it->second = { a, b }; g.leaves[it->first].var->l1_regularizer() = a; g.leaves[it->first].var->l2_regularizer() = b; log += sf( " leaf%d l1=%g l2=%g", it->first, a, b ); }
        for ( auto& [i, a] : acc ) same( c, g.leaves[i].var->gradient(), a, 1e-8, 1e-9 * sc * g.n[out].paths + 1e-9, "gradient", sf( "leaf %d after", i ) + log );
    }
    c.count( "histories" );
}
// strength at construction, through the layers' parameters, value of the loss untouched
SCEN( "O02/constructed", 80, 3000 )
{
    auto& r = c.rng; Shape s = rshape( r, 1, 3 ); double a = r.pick( { 0.0, 0.2 } ), b = r.pick( { 0.0, 0.7 } ); bool t = r.flip( 0.7 ); Nd D = rnd( r, s ); Var<double> v{ tens<double>( D ), a, b, t }; c.describe( sf( "l1 %g l2 %g trainable %d ", a, b, t ) + str( s ) );
    c.require( v.l1_regularizer() == a && v.l2_regularizer() == b && v.trainable() == t, "constructor" ); auto e = square( v ); auto y = nd( sess<double>().run( e ) ); same( c, y, D.map( []( double x ) { return x * x; } ), 1e-12, 0, "value" ); Nd sd = rnd( r, s ); e.backward( tens<double>( sd ) ); Nd p = penalty( D, a, b ), want{ s }; if ( t ) for ( size_t k = 0; k < p.size(); ++k ) want[k] = 2 * D[k] * sd[k] + p[k]; same( c, v.gradient(), want, 1e-10, 1e-12, "gradient" );
    auto copy = v; copy.trainable( !t ); c.require( v.trainable() == !t, "copies-share-state" );
}
struct VarInfo { bool t; Nd d; };
template< typename F > static void layer_regs( Ctx& c, F mk, std::vector<std::array<float, 3>> const& want ) // per variable: l1, l2, trainable
{
    auto& vs = sess<float>().variables_; std::set<int> before; for ( auto& [i, v] : vs ) before.insert( i ); mk(); std::map<int, Var<float>> made; for ( auto& [i, v] : vs ) if ( !before.count( i ) ) made.emplace( i, v ); c.require( made.size() == want.size(), "layer-variables", sf( "%zu variables created", made.size() ) );
    size_t k = 0; for ( auto& [i, v] : made ) { auto& w = want[k++]; c.require( v.l1_regularizer() == w[0] && v.l2_regularizer() == w[1] && v.trainable() == ( w[2] != 0 ), "layer-regularizer", sf( "variable %zu: l1 %g l2 %g trainable %d, expected %g %g %g", k - 1, v.l1_regularizer(), v.l2_regularizer(), v.trainable(), w[0], w[1], w[2] ) ); }
}
SCEN( "O02/layers", 60, 1500 )
{
    auto& r = c.rng; auto f = [&]{ return (float) r.pick( { 0.0, 0.25, 0.5, 1.0, 2.0 } ); }; float a = f(), b = f(), p = f(), q = f(); bool ub = r.flip(); int k = c.kase % 6; c.describe( sf( "layer %d kernel l1 %g l2 %g bias l1 %g l2 %g use_bias %d", k, a, b, p, q, ub ) );
    std::vector<std::array<float, 3>> w{ { a, b, 1 }, { p, q, ub ? 1.f : 0.f } }, bn{ { a, b, 1 }, { p, q, 1 } };
    switch ( k )
    {
        case 0: layer_regs( c, [&]{ auto in = Input( { 3 } ); Dense( 4, ub, a, b, p, q )( in ); }, w ); break;
        case 1: layer_regs( c, [&]{ auto in = Input( { 6, 6, 2 } ); Conv2D( 3, { 2, 2 }, "valid", { 1, 1 }, { 1, 1 }, ub, a, b, p, q )( in ); }, w ); break;
        case 2: layer_regs( c, [&]{ auto in = Input( { 6, 2 } ); Conv1D( 3, 2, 1, "valid", 1, ub, a, b, p, q )( in ); }, w ); break;
        case 3: layer_regs( c, [&]{ auto in = Input( { 6, 6, 2 } ); Conv2DTranspose( 3, { 2, 2 }, "valid", { 1, 1 }, { 1, 1 }, ub, a, b, p, q )( in ); }, w ); break;
        case 4: layer_regs( c, [&]{ auto in = Input( { 4 } ); BatchNormalization( 0.9f, a, b, p, q )( in ); }, bn ); break;
        default: layer_regs( c, [&]{ auto in = Input( { 6, 6, 2 } ); Conv2D( 3, { 2, 2 }, std::vector<unsigned long>{ 6, 6, 2 }, "valid", { 1, 1 }, { 1, 1 }, ub, a, b, p, q )( in ); }, w ); break;
    }
    c.count( "layers inspected" );
}
// a frozen variable never changes, whatever happens; thawed, it is updated again
template< typename O > static void drive( Ctx& c, Graph& g, O& o, Node& loss, bool& stop )
{
    auto& r = c.rng; struct V { Leaf* l; }; std::vector<Leaf*> vs; for ( auto& l : g.leaves ) if ( l.var ) vs.push_back( &l ); std::string log; std::map<Leaf*, int> moved;
    for ( int s = 0, n = r.range( 4, 12 ); s < n; ++s )
    {
        if ( r.flip( 0.4 ) ) { auto l = vs[r.below( vs.size() )]; bool t = !l->var->trainable(); if ( r.flip() ) l->var->trainable() = t; else { auto cp = *l->var; cp.trainable( t ); } log += sf( " %s%d", t ? "thaw" : "freeze", (int) ( l - &g.leaves[0] ) ); c.count( "trainability toggles" ); }
        std::vector<std::vector<double>> b; for ( auto l : vs ) { l->data = nd( l->var->data() ); b.push_back( l->data.v ); } try { g.eval( g.data() ); } catch ( NoFit ) { stop = true; return; }
        sess<double>().run( loss ); log += " step"; o.forward(); c.count( "optimizer steps" );
        for ( size_t i = 0; i < vs.size(); ++i ) { auto a = nd( vs[i]->var->data() ).v; if ( !vs[i]->var->trainable() ) { c.require( a == b[i], "frozen-variable-changed", sf( "leaf %d", (int) ( vs[i] - &g.leaves[0] ) ) + log ); c.count( "frozen variables watched" ); } else { c.count( "trainable variables watched" ); bool nz = vs[i]->var->l1_regularizer() > 0; bool in = false; for ( int q : g.reach( g.outs[0] ) ) if ( g.n[q].leaf == vs[i] - &g.leaves[0] ) in = true; if ( nz && in ) { ++c.checks; if ( a == b[i] ) { log += "!"; ++moved[vs[i]]; } else moved[vs[i]] = 0; if ( moved[vs[i]] > 3 ) c.fail( "thawed-variable-not-updated", sf( "leaf %d", (int) ( vs[i] - &g.leaves[0] ) ) + log ); } } }
    }
}
SCEN( "O02/frozen-in-training", 240, 12000 )
{
    auto& r = c.rng; Graph g; GOpt o; o.nodes = r.range( 1, 5 ); o.count = false; draw_graph( g, r, o ); for ( auto& l : g.leaves ) if ( l.var ) { l.var->l1_regularizer() = r.pick( { 0.0, 0.0517391 } ); l.var->l2_regularizer() = r.pick( { 0.0, 0.05 } ); } Node loss = N( sum_reduce( N( 0.01 * g.n[g.outs[0]].ex ) ) ); int k = c.kase % 6; c.describe( sf( "optimizer %d ", k ) + g.desc ); bool stop = false; double lr = r.real( 0.001, 0.05 ); typedef Node L;
    switch ( k ) { case 0: { sgd<L, double> q{ loss, 1, lr, 0.9, 0.01, r.flip() }; drive( c, g, q, loss, stop ); break; } case 1: { adagrad<L, double> q{ loss, 1, lr }; drive( c, g, q, loss, stop ); break; } case 2: { rmsprop<L, double> q{ loss, 1, lr }; drive( c, g, q, loss, stop ); break; } case 3: { adadelta<L, double> q{ loss, 1 }; drive( c, g, q, loss, stop ); break; } case 4: { adam<L, double> q{ loss, 1, lr }; drive( c, g, q, loss, stop ); break; } default: { gradient_descent<L, double> q{ loss, 1, lr }; drive( c, g, q, loss, stop ); break; } }
    if ( stop ) c.count( "runs ended at the border of the domain" );
}
// freezing a whole model or expression reaches every variable in it, and only those
SCEN( "O02/make-trainable", 60, 2500 )
{
    auto& r = c.rng; auto in = Input( { (unsigned long) r.range( 1, 5 ) } ); auto& vs = sess<float>().variables_; auto other = var<float>( rnd( r, { 2 } ) ); int k = c.kase % 3;
    std::set<int> pre; for ( auto& [i, v] : vs ) pre.insert( i );
    auto test = [&]( auto m, auto ) { std::vector<Var<float>> mine; for ( auto& [i, v] : vs ) if ( !pre.count( i ) ) mine.push_back( v ); c.require( !mine.empty(), "no-variables" ); for ( int s = 0; s < 4; ++s ) { bool t = r.flip(); bool o0 = other.trainable(); if ( r.flip() ) m.trainable( t ); else make_trainable( m.expression_, t ); for ( auto& v : mine ) c.require( v.trainable() == t, "not-reached", sf( "trainable(%d) left a variable of the model %s", t, v.trainable() ? "trainable" : "frozen" ) ); c.require( other.trainable() == o0, "reached-too-much" ); if ( r.flip() ) other.trainable( r.flip() ); c.count( "models frozen or thawed" ); } };
    c.describe( sf( "model %d", k ) );
    if ( k == 0 ) { auto e = Dense( 3 )( in ); test( model{ in, e }, 0 ); } else if ( k == 1 ) { auto e = sigmoid( Dense( 2 )( relu( Dense( 4 )( in ) ) ) ); test( model{ in, e }, 0 ); } else { auto a = Dense( 3 )( in ); auto e = softmax( Add()( BatchNormalization()( a ), a ) ); test( model{ in, e }, 0 ); }
}
