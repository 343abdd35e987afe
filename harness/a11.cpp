// A11: histories of runs, rebinding, batch changes, phases and backward passes over one set of expressions: every run reflects the current inputs.
#include "graph.hpp"
using namespace vp; using namespace ceras;
static void bits( Ctx& c, Nd const& a, Nd const& b, char const* kind, std::string const& x ) { ++c.checks; if ( a.shape != b.shape || a.size() != b.size() ) c.fail( kind, x + " shape " + str( a.shape ) + " fresh " + str( b.shape ) ); if ( a.size() && std::memcmp( a.v.data(), b.v.data(), a.size() * sizeof( double ) ) ) c.fail( kind, x + " {" + brief( a.v ) + "} fresh {" + brief( b.v ) + "}" ); }
struct Hist
{
    Ctx& c; Graph& g; std::map<int, Nd> acc; // expected accumulated gradient per trainable leaf; absent: not predictable
    std::string log;
    void on_run( int o ) { if ( learning_phase != 1 ) return; for ( int i : g.reach( o ) ) if ( g.n[i].leaf >= 0 && g.leaves[g.n[i].leaf].kind == 0 ) acc[g.n[i].leaf] = Nd{ g.leaves[g.n[i].leaf].data.shape }; }
    Nd run( int o, bool twin )
    {
        log += sf( " run(n%d,phase %d)", o, learning_phase ); std::sprintf( sh->desc + std::min<size_t>( std::strlen( sh->desc ), 1000 ), "%.900s", log.size() > 900 ? log.c_str() + log.size() - 900 : log.c_str() ); auto xs = g.data(); Nd want = vals( g.eval( xs, -1, 0, o )[o] ); Nd got = nd( run_node( g.n[o].ex ) ); on_run( o ); c.count( "runs" ); same( c, got, want, 1e-9, 1e-9, "run-value", "after" + log );
        leaves_intact( c, g, "run" );
        if ( twin ) { Node f = g.rebuild( o ); Nd fr = nd( run_node( f ) ); on_run( o ); bits( c, got, fr, "differs-from-fresh-expression", "after" + log ); c.count( "fresh twins compared" ); Nd again = nd( run_node( g.n[o].ex ) ); on_run( o ); bits( c, again, got, "second-run-differs", "after" + log ); }
        return want;
    }
    void back( int o, Nd const& shape_of, Node ex ) { Nd seed = rnd( c.rng, shape_of.shape, -1, 1 ); log += sf( " backward(n%d)", o ); auto t = tens<double>( seed ); Snap<double> s{ t, "incoming gradient" }; ex.backward( t ); s.check( c ); c.count( "backward passes" ); auto xs = g.data(); double sc = 1; for ( auto& [w, a] : acc ) { bool used = false; for ( int i : g.reach( o ) ) if ( g.n[i].leaf == w ) used = true; if ( !used ) continue; Nd q = g.grad( xs, o, w, seed, &sc ); for ( size_t k = 0; k < q.size(); ++k ) a.v[k] += q.v[k]; }
        for ( auto& [w, a] : acc ) same( c, g.leaves[w].var->gradient(), a, 1e-8, 1e-9 * sc * g.n[o].paths + 1e-9, "gradient", sf( "leaf %d after", w ) + log ); }
};
static void history( Ctx& c, bool batch )
{
    auto& r = c.rng; Graph g; GOpt o; o.nodes = r.range( 2, 9 ); o.batch = batch; o.count = r.flip( 0.3 ); draw_graph( g, r, o ); c.describe( g.desc ); Hist h{ c, g, {}, "" }; int steps = r.range( 4, c.thorough ? 14 : 9 ), last = -1; Nd lastv; std::set<unsigned long> batches;
    for ( int s = 0; s < steps; ++s )
    {
        int w = r.below( 10 );
        if ( w < 4 ) { auto xs = redraw( g, r, batch && r.flip( 0.7 ) ); if ( xs.empty() ) { c.count( "data redraws that did not fit" ); continue; } bool shp = false; for ( size_t i = 0; i < xs.size(); ++i ) if ( xs[i].shape != g.leaves[i].data.shape ) shp = true; for ( auto it = h.acc.begin(); it != h.acc.end(); ) { if ( xs[it->first].shape != g.leaves[it->first].data.shape ) it = h.acc.erase( it ); else ++it; }
            install( g, xs, r ); last = -1; h.log += shp ? " rebind(new batch)" : " rebind"; c.count( shp ? "batch size changes" : "data changes" ); }
        else if ( w < 5 ) { learning_phase = r.flip() ? 1 : 0; h.log += sf( " phase=%d", learning_phase ); last = -1; }
        else { int out = g.outs[ r.below( g.outs.size() ) ]; lastv = h.run( out, r.flip( 0.35 ) ); last = out; if ( r.flip( 0.6 ) ) { h.back( out, lastv, g.n[out].ex ); if ( r.flip( 0.2 ) ) h.back( out, lastv, g.n[out].ex ); } }
    }
    learning_phase = 1; Nd v = h.run( g.outs[0], true ); h.back( g.outs[0], v, g.n[g.outs[0]].ex );
    // a fresh twin also gives the same gradients
    std::vector<Nd> before; Nd seed = rnd( r, v.shape ); run_node( g.n[g.outs[0]].ex ); g.n[g.outs[0]].ex.backward( tens<double>( seed ) ); for ( auto& l : g.leaves ) before.push_back( l.kind == 0 ? nd( l.var->gradient() ) : Nd{} ); Node f = g.rebuild( g.outs[0] ); run_node( f ); f.backward( tens<double>( seed ) ); for ( size_t i = 0; i < before.size(); ++i ) if ( g.leaves[i].kind == 0 ) bits( c, before[i], nd( g.leaves[i].var->gradient() ), "gradient-differs-from-fresh-expression", h.log );
}
SCEN( "A11/history", 260, 14000 ) { history( c, false ); }
SCEN( "A11/batched-history", 380, 20000 ) { history( c, true ); }
// an image pipeline re-run with other batch and image sizes, against a fresh expression (bitwise) each time
#define PIPE( K, EXPR ) case K: return N( EXPR );
static Node pipe( int k, ceras::place_holder<ceras::tensor<double>> x, Var<double> w, Var<double> b )
{
    switch ( k )
    {
        PIPE( 0, max_pooling_2d( 2 )( tanh( x ) ) ) PIPE( 1, average_pooling_2d( 2 )( up_sampling_2d( 2 )( x ) ) ) PIPE( 2, cropping_2d( { 1, 1 } )( zero_padding_2d( { 1, 2 } )( x ) ) )
        PIPE( 3, softmax( flatten( up_sampling_2d( 2 )( x ) ) ) ) PIPE( 4, reduce_max( 1 )( N( flip( 2 )( x ) ) ) ) PIPE( 5, concatenate( max_pooling_2d( 2 )( x ), average_pooling_2d( 2 )( x ) )() ) PIPE( 6, reduce_sum( 3 )( repeat( 2, 3 )( x ) ) )
        PIPE( 7, elementwise_product( x, b ) + x ) PIPE( 8, batch_normalization( 0.9 )( x, b, b ) ) PIPE( 9, conv2d( 4, 4, 1, 1, 1, 1, "same" )( x, w ) ) default: PIPE( 10, relu( conv2d( 4, 4, 1, 1, 1, 1, "valid" )( x, w ) ) )
    }
}
SCEN( "A11/image-pipeline", 110, 6000 )
{
    auto& r = c.rng; int k = c.kase % 11; unsigned long ch = r.range( 1, 3 ); using TT = ceras::tensor<double>; ceras::place_holder<TT> x; Shape ks{ (unsigned long) r.range( 1, 3 ), 3, 3, ch }; auto w = var<double>( rnd( r, ks ) ), b = var<double>( rnd( r, { ch }, 0.5, 1.5 ) ); c.describe( sf( "pipeline %d channels %lu", k, ch ) );
    x.bind( tens<double>( rnd( r, { 1, 4, 4, ch } ) ) ); Node e = pipe( k, x, w, b ); int steps = r.range( 3, 7 ); std::string log;
    for ( int s = 0; s < steps; ++s )
    {
        unsigned long hh = k == 9 || k == 10 ? 4 : 2 * r.range( 1, 4 ), ww = k == 9 || k == 10 ? 4 : 2 * r.range( 1, 4 ), n = r.range( 1, 4 ); Nd X = rnd_distinct( r, { n, hh, ww, ch } ); x.bind( tens<double>( X ) ); log += " " + str( X.shape );
        if ( k == 4 ) { Shape sb = X.shape; sb[1] = 2; } Nd a = nd( run_node( e ) ); Nd seed = rnd( r, a.shape ); e.backward( tens<double>( seed ) ); Nd gw = nd( w.gradient() ), gb = nd( b.gradient() ); Node f = pipe( k, x, w, b ); Nd q = nd( run_node( f ) ); f.backward( tens<double>( seed ) ); bits( c, a, q, "differs-from-fresh-expression", log ); bits( c, gw, nd( w.gradient() ), "gradient-differs-from-fresh-expression", log ); bits( c, gb, nd( b.gradient() ), "gradient-differs-from-fresh-expression", log ); c.require( nd( x.forward() ).v == X.v, "leaf-modified", log ); c.count( "pipeline runs" );
    }
}
