// A10: back-propagation through random expression graphs with shared sub-expressions: exact gradients, nothing more, nothing else touched.
#include "graph.hpp"
#ifndef PART
#define PART 0
#endif
using namespace vp; using namespace ceras;
#if PART == 0
static void check_grads( Ctx& c, Graph& g, std::vector<std::pair<int, Nd>> const& seeds, char const* when )
{
    auto xs = g.data();
    for ( size_t w = 0; w < g.leaves.size(); ++w )
    {
        auto& l = g.leaves[w]; if ( l.kind > 1 ) continue; bool used = false; Nd want{ l.data.shape }; double sc = 1;
        for ( auto& [o, seed] : seeds ) { auto rs = g.reach( o ); for ( int i : rs ) if ( g.n[i].leaf == (int) w ) used = true; Nd q = g.grad( xs, o, w, seed, &sc ); for ( size_t k = 0; k < q.size(); ++k ) want.v[k] += q.v[k]; }
        if ( !used ) continue;
        if ( l.kind == 1 ) { same( c, l.var->gradient(), Nd{ l.data.shape }, 0, 0, "gradient-of-frozen-variable", when ); c.count( "frozen variables checked" ); continue; }
        same( c, l.var->gradient(), want, 1e-8, 1e-10 * sc * g.n[seeds[0].first].paths + 1e-10, "gradient", sf( "%s leaf %s", when, g.n[w].name.c_str() ) ); c.count( "gradient elements compared", want.size() );
    }
}
static Nd one_pass( Ctx& c, Graph& g, int o, char const* when, bool back = true )
{
    auto xs = g.data(); auto rs = g.reach( o ); for ( auto& n : g.n ) if ( n.cnt ) *n.cnt = 0; Nd want = vals( g.eval( xs, -1, 0, o )[o] );
    auto got = run_node( g.n[o].ex ); c.count( "runs" ); same( c, got, want, 1e-9, 1e-9, "forward", when );
    for ( size_t i = 0; i < g.n.size(); ++i ) if ( g.n[i].cnt ) { int e = rs.count( i ) ? 1 : 0; c.require( *g.n[i].cnt == e, "evaluation-count", sf( "%s node n%zu (%s) evaluated %d times in one run, expected %d", when, i, g.n[i].name.c_str(), *g.n[i].cnt, e ) ); c.count( "nodes evaluated", e ); }
    leaves_intact( c, g, "forward" ); Nd seed = rnd( c.rng, want.shape, -1, 1 ); if ( !back ) return seed;
    auto t = tens<double>( seed ); Snap<double> s{ t, "incoming gradient" }; g.n[o].ex.backward( t ); s.check( c ); c.count( "backward passes" ); leaves_intact( c, g, "backward" ); same( c, got, want, 1e-9, 1e-9, "result-changed-by-backward", when );
    return seed;
}
static void stats( Ctx& c, Graph& g ) { double p = 0; for ( auto& n : g.n ) { if ( n.leaf < 0 ) c.count( n.name.substr( 0, n.name.find_first_of( "0123456789@[" ) ).c_str() ); p = std::max( p, n.paths ); } if ( p > 1 ) c.count( "graphs with shared sub-expressions" ); }
SCEN( "A10/random-graph", 700, 40000 )
{
    Graph g; GOpt o; o.nodes = c.rng.range( 2, c.thorough ? 16 : 11 ); o.count = c.rng.flip( 0.6 ); draw_graph( g, c.rng, o ); c.describe( g.desc ); stats( c, g ); int out = g.outs[0];
    Nd s1 = one_pass( c, g, out, "first" ); check_grads( c, g, { { out, s1 } }, "first" );
    int more = c.rng.below( 3 );
    if ( more == 1 ) { Nd s2 = rnd( c.rng, s1.shape ); auto t = tens<double>( s2 ); g.n[out].ex.backward( t ); Nd s = s1; for ( size_t i = 0; i < s.size(); ++i ) s.v[i] += s2.v[i]; check_grads( c, g, { { out, s } }, "second backward accumulates:" ); }
    if ( more == 2 ) { Nd s2 = one_pass( c, g, out, "second run" ); check_grads( c, g, { { out, s2 } }, "second run" ); }
}
// two outputs over shared parts: gradients add up
SCEN( "A10/two-outputs", 150, 8000 )
{
    Graph g; GOpt o; o.nodes = c.rng.range( 5, 10 ); o.count = c.rng.flip( 0.5 ); draw_graph( g, c.rng, o ); c.describe( g.desc ); if ( g.outs.size() < 2 ) return; int a = g.outs[0], b = g.outs[1]; c.describe( sf( "outputs n%d n%d", a, b ) );
    Nd sa = one_pass( c, g, a, "first output", false ), sb = one_pass( c, g, b, "second output", false ); g.n[a].ex.backward( tens<double>( sa ) ); g.n[b].ex.backward( tens<double>( sb ) ); check_grads( c, g, { { a, sa }, { b, sb } }, "two outputs" );
}
// deep chains and wide fans of one sub-expression
SCEN( "A10/chain-and-fan", 60, 2000 )
{
    auto& r = c.rng; Graph g; Shape s = rshape( r, 1, 2, 4, 8 ); add_leaf( g, r, 0, s ); GOpt o; o.structural = false; int deep = r.range( 3, 40 ); bool fan = r.flip();
    if ( fan ) { for ( int i = 0; i < deep; ++i ) { GN q; int k = g.n.size() - 1; if ( g.n[k].paths > 300 ) break; int other = r.below( g.n.size() ); q.name = "0.6*tanh(a)+b"; q.args = { k, other }; q.ref = []( Args const& x ) { return dbin( *x[0], *x[1], []( D a, D b ) { double t = std::tanh( a.v ); return D{ 0.6 * t + b.v, 0.6 * ( 1 - t * t ) * a.d + b.d }; } ); }; q.mk = []( auto const& x ) { return N( 0.6 * tanh( x[0] ) + x[1] ); }; std::vector<Node> na{ g.n[k].ex, g.n[other].ex }; q.ex = q.mk( na ); q.paths = g.n[k].paths + g.n[other].paths; g.n.push_back( q ); try { g.eval( g.data() ); } catch ( NoFit ) { g.n.pop_back(); break; } } }
    else for ( int i = 0, t = 0; i < deep && t < 400; ++t ) { size_t before = g.n.size(); if ( add_op( g, r, o ) ) { if ( g.n.back().args.size() > 1 || g.n.back().args[0] != (int) before - 1 ) { g.n.pop_back(); continue; } ++i; } }
    int out = g.n.size() - 1; c.describe( sf( "%s of %d nodes, %g paths ", fan ? "fan" : "chain", out, g.n[out].paths ) + str( s ) ); g.outs = { out }; Nd sd = one_pass( c, g, out, "run" ); check_grads( c, g, { { out, sd } }, "run" );
}
// hundreds of nodes and variables in one expression: every node still evaluated once per run, every gradient exact
SCEN( "A10/many-nodes", 12, 120 )
{
    auto& r = c.rng; int n = r.pick( { 40, 65, 100, 130, 257, 300 } ); Shape s{ (unsigned long) r.range( 1, 3 ) }; std::vector<Var<double>> v; auto x = var<double>( rnd( r, s ) ); auto cnt = std::make_shared<std::vector<int>>(); std::vector<Node> hs; c.describe( sf( "%d variables over one shared input ", n ) + str( s ) );
    // e = sum_i v_i * h_(i mod k), h_0 = tanh(x), h_j = 0.5 h_(j-1) + sin(h_(j-1)): the h are shared by all terms
    auto probe = [&]( Node e ) { size_t k = cnt->size(); cnt->push_back( 0 ); return N( make_unary_operator( [cnt, k]<Tensor Z>( Z const& t ) { ++( *cnt )[k]; return t; }, []<Tensor Z>( Z const&, Z const&, Z const& g ) { return g; }, "probe" )( e ) ); };
    int k = r.range( 1, 7 ); hs.push_back( probe( N( tanh( x ) ) ) ); for ( int j = 1; j < k; ++j ) hs.push_back( probe( N( 0.5 * hs.back() + sin( hs.back() ) ) ) );
    Node e; for ( int i = 0; i < n; ++i ) { v.push_back( var<double>( rnd( r, s ) ) ); Node t = probe( N( elementwise_product( v[i], hs[i % k] ) ) ); e = i ? probe( N( e + t ) ) : t; }
    for ( int round = 0; round < 2; ++round )
    {
        if ( round ) { for ( auto& d : x.data() ) d = r.real( -1, 1 ); for ( auto& q : v ) if ( r.flip( 0.3 ) ) for ( auto& d : q.data() ) d = r.real( -1, 1 ); }
        for ( auto& q : *cnt ) q = 0; auto y = run_node( e ); Nd seed = rnd( r, s ), want{ s }, dx{ s }; Nd X = nd( x.data() ); std::vector<Nd> H( k, Nd{ s } ), dH( k, Nd{ s } );
        for ( size_t m = 0; m < X.size(); ++m ) for ( int j = 0; j < k; ++j ) { if ( !j ) { double t = std::tanh( X.v[m] ); H[0].v[m] = t; dH[0].v[m] = 1 - t * t; } else { double p = H[j - 1].v[m]; H[j].v[m] = 0.5 * p + std::sin( p ); dH[j].v[m] = ( 0.5 + std::cos( p ) ) * dH[j - 1].v[m]; } }
        for ( int i = 0; i < n; ++i ) for ( size_t m = 0; m < X.size(); ++m ) { want.v[m] += v[i].data()[m] * H[i % k].v[m]; dx.v[m] += seed.v[m] * v[i].data()[m] * dH[i % k].v[m]; }
        same( c, y, want, 1e-9, 1e-9, "forward" ); for ( size_t q = 0; q < cnt->size(); ++q ) c.require( ( *cnt )[q] == 1, "evaluation-count", sf( "node %zu evaluated %d times in one run of %zu nodes", q, ( *cnt )[q], cnt->size() ) ); c.count( "nodes evaluated", cnt->size() );
        e.backward( tens<double>( seed ) ); same( c, x.gradient(), dx, 1e-8, 1e-8, "gradient", "shared input" ); for ( int i = 0; i < n; ++i ) { Nd w{ s }; for ( size_t m = 0; m < w.size(); ++m ) w.v[m] = seed.v[m] * H[i % k].v[m]; same( c, v[i].gradient(), w, 1e-9, 1e-9, "gradient", sf( "variable %d", i ) ); } c.count( "gradient elements compared", n * s[0] );
    }
}
#elif PART == 1
// statically composed expressions: every copy of a sub-expression is the same node, evaluated once
SCEN( "A10/static-composition", 60, 3000 )
{
    auto& r = c.rng; int k = c.kase % 6; unsigned long b = r.range( 1, 4 ), d = r.range( 1, 4 ); Nd X = rnd( r, { b, d } ), W = rnd( r, { d, d }, -1, 1 ), B = rnd( r, { d }, -1, 1 ); auto x = var<double>( X ), w = var<double>( W ), bb = var<double>( B ); auto cnt = std::make_shared<int>( 0 );
    auto probe = [cnt]( auto const& e ) { return make_unary_operator( [cnt]<Tensor Z>( Z const& t ) { ++*cnt; return t; }, []<Tensor Z>( Z const&, Z const&, Z const& g ) { return g; }, "probe" )( e ); };
    auto add = []( Nd const& p, Nd const& q ) { return bin( p, q, std::plus<>() ); }; auto mul = []( Nd const& p, Nd const& q ) { return bin( p, q, std::multiplies<>() ); }; auto th = []( Nd const& p ) { return p.map( []( double z ) { return std::tanh( z ); } ); };
    Opt o; o.rounds = 1; o.grtol = 1e-5; o.gatol = 1e-5; c.describe( sf( "static %d batch %lu width %lu", k, b, d ) ); std::vector<Var<double>> vs{ x, w, bb }; int uses = 1; Ex_<double> e; RefFn f;
    if ( k == 0 ) { auto h = tanh( probe( x * w ) + bb ); e = erase<double>( h + elementwise_product( h, h ) - h ); f = [=]( auto const& q ) { Nd h = th( add( vp::matmul( q[0], q[1] ), q[2] ) ); return mul( h, h ); }; }
    if ( k == 1 ) { auto h = tanh( probe( x * w ) + bb ); auto h2 = tanh( h * w + bb ); e = erase<double>( h2 * w + h ); f = [=]( auto const& q ) { Nd h = th( add( vp::matmul( q[0], q[1] ), q[2] ) ), h2 = th( add( vp::matmul( h, q[1] ), q[2] ) ); return add( vp::matmul( h2, q[1] ), h ); }; }
    if ( k == 2 ) { auto u = probe( x + bb ); auto v1 = u; auto v2 = v1; e = erase<double>( elementwise_product( u, v1 ) + elementwise_product( v2, x ) + 0.0 * ( x * w ) ); f = [=]( auto const& q ) { Nd u = add( q[0], q[2] ); return add( mul( u, u ), mul( u, q[0] ) ); }; }
    if ( k == 3 ) { auto h = probe( softmax( x * w + bb ) ); e = erase<double>( concatenate( h, x )() ); auto sm = []( Nd p ) { size_t n = p.shape[1]; for ( size_t i = 0; i < p.size(); i += n ) { double s = 0; for ( size_t j = 0; j < n; ++j ) s += p.v[i + j] = std::exp( p.v[i + j] ); for ( size_t j = 0; j < n; ++j ) p.v[i + j] /= s; } return p; };
        f = [=]( auto const& q ) { Nd h = sm( add( vp::matmul( q[0], q[1] ), q[2] ) ); Shape s{ h.shape[0], 2 * h.shape[1] }; Nd y{ s }; for ( size_t i = 0; i < s[0]; ++i ) for ( size_t j = 0; j < s[1]; ++j ) y.at( { i, j } ) = j < h.shape[1] ? h.at( { i, j } ) : q[0].at( { i, j - h.shape[1] } ); return y; }; }
    if ( k == 4 ) { auto p = probe( x * w ); auto z = N( p - reduce_sum( 0 )( p ) + bb ); e = erase<double>( z / ( 2.0 + square( z ) ) ); f = [=]( auto const& q ) { Nd p = vp::matmul( q[0], q[1] ), s = along( p, 0, false, []( auto const& v ) { return std::accumulate( v.begin(), v.end(), 0.0 ); } ); return add( bin( p, s, std::minus<>() ), q[2] ).map( []( double t ) { return t / ( 2 + t * t ); } ); }; }
    if ( k == 5 ) { auto p = probe( x ); auto q1 = hypot( p, bb + 3.0 ); e = erase<double>( q1 * w + transpose( transpose( q1 ) ) * w ); f = [=]( auto const& q ) { Nd h = bin( q[0], q[2], []( double a, double b ) { return std::hypot( a, b + 3 ); } ); return vp::matmul( h, q[1] ).map( []( double t ) { return 2 * t; } ); }; }
    check_ex<double>( c, vs, e, f, o ); c.require( *cnt == uses, "evaluation-count", sf( "shared sub-expression evaluated %d times in one run", *cnt ) );
}
#else
// whole networks: gradient against central differences of the value the library itself computes
static std::vector<double> lib_numgrad( Var<double>& v, std::function<double()> L, std::vector<size_t> const& at ) { std::vector<double> g; for ( auto i : at ) { double o = v.data()[i], h = 1e-5; v.data()[i] = o + h; double p = L(); v.data()[i] = o - h; double m = L(); v.data()[i] = o; g.push_back( ( p - m ) / ( 2 * h ) ); } return g; }
SCEN( "A10/network", 36, 1200 )
{
    auto& r = c.rng; int k = c.kase % 3; unsigned long b = r.range( 1, 3 ), hh = 2 * r.range( 2, 3 ), ch = r.range( 1, 2 ), f1 = r.range( 1, 3 ), cls = r.range( 2, 3 ); Nd X = rnd( r, { b, hh, hh, ch } ); auto x = var<double>( X );
    auto k1 = var<double>( rnd( r, { f1, 3, 3, ch }, -0.6, 0.6 ) ); auto w = var<double>( rnd( r, { k == 1 ? hh * hh * f1 : hh / 2 * hh / 2 * f1, cls }, -0.6, 0.6 ) ); auto bias = var<double>( rnd( r, { cls } ) ); c.describe( sf( "network %d image %lux%lux%lu batch %lu filters %lu classes %lu", k, hh, hh, ch, b, f1, cls ) );
    std::vector<Var<double>> vs{ x, k1, w, bias }; Ex_<double> e; auto conv = N( conv2d( hh, hh, 1, 1, 1, 1, "same" )( x, k1 ) ); // erased: the nested expression types are too large for the compiler
    if ( k == 0 ) e = erase<double>( softmax( N( flatten( max_pooling_2d( 2 )( tanh( conv ) ) ) ) * w + bias ) );
    if ( k == 1 ) e = erase<double>( sigmoid( N( flatten( conv + up_sampling_2d( 2 )( average_pooling_2d( 2 )( conv ) ) ) ) * w + bias ) );
    if ( k == 2 ) e = erase<double>( swish( N( flatten( average_pooling_2d( 2 )( softplus( zero_padding_2d( { 1, 1 } )( cropping_2d( { 1, 1 } )( conv ) ) ) ) ) ) * w + bias ) );
    Nd seed = rnd( r, { b, cls } ); auto L = [&]{ auto y = e.run(); double s = 0; for ( size_t i = 0; i < seed.size(); ++i ) s += seed.v[i] * y[i]; return s; };
    e.run(); e.back( tens<double>( seed ) ); std::vector<Nd> gs; for ( auto& v : vs ) gs.push_back( nd( v.gradient() ) );
    for ( size_t a = 0; a < vs.size(); ++a ) { std::vector<size_t> at; for ( int i = 0; i < 6; ++i ) at.push_back( r.below( vs[a].data().size() ) ); auto ng = lib_numgrad( vs[a], L, at ); for ( size_t i = 0; i < at.size(); ++i ) c.require( close( gs[a].v[at[i]], ng[i], 1e-5, 1e-6 ), "gradient-of-network", sf( "operand %zu element %zu is %.10g, central difference of the network %.10g", a, at[i], gs[a].v[at[i]], ng[i] ) ); c.count( "network gradient elements", at.size() ); }
}
#endif
