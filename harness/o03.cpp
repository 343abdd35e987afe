// O03: fit, evaluate, predict and train-on-batch next to a hand-written loop over an identical twin model, and a reference network.
#include "cx.hpp"
using namespace vp; using namespace ceras;
#ifndef PART
#define PART 0
#endif
using TT = ceras::tensor<float>;
static std::vector<Var<float>> vars_since( std::set<int> const& pre ) { std::map<int, Var<float>> m; for ( auto& [i, v] : sess<float>().variables_ ) if ( !pre.count( i ) ) m.emplace( i, v ); std::vector<Var<float>> r; for ( auto& [i, v] : m ) r.push_back( v ); return r; }
static std::set<int> ids() { std::set<int> s; for ( auto& [i, v] : sess<float>().variables_ ) s.insert( i ); return s; }
static std::vector<Nd> datas( std::vector<Var<float>> const& vs ) { std::vector<Nd> r; for ( auto& v : vs ) r.push_back( nd( v.data() ) ); return r; }
static void put( std::vector<Var<float>>& vs, std::vector<Nd> const& d ) { for ( size_t i = 0; i < vs.size(); ++i ) std::copy( d[i].v.begin(), d[i].v.end(), vs[i].data().data() ); }
// whole training state of a set of variables
struct State { std::vector<std::vector<float>> d, g; std::vector<size_t> ctx; bool operator==( State const& ) const = default; };
static State state( std::vector<Var<float>>& vs ) { State s; for ( auto& v : vs ) { s.d.push_back( raw( v.data() ) ); s.g.push_back( raw( v.gradient() ) ); s.ctx.push_back( v.contexts().size() ); } return s; }
static Nd rows( Nd const& a, size_t b, size_t n ) { Shape s = a.shape; size_t w = a.size() / s[0]; s[0] = n; return Nd{ s, std::vector<double>( a.v.begin() + b * w, a.v.begin() + ( b + n ) * w ) }; }
#if PART == 0
template< int K > auto network( ceras::place_holder<TT> in, unsigned long out ) // K: 0 linear, 1 two layers, 2 with normalization and drop-out
{
    if constexpr ( K == 0 ) return Dense( out )( in ); else if constexpr ( K == 1 ) return sigmoid( Dense( out )( relu( Dense( 5 )( in ) ) ) ); else return Dense( out )( Dropout( 0.4f )( BatchNormalization( 0.8f )( Dense( 4 )( in ) ) ) );
}
static Nd ref_net( int K, std::vector<Nd> const& w, Nd x ) // value of networks 0 and 1
{
    auto dense = [&]( Nd const& a, size_t k ) { return bin( matmul( a, w[k] ), w[k + 1], []( double p, double q ) { return p + q; } ); };
    if ( K == 0 ) return dense( x, 0 ); Nd h = dense( x, 0 ).map( []( double q ) { return q > 0 ? q : 0; } ); return dense( h, 2 ).map( []( double q ) { return 1 / ( 1 + std::exp( -q ) ); } );
}
struct Geo { unsigned long in, out, n, batch, epochs; double split; };
static Geo geo( Rng& r ) { Geo g; g.in = r.range( 1, 4 ); g.out = r.range( 1, 3 ); g.batch = r.range( 1, 6 ); g.n = r.flip( 0.3 ) ? g.batch * r.range( 1, 5 ) : g.batch + r.range( 0, 20 ); g.epochs = r.range( 1, 3 ); g.split = r.flip( 0.4 ) ? 0.0 : r.pick( { 0.25, 0.5, 0.1, 0.2, 0.34, 0.75 } ); return g; }
template< int K, typename Loss, typename Opt > void drive( Ctx& c, Loss loss, Opt opt_of, char const* what )
{
    auto& r = c.rng; Geo g = geo( r ); bool copied = r.flip( 0.3 ); c.describe( sf( "network %d %s in %lu out %lu samples %lu batch %lu epochs %lu split %g%s", K, what, g.in, g.out, g.n, g.batch, g.epochs, g.split, copied ? " copied model" : "" ) );
    auto pre = ids(); auto in = Input( { g.in } ); auto e = network<K>( in, g.out ); auto vs = vars_since( pre ); for ( auto& v : vs ) { Nd q = rnd( r, nd( v.data() ).shape, -1, 1 ); put( *new std::vector<Var<float>>{ v }, { q } ); }
    pre = ids(); auto in2 = Input( { g.in } ); auto e2 = network<K>( in2, g.out ); auto ws = vars_since( pre ); c.require( vs.size() == ws.size() && !vs.empty(), "variables" ); put( ws, datas( vs ) );
    auto m = model{ in, e }; auto opt = opt_of( g.batch ); auto cm0 = m.compile( loss, opt ); auto* cmp = &cm0; if ( copied ) { auto* t = new decltype( cm0 )( cm0 ); cmp = new decltype( cm0 )( std::move( *t ) ); delete t; } auto& cm = *cmp;
    auto gt2 = ceras::place_holder<TT>{}; auto l2 = loss( e2 )( gt2 ); auto o2 = opt( l2 ); Nd X = rnd( r, { g.n, g.in } ), Y = rnd( r, { g.n, g.out }, 0, 1 ); quant<float>( X ); quant<float>( Y ); auto x = tens<float>( X ), y = tens<float>( Y ); Snap<float> sx{ x, "inputs" }, sy{ y, "outputs" };
    auto& s = sess<float>(); unsigned long steps = 0; std::string log; std::vector<std::pair<ceras::tensor<float>, Nd>> kept;
    // the optimizer updates every trainable variable of the session: freeze the model that is not meant
    auto use = [&]( bool mine ) { for ( auto& v : vs ) v.trainable( mine ); for ( auto& v : ws ) v.trainable( !mine ); };
    auto twin_run = [&]( Nd const& a, Nd const& b, int phase ) { learning_phase = phase; in2.bind( tens<float>( a ) ); gt2.bind( tens<float>( b ) ); float v = s.run( l2 ).as_scalar(); return v; };
    auto compare = [&]( char const* k ) { auto a = datas( vs ), b = datas( ws ); for ( size_t i = 0; i < a.size(); ++i ) same( c, a[i], b[i], 2e-5, 2e-6, k, log + sf( " weight %zu", i ) ); };
    for ( int t = 0, nt = r.range( 2, 5 ); t < nt; ++t )
    {
        use( true ); int w = r.below( 4 ); unsigned seed = r.next(); auto before = state( vs ); if ( ( w == 0 || w == 3 ) && r.flip( 0.3 ) ) learning_phase = 0; /* left by an inference loop of the program: training sets the phase itself */
        if ( w == 0 ) // fit
        {
            log += " fit"; random_generator.seed( seed ); auto [te, ve] = cm.fit( x, y, g.batch, g.epochs, r.flip() ? 1 : 0, g.split ); auto mine = state( vs ); unsigned long loops = g.n / g.batch, tl = ( 1.0 - g.split ) * loops, vl = loops - tl; c.count( "fit calls" ); c.require( learning_phase == 1, "learning-phase" );
            c.require( te.size() == g.epochs && ve.size() == g.epochs, "fit:history-length", log ); random_generator.seed( seed ); use( false );
            for ( unsigned long ep = 0; ep < g.epochs; ++ep )
            {
                double a = 0, b = 0; for ( unsigned long l = 0; l < loops; ++l ) { Nd p = rows( X, l * g.batch, g.batch ), q = rows( Y, l * g.batch, g.batch ); float v = twin_run( p, q, l < tl ? 1 : 0 ); if ( l < tl ) { a += v; s.run( o2 ); ++steps; } else b += v; }
                learning_phase = 1; if ( tl ) c.require( close( te[ep], a / tl, 3e-5, 1e-6 ), "fit:training-error", log + sf( " epoch %lu reported %.8g, mean of its batches %.8g", ep, te[ep], a / tl ) ); if ( vl ) c.require( close( ve[ep], b / vl, 3e-5, 1e-6 ), "fit:validation-error", log + sf( " epoch %lu reported %.8g, mean of its batches %.8g", ep, ve[ep], b / vl ) );
            }
            compare( "fit:weights" ); if constexpr ( requires { cm.compiled_optimizer_.iterations_; } ) c.require( cm.compiled_optimizer_.iterations_ == steps, "fit:steps", log + sf( " %lu optimizer steps, expected %lu", cm.compiled_optimizer_.iterations_, steps ) );
        }
        else if ( w == 1 ) // evaluate
        {
            unsigned long b = r.flip( 0.3 ) ? g.n : r.flip( 0.1 ) ? g.n + r.range( 1, 40 ) : r.range( 1, g.n ), loops = g.n / b; /* fewer samples than a batch: no full batch, the mean is not specified, but nothing may be read or changed */ log += sf( " evaluate(%lu)", b ); auto z = cm.evaluate( x, y, b ); c.require( state( vs ) == before, "evaluate-has-side-effects", log ); c.require( learning_phase == 1, "learning-phase" ); double a = 0; for ( unsigned long l = 0; l < loops; ++l ) a += twin_run( rows( X, l * b, b ), rows( Y, l * b, b ), 0 ); learning_phase = 1;
            if ( loops ) c.require( close( z, a / loops, 3e-5, 1e-6 ), "evaluate:value", log + sf( " returned %.8g, mean over the batches %.8g", z, a / loops ) ); c.count( "evaluate calls" );
        }
        else if ( w == 2 ) // predict
        {
            unsigned long b = r.range( 1, 7 ); Nd P = rnd( r, { b, g.in } ); quant<float>( P ); auto p = tens<float>( P ); Snap<float> sp{ p, "input" }; log += sf( " predict(%lu)", b ); auto z = r.flip() ? cm.predict( p ) : m.predict( p ); c.require( state( vs ) == before, "predict-has-side-effects", log ); c.require( learning_phase == 1, "learning-phase" ); sp.check( c ); learning_phase = 0; in2.bind( tens<float>( P ) ); Nd want = nd( s.run( e2 ) ); learning_phase = 1; same( c, z, want, 2e-5, 2e-6, "predict:value", log );
            if ( K < 2 ) same( c, z, ref_net( K, datas( vs ), P ), 1e-4, 1e-5, "predict:reference", log ); kept.push_back( { z, nd( z ) } ); c.count( "predict calls" );
        }
        else // train on batch
        {
            unsigned long b = r.range( 1, 7 ); Nd P = rnd( r, { b, g.in } ), Q = rnd( r, { b, g.out }, 0, 1 ); auto p = tens<float>( P ), q = tens<float>( Q ); Snap<float> sp{ p, "input" }, sq{ q, "output" }; log += sf( " train_on_batch(%lu)", b ); random_generator.seed( seed ); float v = cm.train_on_batch( p, q ); sp.check( c ); sq.check( c ); random_generator.seed( seed ); use( false ); float u = twin_run( P, Q, 1 ); s.run( o2 ); ++steps; c.require( close( v, u, 3e-5, 1e-6 ), "train-on-batch:loss", log + sf( " returned %.8g expected %.8g", v, u ) ); compare( "train-on-batch:weights" ); if constexpr ( requires { cm.compiled_optimizer_.iterations_; } ) c.require( cm.compiled_optimizer_.iterations_ == steps, "train-on-batch:steps", log ); c.count( "train_on_batch calls" );
        }
        sx.check( c ); sy.check( c ); for ( auto& [z, k] : kept ) { auto now = nd( z ); c.require( now.v == k.v && now.shape == k.shape, "earlier-prediction-overwritten", log ); }
    }
    put( ws, datas( vs ) ); // models stay alive: the session holds handles only
}
SCEN( "O03/linear-sgd", 120, 8000 ) { drive<0>( c, MeanSquaredError(), []( unsigned long b ) { return SGD( b, 0.05f, 0.5f ); }, "sgd mse" ); }
SCEN( "O03/dense-adam", 120, 8000 ) { drive<1>( c, MeanSquaredError(), []( unsigned long b ) { return Adam( b, 0.02f ); }, "adam mse" ); }
SCEN( "O03/normalized-dropout", 120, 8000 ) { drive<2>( c, MeanAbsoluteError(), []( unsigned long b ) { return SGD( b, 0.02f ); }, "sgd mae" ); }
#else
// a model applied to an expression equals the composition of the models
SCEN( "O03/composition", 120, 6000 )
{
    auto& r = c.rng; unsigned long a = r.range( 1, 4 ), b = r.range( 1, 4 ), d = r.range( 1, 4 ); c.describe( sf( "%lu->%lu->%lu", a, b, d ) ); auto pre = ids();
    auto x = Input( { a } ); auto y = relu( Dense( b )( x ) ); auto m2 = model{ x, y }; auto u = Input( { b } ); auto v = sigmoid( Dense( d )( u ) ); auto m1 = model{ u, v }; auto in = Input( { a } ); auto out = m1( m2( in ) ); auto mm = model{ in, out }; auto vs = vars_since( pre ); for ( auto& q : vs ) put( *new std::vector<Var<float>>{ q }, { rnd( r, nd( q.data() ).shape, -1, 1 ) } );
    c.require( vs.size() == 4, "variables", "composing models must not create variables" );
    for ( int t = 0, n = r.range( 1, 4 ); t < n; ++t )
    {
        Nd P = rnd( r, { (unsigned long) r.range( 1, 6 ), a } ); auto p = tens<float>( P ); int k = r.below( 3 ); ceras::tensor<float> got, want; if ( k == 0 ) { got = mm.predict( p ); want = m1.predict( m2.predict( p ) ); } else { want = m1.predict( m2.predict( p ) ); got = mm.predict( p ); } same( c, got, nd( want ), 1e-5, 1e-6, "composed-model" ); c.count( "compositions compared" );
        // gradients reach the weights of both models; chain rule against numeric differences of the composed value
        if ( k == 2 ) { in.bind( p ); auto e = mm.output(); Nd val = nd( sess<float>().run( e ) ); Nd sd = rnd( r, val.shape ); e.backward( tens<float>( sd ) ); size_t w = r.below( vs.size() ); Nd D = nd( vs[w].data() ), G = nd( vs[w].gradient() ); size_t el = r.below( D.size() ); learning_phase = 0; auto L = [&]( double h ) { vs[w].data().data()[el] = (float) ( D[el] + h ); Nd z = nd( sess<float>().run( e ) ); double q = 0; for ( size_t i = 0; i < z.size(); ++i ) q += z[i] * sd[i]; return q; }; double q = ( L( 0.01 ) - L( -0.01 ) ) / 0.02, q2 = ( L( 0.005 ) - L( -0.005 ) ) / 0.01; vs[w].data().data()[el] = (float) D[el]; learning_phase = 1; if ( std::abs( q - q2 ) < 2e-3 ) c.require( std::abs( G[el] - q2 ) < 1e-2 * ( 1 + std::abs( q2 ) ), "composed-gradient", sf( "weight %zu element %zu gradient %g, differences %g", w, el, G[el], q2 ) ); c.count( "composed gradients probed" ); }
        // training the composition trains both models
        if ( r.flip( 0.3 ) ) { auto cm = mm.compile( MeanSquaredError(), SGD( 1UL, 0.1f ) ); cm.train_on_batch( p, tens<float>( rnd( r, { P.shape[0], d }, 0, 1 ) ) ); }
    }
    bool t = r.flip(); mm.trainable( t ); for ( auto& q : vs ) c.require( q.trainable() == t, "composed-trainable" );
}
// the same model applied twice within one expression
SCEN( "O03/model-applied-twice", 20, 300 )
{
    auto& r = c.rng; unsigned long a = r.range( 1, 4 ), d = r.range( 1, 3 ), n = r.range( 1, 4 ); int k = c.kase % 2; c.describe( sf( "difference of one model at two inputs, %lu->%lu %s", a, d, k ? "relu" : "linear" ) ); auto x = Input( { a } ), p = Input( { a } ), q = Input( { a } ); Nd P = rnd( r, { n, a } ), Q = rnd( r, { n, a } ); p.bind( tens<float>( P ) ); q.bind( tens<float>( Q ) );
    auto go = [&]( auto m ) { Nd u = nd( m.predict( tens<float>( P ) ) ), v = nd( m.predict( tens<float>( Q ) ) ); auto e = m( p ) - m( q ); Nd got = nd( sess<float>().run( e ) ); same( c, got, bin( u, v, []( double s, double t ) { return s - t; } ), 1e-5, 1e-6, "applied-twice" ); };
    if ( k ) { auto y = relu( Dense( d )( x ) ); go( model{ x, y } ); } else { auto y = Dense( d )( x ); go( model{ x, y } ); }
}
// a compiled model and its parts, in phases: frozen, it does not change
SCEN( "O03/frozen-model", 60, 2000 )
{
    auto& r = c.rng; unsigned long a = r.range( 1, 4 ), n = r.range( 2, 6 ); auto pre = ids(); auto in = Input( { a } ); auto y = sigmoid( Dense( 1 )( in ) ); auto m = model{ in, y }; auto vs = vars_since( pre ); for ( auto& q : vs ) put( *new std::vector<Var<float>>{ q }, { rnd( r, nd( q.data() ).shape, -1, 1 ) } ); auto cm = m.compile( MeanAbsoluteError(), SGD( n, 0.5f, 0.5f ) ); Nd X = rnd( r, { n, a } ), Y = rnd( r, { n, 1 }, 1.5, 2 ); auto x = tens<float>( X ), z = tens<float>( Y ); c.describe( sf( "inputs %lu batch %lu", a, n ) );
    for ( int t = 0; t < 6; ++t ) { bool on = r.flip(); if ( r.flip() ) cm.trainable( on ); else { auto mm = m; mm.trainable( on ); } auto b = datas( vs ); cm.train_on_batch( x, z ); auto d = datas( vs ); bool moved = false; for ( size_t i = 0; i < b.size(); ++i ) moved = moved || b[i].v != d[i].v; c.require( moved == on, on ? "thawed-model-not-trained" : "frozen-model-changed", sf( "step %d", t ) ); c.count( on ? "training steps" : "frozen steps" ); }
}
#endif
