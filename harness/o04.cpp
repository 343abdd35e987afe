// O04: each layer against its documented function of the input and of its weights; shapes, initial values and trainability of the weights.
#include "conv.hpp"
using namespace vp; using namespace ceras;
using TT = ceras::tensor<float>;
static std::set<int> ids() { std::set<int> s; for ( auto& [i, v] : sess<float>().variables_ ) s.insert( i ); return s; }
static std::vector<Var<float>> since( std::set<int> const& pre ) { std::map<int, Var<float>> m; for ( auto& [i, v] : sess<float>().variables_ ) if ( !pre.count( i ) ) m.emplace( i, v ); std::vector<Var<float>> r; for ( auto& [i, v] : m ) r.push_back( v ); return r; }
struct W { Shape s; int init; bool trainable; float l1 = 0, l2 = 0; };
struct Reg4 { float k1 = 0, k2 = 0, b1 = 0, b2 = 0; explicit Reg4( Rng& r ) { auto d = [&]{ return r.flip( 0.4 ) ? 0.0f : (float) r.real( 0.01, 2 ); }; if ( r.flip( 0.6 ) ) k1 = d(), k2 = d(), b1 = d(), b2 = d(); } }; // init: 0 zeros, 1 ones, 2 glorot
using Ref = std::function<Nd( std::vector<Nd> const& weights, Nd const& x )>;
// mk: placeholder -> expression, called once; ref over several batches with re-drawn weights; predicted output shape too
template< typename F > void layer( Ctx& c, Shape in, F mk, std::vector<W> ws, Ref ref, double tol = 2e-5, bool phase_free = true )
{
    auto& r = c.rng; auto pre = ids(); ceras::place_holder<TT> x = Input( in ); auto E = erase<float>( mk( x ) ); auto vs = since( pre ); c.require( vs.size() == ws.size(), "variables", sf( "%zu variables created, expected %zu", vs.size(), ws.size() ) );
    for ( size_t i = 0; i < vs.size(); ++i )
    {
        Nd d = nd( vs[i].data() ); c.require( d.shape == ws[i].s, "weight-shape", sf( "weight %zu is ", i ) + str( d.shape ) + " expected " + str( ws[i].s ) ); c.require( vs[i].l1_regularizer() == ws[i].l1 && vs[i].l2_regularizer() == ws[i].l2, "weight-regularizer", sf( "weight %zu has %g %g, asked for %g %g", i, vs[i].l1_regularizer(), vs[i].l2_regularizer(), ws[i].l1, ws[i].l2 ) ); c.require( vs[i].trainable() == ws[i].trainable, "weight-trainability", sf( "weight %zu", i ) );
        double b = std::sqrt( 6.0 / std::max( 1.0, double( d.shape[0] + ( d.shape.size() > 1 ? d.shape[1] : 0 ) ) ) ) * ( 1 + 1e-6 ); std::set<double> distinct( d.v.begin(), d.v.end() ); for ( auto v : d.v ) c.require( ws[i].init == 0 ? v == 0 : ws[i].init == 1 ? v == 1 : std::abs( v ) <= b, "weight-initial-value", sf( "weight %zu holds %g", i, v ) ); if ( ws[i].init == 2 && d.size() >= 4 ) c.require( distinct.size() >= 3, "weight-initial-value", "not random" );
        c.count( "weights inspected" );
    }
    Shape bs = in; bs.insert( bs.begin(), 1 ); Nd probe = ref( [&]{ std::vector<Nd> q; for ( auto& v : vs ) q.push_back( nd( v.data() ) ); return q; }(), rnd( r, bs ) ); c.require( E.shape() == probe.shape, "predicted-shape", "predicted " + str( E.shape() ) + " one sample gives " + str( probe.shape ) );
    for ( int t = 0, n = r.range( 2, 4 ); t < n; ++t )
    {
        std::vector<Nd> q; for ( auto& v : vs ) { if ( t ) { Nd d = rnd( r, nd( v.data() ).shape, -1, 1 ); quant<float>( d ); std::copy( d.v.begin(), d.v.end(), v.data().data() ); } q.push_back( nd( v.data() ) ); }
        bs[0] = r.range( 1, 4 ); Nd X = rnd_distinct( r, bs ); quant<float>( X ); auto xt = tens<float>( X ); Snap<float> sx{ xt, "input" }; x.bind( xt ); learning_phase = phase_free && r.flip() ? 0 : 1; auto y = E.run(); learning_phase = 1; Nd want = ref( q, X ); same( c, y, want, tol, tol, "layer-value", sf( "run %d", t ) ); sx.check( c ); for ( size_t i = 0; i < vs.size(); ++i ) c.require( nd( vs[i].data() ).v == q[i].v, "weight-changed-by-run", sf( "weight %zu", i ) ); c.count( "layer runs compared" );
        // gradients reach exactly the trainable weights
        Nd sd = rnd( r, want.shape, 0.5, 1 ); y = E.run(); E.back( tens<float>( sd ) ); for ( size_t i = 0; i < vs.size(); ++i ) { Nd g = nd( vs[i].gradient() ); double m = 0; for ( auto z : g.v ) m = std::max( m, std::abs( z ) ); if ( !vs[i].trainable() ) c.require( m == 0, "frozen-weight-gradient", sf( "weight %zu", i ) ); else if ( i == 1 ) { c.require( g.shape == q[i].shape, "gradient-shape" ); c.require( m > 0, "no-gradient", sf( "weight %zu", i ) ); } }
    }
}
static Nd add( Nd const& a, Nd const& b ) { return bin( a, b, []( double x, double y ) { return x + y; } ); }
SCEN( "O04/Dense", 60, 3000 ) { auto& r = c.rng; unsigned long i = r.range( 1, 7 ), o = r.range( 1, 6 ); bool b = r.flip( 0.7 ); Reg4 q{ r }; c.describe( sf( "Dense %lu->%lu bias %d", i, o, b ) ); layer( c, { i }, [&]( auto x ) { return Dense( o, b, q.k1, q.k2, q.b1, q.b2 )( x ); }, { { { i, o }, 2, true, q.k1, q.k2 }, { { 1, o }, 0, b, q.b1, q.b2 } }, []( auto& w, Nd const& x ) { return add( matmul( x, w[0] ), w[1] ); } ); }
static void conv( Ctx& c, int which )
{
    auto& r = c.rng; Geo g = rgeo( r, which == 1 ); bool b = r.flip( 0.7 ); bool sq = r.flip( 0.3 ); if ( sq ) { g.kc = g.kr; g.sc = g.sr; g.dc = g.dr; if ( !set_pad( g, which == 1 ) ) { sq = false; g = rgeo( r, which == 1 ); } }
    std::vector<unsigned long> ks{ g.kr, g.kc }, st{ g.sr, g.sc }, dl{ g.dr, g.dc }; if ( sq ) { ks.pop_back(); st.pop_back(); dl.pop_back(); } c.describe( sf( "%s bias %d %s", which ? "Conv2D with input shape" : "Conv2D", b, sq ? "single numbers " : "" ) + g.s() );
    float_terms( g.terms() ); Reg4 q{ r }; std::vector<W> ws{ { { g.NC, g.kr, g.kc, g.CH }, 2, true, q.k1, q.k2 }, { { 1, 1, g.NC }, 0, b, q.b1, q.b2 } }; Ref f = [g]( auto& w, Nd const& x ) { return add( conv_ref( g, x, w[0] ), w[1] ); };
    if ( which ) layer( c, { g.R, g.C, g.CH }, [&]( auto x ) { return Conv2D( g.NC, ks, { g.R, g.C, g.CH }, g.pad, st, dl, b, q.k1, q.k2, q.b1, q.b2 )( x ); }, ws, f ); else layer( c, { g.R, g.C, g.CH }, [&]( auto x ) { return Conv2D( g.NC, ks, g.pad, st, dl, b, q.k1, q.k2, q.b1, q.b2 )( x ); }, ws, f );
}
SCEN( "O04/Conv2D", 100, 5000 ) { conv( c, 0 ); }
SCEN( "O04/Conv2D-input-shape", 60, 3000 ) { conv( c, 1 ); }
SCEN( "O04/Conv1D", 60, 3000 )
{
    auto& r = c.rng; Geo g; do { g = rgeo( r, false ); g.C = g.kc = g.sc = g.dc = 1; } while ( !set_pad( g, false ) ); bool b = r.flip( 0.7 ); Reg4 q{ r }; c.describe( sf( "Conv1D bias %d ", b ) + g.s() ); float_terms( g.terms() );
    layer( c, { g.R, g.CH }, [&]( auto x ) { return Conv1D( g.NC, g.kr, g.sr, g.pad, g.dr, b, q.k1, q.k2, q.b1, q.b2 )( x ); }, { { { g.NC, g.kr, 1, g.CH }, 2, true, q.k1, q.k2 }, { { 1, 1, g.NC }, 0, b, q.b1, q.b2 } }, [g]( auto& w, Nd const& x ) { Nd y = add( conv_ref( g, reshaped( x, { x.shape[0], x.shape[1], 1, x.shape[2] } ), w[0] ), w[1] ); return reshaped( y, { y.shape[0], y.shape[1], y.shape[3] } ); } );
}
SCEN( "O04/Conv2DTranspose", 60, 3000 ) // unit strides: every pixel stamps the kernel; see A05 for strides
{
    auto& r = c.rng; unsigned long R = r.range( 1, 5 ), C = r.range( 1, 5 ), ch = r.range( 1, 3 ), o = r.range( 1, 3 ), k = r.range( 1, 3 ); bool b = r.flip( 0.7 ); Reg4 q{ r }; c.describe( sf( "Conv2DTranspose image %lux%lu channels %lu->%lu kernel %lu bias %d", R, C, ch, o, k, b ) );
    layer( c, { R, C, ch }, [&]( auto x ) { return Conv2DTranspose( o, { k, k }, "valid", { 1, 1 }, { 1, 1 }, b, q.k1, q.k2, q.b1, q.b2 )( x ); }, { { { o, k, k, ch }, 2, true, q.k1, q.k2 }, { { 1, 1, o }, 0, b, q.b1, q.b2 } },
        [=]( auto& w, Nd const& x ) { Nd y{ Shape{ x.shape[0], R + k - 1, C + k - 1, o } }; for ( size_t e = 0; e < x.size(); ++e ) { Shape q = unrank( x.shape, e ); for ( size_t u = 0; u < k; ++u ) for ( size_t v = 0; v < k; ++v ) for ( size_t n = 0; n < o; ++n ) y.at( { q[0], q[1] + u, q[2] + v, n } ) += x[e] * w[0].at( { n, u, v, q[3] } ); } return add( y, w[1] ); } );
}
static Nd softmax_ref( Nd const& x ) { size_t n = x.shape.back(); Nd y = x; for ( size_t i = 0; i < x.size(); i += n ) { double m = -1e300, s = 0; for ( size_t j = 0; j < n; ++j ) m = std::max( m, x[i + j] ); for ( size_t j = 0; j < n; ++j ) s += y[i + j] = std::exp( x[i + j] - m ); for ( size_t j = 0; j < n; ++j ) y[i + j] /= s; } return y; }
static Shape pooled( Shape s, unsigned long k ) { s[1] /= k; s[2] /= k; return s; }
SCEN( "O04/stateless", 200, 10000 )
{
    auto& r = c.rng; int k = c.kase % 10; unsigned long s = r.range( 2, 3 ); Shape in = k >= 6 ? Shape{ (unsigned long) r.range( 3, 7 ), (unsigned long) r.range( 3, 7 ), (unsigned long) r.range( 1, 3 ) } : rshape( r, 1, 3, 5, 60 ); float f = (float) r.pick( { 0.1, 0.2, 0.5, 0.9 } ); c.describe( sf( "layer %d parameter %g stride %lu input ", k, f, s ) + str( in ) );
    auto map = [&]( auto mk, auto fn ) { layer( c, in, mk, {}, [fn]( auto&, Nd const& x ) { return x.map( fn ); } ); };
    switch ( k )
    {
        case 0: map( []( auto x ) { return ReLU( x ); }, []( double x ) { return x > 0 ? x : 0.0; } ); break;
        case 1: { bool d = r.flip(); map( [=]( auto x ) { return d ? LeakyReLU()( x ) : LeakyReLU( f )( x ); }, [=]( double x ) { return x > 0 ? x : x * ( d ? 0.2f : f ); } ); break; }
        case 2: { bool d = r.flip(); map( [=]( auto x ) { return d ? ELU()( x ) : ELU( f )( x ); }, [=]( double x ) { return x > 0 ? x : ( std::exp( x ) - 1 ) * ( d ? 0.2f : f ); } ); break; }
        case 3: layer( c, in, []( auto x ) { return Softmax()( x ); }, {}, []( auto&, Nd const& x ) { return softmax_ref( x ); } ); break;
        case 4: layer( c, in, []( auto x ) { return Flatten()( x ); }, {}, []( auto&, Nd const& x ) { return reshaped( x, { x.shape[0], x.size() / x.shape[0] } ); }, 0 ); break;
        case 5: { Shape t = in; std::reverse( t.begin(), t.end() ); if ( r.flip() ) t = { prod( in ) }; else if ( r.flip() ) t.insert( t.begin() + r.below( t.size() + 1 ), 1 ); layer( c, in, [=]( auto x ) { return Reshape( t )( x ); }, {}, [=]( auto&, Nd const& x ) { Shape q = t; q.insert( q.begin(), x.shape[0] ); return reshaped( x, q ); }, 0 ); break; }
        case 6: layer( c, in, [=]( auto x ) { return MaxPooling2D( s )( x ); }, {}, [=]( auto&, Nd const& x ) { Nd y{ pooled( x.shape, s ) }; for ( size_t e = 0; e < y.size(); ++e ) { Shape i = unrank( y.shape, e ); double m = -1e300; for ( size_t u = 0; u < s; ++u ) for ( size_t v = 0; v < s; ++v ) m = std::max( m, x.at( { i[0], i[1] * s + u, i[2] * s + v, i[3] } ) ); y[e] = m; } return y; }, 0 ); break;
        case 7: layer( c, in, [=]( auto x ) { return AveragePooling2D( s )( x ); }, {}, [=]( auto&, Nd const& x ) { Nd y{ pooled( x.shape, s ) }; for ( size_t e = 0; e < y.size(); ++e ) { Shape i = unrank( y.shape, e ); double m = 0; for ( size_t u = 0; u < s; ++u ) for ( size_t v = 0; v < s; ++v ) m += x.at( { i[0], i[1] * s + u, i[2] * s + v, i[3] } ); y[e] = m / ( s * s ); } return y; } ); break;
        case 8: layer( c, in, [=]( auto x ) { return UpSampling2D( s )( x ); }, {}, [=]( auto&, Nd const& x ) { Nd y{ Shape{ x.shape[0], x.shape[1] * s, x.shape[2] * s, x.shape[3] } }; for ( size_t e = 0; e < y.size(); ++e ) { Shape i = unrank( y.shape, e ); y[e] = x.at( { i[0], i[1] / s, i[2] / s, i[3] } ); } return y; }, 0 ); break;
        default: { unsigned long a = r.range( 1, 3 ), b = r.range( 1, 3 ); layer( c, in, [=]( auto x ) { return zero_padding_2d( { a, b } )( x ); }, {}, [=]( auto&, Nd const& x ) { Nd y{ Shape{ x.shape[0], x.shape[1] + 2 * a, x.shape[2] + 2 * b, x.shape[3] } }; for ( size_t e = 0; e < x.size(); ++e ) { Shape i = unrank( x.shape, e ); y.at( { i[0], i[1] + a, i[2] + b, i[3] } ) = x[e]; } return y; }, 0 ); }
    }
}
// layers with two inputs
SCEN( "O04/binary", 80, 4000 )
{
    auto& r = c.rng; int k = c.kase % 4; Shape in = rshape( r, 1, 3, 5, 40 ), in2 = in; unsigned long ax = 0; if ( k == 3 ) { ax = r.flip( 0.4 ) ? -1UL : r.range( 1, in.size() ); in2[ax == -1UL ? in.size() - 1 : ax - 1] = r.range( 1, 4 ); } c.describe( sf( "layer %d axis %ld inputs ", k, (long) ax ) + str( in ) + str( in2 ) ); auto a = Input( in ), b = Input( in2 );
    auto go = [&]( auto e, auto ref ) { auto E = erase<float>( e ); for ( int t = 0; t < 3; ++t ) { unsigned long n = r.range( 1, 4 ); Shape sa = in, sb = in2; sa.insert( sa.begin(), n ); sb.insert( sb.begin(), n ); Nd A = rnd( r, sa ), B = rnd( r, sb ); quant<float>( A ); quant<float>( B ); a.bind( tens<float>( A ) ); b.bind( tens<float>( B ) ); same( c, E.run(), ref( A, B ), 1e-6, 1e-6, "layer-value", sf( "run %d", t ) ); c.require( E.shape() == ref( A, B ).shape, "predicted-shape" ); c.count( "layer runs compared" ); } };
    if ( k == 0 ) go( Add()( a, b ), []( Nd const& p, Nd const& q ) { return add( p, q ); } ); else if ( k == 1 ) go( Subtract()( a, b ), []( Nd const& p, Nd const& q ) { return bin( p, q, []( double x, double y ) { return x - y; } ); } ); else if ( k == 2 ) go( Multiply()( a, b ), []( Nd const& p, Nd const& q ) { return bin( p, q, []( double x, double y ) { return x * y; } ); } );
    else go( ax == -1UL && r.flip() ? Concatenate()( a, b ) : Concatenate( ax )( a, b ), [ax]( Nd const& p, Nd const& q ) { size_t x = ax == -1UL ? p.shape.size() - 1 : ax; Shape s = p.shape; s[x] += q.shape[x]; Nd y{ s }; for ( size_t e = 0; e < y.size(); ++e ) { Shape i = unrank( s, e ); if ( i[x] < p.shape[x] ) y[e] = p.at( i ); else { i[x] -= p.shape[x]; y[e] = q.at( i ); } } return y; } );
}
// layers with state: the same history as the operation they stand for (A09 decides that operation)
SCEN( "O04/stateful", 80, 4000 )
{
    auto& r = c.rng; int k = c.kase % 2; Shape in = rshape( r, 1, 3, 5, 30 ); float f = (float) r.pick( { 0.1, 0.5, 0.8, 0.95 } ); bool dflt = r.flip( 0.3 ); c.describe( sf( "%s %g input ", k ? "Dropout" : "BatchNormalization", dflt && !k ? 0.95 : f ) + str( in ) ); auto x = Input( in ); Ex_<float> a, b; auto pre = ids();
    if ( k ) { a = erase<float>( Dropout( f )( x ) ); b = erase<float>( drop_out( f )( x ) ); } else { Reg4 w{ r }; a = dflt ? erase<float>( BatchNormalization()( x ) ) : erase<float>( BatchNormalization( f, w.k1, w.k2, w.b1, w.b2 )( x ) ); auto vs = since( pre ); c.require( vs.size() == 2, "variables" ); if ( !dflt ) c.require( vs[0].l1_regularizer() == w.k1 && vs[0].l2_regularizer() == w.k2 && vs[1].l1_regularizer() == w.b1 && vs[1].l2_regularizer() == w.b2, "weight-regularizer" ); for ( int i : { 0, 1 } ) { Nd d = nd( vs[i].data() ); c.require( d.shape == Shape{ in.back() }, "weight-shape", str( d.shape ) ); for ( auto v : d.v ) c.require( v == ( i ? 0 : 1 ), "weight-initial-value" ); c.require( vs[i].trainable(), "weight-trainability" ); auto q = rnd( r, d.shape, 0.3, 2 ); std::copy( q.v.begin(), q.v.end(), vs[i].data().data() ); } b = erase<float>( batch_normalization( dflt ? 0.95f : f )( x, vs[0], vs[1] ) ); }
    c.require( since( pre ).size() == ( k ? 0 : 2 ), "variables" );
    for ( int t = 0, n = r.range( 3, 7 ); t < n; ++t ) { Shape s = in; s.insert( s.begin(), r.range( 1, 4 ) ); Nd X = rnd( r, s ); x.bind( tens<float>( X ) ); learning_phase = r.flip() ? 1 : 0; unsigned sd = r.next(); random_generator.seed( sd ); Nd p = nd( a.run() ); random_generator.seed( sd ); Nd q = nd( b.run() ); learning_phase = 1; same( c, p, q, 1e-6, 1e-6, "layer-value", sf( "run %d", t ) ); c.count( "layer runs compared" ); }
}
// Input: a placeholder of samples of the given shape
SCEN( "O04/Input", 30, 500 )
{
    auto& r = c.rng; Shape in = rshape( r, 1, 3 ); bool known = r.flip( 0.7 ); c.describe( "Input " + ( known ? str( in ) : std::string( "of unknown shape" ) ) ); auto x = known ? Input( in ) : Input(); Shape s = x.shape(); Shape w = in; w.insert( w.begin(), 1 ); if ( known ) c.require( s == w, "input-shape", str( s ) ); auto pre = ids(); Nd X = rnd( r, [&]{ Shape q = in; q.insert( q.begin(), r.range( 1, 4 ) ); return q; }() ); quant<float>( X ); auto t = tens<float>( X ); sess<float>().bind( x, t ); same( c, sess<float>().run( x ), X, 0, 0, "input-value" ); c.require( x.shape() == X.shape, "bound-shape" ); auto y = x; Nd Z = rnd( r, X.shape ); quant<float>( Z ); y.bind( tens<float>( Z ) ); same( c, sess<float>().run( x ), Z, 0, 0, "copies-share-binding" ); c.require( !( x != y ) && x == y, "identity" ); c.require( Input( in ) != x, "identity" );
}
