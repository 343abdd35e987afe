// A12: the shape an expression predicts before running is the shape it produces.
#include "graph.hpp"
using namespace vp; using namespace ceras;
static void predict( Ctx& c, Node const& e, std::string const& what ) { Shape p = e.shape(); Shape a = nd( run_node( e ) ).shape; c.require( p == a, "predicted-shape", what + " predicted " + str( p ) + " actual " + str( a ) ); c.require( e.shape() == a, "predicted-shape-after-run", what ); c.count( "predictions compared" ); }
SCEN( "A12/random-graph", 500, 30000 )
{
    Graph g; GOpt o; o.nodes = c.rng.range( 2, 12 ); o.count = c.rng.flip( 0.3 ); draw_graph( g, c.rng, o ); c.describe( g.desc );
    std::vector<Shape> pre; for ( auto& n : g.n ) pre.push_back( n.ex.shape() ); // all predictions before any run
    for ( size_t i = 0; i < g.n.size(); ++i ) { Shape a = nd( run_node( g.n[i].ex ) ).shape; c.require( pre[i] == a, "predicted-shape", sf( "n%zu=%s predicted %s actual %s", i, g.n[i].name.c_str(), str( pre[i] ).c_str(), str( a ).c_str() ) ); c.count( "predictions compared" ); if ( g.n[i].leaf < 0 ) c.count( g.n[i].name.substr( 0, g.n[i].name.find_first_of( "0123456789@[" ) ).c_str() ); }
}
struct Op { std::string what; std::function<Node()> mk; };
SCEN( "A12/image-operations", 300, 15000 )
{
    auto& r = c.rng; int k = c.kase % 15; unsigned long n = r.range( 1, 3 ), h = r.range( 3, 9 ), w = r.range( 3, 9 ), ch = r.range( 1, 3 ); unsigned long st = r.range( 2, 3 ); if ( k <= 2 ) { h = st * r.range( 1, 4 ); w = st * r.range( 1, 4 ); }
    auto x = var<double>( rnd( r, { n, h, w, ch } ) ); Node e; std::string d; unsigned long t = r.range( 1, 2 ), b = r.range( 1, 2 ), l = r.range( 1, 2 ), q = r.range( 1, 2 );
    if ( k == 0 ) { d = sf( "max_pooling_2d(%lu)", st ); e = N( max_pooling_2d( st )( x ) ); } if ( k == 1 ) { d = sf( "average_pooling_2d(%lu)", st ); e = N( average_pooling_2d( st )( x ) ); } if ( k == 2 ) { d = sf( "up_sampling_2d(%lu)", st ); e = N( up_sampling_2d( st )( x ) ); }
    if ( k == 3 ) { std::vector<unsigned long> p = r.flip( 0.3 ) ? std::vector<unsigned long>{ t } : r.flip() ? std::vector<unsigned long>{ t, l } : std::vector<unsigned long>{ t, b, l, q }; d = "zero_padding_2d" + str( p ); e = N( zero_padding_2d( p )( x ) ); }
    if ( k == 4 ) { t = std::min( t, 1UL ); l = std::min( l, 1UL ); b = std::min( b, 1UL ); q = std::min( q, 1UL ); std::vector<unsigned long> p = r.flip( 0.3 ) ? std::vector<unsigned long>{ t } : r.flip() ? std::vector<unsigned long>{ t, l } : std::vector<unsigned long>{ t, b, l, q }; d = "cropping_2d" + str( p ); e = N( cropping_2d( p )( x ) ); }
    if ( k >= 5 && k <= 8 ) { unsigned long kh = r.range( 1, 3 ), kw = r.range( 1, 3 ), s1 = r.range( 1, 2 ), s2 = r.range( 1, 2 ), d1 = r.range( 1, 1 ), d2 = r.range( 1, 1 ), f = r.range( 1, 3 ); bool same_ = r.flip( 0.4 ); if ( same_ ) { kh = kw = 3; s1 = s2 = 1; } auto kk = var<double>( rnd( r, { f, kh, kw, ch } ) ); d = sf( "conv2d kernel %lux%lu stride %lu,%lu %s", kh, kw, s1, s2, same_ ? "same" : "valid" );
        e = N( conv2d( h, w, s1, s2, d1, d2, same_ ? "same" : "valid" )( x, kk ) ); }
    if ( k == 9 ) { unsigned long a = r.below( 4 ); d = sf( "reduce_max(%lu)", a ); e = N( reduce_max( a )( x ) ); } if ( k == 10 ) { unsigned long a = r.below( 4 ), m = r.range( 1, 3 ); d = sf( "repeat(%lu,%lu)", m, a ); e = N( repeat( m, a )( x ) ); } if ( k == 11 ) { unsigned long a = r.below( 4 ); Shape s{ n, h, w, ch }; s[a] = r.range( 1, 3 ); auto y = var<double>( rnd( r, s ) ); d = sf( "concatenate(%lu)", a ); e = N( concatenate( x, y )( a ) ); }
    if ( k == 12 ) { d = "batch_normalization"; auto g = var<double>( rnd( r, { ch } ) ), be = var<double>( rnd( r, { ch } ) ); e = N( batch_normalization( 0.9 )( x, g, be ) ); } if ( k == 13 ) { d = "drop_out"; e = N( drop_out( 0.4 )( x ) ); } if ( k == 14 ) { unsigned long a = r.below( 4 ); d = sf( "argmax(%lu)", a ); e = N( argmax( a )( x ) ); }
    c.describe( d + " on " + str( { n, h, w, ch } ) ); predict( c, e, d );
}
SCEN( "A12/small-operations", 260, 10000 )
{
    auto& r = c.rng; int k = c.kase % 16; Shape s = rshape( r, 1, 4, 4, 60 ), s2 = s; auto x = var<double>( rnd( r, s ) ); auto y = constant<tensor<double>>{ tens<double>( rnd( r, s, 0.5, 2 ) ) }; Node e; std::string d; long ax = r.below( s.size() ); unsigned long last = -1UL;
    if ( k == 0 ) { d = "reduce default axis"; int w = r.below( 3 ); e = w == 0 ? N( reduce_max()( x ) ) : w == 1 ? N( reduce_min()( x ) ) : N( reduce_sum( last )( x ) ); }
    if ( k == 1 ) { d = "concatenate default axis"; e = N( concatenate( x, y )() ); } if ( k == 2 ) { d = "repeat default axis"; e = N( repeat( 2 )( x ) ); } if ( k == 3 ) { d = "expand_dims default"; e = N( expand_dims()( x ) ); } if ( k == 4 ) { d = "squeeze default"; e = N( squeeze()( x ) ); }
    if ( k == 5 ) { d = "reshape"; Shape to{ prod( s ), 1UL }; e = N( reshape( to, false )( x ) ); } if ( k == 6 ) { d = "sum_reduce"; e = N( sum_reduce( x ) ); } if ( k == 7 ) { d = "mean_reduce"; e = N( mean_reduce( x ) ); } if ( k == 8 ) { d = "maximum"; e = N( maximum( x, y ) ); } if ( k == 9 ) { d = "equal"; e = N( equal( x, y, 0.5 ) ); }
    if ( k == 10 ) { d = "ones_like"; e = N( ceras::ones_like( x ) ); } if ( k == 11 ) { d = "random_normal_like"; e = N( random_normal_like( 0.0, 1.0 )( x ) ); } if ( k == 12 ) { d = "sign"; e = N( ceras::sign( x ) ); } if ( k == 13 ) { d = "crelu"; e = N( crelu( x ) ); }
    if ( k == 14 ) { d = "broadcast"; Shape to = s; to.insert( to.begin(), 3 ); e = N( broadcast( to )( x ) ); } if ( k == 15 ) { d = "loss"; int w = r.below( 4 ); e = w == 0 ? N( mean_squared_error( x, y ) ) : w == 1 ? N( mean_absolute_error( x, y ) ) : w == 2 ? N( squared_loss( x, y ) ) : N( hinge_loss( x, y ) ); }
    c.describe( d + " on " + str( s ) ); c.count( d.c_str() ); predict( c, e, d );
}
