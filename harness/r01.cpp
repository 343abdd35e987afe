// R01: threaded evaluation under ThreadSanitizer; repeated evaluation gives the same bits
#include "cx.hpp"
#include <thread>
using namespace vp; using namespace ceras;
static unsigned cores = 6;
unsigned int std::thread::hardware_concurrency() noexcept { return cores; }
using T = float; using V = Var<T>;
static bool equal( std::vector<T> const& a, std::vector<T> const& b ) { return a.size() == b.size() && ( a.empty() || !std::memcmp( a.data(), b.data(), a.size() * sizeof( T ) ) ); }
// runs an expression several times with and without backward: same bits each time
template< typename E > void repeat_run( Ctx& c, E e, std::vector<V> vs, char const* what )
{
    learning_phase = 1; std::vector<std::vector<T>> first; for ( int k = 0; k < 3; ++k ) { cores = k == 2 ? 3 : 6; auto y = sess<T>().run( e ); std::vector<std::vector<T>> now{ raw( y ) }; auto g = ones_like( y ); e.backward( g ); for ( auto& v : vs ) now.push_back( raw( std::as_const( v ).gradient() ) ); if ( k == 0 ) first = now; else for ( size_t i = 0; i < now.size(); ++i ) c.require( equal( now[i], first[i] ), i ? "gradient-differs" : "value-differs", sf( "%s, run %d, part %zu", what, k, i ) ); } c.count( "repeated evaluations", 3 );
}
static V mk( Rng& r, Shape const& s ) { return V{ tens<T>( rnd( r, s, 0.2, 2 ) ) }; }
SCEN( "tensor-functions", 40, 800 )
{
    auto& r = c.rng; cores = r.range( 2, 8 ); size_t m = r.range( 9, 40 ), n = r.range( 9, 40 ), k = r.range( 9, 40 ); auto a = tens<T>( rnd( r, { m, k } ) ), b = tens<T>( rnd( r, { k, n } ) ), d = tens<T>( rnd( r, { m, k } ) ), e = tens<T>( rnd( r, { k } ) ); c.describe( sf( "%zu %zu %zu on %u cores", m, n, k, cores ) );
    auto twice = [&]( char const* what, auto f ) { auto p = raw( f() ), q = raw( f() ); c.require( equal( p, q ), "value-differs", what ); c.count( "tensor functions run twice" ); };
    twice( "product", [&]{ return a * b; } ); twice( "add", [&]{ return a + d; } ); twice( "broadcast", [&]{ return a + e; } ); twice( "minus", [&]{ return a - d; } ); twice( "hadamard", [&]{ return hadamard_product( a, d ); } ); twice( "divide", [&]{ return elementwise_divide( a, d ); } ); twice( "scale", [&]{ return a * T( 2 ); } ); twice( "sum", [&]{ return sum( a, 0 ); } ); twice( "max", [&]{ return max( a, 1 ); } ); twice( "softmax", [&]{ return softmax( a ); } ); twice( "concatenate", [&]{ return concatenate( a, d, 0 ); } ); twice( "repeat", [&]{ return repeat( a, 3 ); } ); twice( "abs", [&]{ return abs( a ); } ); twice( "mean", [&]{ return mean( a, 1, true ); } ); twice( "deviation", [&]{ return standard_deviation( a, 0, true ); } );
    { auto x = a.deep_copy(); x += d; x -= d; x *= d; x /= T( 3 ); x.map( []( T& q ) { q += 1; } ); x.reset( 2.f ); }
}
SCEN( "elementwise-expressions", 30, 600 )
{
    auto& r = c.rng; Shape s = rshape( r, 2, 3, 9, 300 ); if ( prod( s ) < 40 ) s = { 9, 9 }; c.describe( str( s ) ); wipe<T>();
#define ONE( F ) { auto x = mk( r, s ); repeat_run( c, F( x ), { x }, #F ); wipe<T>(); }
    ONE( exp ) ONE( log ) ONE( sqrt ) ONE( sin ) ONE( cos ) ONE( tanh ) ONE( square ) ONE( abs ) ONE( sigmoid ) ONE( relu ) ONE( softmax ) ONE( softplus ) ONE( erf ) ONE( selu ) ONE( negative )
#define TWO( EX ) { auto x = mk( r, s ), y = mk( r, s ); repeat_run( c, EX, { x, y }, #EX ); wipe<T>(); }
    TWO( x + y ) TWO( x - y ) TWO( elementwise_product( x, y ) ) TWO( divide( x, y ) ) TWO( maximum( x, y ) ) TWO( hypot( x, y ) ) TWO( atan2( x, y ) ) { auto x = mk( r, s ), y = mk( r, { s.back() } ); repeat_run( c, x + y, { x, y }, "broadcast" ); wipe<T>(); }
}
SCEN( "reductions-and-movement", 30, 600 )
{
    auto& r = c.rng; Shape s = { (size_t) r.range( 3, 12 ), (size_t) r.range( 3, 12 ), (size_t) r.range( 2, 6 ) }; c.describe( str( s ) ); wipe<T>();
#define RED( EX ) { auto x = mk( r, s ); repeat_run( c, EX( x ), { x }, #EX ); wipe<T>(); }
    RED( reduce_sum( 1 ) ) RED( reduce_max( 0 ) ) RED( reduce_min( 2 ) ) RED( sum_reduce ) RED( mean_reduce ) RED( flip( 1 ) ) RED( repeat( 3, 1 ) ) RED( argmax( 1 ) ) RED( clip( 0.5f, 1.5f ) ) RED( flatten )
    { auto x = mk( r, { s[0], s[1] } ); repeat_run( c, transpose( x ), { x }, "transpose" ); wipe<T>(); } { auto x = mk( r, s ), y = mk( r, s ); repeat_run( c, concatenate( 1 )( x, y ), { x, y }, "concatenate" ); wipe<T>(); } { auto x = mk( r, { s[0], 20 } ), y = mk( r, { 20, s[1] } ); repeat_run( c, x * y, { x, y }, "product" ); wipe<T>(); }
}
SCEN( "images", 30, 500 )
{
    auto& r = c.rng; size_t b = r.range( 1, 3 ), h = r.range( 3, 5 ) * 2, ch = r.range( 1, 3 ); Shape s{ b, h, h, ch }; c.describe( str( s ) ); wipe<T>();
    { auto x = mk( r, s ), k = mk( r, { 2, 3, 3, ch } ); repeat_run( c, conv2d( h, h, 1, 1, 1, 1, "valid" )( x, k ), { x, k }, "convolution" ); wipe<T>(); } { auto x = mk( r, s ), k = mk( r, { 2, 3, 3, ch } ); repeat_run( c, conv2d( h, h, 1, 1, 1, 1, "same" )( x, k ), { x, k }, "convolution same" ); wipe<T>(); }
    RED( max_pooling_2d( 2 ) ) RED( average_pooling_2d( 2 ) ) RED( up_sampling_2d( 2 ) ) RED( zero_padding_2d( { 1, 2 } ) ) RED( cropping_2d( { 1, 1 } ) )
}
SCEN( "training", 20, 300 )
{
    auto& r = c.rng; int w = r.below( 5 ); static char const* N[] = { "SGD", "Adam", "RMSProp", "Adagrad", "Adadelta" }; c.describe( N[w] ); u64 seed = r.next(); size_t n = r.range( 4, 12 ); Nd X = rnd( r, { n, 10 } ), Y = rnd( r, { n, 3 }, 0, 1 ); std::vector<std::vector<T>> res;
    for ( int k = 0; k < 2; ++k )
    {
        cores = 6; wipe<T>(); random_generator.seed( seed ); learning_phase = 1; auto in = Input( { 10 } ); auto m = model{ in, softmax( Dense( 3 )( Dropout( 0.3f )( BatchNormalization( 0.9f )( relu( Dense( 16 )( in ) ) ) ) ) ) };
        auto drive = [&]( auto opt ) { auto cm = m.compile( MeanSquaredError(), opt ); for ( int q = 0; q < 4; ++q ) cm.train_on_batch( tens<T>( X ), tens<T>( Y ) ); res.push_back( raw( cm.predict( tens<T>( X ) ) ) ); };
        switch ( w ) { case 0: drive( SGD( n, 0.1f, 0.9f ) ); break; case 1: drive( Adam( n, 0.01f ) ); break; case 2: drive( RMSprop( n, 0.01f ) ); break; case 3: drive( Adagrad( n, 0.01f ) ); break; default: drive( Adadelta( n, 0.9f ) ); }
    }
    c.require( equal( res[0], res[1] ), "training-not-reproducible", N[w] ); c.count( "trainings repeated" );
}
