// A06: pooling, up-sampling, zero padding, cropping and sliding of NHWC images: values and gradients, over repeated runs and changing sizes.
#include "sliding.hpp"
using namespace vp; using namespace ceras;

static Nd make4( Shape s ) { return Nd{ s }; }
static Shape rimg( Rng& r, unsigned long m = 7 ) { if ( r.flip( 0.08 ) ) { Shape s{ (unsigned long) r.range( 1, 3 ), (unsigned long) r.range( 1, 5 ), (unsigned long) r.range( 1, 5 ), (unsigned long) r.range( 1, 3 ) }; s[r.below( 4 )] = wide_dim( r, 130 ); return s; } return Shape{ (unsigned long) r.range( 1, 3 ), (unsigned long) r.range( 1, m ), (unsigned long) r.range( 1, m ), (unsigned long) r.range( 1, 3 ) }; }
static Nd max_pool( Nd const& x, unsigned long s ) { Nd y{ Shape{ x.shape[0], x.shape[1] / s, x.shape[2] / s, x.shape[3] } }; for ( size_t k = 0; k < y.size(); ++k ) { Shape i = unrank( y.shape, k ); double m = -1e300; for ( size_t u = 0; u < s; ++u ) for ( size_t v = 0; v < s; ++v ) m = std::max( m, x.at( { i[0], i[1] * s + u, i[2] * s + v, i[3] } ) ); y.v[k] = m; } return y; }
static Nd avg_pool( Nd const& x, unsigned long s ) { Nd y{ Shape{ x.shape[0], x.shape[1] / s, x.shape[2] / s, x.shape[3] } }; for ( size_t k = 0; k < y.size(); ++k ) { Shape i = unrank( y.shape, k ); double m = 0; for ( size_t u = 0; u < s; ++u ) for ( size_t v = 0; v < s; ++v ) m += x.at( { i[0], i[1] * s + u, i[2] * s + v, i[3] } ); y.v[k] = m / s / s; } return y; }
static Nd up( Nd const& x, unsigned long s ) { Nd y{ Shape{ x.shape[0], x.shape[1] * s, x.shape[2] * s, x.shape[3] } }; for ( size_t k = 0; k < y.size(); ++k ) { Shape i = unrank( y.shape, k ); y.v[k] = x.at( { i[0], i[1] / s, i[2] / s, i[3] } ); } return y; }
static Nd shift_pad( Nd const& x, long t, long b, long l, long r ) // positive pads, negative crops
{
    Nd y{ Shape{ x.shape[0], x.shape[1] + t + b, x.shape[2] + l + r, x.shape[3] } };
    for ( size_t k = 0; k < y.size(); ++k ) { Shape i = unrank( y.shape, k ); long p = (long) i[1] - t, q = (long) i[2] - l; y.v[k] = p < 0 || q < 0 || p >= (long) x.shape[1] || q >= (long) x.shape[2] ? 0 : x.at( { i[0], (unsigned long) p, (unsigned long) q, i[3] } ); } return y;
}
// exact gradient of a function that copies/sums/averages inputs linearly is cheap through the reference itself
static std::vector<unsigned long> padding( Rng& r, long* t, unsigned long m ) { auto d = [&]{ return (unsigned long) r.range( 1, m ); }; switch ( r.below( 3 ) ) { case 0: { auto a = d(); t[0] = t[1] = t[2] = t[3] = a; return { a }; } case 1: { auto a = d(), b = d(); t[0] = t[1] = a; t[2] = t[3] = b; return { a, b }; } default: { auto a = d(), b = d(), e = d(), f = d(); t[0] = a; t[1] = b; t[2] = e; t[3] = f; return { a, b, e, f }; } } }

template< typename T > void one( Ctx& c )
{
    int op = c.rng.below( 5 ); unsigned long s = c.rng.flip( 0.15 ) ? c.rng.range( 5, 9 ) : c.rng.flip( 0.06 ) ? c.rng.pick( { 15, 16, 17, 20, 32, 37 } ) : c.rng.range( 2, 4 ); bool far_pad = op > 2 && c.rng.flip( 0.03 ); Shape sh = rimg( c.rng, s > 4 ? 20 : 7 ); long t[4]; auto pad = padding( c.rng, t, far_pad ? 270 : c.rng.flip( 0.1 ) ? 20 : 3 ); if ( s > 9 || far_pad ) { sh[0] = std::min( sh[0], 2UL ); sh[3] = std::min( sh[3], 2UL ); sh[1] = std::min( sh[1], 9UL ); sh[2] = std::min( sh[2], 9UL ); if ( op < 2 && s > 9 ) { sh[1] += s; sh[2] += s; } }
    static char const* names[] = { "max_pooling_2d", "average_pooling_2d", "up_sampling_2d", "zero_padding_2d", "cropping_2d" };
    auto valid = [&]( Shape& q ) { if ( op < 2 ) { q[1] = std::max( q[1], s ); q[2] = std::max( q[2], s ); } if ( op == 4 ) { q[1] = std::max( q[1], (unsigned long)( t[0] + t[1] + 1 ) ); q[2] = std::max( q[2], (unsigned long)( t[2] + t[3] + 1 ) ); } };
    valid( sh ); c.describe( sf( "%s<%s> image %s %s", names[op], sizeof( T ) == 4 ? "float" : "double", str( sh ).c_str(), op < 3 ? sf( "stride %lu", s ).c_str() : sf( "top %ld bottom %ld left %ld right %ld (%zu numbers)", t[0], t[1], t[2], t[3], pad.size() ).c_str() ) );
    double far = c.rng.flip( 0.25 ) ? c.rng.pick( { 1e3, 1e6, -1e3, -1e6 } ) : 0; if ( sizeof( T ) == 4 ) far = far == 0 ? 0 : far > 0 ? 1e3 : -1e3; auto values = [&c, far]( Shape const& q ) { Nd v = rnd_distinct( c.rng, q ); for ( auto& u : v.v ) u += far; return v; }; Nd X = values( sh ); quant<T>( X ); auto x = var<T>( X ); Ex_<T> e; RefFn ref; Opt o; o.rounds = c.rng.range( 2, 4 ); o.shape = true;
    switch ( op )
    {
        case 0: e = erase<T>( c.rng.flip() ? max_pooling_2d( s )( x ) : MaxPooling2D( s )( x ) ); ref = [s]( auto const& q ) { return max_pool( q[0], s ); }; break;
        case 1: e = erase<T>( c.rng.flip() ? average_pooling_2d( s )( x ) : AveragePooling2D( s )( x ) ); ref = [s]( auto const& q ) { return avg_pool( q[0], s ); }; break;
        case 2: e = erase<T>( c.rng.flip() ? up_sampling_2d( s )( x ) : UpSampling2D( s )( x ) ); ref = [s]( auto const& q ) { return up( q[0], s ); }; break;
        case 3: e = erase<T>( zero_padding_2d( pad )( x ) ); ref = [=]( auto const& q ) { return shift_pad( q[0], t[0], t[1], t[2], t[3] ); }; break;
        default: e = erase<T>( cropping_2d( pad )( x ) ); ref = [=]( auto const& q ) { return shift_pad( q[0], -t[0], -t[1], -t[2], -t[3] ); }; break;
    }
    // gradient by the adjoint of the index map
    o.agrad = [=]( std::vector<Nd> const& q, Nd const& g )
    {
        Nd d{ q[0].shape };
        for ( size_t k = 0; k < g.size(); ++k )
        {
            Shape i = unrank( g.shape, k );
            if ( op < 2 ) { size_t best = 0; bool first = true; for ( size_t u = 0; u < s; ++u ) for ( size_t v = 0; v < s; ++v ) { size_t a = d.idx( { i[0], i[1] * s + u, i[2] * s + v, i[3] } ); if ( op == 1 ) d.v[a] += g.v[k] / s / s; else if ( first || q[0].v[a] > q[0].v[best] ) { best = a; first = false; } } if ( op == 0 ) d.v[best] += g.v[k]; }
            else if ( op == 2 ) d.at( { i[0], i[1] / s, i[2] / s, i[3] } ) += g.v[k];
            else { long sg = op == 3 ? 1 : -1, p = (long) i[1] - sg * t[0], w = (long) i[2] - sg * t[2]; if ( p >= 0 && w >= 0 && p < (long) d.shape[1] && w < (long) d.shape[2] ) d.at( { i[0], (unsigned long) p, (unsigned long) w, i[3] } ) += g.v[k]; }
        }
        return std::vector<Nd>{ d };
    };
    double eps = std::is_same_v<T, float> ? 1e-5 : 1e-12; if ( std::is_same_v<T, float> ) float_terms( s * s ); o.rtol = o.grtol = eps; o.atol = o.gatol = eps;
    o.redraw = [&]( size_t, Nd const& n ) { Shape q = n.shape; switch ( c.rng.below( 4 ) ) { case 0: q[0] = c.rng.range( 1, 4 ); break; case 1: std::swap( q[1], q[2] ); break; case 2: if ( s > 9 || far_pad ) break; q = rimg( c.rng ); q[3] = n.shape[3]; break; default: break; } valid( q ); return values( q ); };
    check_ex<T>( c, { x }, e, ref, o ); c.count( names[op] );
}
SCEN( "A06/double", 500, 15000 ) { one<double>( c ); }
SCEN( "A06/float", 200, 5000 ) { one<float>( c ); }

// ties and non-finite-free extremes: the maximum's value is right and the whole gradient of a window goes to pixels holding that maximum
SCEN( "A06/max-ties", 100, 2000 )
{
    Shape sh = rimg( c.rng ); unsigned long s = c.rng.range( 2, 3 ); sh[1] = std::max( sh[1], s ); sh[2] = std::max( sh[2], s ); Nd X{ sh }; for ( auto& v : X.v ) v = c.rng.pick( { -1.0, -2.0, 0.0, -0.5 } ) * c.rng.pick( { 1.0, 1.0, 1e30 } );
    c.describe( "tied image " + str( sh ) + sf( " stride %lu", s ) ); auto x = var<double>( X ); auto e = erase<double>( max_pooling_2d( s )( x ) );
    for ( int r = 0; r < 2; ++r )
    {
        Nd y = nd( e.run() ), w = max_pool( nd( x.data() ), s ); same( c, y, w, 0, 0, "forward" ); Nd g = rnd( c.rng, y.shape, 0.5, 1.5 ); e.back( tens<double>( g ) ); Nd d = nd( x.gradient() ), in = nd( x.data() ); Nd sum{ y.shape };
        for ( size_t k = 0; k < d.size(); ++k ) { Shape i = unrank( d.shape, k ); if ( i[1] / s >= y.shape[1] || i[2] / s >= y.shape[2] ) { c.require( d.v[k] == 0, "gradient:outside" ); continue; } Shape o{ i[0], i[1] / s, i[2] / s, i[3] }; if ( d.v[k] != 0 ) c.require( in.v[k] == y.at( o ), "gradient:not-at-maximum" ); sum.at( o ) += d.v[k]; }
        same( c, sum, g, 1e-12, 1e-12, "gradient" ); for ( auto& v : x.data() ) v = c.rng.pick( { 0.0, 1.0, -1.0 } );
    }
}
SCEN( "A06/sliding", 150, 3000 ) { run_sliding( c ); }
