#pragma once
#include "cx.hpp"
// sliding: in the learning phase every channel is the input shifted by at most n pixels with zeros moved in, the gradient is the adjoint of that shift; otherwise the identity
inline void run_sliding( vp::Ctx& c )
{
    using namespace vp; using namespace ceras;
    Shape sh = Shape{ (unsigned long) c.rng.range( 1, 3 ), (unsigned long) c.rng.range( 1, 7 ), (unsigned long) c.rng.range( 1, 7 ), (unsigned long) c.rng.range( 1, 3 ) }; unsigned long n = c.rng.range( 1, 3 ); c.describe( "sliding_2d image " + str( sh ) + sf( " pixels %lu", n ) );
    auto x = var<double>( rnd_distinct( c.rng, sh, 1, 2 ) ); auto e = erase<double>( sliding_2d( n )( x ) );
    for ( int r = 0; r < 4; ++r )
    {
        learning_phase = c.rng.flip( 0.7 ) ? 1 : 0; Nd y = nd( e.run() ), in = nd( x.data() ); c.require( y.shape == in.shape, "forward:shape" ); std::vector<std::pair<long,long>> sel( sh[3] );
        auto shifted = [&]( size_t ch, long a, long b ) { Nd q{ y.shape }; for ( size_t k = 0; k < q.size(); ++k ) { Shape i = unrank( q.shape, k ); if ( i[3] != ch ) continue; long p = (long) i[1] - a, w = (long) i[2] - b; q.v[k] = p < 0 || w < 0 || p >= (long) in.shape[1] || w >= (long) in.shape[2] ? 0 : in.at( { i[0], (unsigned long) p, (unsigned long) w, i[3] } ); } return q; };
        Nd g = rnd( c.rng, y.shape ); x.reset(); e.back( tens<double>( g ) ); Nd d = nd( x.gradient() );
        for ( size_t ch = 0; ch < sh[3]; ++ch )
        {
            // several shifts may explain an image shifted (almost) out of view; the gradient must agree with one of those that do
            bool any = false, grad = false; long N = learning_phase ? n : 0;
            for ( long a = -N; a <= N; ++a ) for ( long b = -N; b <= N; ++b )
            {
                Nd q = shifted( ch, a, b ); bool eq = true; for ( size_t k = 0; k < y.size(); ++k ) if ( unrank( y.shape, k )[3] == ch && y.v[k] != q.v[k] ) eq = false; if ( !eq ) continue; any = true;
                bool ge = true; for ( size_t k = 0; k < d.size(); ++k ) { Shape i = unrank( d.shape, k ); if ( i[3] != ch ) continue; long p = (long) i[1] + a, w = (long) i[2] + b; double want = p < 0 || w < 0 || p >= (long) in.shape[1] || w >= (long) in.shape[2] ? 0 : g.at( { i[0], (unsigned long) p, (unsigned long) w, i[3] } ); if ( d.v[k] != want ) ge = false; } if ( ge ) grad = true;
            }
            c.require( any, "forward:not-a-shift", sf( "channel %zu run %d phase %d", ch, r, learning_phase ) ); c.require( grad, "gradient:not-the-adjoint-shift", sf( "channel %zu run %d phase %d", ch, r, learning_phase ) );
        }
    }
    learning_phase = 1;
}
