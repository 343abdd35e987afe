// Geometry of a 2-D convolution and its nested-loop definition.
#pragma once
#include "cx.hpp"
using namespace vp;
struct Geo { unsigned long terms() const { return std::max( { kr * kc * CH, kr * kc * NC, std::max( bs, 4UL ) * OR_() * OC() } ); } /* longest sum of its values and gradients */
    unsigned long bs, R, C, CH, NC, kr, kc, sr, sc, dr, dc, pr, pc; std::string pad;
    unsigned long er() const { return ( kr - 1 ) * dr + 1; } unsigned long ec() const { return ( kc - 1 ) * dc + 1; }
    unsigned long OR_() const { return ( R + 2 * pr - er() ) / sr + 1; } unsigned long OC() const { return ( C + 2 * pc - ec() ) / sc + 1; }
    std::string s() const { return sf( "x[%lu,%lu,%lu,%lu] w[%lu,%lu,%lu,%lu] stride %lux%lu dilation %lux%lu pad %s %lux%lu", bs, R, C, CH, NC, kr, kc, CH, sr, sc, dr, dc, pad.c_str(), pr, pc ); } };

// visits every (image index, kernel index, output index) triple of the definition
template< typename F > void conv_loop( Geo const& g, unsigned long bs, F f )
{
    for ( unsigned long b = 0; b < bs; ++b ) for ( unsigned long i = 0; i < g.OR_(); ++i ) for ( unsigned long j = 0; j < g.OC(); ++j ) for ( unsigned long n = 0; n < g.NC; ++n )
        for ( unsigned long u = 0; u < g.kr; ++u ) for ( unsigned long v = 0; v < g.kc; ++v )
        {
            long r = (long)( i * g.sr + u * g.dr ) - (long) g.pr, q = (long)( j * g.sc + v * g.dc ) - (long) g.pc;
            if ( r < 0 || q < 0 || r >= (long) g.R || q >= (long) g.C ) continue;
            for ( unsigned long ch = 0; ch < g.CH; ++ch ) f( ( ( b * g.R + r ) * g.C + q ) * g.CH + ch, ( ( n * g.kr + u ) * g.kc + v ) * g.CH + ch, ( ( b * g.OR_() + i ) * g.OC() + j ) * g.NC + n );
        }
}
static Nd conv_ref( Geo const& g, Nd const& x, Nd const& w ) { Nd y{ Shape{ x.shape[0], g.OR_(), g.OC(), g.NC } }; conv_loop( g, x.shape[0], [&]( size_t a, size_t b, size_t o ) { y.v[o] += x.v[a] * w.v[b]; } ); return y; }
static std::vector<Nd> conv_grad( Geo const& g, std::vector<Nd> const& xs, Nd const& s ) { Nd dx{ xs[0].shape }, dw{ xs[1].shape }; conv_loop( g, xs[0].shape[0], [&]( size_t a, size_t b, size_t o ) { dx.v[a] += s.v[o] * xs[1].v[b]; dw.v[b] += s.v[o] * xs[0].v[a]; } ); return { dx, dw }; }

static bool set_pad( Geo& g, bool even_only )
{
    if ( g.pad == "valid" ) { g.pr = g.pc = 0; return g.R >= g.er() && g.C >= g.ec(); }
    auto one = [&]( unsigned long k, unsigned long e, unsigned long s, unsigned long n, unsigned long& p ) { if ( e < s ) return false; if ( even_only && ( ( e - s ) & 1 ) ) return false; p = ( ( k & 1 ) + e - s ) >> 1; return n + 2 * p >= e && ( n + 2 * p - e ) / s + 1 == ( n + s - 1 ) / s; };
    return one( g.kr, g.er(), g.sr, g.R, g.pr ) && one( g.kc, g.ec(), g.sc, g.C, g.pc );
}
static Geo rgeo( Rng& r, bool even_only )
{
    for ( ;; )
    {
        Geo g; g.bs = r.range( 1, 3 ); g.R = r.range( 1, 8 ); g.C = r.range( 1, 8 ); g.CH = r.range( 1, 4 ); g.NC = r.range( 1, 4 ); g.kr = r.range( 1, 4 ); g.kc = r.flip( 0.4 ) ? g.kr : r.range( 1, 4 );
        g.sr = r.flip( 0.4 ) ? 1 : r.range( 1, 3 ); g.sc = r.flip( 0.4 ) ? 1 : r.range( 1, 3 ); g.dr = r.flip( 0.5 ) ? 1 : r.range( 1, 3 ); g.dc = r.flip( 0.5 ) ? 1 : r.range( 1, 3 ); g.pad = r.flip() ? "valid" : "same";
        if ( r.flip( 0.1 ) ) switch ( r.below( 6 ) ) { case 0: g.CH = wide_dim( r, 130 ); break; case 1: g.NC = wide_dim( r, 130 ); break; case 2: g.bs = wide_dim( r, 70 ); break; case 3: ( r.flip() ? g.R : g.C ) = wide_dim( r, 130 ); break; case 4: g.R = r.range( 8, 24 ), g.C = r.range( 8, 24 ), g.kr = r.range( 4, 9 ), g.kc = r.range( 4, 9 ); break; default: g.R = r.range( 12, 30 ), g.C = r.range( 12, 30 ), g.sr = r.range( 3, 8 ), g.sc = r.range( 3, 8 ), g.kr = r.range( 3, 8 ), g.kc = r.range( 3, 8 ); }
        if ( g.bs * g.R * g.C * g.CH > 40000 || g.kr * g.kc * g.CH * g.NC > 20000 || g.R < 1 ) continue;
        if ( set_pad( g, even_only ) && g.bs * g.OR_() * g.OC() * g.kr * g.kc * g.CH * g.NC < 400000 ) return g;
    }
}
