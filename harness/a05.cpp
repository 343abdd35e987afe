// A05: 2-D convolution, img2col and transposed convolution against nested-loop definitions, values and gradients.
#include "conv.hpp"
using namespace vp; using namespace ceras;

template< typename T > Opt copt( Geo const& g, Ctx& c )
{
    Opt o; o.shape = false; o.rounds = c.rng.range( 1, 3 ); o.agrad = [g]( std::vector<Nd> const& xs, Nd const& s ) { return conv_grad( g, xs, s ); };
    o.redraw = [g, &c]( size_t a, Nd const& x ) { Shape s = x.shape; if ( a == 0 && c.rng.flip() ) s[0] = c.rng.range( 1, 4 ); return rnd( c.rng, s ); };
    double e = std::is_same_v<T, float> ? 2e-5 : 1e-11; o.rtol = o.grtol = e; o.atol = o.gatol = e * 8; if ( sizeof( T ) == 4 ) float_terms( g.terms() ); return o;
}
template< typename T > void run_conv( Ctx& c, Geo const& g, bool general )
{
    c.describe( sf( "%s %s %s", general ? "general_conv2d" : "conv2d", sizeof( T ) == 4 ? "float" : "double", g.s().c_str() ) );
    Nd X = rnd( c.rng, { g.bs, g.R, g.C, g.CH } ), W = rnd( c.rng, { g.NC, g.kr, g.kc, g.CH } ); quant<T>( X ); quant<T>( W );
    auto x = var<T>( X ); auto w = var<T>( W ); Ex_<T> e;
    if ( general ) e = erase<T>( general_conv2d( g.sr, g.sc, g.dr, g.dc, g.pad )( x, w ) ); else e = erase<T>( conv2d( g.R, g.C, g.sr, g.sc, g.dr, g.dc, g.pad )( x, w ) );
    check_ex<T>( c, { x, w }, e, [g]( std::vector<Nd> const& q ) { return conv_ref( g, q[0], q[1] ); }, copt<T>( g, c ) );
    c.count( "convolution geometries" );
}
SCEN( "A05/conv2d", 250, 6000 ) { auto g = rgeo( c.rng, true ); if ( c.rng.flip( 0.3 ) ) run_conv<float>( c, g, false ); else run_conv<double>( c, g, false ); }
SCEN( "A05/general_conv2d", 250, 6000 ) { auto g = rgeo( c.rng, false ); if ( c.rng.flip( 0.3 ) ) run_conv<float>( c, g, true ); else run_conv<double>( c, g, true ); }
// every small geometry in turn
SCEN( "A05/enumerated", 400, 5184 )
{
    long k = c.thorough ? c.kase : (long) ( mix64( c.kase + 77 ) % 5184 ); Geo g; auto t = [&]( long n ) { long q = k % n; k /= n; return (unsigned long) q; };
    g.bs = 1 + c.rng.below( 2 ); g.NC = 1 + c.rng.below( 2 ); g.CH = 1 + c.rng.below( 2 ); g.R = 1 + t( 4 ); g.C = 1 + t( 3 ); g.kr = 1 + t( 3 ); g.kc = 1 + t( 3 ); g.sr = 1 + t( 2 ); g.sc = 1 + t( 2 ); g.dr = 1 + t( 2 ); g.dc = 1 + t( 3 ) % 2; g.pad = t( 2 ) ? "valid" : "same";
    if ( !set_pad( g, true ) ) { c.count( "geometries without a symmetric padding skipped" ); return; }
    run_conv<double>( c, g, false );
}
// the expression is handed an image computed by another expression, with a geometry changing between runs
SCEN( "A05/img2col", 250, 6000 )
{
    Geo g = rgeo( c.rng, false ); g.pr = c.rng.range( 0, 3 ); g.pc = c.rng.range( 0, 3 ); g.NC = 1; if ( g.R + 2 * g.pr < g.er() || g.C + 2 * g.pc < g.ec() ) { g.R = g.er(); g.C = g.ec(); }
    c.describe( "img2col " + g.s() );
    auto x = var<double>( rnd( c.rng, { g.bs, g.R, g.C, g.CH } ) );
    auto at = [g]( Shape const& s ) { Geo q = g; q.R = s[1]; q.C = s[2]; q.CH = s[3]; return q; };
    RefFn ref = [at]( std::vector<Nd> const& q )
    {
        Geo g = at( q[0].shape ); unsigned long bs = q[0].shape[0]; Nd y{ Shape{ g.kr * g.kc * g.CH, bs * g.OR_() * g.OC() } };
        conv_loop( g, bs, [&]( size_t a, size_t b, size_t o ) { y.v[b * y.shape[1] + o] = q[0].v[a]; } ); return y;
    };
    Opt o; o.rounds = 3; o.shape = true;
    o.agrad = [at]( std::vector<Nd> const& q, Nd const& s ) { Geo g = at( q[0].shape ); Nd d{ q[0].shape }; conv_loop( g, q[0].shape[0], [&]( size_t a, size_t b, size_t o ) { d.v[a] += s.v[b * s.shape[1] + o]; } ); return std::vector<Nd>{ d }; };
    o.redraw = [&]( size_t, Nd const& n ) { Shape s = n.shape; switch ( c.rng.below( 3 ) ) { case 0: { Geo q = at( { s[0], s[2], s[1], s[3] } ); if ( q.R + 2 * q.pr >= q.er() && q.C + 2 * q.pc >= q.ec() ) std::swap( s[1], s[2] ); break; } case 1: s[0] = c.rng.range( 1, 4 ); break; default: s[1] += c.rng.below( 3 ); } return rnd( c.rng, s ); };
    check_expr<double>( c, { x }, img2col( g.kr, g.kc, g.pr, g.pc, g.sr, g.sc, g.dr, g.dc )( x ), ref, o );
}
// images and unfolded matrices of more than 2^16 elements
SCEN( "A05/large", 4, 40 )
{
    Geo g; g.bs = c.rng.range( 1, 2 ); g.R = c.rng.range( 140, 170 ); g.C = c.rng.range( 140, 170 ); g.CH = c.rng.range( 3, 4 ); g.NC = c.rng.range( 1, 2 ); g.kr = c.rng.range( 1, 3 ); g.kc = c.rng.range( 1, 3 ); g.sr = c.rng.range( 2, 3 ); g.sc = c.rng.range( 2, 3 ); g.dr = g.dc = 1; g.pad = "valid"; set_pad( g, false );
    run_conv<double>( c, g, c.rng.flip() );
}
// one layer function applied twice: each application keeps its own image geometry
SCEN( "A05/functor-reuse", 100, 2000 )
{
    Geo g = rgeo( c.rng, false ), h = g; h.bs = c.rng.range( 1, 4 ); h.R = g.R + c.rng.below( 3 ); h.C = g.C + c.rng.below( 2 );
    if ( g.pad == "same" && !( set_pad( h, false ) && h.pr == g.pr && h.pc == g.pc ) ) h.R = g.R, h.C = g.C, set_pad( h, false );
    c.describe( "two images through one general_conv2d: " + g.s() + " and " + h.s() );
    auto f = general_conv2d( g.sr, g.sc, g.dr, g.dc, g.pad ); auto x1 = var<double>( rnd( c.rng, { g.bs, g.R, g.C, g.CH } ) ), x2 = var<double>( rnd( c.rng, { h.bs, h.R, h.C, h.CH } ) ), w = var<double>( rnd( c.rng, { g.NC, g.kr, g.kc, g.CH } ) );
    auto e1 = erase<double>( f( x1, w ) ), e2 = erase<double>( f( x2, w ) );
    auto r1 = nd( e1.run() ); auto r2 = nd( e2.run() ); same( c, r1, conv_ref( g, nd( x1.data() ), nd( w.data() ) ), 1e-11, 1e-10, "forward" ); same( c, r2, conv_ref( h, nd( x2.data() ), nd( w.data() ) ), 1e-11, 1e-10, "forward" );
    Nd s1 = rnd( c.rng, r1.shape ), s2 = rnd( c.rng, r2.shape ); e1.back( tens<double>( s1 ) ); e2.back( tens<double>( s2 ) );
    auto g1 = conv_grad( g, { nd( x1.data() ), nd( w.data() ) }, s1 ), g2 = conv_grad( h, { nd( x2.data() ), nd( w.data() ) }, s2 );
    same( c, x1.gradient(), g1[0], 1e-10, 1e-9, "gradient" ); same( c, x2.gradient(), g2[0], 1e-10, 1e-9, "gradient" );
    Nd sum = g1[1]; for ( size_t i = 0; i < sum.size(); ++i ) sum.v[i] += g2[1].v[i]; same( c, w.gradient(), sum, 1e-10, 1e-9, "gradient", "shared kernel" );
}
// the transposed convolution at unit stride: full correlation with the kernel flipped twice; any stride: linear with exact adjoints
SCEN( "A05/transpose", 150, 3000 )
{
    Geo g; g.bs = c.rng.range( 1, 3 ); g.R = c.rng.range( 1, 6 ); g.C = c.rng.range( 1, 6 ); g.CH = c.rng.range( 1, 3 ); g.NC = c.rng.range( 1, 3 ); g.kr = c.rng.range( 1, 4 ); g.kc = c.rng.range( 1, 4 ); g.dr = g.dc = g.sr = g.sc = 1; g.pad = c.rng.flip() ? "valid" : "same";
    if ( g.pad == "same" ) { g.kr |= 1; g.kc |= 1; }
    c.describe( "conv2d_transpose " + g.s() );
    Geo q = g; q.pr = g.pad == "valid" ? g.kr - 1 : ( g.kr - 1 ) / 2; q.pc = g.pad == "valid" ? g.kc - 1 : ( g.kc - 1 ) / 2;
    auto flipw = [g]( Nd const& w ) { Nd f{ w.shape }; for ( size_t k = 0; k < w.size(); ++k ) { Shape i = unrank( w.shape, k ); i[1] = g.kr - 1 - i[1]; i[2] = g.kc - 1 - i[2]; f.at( i ) = w.v[k]; } return f; };
    auto x = var<double>( rnd( c.rng, { g.bs, g.R, g.C, g.CH } ) ), w = var<double>( rnd( c.rng, { g.NC, g.kr, g.kc, g.CH } ) ); Opt o = copt<double>( q, c );
    o.agrad = [q, flipw]( std::vector<Nd> const& xs, Nd const& s ) { auto r = conv_grad( q, { xs[0], flipw( xs[1] ) }, s ); r[1] = flipw( r[1] ); return r; };
    check_expr<double>( c, { x, w }, conv2d_transpose( g.kr, g.kc, 1, 1, 1, 1, g.pad )( x, w ), [q, flipw]( std::vector<Nd> const& xs ) { return conv_ref( q, xs[0], flipw( xs[1] ) ); }, o );
}
SCEN( "A05/transpose-strided-adjoint", 60, 1200 )
{
    unsigned long bs = c.rng.range( 1, 2 ), R = c.rng.range( 1, 4 ), C = c.rng.range( 1, 4 ), CH = c.rng.range( 1, 2 ), NC = c.rng.range( 1, 2 ), kr = c.rng.range( 2, 4 ), kc = c.rng.range( 2, 4 ), s = 2;
    c.describe( sf( "conv2d_transpose [%lu,%lu,%lu,%lu] kernel %lux%lu stride 2", bs, R, C, CH, kr, kc ) );
    auto x = var<double>( rnd( c.rng, { bs, R, C, CH } ) ), w = var<double>( rnd( c.rng, { NC, kr, kc, CH } ) ); auto e = erase<double>( conv2d_transpose( kr, kc, s, s )( x, w ) );
    Nd y = nd( e.run() ); Nd g = rnd( c.rng, y.shape ); e.back( tens<double>( g ) ); double want = 0, gx = 0, gw = 0; for ( size_t i = 0; i < y.size(); ++i ) want += y.v[i] * g.v[i];
    Nd X = nd( x.data() ), W = nd( w.data() ), GX = nd( x.gradient() ), GW = nd( w.gradient() ); for ( size_t i = 0; i < X.size(); ++i ) gx += X.v[i] * GX.v[i]; for ( size_t i = 0; i < W.size(); ++i ) gw += W.v[i] * GW.v[i];
    c.require( close( gx, want, 1e-9, 1e-8 ) && close( gw, want, 1e-9, 1e-8 ), "adjoint", sf( "<y,g>=%.10g <x,dx>=%.10g <w,dw>=%.10g", want, gx, gw ) );
}
