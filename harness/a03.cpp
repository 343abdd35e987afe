// A03: structural operations: where each element goes, and that the gradient goes back to where it came from.
#include "sliding.hpp"
using namespace vp; using namespace ceras;
struct Case { std::string what; std::vector<Nd> xs; RefFn ref; std::function<Ex_<double>( std::vector<Var<double>> const& )> mk; std::function<Nd( size_t, Nd const& )> redraw; bool shape = true; };
static Nd take( Nd const& x, Shape const& os, std::function<Shape( Shape const& )> f ) { Nd r{ os }; for ( size_t k = 0; k < r.size(); ++k ) r.v[k] = x.at( f( unrank( os, k ) ) ); return r; }
static Nd newbatch( Ctx& c, Nd const& a ) { Shape s = a.shape; if ( c.rng.flip( 0.6 ) ) s[0] = c.rng.range( 1, 5 ); return rnd_distinct( c.rng, s ); }
static Nd newshape( Ctx& c, Nd const& a ) { Shape s = a.shape; for ( auto& x : s ) if ( c.rng.flip( 0.4 ) ) x = c.rng.range( 1, 5 ); return rnd_distinct( c.rng, s ); }
static Nd concat_ref( Nd const& a, Nd const& b, size_t ax ) { Shape s = a.shape; s[ax] += b.shape[ax]; Nd r{ s }; for ( size_t k = 0; k < r.size(); ++k ) { Shape i = unrank( s, k ); if ( i[ax] < a.shape[ax] ) r.v[k] = a.at( i ); else { i[ax] -= a.shape[ax]; r.v[k] = b.at( i ); } } return r; }
static int const KINDS = 16;
static Case draw( Ctx& c, int kind )
{
    Case k; auto& r = c.rng;
    switch ( kind )
    {
        case 0: { // reshape with a leading batch dimension
            Shape in = rshape( r, 1, 4, 5, 60 ); unsigned long b = r.range( 1, 4 ); Shape full = in; full.insert( full.begin(), b ); Shape flat = r.flip() ? Shape{ prod( in ) } : Shape( in.rbegin(), in.rend() );
            k.what = "reshape " + str( full ) + " per sample to " + str( flat ); k.xs = { rnd_distinct( r, full ) }; k.ref = [flat]( auto const& x ) { Shape s = flat; s.insert( s.begin(), x[0].size() / prod( flat ) ); return reshaped( x[0], s ); };
            k.mk = [flat]( auto const& v ) { return erase<double>( reshape( flat )( v[0] ) ); }; k.redraw = [&c]( size_t, Nd const& a ) { return newbatch( c, a ); }; break; }
        case 1: { Shape in = rshape( r, 1, 4, 5, 60 ); Shape to( in.rbegin(), in.rend() ); if ( r.flip() ) to = { prod( in ), 1 }; k.what = "reshape " + str( in ) + " to " + str( to ); k.xs = { rnd_distinct( r, in ) }; k.ref = [to]( auto const& x ) { return reshaped( x[0], to ); };
            k.mk = [to]( auto const& v ) { return erase<double>( reshape( to, false )( v[0] ) ); }; break; }
        case 2: { Shape in = rshape( r, 2, 5, 5, 60 ); k.what = "flatten " + str( in ); k.xs = { rnd_distinct( r, in ) }; k.ref = []( auto const& x ) { return reshaped( x[0], { x[0].shape[0], x[0].size() / x[0].shape[0] } ); };
            k.mk = []( auto const& v ) { return erase<double>( flatten( v[0] ) ); }; k.redraw = [&c]( size_t, Nd const& a ) { return newshape( c, a ); }; break; }
        case 3: { Shape in = rshape( r, 1, 4, 5, 60 ); int ax = r.range( -1, in.size() ); k.what = sf( "expand_dims(%d) ", ax ) + str( in ); k.xs = { rnd_distinct( r, in ) };
            k.ref = [ax]( auto const& x ) { Shape s = x[0].shape; s.insert( ax < 0 ? s.end() : s.begin() + ax, 1 ); return reshaped( x[0], s ); }; k.mk = [ax]( auto const& v ) { return erase<double>( expand_dims( ax )( v[0] ) ); }; k.redraw = [&c]( size_t, Nd const& a ) { return newshape( c, a ); }; break; }
        case 4: { Shape in = rshape( r, 1, 4, 4, 60 ); int ax = r.range( -1, in.size() ); if ( ax == (int) in.size() ) in.push_back( 1 ); else if ( ax >= 0 ) in.insert( in.begin() + ax, 1 ); else in.insert( in.begin() + r.below( in.size() + 1 ), 1 ); k.what = sf( "squeeze(%d) ", ax ) + str( in ); k.xs = { rnd_distinct( r, in ) };
            k.ref = [ax]( auto const& x ) { Shape s = x[0].shape; if ( ax >= 0 ) s.erase( s.begin() + ax ); else { Shape q; for ( auto d : s ) if ( d != 1 ) q.push_back( d ); if ( q.empty() ) q.push_back( 1 ); s = q; } return reshaped( x[0], s ); };
            k.mk = [ax]( auto const& v ) { return erase<double>( squeeze( ax )( v[0] ) ); }; break; }
        case 5: { Shape in = rshape( r, 1, 4, 5, 90 ); int ax = r.range( -1, in.size() - 1 ); k.what = sf( "flip(%d) ", ax ) + str( in ); k.xs = { rnd_distinct( r, in ) };
            k.ref = [ax]( auto const& x ) { size_t a = ax < 0 ? x[0].shape.size() - 1 : ax; return take( x[0], x[0].shape, [&]( Shape i ) { i[a] = x[0].shape[a] - 1 - i[a]; return i; } ); }; k.mk = [ax]( auto const& v ) { return erase<double>( flip( ax )( v[0] ) ); }; k.redraw = [&c]( size_t, Nd const& a ) { return newshape( c, a ); }; break; }
        case 6: { Shape in{ (unsigned long) r.range( 1, 7 ), (unsigned long) r.range( 1, 7 ) }; k.what = "transpose " + str( in ); k.xs = { rnd_distinct( r, in ) }; k.ref = []( auto const& x ) { return vp::transpose( x[0] ); }; k.mk = []( auto const& v ) { return erase<double>( ceras::transpose( v[0] ) ); }; k.redraw = [&c]( size_t, Nd const& a ) { return newshape( c, a ); }; break; }
        case 7: case 8: { Shape in = rshape( r, 1, 4, 4, 60 ); unsigned long ax = r.below( in.size() ); bool last = r.flip( 0.3 ); size_t a = last ? in.size() - 1 : ax; Shape in2 = in; in2[a] = r.range( 1, 4 ); int form = r.below( 3 ); k.what = sf( "concatenate form %d axis %ld ", form, last ? -1 : (long) a ) + str( in ) + str( in2 ); k.xs = { rnd_distinct( r, in ), rnd_distinct( r, in2 ) };
            k.ref = [a]( auto const& x ) { return concat_ref( x[0], x[1], a ); };
            k.mk = [a, last, form]( auto const& v ) { if ( form == 0 ) return last ? erase<double>( concatenate( v[0], v[1] )() ) : erase<double>( concatenate( v[0], v[1] )( a ) ); if ( form == 1 ) return last ? erase<double>( concatenate()( v[0], v[1] ) ) : erase<double>( concatenate( a )( v[0], v[1] ) ); return last ? erase<double>( concat( v[0], v[1] ) ) : erase<double>( concat( a )( v[0], v[1] ) ); };
            k.redraw = [&c, a]( size_t, Nd const& q ) { Shape s = q.shape; if ( c.rng.flip() ) s[a] = c.rng.range( 1, 4 ); return rnd_distinct( c.rng, s ); }; break; }
        case 9: { Shape in = rshape( r, 1, 4, 4, 60 ); unsigned long n = r.flip( 0.1 ) ? wide_dim( r, 600 ) : r.range( 1, 4 ); if ( n > 16 ) in = rshape( r, 1, 2, 3, 9 ); bool last = r.flip( 0.25 ); unsigned long a = last ? in.size() - 1 : r.below( in.size() ); k.what = sf( "repeat(%lu,%ld) ", n, last ? -1 : (long) a ) + str( in ); k.xs = { rnd_distinct( r, in ) };
            k.ref = [a, n]( auto const& x ) { Shape s = x[0].shape; s[a] *= n; return take( x[0], s, [&]( Shape i ) { i[a] /= n; return i; } ); }; k.mk = [a, n, last]( auto const& v ) { return last ? erase<double>( repeat( n )( v[0] ) ) : erase<double>( repeat( n, a )( v[0] ) ); }; k.redraw = [&c]( size_t, Nd const& q ) { return newshape( c, q ); }; break; }
        case 10: { Shape in = rshape( r, 1, 3, 4, 30 ); Shape to = in; size_t n = r.below( 3 ); for ( size_t i = 0; i < n; ++i ) to.insert( to.begin(), r.range( 1, 4 ) ); k.what = "broadcast " + str( in ) + " to " + str( to ); k.xs = { rnd_distinct( r, in ) };
            k.ref = [to]( auto const& x ) { return bin( Nd{ to }, x[0], []( double, double b ) { return b; } ); }; k.mk = [to]( auto const& v ) { return erase<double>( broadcast( to )( v[0] ) ); }; break; }
        case 11: case 12: { bool mx = kind == 11; Shape in = rshape( r, 1, 4, 5, 90 ); unsigned long a = r.below( in.size() ); k.what = sf( mx ? "argmax(%lu) " : "argmin(%lu) ", a ) + str( in ); k.xs = { rnd_distinct( r, in ) };
            k.ref = [a, mx]( auto const& x ) { return along( x[0], a, false, [mx]( auto const& e ) { return (double) ( mx ? std::max_element( e.begin(), e.end() ) - e.begin() : std::min_element( e.begin(), e.end() ) - e.begin() ); } ); };
            k.mk = [a, mx]( auto const& v ) { return mx ? erase<double>( argmax( a )( v[0] ) ) : erase<double>( argmin( a )( v[0] ) ); }; k.redraw = [&c]( size_t, Nd const& q ) { return newshape( c, q ); }; break; }
        case 13: { Shape in = rshape( r, 1, 4, 5, 60 ); double th = r.pick( { 0.5, 0.1, 1.0 } ); k.what = sf( "equal(%g) ", th ) + str( in ); Nd a = rnd( r, in ), b = a; for ( auto& x : b.v ) { double d; do d = r.real( -2, 2 ); while ( std::abs( std::abs( d ) - th ) < 0.01 ); x += d; } k.xs = { a, b };
            k.ref = [th]( auto const& x ) { return bin( x[0], x[1], [th]( double p, double q ) { return std::abs( p - q ) > th ? 0.0 : 1.0; } ); }; k.mk = [th]( auto const& v ) { return erase<double>( equal( v[0], v[1], th ) ); }; k.redraw = []( size_t, Nd const& q ) { return q; }; break; }
        case 14: { Shape in = rshape( r, 1, 4, 5, 60 ); k.what = "sign " + str( in ); k.xs = { rnd_off( r, in, -3, 3, { 0 } ) }; k.ref = []( auto const& x ) { return x[0].map( []( double q ) { return q > 0 ? 1.0 : q < 0 ? -1.0 : 0.0; } ); }; k.mk = []( auto const& v ) { return erase<double>( sign( v[0] ) ); }; break; }
        default: { Shape in = rshape( r, 2, 3, 4, 40 ); unsigned long b = in[0]; Shape rest( in.begin() + 1, in.end() ); k.what = "flatten(flip(expand_dims(concatenate(x,reshape(x))))) " + str( in ); k.xs = { rnd_distinct( r, in ) };
            k.ref = []( auto const& x ) { Nd q = concat_ref( x[0], x[0], x[0].shape.size() - 1 ); q = take( q, q.shape, [&]( Shape i ) { i[0] = q.shape[0] - 1 - i[0]; return i; } ); return reshaped( q, { q.shape[0], q.size() / q.shape[0] } ); };
            k.mk = [rest]( auto const& v ) { return erase<double>( flatten( expand_dims()( flip( 0 )( concatenate( v[0], reshape( rest )( v[0] ) )() ) ) ) ); }; k.redraw = [&c]( size_t, Nd const& a ) { return newbatch( c, a ); }; break; }
    }
    return k;
}
static void go( Ctx& c, int kind, int rounds )
{
    Case k = draw( c, kind ); c.describe( k.what ); c.count( k.what.substr( 0, k.what.find_first_of( " (" ) ).c_str() ); std::vector<Var<double>> vs; for ( auto& x : k.xs ) vs.push_back( var<double>( x ) );
    Opt o; o.rtol = 0; o.atol = 0; o.grtol = 1e-6; o.gatol = 1e-7; o.rounds = rounds; o.shape = k.shape; o.redraw = k.redraw; check_ex<double>( c, vs, k.mk( vs ), k.ref, o );
}
SCEN( "A03/once", 480, 20000 ) { go( c, c.kase % KINDS, 1 ); }
SCEN( "A03/repeated", 320, 12000 ) { go( c, c.kase % KINDS, 3 ); }
// one functor applied to two inputs of different shapes: independent results and gradients
SCEN( "A03/functor-reuse", 90, 3000 )
{
    auto& r = c.rng; int kind = c.kase % 9; Shape s1 = rshape( r, 2, 2, 5, 30 ), s2 = rshape( r, 2, 2, 5, 30 ); Nd a = rnd_distinct( r, s1 ), b = rnd_distinct( r, s2 ); auto va = var<double>( a ), vb = var<double>( b ); Ex_<double> ea, eb; RefFn ref; unsigned long ax = r.below( 2 ), n = r.range( 2, 3 ); c.describe( sf( "functor %d axis %lu on ", kind, ax ) + str( s1 ) + str( s2 ) );
    auto both = [&]( auto f, RefFn g ) { ea = erase<double>( f( va ) ); eb = erase<double>( f( vb ) ); ref = g; };
    auto red = [&]( auto g ) { return [=]( std::vector<Nd> const& x ) { return along( x[0], ax, false, g ); }; };
    switch ( kind )
    {
        case 0: both( flip( (int) ax ), [ax]( auto const& x ) { return take( x[0], x[0].shape, [&]( Shape i ) { i[ax] = x[0].shape[ax] - 1 - i[ax]; return i; } ); } ); break;
        case 1: both( repeat( n, ax ), [ax, n]( auto const& x ) { Shape s = x[0].shape; s[ax] *= n; return take( x[0], s, [&]( Shape i ) { i[ax] /= n; return i; } ); } ); break;
        case 2: both( argmax( ax ), red( []( auto const& e ) { return (double) ( std::max_element( e.begin(), e.end() ) - e.begin() ); } ) ); break;
        case 3: both( argmin( ax ), red( []( auto const& e ) { return (double) ( std::min_element( e.begin(), e.end() ) - e.begin() ); } ) ); break;
        case 4: both( reduce_max( ax ), red( []( auto const& e ) { return *std::max_element( e.begin(), e.end() ); } ) ); break;
        case 5: both( reduce_min( ax ), red( []( auto const& e ) { return *std::min_element( e.begin(), e.end() ); } ) ); break;
        case 6: both( reduce_sum( ax ), red( []( auto const& e ) { return std::accumulate( e.begin(), e.end(), 0.0 ); } ) ); break;
        case 7: both( expand_dims( (int) ax ), [ax]( auto const& x ) { Shape s = x[0].shape; s.insert( s.begin() + ax, 1 ); return reshaped( x[0], s ); } ); break;
        default: both( clip( -1.0, 1.0 ), []( auto const& x ) { return x[0].map( []( double q ) { return std::min( 1.0, std::max( -1.0, q ) ); } ); } );
            for ( auto* q : { &a, &b } ) for ( auto& x : q->v ) if ( std::abs( std::abs( x ) - 1 ) < 0.01 ) x = 0.3; va.data() = tens<double>( a ); vb.data() = tens<double>( b );
    }
    Nd wa = ref( { a } ), wb = ref( { b } ); auto ra = ea.run(); Snap<double> sa{ ra, "first result" }; auto rb = eb.run(); sa.check( c ); same( c, ra, wa, 1e-12, 1e-12, "forward" ); same( c, rb, wb, 1e-12, 1e-12, "forward", "second" );
    Nd ga = rnd( r, wa.shape ), gb = rnd( r, wb.shape ); ea.back( tens<double>( ga ) ); eb.back( tens<double>( gb ) ); same( c, va.gradient(), numgrad( ref, { a }, ga )[0], 1e-6, 1e-7, "gradient" ); same( c, vb.gradient(), numgrad( ref, { b }, gb )[0], 1e-6, 1e-7, "gradient", "second" );
}
// ties: the first extremum wins, and the index is one at which the extremum is attained
SCEN( "A03/argmax-ties", 60, 1500 )
{
    auto& r = c.rng; Shape s = rshape( r, 1, 4, 4, 60 ); unsigned long a = r.below( s.size() ); Nd x{ s }; for ( auto& q : x.v ) q = (double) r.range( -2, 1 ); c.describe( sf( "ties axis %lu ", a ) + str( s ) ); auto v = var<double>( x ); bool mx = r.flip(); Ex_<double> e = mx ? erase<double>( argmax( a )( v ) ) : erase<double>( argmin( a )( v ) );
    same( c, e.run(), along( x, a, false, [mx]( auto const& q ) { return (double) ( mx ? std::max_element( q.begin(), q.end() ) - q.begin() : std::min_element( q.begin(), q.end() ) - q.begin() ); } ), 0, 0, "ties" );
}
SCEN( "A03/random-normal-like", 12, 200 )
{
    auto& r = c.rng; Shape s{ (unsigned long) r.range( 30, 60 ), (unsigned long) r.range( 30, 60 ) }; double mu = r.real( -3, 3 ), sd = r.real( 0.2, 3 ); c.describe( sf( "random_normal_like(%.3g,%.3g) ", mu, sd ) + str( s ) ); auto v = var<double>( rnd( r, s ) ); auto e = erase<double>( random_normal_like( mu, sd )( v ) ); c.require( e.shape() == s, "predicted-shape" ); Nd a = nd( e.run() ); c.require( a.shape == s, "shape" );
    double n = a.size(), m = 0, q = 0; for ( auto x : a.v ) m += x / n; for ( auto x : a.v ) q += ( x - m ) * ( x - m ) / n; c.require( std::abs( m - mu ) < 8 * sd / std::sqrt( n ), "mean", sf( "%g", m ) ); c.require( std::abs( std::sqrt( q ) - sd ) < 8 * sd / std::sqrt( 2 * n ), "deviation", sf( "%g", std::sqrt( q ) ) );
    Nd b = nd( e.run() ); c.require( a.v != b.v, "not-redrawn" ); e.back( tens<double>( rnd( r, s ) ) ); same( c, v.gradient(), Nd{ s }, 0, 0, "gradient" );
}
// assign copies the left value into the right variable
SCEN( "A03/assign", 40, 800 )
{
    auto& r = c.rng; Shape s = rshape( r, 1, 3, 5, 60 ), s2 = s; Nd a = rnd( r, s ), b = rnd( r, s2 ); c.describe( "assign " + str( s ) + " into " + str( s2 ) ); auto va = var<double>( a ), vb = var<double>( b ); auto e = assign( va * 2.0, vb ); auto res = sess<double>().run( e ); Nd w = a.map( []( double x ) { return 2 * x; } );
    same( c, res, w, 0, 0, "value" ); same( c, vb.data(), w, 0, 0, "target" ); same( c, va.data(), a, 0, 0, "source" ); e.backward( ceras::ones_like( res ) ); same( c, va.gradient(), Nd{ s }, 0, 0, "gradient" );
}
SCEN( "A03/sliding", 150, 3000 ) { run_sliding( c ); }
