// A09: dropout and batch normalisation over random histories of phases, batch sizes and backward passes, mirrored by a model.
#include "cx.hpp"
using namespace vp; using namespace ceras;
template< typename T > void drop( Ctx& c )
{
    auto& r = c.rng; double p = r.real( 0.05, 0.9 ); Shape s = rshape( r, 1, 4, 6, 200 ); int how = r.below( 3 ); c.describe( sf( "dropout<%s>(%.3g) form %d ", sizeof( T ) == 4 ? "float" : "double", p, how ) + str( s ) );
    auto v = var<T>( rnd_off( r, s, -3, 3, { 0 } ) ); Ex_<T> e = how == 0 ? erase<T>( drop_out( (T) p )( v ) ) : how == 1 ? erase<T>( dropout( (T) p )( v ) ) : erase<T>( drop_out( (T) p )( v * T( 1 ) ) ); c.require( e.shape() == s, "predicted-shape" );
    double keep = 1.0 / ( 1 - (T) p ), tol = sizeof( T ) == 4 ? 1e-5 : 1e-12; u64 dropped = 0, total = 0; std::vector<std::vector<char>> masks; int n = r.range( 3, 8 );
    for ( int k = 0; k < n; ++k )
    {
        if ( r.flip( 0.4 ) ) { Shape t = s; t[0] = r.range( 1, 8 ); v.data() = tens<T>( rnd_off( r, t, -3, 3, { 0 } ) ); }
        bool learn = r.flip( 0.7 ); learning_phase = learn; Nd x = nd( v.data() ); Nd y = nd( e.run() ); c.require( y.shape == x.shape, "shape" ); std::vector<char> m( x.size(), 1 );
        if ( learn ) { for ( size_t i = 0; i < x.size(); ++i ) { if ( y.v[i] == 0 ) m[i] = 0; else c.require( close( y.v[i], x.v[i] * keep, tol, 0 ), "survivor-not-rescaled", sf( "%.9g from %.9g expected %.9g", y.v[i], x.v[i], x.v[i] * keep ) ); dropped += !m[i]; ++total; } masks.push_back( m ); c.count( "dropout elements drawn", x.size() ); }
        else { c.require( y.v == x.v, "inference-not-identity", sf( "run %d", k ) ); c.count( "inference runs" ); }
        c.require( nd( v.data() ).v == x.v, "input-modified" );
        if ( r.flip( 0.8 ) )
        {
            Nd g = rnd( r, x.shape ); quant<T>( g ); Nd before = nd( v.gradient() ); if ( learning_phase || before.shape != x.shape ) before = Nd{ x.shape }; auto tg = tens<T>( g ); Snap<T> sg{ tg, "incoming gradient" }; e.back( tg ); sg.check( c );
            Nd w = g; for ( size_t i = 0; i < w.size(); ++i ) w.v[i] = before.v[i] + ( learn ? ( m[i] ? g.v[i] * keep : 0 ) : g.v[i] ); same( c, v.gradient(), w, tol * 10, tol * 10, "gradient", sf( "run %d learning %d", k, learn ) );
        }
    }
    if ( total ) { double f = (double) dropped / total, sd = std::sqrt( p * ( 1 - p ) / total ); c.require( std::abs( f - p ) < 8 * sd + 1.0 / total, "fraction", sf( "%g of %llu dropped, expected %g", f, (unsigned long long) total, p ) ); }
    for ( size_t i = 1; i < masks.size(); ++i ) if ( masks[i].size() == masks[i - 1].size() && masks[i].size() * std::min( p, 1 - p ) > 12 ) c.require( masks[i] != masks[i - 1], "same-mask-twice" );
    learning_phase = 1;
}
SCEN( "A09/dropout-double", 120, 4000 ) { drop<double>( c ); }
SCEN( "A09/dropout-float", 80, 2500 ) { drop<float>( c ); }
// two dropouts of one functor and of two functors have independent masks
SCEN( "A09/dropout-independent", 30, 400 )
{
    auto& r = c.rng; double p = r.real( 0.3, 0.7 ); Shape s{ 20, 20 }; c.describe( sf( "two dropouts %.3g", p ) ); auto v = var<double>( Nd{ s, 1.0 } ); auto f = drop_out( p ); auto a = erase<double>( f( v ) ); auto b = r.flip() ? erase<double>( f( v ) ) : erase<double>( drop_out( p )( v ) ); auto ta = a.run(); Snap<double> sa{ ta, "first dropout" }; auto tb = b.run(); sa.check( c ); c.require( nd( ta ).v != nd( tb ).v, "same-mask" );
    Nd ma = nd( ta ), mb = nd( tb ); a.back( tens<double>( Nd{ s, 1.0 } ) ); same( c, v.gradient(), mb.map( []( double ) { return 0.0; } ).size() ? ma : ma, 1e-12, 1e-12, "gradient" ); c.count( "pairs" );
}
template< typename T > void bn( Ctx& c, bool layer )
{
    auto& r = c.rng; bool fl = sizeof( T ) == 4; double mom = layer ? r.pick( { 0.95, 0.5, 0.9 } ) : r.pick( { 0.98, 0.9, 0.5, 0.99 } ); mom = (T) mom; Shape s = rshape( r, 2, 4, 4, 60 ); if ( s[0] < 2 ) s[0] = 2; unsigned long ch = s.back(); int what = layer ? 2 : r.below( 3 );
    c.describe( sf( "batch normalisation<%s> form %d%s momentum %.3g ", fl ? "float" : "double", what, layer ? " (layer)" : "", mom ) + str( s ) );
    auto v = var<T>( rnd( r, s, -3, 5 ) ); Nd gam = rnd( r, { ch }, 0.3, 2 ), bet = rnd( r, { ch } ); quant<T>( gam ); quant<T>( bet ); auto vg = var<T>( gam ), vb = var<T>( bet ); Ex_<T> e;
    if constexpr ( sizeof( T ) == 4 ) { if ( layer ) { e = erase<T>( BatchNormalization( (float) mom )( v ) ); gam = Nd{ Shape{ ch }, 1.0 }; bet = Nd{ Shape{ ch } }; } }
    if ( !layer ) e = what == 0 ? erase<T>( normalization_batch( (T) mom )( v ) ) : what == 1 ? erase<T>( batch_normalization( (T) mom )( v, vg, vb ) ) : erase<T>( batch_normalization( (T) mom )( v * T( 2 ), vg, vb ) );
    bool affine = !layer && what > 0; double in = !layer && what == 2 ? 2 : 1; c.require( e.shape() == s, "predicted-shape" ); std::vector<double> gm( ch, 0 ), gv( ch, 0 ); bool learned = false; double tol = fl ? 2e-3 : 1e-8; int n = r.range( 3, 8 );
    for ( int k = 0; k < n; ++k )
    {
        if ( r.flip( 0.7 ) ) { Shape t = s; if ( r.flip( 0.6 ) ) t[0] = r.range( 2, 6 ); v.data() = tens<T>( rnd( r, t, -3, r.real( -1, 6 ) ) ); }
        if ( affine && r.flip( 0.3 ) ) { gam = rnd( r, { ch }, 0.3, 2 ); quant<T>( gam ); vg.data() = tens<T>( gam ); }
        bool learn = r.flip( k ? 0.6 : 0.75 ); learning_phase = learn; Nd x = nd( v.data() ); size_t rows = x.size() / ch;
        auto norm = [&]( Nd const& q, std::vector<double>* outm, std::vector<double>* outv ) { Nd y = q; for ( size_t j = 0; j < ch; ++j ) { double m = 0, vv = 0; if ( learn ) { for ( size_t i = 0; i < rows; ++i ) m += in * q.v[i * ch + j] / rows; for ( size_t i = 0; i < rows; ++i ) vv += std::pow( in * q.v[i * ch + j] - m, 2 ) / rows; } else { m = gm[j]; vv = gv[j]; } if ( outm ) ( *outm )[j] = m, ( *outv )[j] = vv; for ( size_t i = 0; i < rows; ++i ) y.v[i * ch + j] = !learn && !learned ? in * q.v[i * ch + j] : ( in * q.v[i * ch + j] - m ) / std::sqrt( vv + ceras::eps ); } return y; };
        RefFn ref = [&]( std::vector<Nd> const& q ) { Nd y = norm( q[0], nullptr, nullptr ); for ( size_t i = 0; i < y.size(); ++i ) y.v[i] = y.v[i] * ( affine ? q[1].v[i % ch] : 1 ) + ( affine ? q[2].v[i % ch] : 0 ); return y; };
        std::vector<Nd> xs{ x }; if ( affine ) { xs.push_back( gam ); xs.push_back( bet ); } Nd want = ref( xs ); double big = 1; for ( auto z : want.v ) big = std::max( big, std::abs( z ) ); Nd y = nd( e.run() ); std::string tag = sf( "run %d %s", k, learn ? "learning" : "inference" ); same( c, y, want, tol, tol * big * ( !learn && fl ? 20 : 1 ), "forward", tag ); c.require( nd( v.data() ).v == x.v, "input-modified" ); c.count( learn ? "learning runs" : "inference runs" );
        bool tiny = false; std::vector<double> m( ch ), vv( ch ); norm( x, &m, &vv ); for ( auto q : vv ) if ( q < 1e-2 ) tiny = true;
        if ( learn ) { for ( size_t j = 0; j < ch; ++j ) { gm[j] = gm[j] * mom + m[j] * ( 1 - mom ); gv[j] = gv[j] * mom + vv[j] * ( 1 - mom ); } learned = true; }
        if ( learn && r.flip( 0.8 ) )
        {
            Nd g = rnd( r, x.shape ); quant<T>( g ); auto tg = tens<T>( g ); Snap<T> sg{ tg, "incoming gradient" }; e.back( tg ); sg.check( c ); if ( tiny ) continue; std::vector<Nd> ng{ Nd{ x.shape }, Nd{ Shape{ ch } }, Nd{ Shape{ ch } } };
            for ( size_t j = 0; j < ch; ++j ) { double sd = std::sqrt( vv[j] + ceras::eps ), a = 0, b = 0, ga = affine ? gam.v[j] : 1; auto hat = [&]( size_t i ) { return ( in * x.v[i * ch + j] - m[j] ) / sd; }; for ( size_t i = 0; i < rows; ++i ) { a += g.v[i * ch + j]; b += g.v[i * ch + j] * hat( i ); } ng[1].v[j] = b; ng[2].v[j] = a; for ( size_t i = 0; i < rows; ++i ) ng[0].v[i * ch + j] = in * ga / sd * ( g.v[i * ch + j] - a / rows - hat( i ) * b / rows ); }
            same( c, v.gradient(), ng[0], fl ? 1e-2 : 1e-6, fl ? 1e-2 : 1e-6, "gradient", tag );
            if ( affine ) { same( c, vg.gradient(), ng[1], tol, fl ? 1e-2 : 1e-6, "gradient", tag + " gamma" ); same( c, vb.gradient(), ng[2], tol, fl ? 2e-3 : 1e-7, "gradient", tag + " beta" ); }
        }
        else if ( !learn && r.flip( 0.4 ) && !affine ) { Nd g = rnd( r, x.shape ); quant<T>( g ); Nd before = nd( v.gradient() ); if ( before.shape != x.shape ) before = Nd{ x.shape }; e.back( tens<T>( g ) ); Nd w = before; double wb = 1; for ( size_t i = 0; i < w.size(); ++i ) { double d = g.v[i] * in * ( learned ? 1 / std::sqrt( gv[i % ch] + ceras::eps ) : 1 ); w.v[i] += d; wb = std::max( wb, std::abs( d ) ); } same( c, v.gradient(), w, tol, tol * wb, "gradient", tag ); }
    }
    learning_phase = 1;
}
SCEN( "A09/batch-norm-double", 160, 5000 ) { bn<double>( c, false ); }
SCEN( "A09/batch-norm-float", 80, 2500 ) { bn<float>( c, false ); }
SCEN( "A09/batch-norm-layer", 60, 1500 ) { bn<float>( c, true ); }
// normalised output of the learning phase has mean zero and unit variance per channel; running statistics converge to those of a constant stream
SCEN( "A09/batch-norm-statistics", 40, 800 )
{
    auto& r = c.rng; double mom = r.pick( { 0.5, 0.8, 0.9 } ); Shape s{ (unsigned long) r.range( 4, 12 ), (unsigned long) r.range( 1, 4 ) }; Nd x = rnd( r, s, -4, 7 ); c.describe( sf( "convergence %g ", mom ) + str( s ) ); auto v = var<double>( x ); auto e = normalization_batch( mom )( v ); Nd y; int n = (int) std::ceil( std::log( 1e-13 ) / std::log( mom ) ); for ( int i = 0; i < n; ++i ) y = nd( sess<double>().run( e ) );
    for ( size_t j = 0; j < s[1]; ++j ) { double m = 0, q = 0; for ( size_t i = 0; i < s[0]; ++i ) m += y.v[i * s[1] + j] / s[0]; for ( size_t i = 0; i < s[0]; ++i ) q += std::pow( y.v[i * s[1] + j] - m, 2 ) / s[0]; c.require( std::abs( m ) < 1e-10, "mean-not-zero", sf( "%g", m ) ); c.require( std::abs( q - 1 ) < 1e-4, "variance-not-one", sf( "%g", q ) ); }
    learning_phase = 0; Nd z = nd( sess<double>().run( e ) ); same( c, z, y, 1e-6, 1e-6, "converged-inference" ); Nd z2 = nd( sess<double>().run( e ) ); c.require( z.v == z2.v, "inference-changes-statistics" ); learning_phase = 1;
}
