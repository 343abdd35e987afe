// M02: calls with fitting and misfitting operands: no sanitizer report, no signal, no hang, no out-of-range access caught by the standard library; clear misfits are stopped by an assertion or an exception
#include "cx.hpp"
#include <ceras.hpp>
using namespace vp; using namespace ceras; using T = float; using V = Var<T>; using Ten = tensor<T>; using UL = unsigned long;
struct Call { char const* name; std::function<void()> f; bool must_stop = false; };
static bool bad_broadcast( Shape a, Shape b ) { size_t n = std::max( a.size(), b.size() ); a.insert( a.begin(), n - a.size(), 1 ); b.insert( b.begin(), n - b.size(), 1 ); for ( size_t i = 0; i < n; ++i ) if ( a[i] != b[i] && a[i] != 1 && b[i] != 1 ) return true; return false; }
static bool stopped( Death const& d ) { return d.kind == "abort:assertion" || d.kind == "exception" || ( d.kind == "signal:6" && d.text.find( "terminate called" ) != std::string::npos ); }
static void attempt( Ctx& c, Call const& k, std::string const& log )
{
    auto d = isolated( k.f, 20 ); ++c.checks; std::string w = std::string( k.name ) + " " + log;
    if ( d.died && !stopped( d ) ) c.fail( d.kind, w + " " + d.text ); if ( k.must_stop ) c.require( d.died, "misfit-not-stopped", w ); c.count( d.died ? "calls stopped" : "calls accepted" ); if ( k.must_stop ) c.count( "clear misfits" );
}
static Shape anyshape( Rng& r ) { Shape s; int n = r.flip( 0.05 ) ? 0 : r.range( 1, 4 ); for ( int i = 0; i < n; ++i ) s.push_back( r.flip( 0.06 ) ? 0 : r.flip( 0.25 ) ? 1 : r.range( 2, 5 ) ); return s; }
static Shape related( Rng& r, Shape s ) // often compatible, often nearly so
{
    if ( r.flip( 0.1 ) && s.size() > 1 ) { size_t i = r.below( s.size() ), j = r.below( s.size() ); std::swap( s[i], s[j] ); return s; } /* the same count and the same dimensions in another order */ switch ( r.below( 7 ) ) { case 0: return anyshape( r ); case 1: return s; case 2: if ( s.size() > 1 ) s.erase( s.begin() ); return s; case 3: if ( !s.empty() ) s[r.below( s.size() )] = 1; return s; case 4: if ( !s.empty() ) s[r.below( s.size() )] += 1; return s; case 5: s.insert( s.begin(), r.range( 1, 3 ) ); return s; default: std::reverse( s.begin(), s.end() ); return s; }
}
static Ten mkt( Rng& r, Shape const& s ) { Ten t{ s }; for ( size_t i = 0; i < t.size(); ++i ) t.data()[i] = r.real( -2, 2 ); return t; }
static volatile double sink; static void use( Ten const& t ) { double a = 0; size_t n = 1; for ( auto d : t.shape() ) n *= d; if ( n != t.size() && !( t.shape().empty() ) ) { fprintf( stderr, "FAILURE size %zu for shape of %zu\n", t.size(), n ); _exit( 95 ); } for ( size_t i = 0; i < t.size(); ++i ) a += t.data()[i]; sink = a; }
template< typename X > void use( X const& x ) { sink = x; }
static UL ax( Rng& r, Shape const& s ) { return r.flip( 0.1 ) ? UL( -1 ) : r.flip( 0.1 ) ? r.below( 100000 ) : r.below( s.size() + 2 ); }
static bool badax( UL a, Shape const& s ) { return !s.empty() && a != UL( -1 ) && a >= s.size(); }
#if PART == 0
SCEN( "tensor-functions", 1800, 20000 )
{
    auto& r = c.rng; Shape s = anyshape( r ), t = related( r, s ); auto a = mkt( r, s ), b = mkt( r, t ); UL k = ax( r, s ); bool bb = bad_broadcast( s, t ), kd = r.flip(); UL n = r.below( 4 ); int ik = (int) r.below( 7 ) - 2; Shape u = anyshape( r ); if ( r.flip() ) { u = s; std::reverse( u.begin(), u.end() ); } bool mulbad = s.size() == 2 && t.size() == 2 && s[1] != t[0]; bool empty = a.size() == 0; size_t nu = prod( u );
    bool catbad = s.size() == t.size() && k < s.size() && [&]{ for ( size_t i = 0; i < s.size(); ++i ) if ( i != k && s[i] != t[i] ) return true; return false; }();
    std::vector<Call> K = {
        { "a+b", [=]{ use( a + b ); }, bb }, { "a-b", [=]{ use( a - b ); }, bb }, { "hadamard", [=]{ use( hadamard_product( a, b ) ); }, bb }, { "divide", [=]{ use( elementwise_divide( a, b ) ); }, bb }, { "a*b", [=]{ use( a * b ); }, mulbad }, { "+=", [=]{ auto x = a.deep_copy(); x += b; use( x ); }, s != t }, { "-=", [=]{ auto x = a.deep_copy(); x -= b; use( x ); }, s != t }, { "*=", [=]{ auto x = a.deep_copy(); x *= b; use( x ); }, s != t }, { "/=", [=]{ auto x = a.deep_copy(); x /= b; use( x ); }, s != t },
        { "repeat", [=]{ use( repeat( a, n ) ); } }, { "repmat", [=]{ use( repmat( a, n, n + 1 ) ); } }, { "squeeze", [=]{ use( squeeze( a ) ); } }, { "squeeze axis", [=]{ use( squeeze( a, ik ) ); }, ik >= 0 && ( (size_t) ik >= s.size() || s[ik] != 1 ) }, { "concatenate", [=]{ use( concatenate( a, b, k ) ); }, catbad || ( k != UL( -1 ) && k >= std::max( s.size(), t.size() ) ) },
        { "max", [=]{ use( max( a ) ); } }, { "min", [=]{ use( min( a ) ); } }, { "sum", [=]{ use( sum( a ) ); } }, { "mean", [=]{ use( mean( a ) ); } }, { "norm", [=]{ use( norm( a ) ); } }, { "softmax", [=]{ use( softmax( a ) ); } }, { "abs", [=]{ use( abs( a ) ); } },
        { "sum axis", [=]{ use( sum( a, k, kd ) ); }, badax( k, s ) }, { "mean axis", [=]{ use( mean( a, k, kd ) ); }, badax( k, s ) }, { "variance axis", [=]{ use( variance( a, k, kd ) ); }, badax( k, s ) }, { "deviation axis", [=]{ use( standard_deviation( a, k, kd ) ); }, badax( k, s ) }, { "max axis", [=]{ use( max( a, k, kd ) ); }, badax( k, s ) }, { "min axis", [=]{ use( min( a, k, kd ) ); }, badax( k, s ) },
        { "flip", [=]{ use( ceras::flip( a, ik ) ); }, !empty && ik >= 0 && (size_t) ik >= s.size() }, { "reshape", [=]{ use( reshape( a, u ) ); } }, { "resize", [=]{ auto x = a.deep_copy(); x.resize( u ); x.reset( 1 ); use( x ); } }, { "member reshape", [=]{ auto x = a.deep_copy(); x.reshape( u ); x.reset( 1 ); use( x ); } }, { "reshape -1", [=]{ auto x = a.deep_copy(); Shape q = u; q.push_back( UL( -1 ) ); x.reshape( q ); use( x ); } }, { "broadcast_tensor", [=]{ use( broadcast_tensor( a, u ) ); }, bad_broadcast( s, u ) },
        { "as_scalar", [=]{ use( a.as_scalar() ); }, a.size() != 1 }, { "clip", [=]{ auto x = a.deep_copy(); use( clip( x, T( 1 ), T( -1 ) ) ); } }, { "deep copy", [=]{ Ten x{ u }; x.deep_copy( a ); use( x ); } }, { "map", [=]{ auto x = a.deep_copy(); x.map( []( T& v ) { v = 1; } ); use( x ); } }, { "has_nan", [=]{ sink = has_nan( a ) + has_inf( a ) + is_valid( a ); } }, { "linspace", [=]{ use( linspace<T>( 0, 1, n ) ); } }, { "linspace open", [=]{ use( linspace<T>( 0, 1, n, false ) ); } }, { "random", [=]{ use( random<T>( s ) ); } }, { "randn", [=]{ use( randn<T>( s ) ); } }, { "poisson", [=]{ use( poisson( abs( a ) ) ); } }, { "as_type", [=]{ auto x = a.as_type<double>(); sink = x.size(); } }, { "print", [=]{ std::ostringstream o; o << a; sink = o.str().size(); } }, { "reduce_sum", [=]{ use( reduce_sum( a ) ); } }, { "reduce_mean", [=]{ use( reduce_mean( a ) ); } }, { "default tensor", [=]{ Ten x; use( x ); Ten y = x; y.resize( u ); use( y ); } }, { "default tensor arithmetic", [=]{ Ten x; use( x + a ); } },
    };
    (void) empty; std::string log = str( s ) + " " + str( t ) + sf( " axis %ld n %lu k %d target ", (long) k, n, ik ) + str( u ); c.describe( log ); for ( int i = 0; i < 6; ++i ) attempt( c, K[r.below( K.size() )], log );
}
// as many elements on both sides, but in other dimensions: nothing that only counts may let these pass
SCEN( "misfits-of-equal-size", 150, 3000 )
{
    auto& r = c.rng; Shape s( r.range( 2, 4 ) ); for ( auto& x : s ) x = r.pick( { 1ul, 2ul, 3ul, 4ul, 6ul } ); Shape t = s; UL k = r.below( s.size() );
    if ( r.flip() ) for ( int i = 0; i < 8 && t == s; ++i ) { size_t x = r.below( s.size() ), y = r.below( s.size() ); std::swap( t[x], t[y] ); } else for ( int i = 0; i < 8 && t == s; ++i ) { size_t x = r.below( s.size() ), y = r.below( s.size() ); UL f = r.range( 2, 3 ); if ( x != y && t[x] % f == 0 ) { t[x] /= f; t[y] *= f; } }
    if ( r.flip( 0.7 ) ) { size_t o = r.below( s.size() ); if ( o == k ) t[k] += r.below( 3 ); } auto a = mkt( r, s ), b = mkt( r, t ); bool bb = bad_broadcast( s, t ), same_count = a.size() == b.size(), other = s != t; bool catbad = [&]{ for ( size_t i = 0; i < s.size(); ++i ) if ( i != k && s[i] != t[i] ) return true; return false; }(); bool mulbad = s.size() == 2 && s[1] != t[0]; wipe<T>();
    std::vector<Call> K = { { "a+b", [=]{ use( a + b ); }, bb }, { "a-b", [=]{ use( a - b ); }, bb }, { "hadamard", [=]{ use( hadamard_product( a, b ) ); }, bb }, { "divide", [=]{ use( elementwise_divide( a, b ) ); }, bb }, { "+=", [=]{ auto x = a.deep_copy(); x += b; use( x ); }, other }, { "-=", [=]{ auto x = a.deep_copy(); x -= b; use( x ); }, other }, { "*=", [=]{ auto x = a.deep_copy(); x *= b; use( x ); }, other }, { "/=", [=]{ auto x = a.deep_copy(); x /= b; use( x ); }, other },
        { "concatenate", [=]{ use( concatenate( a, b, k ) ); }, catbad }, { "concatenate", [=]{ use( concatenate( a, b, k ) ); }, catbad }, { "a*b", [=]{ use( a * b ); }, mulbad }, { "broadcast_tensor", [=]{ use( broadcast_tensor( a, t ) ); }, bb }, { "expression concatenate", [=]{ V x{ a.deep_copy() }, y{ b.deep_copy() }; auto e = concatenate( x, y )( k ); use( sess<T>().run( e ) ); }, catbad }, { "expression plus", [=]{ V x{ a.deep_copy() }, y{ b.deep_copy() }; auto e = x + y; use( sess<T>().run( e ) ); }, bb }, { "expression product", [=]{ V x{ a.deep_copy() }, y{ b.deep_copy() }; auto e = elementwise_product( x, y ); use( sess<T>().run( e ) ); }, bb }, { "expression mse", [=]{ V x{ a.deep_copy() }, y{ b.deep_copy() }; auto e = mean_squared_error( x, y ); use( sess<T>().run( e ) ); }, bb } };
    (void) same_count; std::string log = str( s ) + " " + str( t ) + sf( " axis %lu", k ); c.describe( log ); for ( int i = 0; i < 5; ++i ) attempt( c, K[r.below( K.size() )], log );
}
#endif
static bool shape_first = false; template< typename E > void go( E e, std::vector<V> vs ) { if ( shape_first ) sink = e.shape().size(); auto& S = sess<T>(); auto y = S.run( e ); use( y ); learning_phase = 1; auto g = ones_like( y ); e.backward( g ); for ( auto& v : vs ) use( std::as_const( v ).gradient() ); auto y2 = S.run( e ); use( y2 ); sink = e.shape().size(); }
#define ONE( NAME, EX, ... ) { NAME, [=]{ V x{ a.deep_copy() }; go( EX, { x } ); } __VA_OPT__(,) __VA_ARGS__ }
#define TWO( NAME, EX, ... ) { NAME, [=]{ V x{ a.deep_copy() }, y{ b.deep_copy() }; go( EX, { x, y } ); } __VA_OPT__(,) __VA_ARGS__ }
#if PART == 1
SCEN( "pointwise-expressions", 600, 8000 )
{
    auto& r = c.rng; Shape s = anyshape( r ), t = related( r, s ); auto a = mkt( r, s ), b = mkt( r, t ); bool bb = bad_broadcast( s, t ); wipe<T>(); bool mulbad = s.size() == 2 && t.size() == 2 && s[1] != t[0];
    std::vector<Call> K = {
        TWO( "plus", x + y, bb ), TWO( "minus", x - y, bb ), TWO( "elementwise_product", elementwise_product( x, y ), bb ), TWO( "divide", divide( x, y ), bb ), TWO( "multiply", x * y, mulbad ), TWO( "maximum", maximum( x, y ), bb ), TWO( "minimum", minimum( x, y ), bb ), TWO( "atan2", ceras::atan2( x, y ), bb ), TWO( "hypot", ceras::hypot( x, y ), bb ), TWO( "equal", ceras::equal( x, y, 0.5f ), bb ),
        TWO( "mse", mean_squared_error( x, y ), bb ), TWO( "mae", mean_absolute_error( x, y ), bb ), TWO( "cross entropy", cross_entropy_loss( x, y ), bb ), TWO( "binary cross entropy", binary_cross_entropy_loss( x, y ), bb ), TWO( "hinge", hinge_loss( x, y ), bb ), TWO( "assign", assign( x, y ) ),
        ONE( "softmax", softmax( x ) ), ONE( "sum_reduce", sum_reduce( x ) ), ONE( "mean_reduce", mean_reduce( x ) ), ONE( "square", square( x ) ), ONE( "log", ceras::log( x ) ), ONE( "sqrt", ceras::sqrt( x ) ), ONE( "acosh", ceras::acosh( x ) ), ONE( "inverse", inverse( x ) ), ONE( "llrint", ceras::llrint( x ) ), ONE( "pow", ceras::pow( x, 2.5f ) ), ONE( "selu", selu( x ) ), ONE( "clip", clip( 1.0f, -1.0f )( x ) ), ONE( "sign", sign( x ) ), ONE( "gelu", gelu( x ) ), ONE( "ones_like", ceras::ones_like( x ) ), ONE( "poisson", ceras::poisson( ceras::abs( x ) ) ), ONE( "scaled", x * 2 + 1 ),
    };
    std::string log = str( s ) + " " + str( t ); c.describe( log ); shape_first = r.flip( 0.2 ); for ( int i = 0; i < 6; ++i ) attempt( c, K[r.below( K.size() )], log );
}
SCEN( "sessions-and-placeholders", 120, 1500 )
{
    auto& r = c.rng; wipe<T>(); Shape s = anyshape( r ), t = related( r, s ); auto a = mkt( r, s ), b = mkt( r, t ); place_holder<Ten> p; V v{ a }; size_t n = r.below( 5 );
    std::vector<Call> K = {
        { "unbound placeholder", [=]() mutable { auto e = p + v; auto& S = sess<T>(); auto y = S.run( e ); use( y ); }, true }, { "bound placeholder", [=]() mutable { auto e = p + v; auto& S = sess<T>(); S.bind( p, b ); auto y = S.run( e ); use( y ); }, bad_broadcast( s, t ) }, { "rebinding", [=]() mutable { auto e = p + v; auto& S = sess<T>(); S.bind( p, a ); auto y = S.run( e ); S.bind( p, b ); auto z = S.run( e ); use( z ); }, bad_broadcast( s, t ) }, { "empty binding", [=]() mutable { auto e = p + v; auto& S = sess<T>(); S.bind( p, Ten{} ); auto y = S.run( e ); use( y ); } },
        { "missing session file", [=]{ sess<T>().restore( tmp_dir() + "/no/such/file" ); }, true }, { "unwritable session file", [=]{ sess<T>().save( tmp_dir() + "/no/such/dir/file" ); } },
        { "fit with fewer labels", [=]{ auto in = Input( { 3 } ); auto m = model{ in, Dense( 2 )( in ) }; auto cm = m.compile( MeanSquaredError(), SGD( 2ul, 0.1f ) ); cm.fit( ones<T>( { 6, 3 } ), ones<T>( { 4, 2 } ), 2, 1, 0 ); }, true }, { "fit with wrong label width", [=]{ auto in = Input( { 3 } ); auto m = model{ in, Dense( 2 )( in ) }; auto cm = m.compile( MeanSquaredError(), SGD( 2ul, 0.1f ) ); cm.fit( ones<T>( { 6, 3 } ), ones<T>( { 6, 3 } ), 2, 1, 0 ); }, true },
        { "fit with batch size", [=]{ auto in = Input( { 3 } ); auto m = model{ in, Dense( 2 )( in ) }; auto cm = m.compile( MeanSquaredError(), SGD( 2ul, 0.1f ) ); cm.fit( ones<T>( { 3, 3 } ), ones<T>( { 3, 2 } ), n, 1, 0 ); } }, { "evaluate with batch size", [=]{ auto in = Input( { 3 } ); auto m = model{ in, Dense( 2 )( in ) }; auto cm = m.compile( MeanSquaredError(), SGD( 2ul, 0.1f ) ); sink = cm.evaluate( ones<T>( { 3, 3 } ), ones<T>( { 3, 2 } ), n ); } }, { "predict with wrong width", [=]{ auto in = Input( { 3 } ); auto m = model{ in, Dense( 2 )( in ) }; use( m.predict( ones<T>( { 4, 5 } ) ) ); }, true }, { "predict with wrong rank", [=]{ auto in = Input( { 3 } ); auto m = model{ in, Dense( 2 )( in ) }; use( m.predict( ones<T>( { 3 } ) ) ); } }, { "validation split", [=]{ auto in = Input( { 3 } ); auto m = model{ in, Dense( 2 )( in ) }; auto cm = m.compile( MeanSquaredError(), SGD( 2ul, 0.1f ) ); cm.fit( ones<T>( { 4, 3 } ), ones<T>( { 4, 2 } ), 2, 1, 0, 0.25 * n ); } },
        { "train_on_batch misfit", [=]{ auto in = Input( { 3 } ); auto m = model{ in, Dense( 2 )( in ) }; auto cm = m.compile( MeanSquaredError(), SGD( 2ul, 0.1f ) ); cm.train_on_batch( ones<T>( { 2, 3 } ), ones<T>( { 3, 2 } ) ); }, true },
    };
    std::string log = str( s ) + " " + str( t ) + sf( " n=%zu", n ); c.describe( log ); for ( int i = 0; i < 5; ++i ) attempt( c, K[r.below( K.size() )], log );
}
#endif
#if PART == 2
SCEN( "shaped-expressions", 600, 8000 )
{
    auto& r = c.rng; Shape s = anyshape( r ), t = related( r, s ), u = r.flip() ? anyshape( r ) : s; std::reverse( u.begin(), u.end() ); if ( r.flip( 0.4 ) ) while ( s.size() < 4 ) s.insert( s.begin() + r.below( s.size() + 1 ), r.range( 1, 4 ) ); auto a = mkt( r, s ), b = mkt( r, t ); UL k = ax( r, s ), n = r.below( 4 ); int ik = (int) r.below( 7 ) - 2; wipe<T>(); Shape pad; for ( int i = r.flip( 0.1 ) ? 3 : r.flip() ? 1 : r.flip() ? 2 : 4; i--; ) pad.push_back( r.below( 4 ) ); bool im = s.size() != 4; size_t rest = s.empty() ? 0 : prod( Shape( s.begin() + 1, s.end() ) );
    std::vector<Call> K = {
        ONE( "reshape", reshape( u )( x ), prod( u ) == 0 || a.size() % prod( u ) != 0 ), ONE( "reshape whole", reshape( u, false )( x ), prod( u ) != a.size() ), ONE( "flatten", flatten( x ) ), ONE( "expand_dims", expand_dims( ik )( x ), ik > (int) s.size() ), ONE( "squeeze", squeeze( ik )( x ), ik >= 0 && ( (size_t) ik >= s.size() || s[ik] != 1 ) ), ONE( "argmax", argmax( k )( x ), badax( k, s ) ), ONE( "argmin", argmin( k )( x ), badax( k, s ) ), ONE( "flip", ceras::flip( ik )( x ), a.size() && ik >= 0 && (size_t) ik >= s.size() ), ONE( "transpose", transpose( x ), s.size() != 2 ), ONE( "repeat", repeat( n, k )( x ) ), ONE( "reduce_min", reduce_min( k )( x ) ), ONE( "reduce_max", reduce_max( k )( x ) ), ONE( "reduce_sum", reduce_sum( k )( x ) ), ONE( "broadcast", ceras::broadcast( u )( x ) ), TWO( "concatenate", concatenate( k )( x, y ) ),
        ONE( "max_pooling_2d", max_pooling_2d( n + 1 )( x ), im ), ONE( "average_pooling_2d", average_pooling_2d( n + 1 )( x ), im ), ONE( "up_sampling_2d", up_sampling_2d( n + 1 )( x ), im ), ONE( "zero_padding_2d", zero_padding_2d( pad )( x ), im ), ONE( "cropping_2d", cropping_2d( pad )( x ), im || pad.size() == 3 ), ONE( "sliding_2d", sliding_2d( n )( x ), im ), ONE( "drop_out", drop_out( 0.1f * ik )( x ) ), ONE( "normalization_batch", normalization_batch( 0.9f )( x ) ), ONE( "random_normal_like", random_normal_like()( x ) ), ONE( "zero stride pooling", max_pooling_2d( 0 )( x ) ), ONE( "zero stride average", average_pooling_2d( 0 )( x ) ), ONE( "zero up sampling", up_sampling_2d( 0 )( x ) ),
    };
    std::string log = str( s ) + " " + str( t ) + sf( " axis %ld n %lu k %d target ", (long) k, n, ik ) + str( u ) + " pad " + str( pad ); c.describe( log ); shape_first = r.flip( 0.2 ); for ( int i = 0; i < 6; ++i ) attempt( c, K[r.below( K.size() )], log );
}
SCEN( "convolutions", 150, 2000 )
{
    auto& r = c.rng; wipe<T>(); UL b = r.range( 1, 2 ), h = r.range( 1, 6 ), w = r.range( 1, 6 ), ch = r.range( 1, 3 ), kh = r.range( 1, 4 ), kw = r.range( 1, 4 ), st = r.below( 3 ), di = r.below( 3 ); UL H = h, W = w, kc = ch; if ( r.flip( 0.3 ) ) H += r.range( 0, 2 ); if ( r.flip( 0.3 ) ) kc = r.range( 1, 3 ); Shape s{ b, h, w, ch }, k{ 2, kh, kw, kc }; if ( r.flip( 0.1 ) ) s.pop_back(); if ( r.flip( 0.1 ) ) k.pop_back(); auto a = mkt( r, s ), q = mkt( r, k ); char const* P = r.flip() ? "valid" : r.flip( 0.8 ) ? "same" : "other"; bool bad = s.size() != 4 || k.size() != 4 || kc != ch || st == 0 || di == 0 || H != h;
    std::vector<Call> K = { { "conv2d", [=]{ V x{ a.deep_copy() }, y{ q.deep_copy() }; go( conv2d( H, W, st, st, di, di, P )( x, y ), { x, y } ); }, bad && !( s.size() == 4 && k.size() == 4 && kc == ch && st && di ) }, { "Conv2D", [=]{ V x{ a.deep_copy() }; auto in = Input( { H, W, ch } ); auto e = Conv2D( 2, { kh, kw }, P, { std::max<UL>( st, 1 ), std::max<UL>( st, 1 ) } )( in ); auto& S = sess<T>(); S.bind( in, a ); auto y = S.run( e ); use( y ); } } };
    std::string log = str( s ) + " kernel " + str( k ) + sf( " declared %lux%lu stride %lu dilation %lu %s", H, W, st, di, P ); c.describe( log ); for ( auto& f : K ) attempt( c, f, log );
}
#endif
