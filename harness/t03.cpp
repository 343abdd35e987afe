// T03: broadcasting arithmetic against an index-wise reference
#include "cx.hpp"
using namespace vp; using ceras::tensor;
template< typename T > constexpr double tol() { return sizeof( T ) == 4 ? 1e-6 : 1e-14; }
static void bpair( Rng& r, Shape& sa, Shape& sb )
{
    sa = rshape( r, 1, 4, 6, 300 ); sb = sa; if ( r.flip( 0.25 ) ) return;
    if ( r.flip() ) sb.erase( sb.begin(), sb.begin() + r.below( sb.size() ) );
    for ( size_t i = 0; i < sb.size(); ++i ) if ( r.flip( 0.35 ) ) { if ( r.flip() ) sb[i] = 1; else sa[sa.size() - sb.size() + i] = 1; }
    if ( r.flip() ) std::swap( sa, sb );
}
template< typename T > void body( Ctx& c )
{
    Rng& r = c.rng; Shape sa, sb; bpair( r, sa, sb ); c.describe( str( sa ) + " with " + str( sb ) );
    Nd a = rnd( r, sa, -3, 3 ), b = rnd_off( r, sb, -3, 3, { 0 }, 0.1 ); quant<T>( a ); quant<T>( b ); auto ta = tens<T>( a ), tb = tens<T>( b );
    double e = tol<T>();
    same( c, ta + tb, bin( a, b, []( double x, double y ) { return x + y; } ), e, e, "plus" );
    ta = tens<T>( a ); same( c, ceras::add( ta, tb ), bin( a, b, []( double x, double y ) { return x + y; } ), e, e, "add" );
    ta = tens<T>( a ); same( c, ta - tb, bin( a, b, []( double x, double y ) { return x - y; } ), e, e, "minus" );
    ta = tens<T>( a ); same( c, ceras::minus( ta, tb ), bin( a, b, []( double x, double y ) { return x - y; } ), e, e, "minus-fn" );
    ta = tens<T>( a ); same( c, tb - ta, bin( b, a, []( double x, double y ) { return x - y; } ), e, e, "minus-reversed" );
    ta = tens<T>( a ); tb = tens<T>( b ); c.require( ceras::broadcast_shape( sa, sb ) == bshape( sa, sb ), "broadcast-shape" );
    Shape bs = bshape( sa, sb ); same( c, ceras::broadcast_tensor( ta, bs ), bin( a, Nd( bs ), []( double x, double ) { return x; } ), 0, 0, "broadcast-tensor" ); same( c, ceras::broadcast_tensor( tb, bs ), bin( b, Nd( bs ), []( double x, double ) { return x; } ), 0, 0, "broadcast-tensor" );
    // element-wise product broadcasts along leading dimensions
    Shape sc( sa.begin() + r.below( sa.size() ), sa.end() ); Nd q = rnd( r, sc ); quant<T>( q ); auto tq = tens<T>( q ); auto mul = []( double x, double y ) { return x * y; };
    same( c, ceras::elementwise_product( ta, tq ), bin( a, q, mul ), e, e, "elementwise-product" ); if ( tq.size() < ta.size() ) same( c, ceras::elementwise_product( tq, ta ), bin( a, q, mul ), e, e, "elementwise-product-swapped" ); same( c, ceras::hadamard_product( ta, tq ), bin( a, q, mul ), e, e, "hadamard-product" );
    Nd d = rnd_off( r, sa, -3, 3, { 0 }, 0.1 ); quant<T>( d ); auto td = tens<T>( d ); same( c, ceras::elementwise_divide( ta, td ), bin( a, d, []( double x, double y ) { return x / y; } ), e, e, "elementwise-divide" );
    T s = static_cast<T>( r.real( 0.3, 3 ) * ( r.flip() ? 1 : -1 ) ); double S = s;
    same( c, s + ta, a.map( [&]( double x ) { return S + x; } ), e, e, "scalar-plus" ); same( c, ta + s, a.map( [&]( double x ) { return x + S; } ), e, e, "plus-scalar" );
    same( c, s - ta, a.map( [&]( double x ) { return S - x; } ), e, e, "scalar-minus" ); same( c, ta - s, a.map( [&]( double x ) { return x - S; } ), e, e, "minus-scalar" );
    same( c, s * ta, a.map( [&]( double x ) { return S * x; } ), e, e, "scalar-times" ); same( c, ta * s, a.map( [&]( double x ) { return x * S; } ), e, e, "times-scalar" );
    same( c, ta / s, a.map( [&]( double x ) { return x / S; } ), e, e, "divide-scalar" ); same( c, -ta, a.map( []( double x ) { return -x; } ), 0, 0, "negate" );
    same( c, ceras::abs( ta ), a.map( []( double x ) { return std::abs( x ); } ), 0, 0, "abs" );
    // compound assignment
    auto cp = [&]{ return tens<T>( a ); }; { auto t = cp(); t += td; same( c, t, bin( a, d, []( double x, double y ) { return x + y; } ), e, e, "compound-plus" ); } { auto t = cp(); t -= td; same( c, t, bin( a, d, []( double x, double y ) { return x - y; } ), e, e, "compound-minus" ); }
    { auto t = cp(); t *= td; same( c, t, bin( a, d, mul ), e, e, "compound-times" ); } { auto t = cp(); t /= td; same( c, t, bin( a, d, []( double x, double y ) { return x / y; } ), e, e, "compound-divide" ); }
    { auto t = cp(); t += s; same( c, t, a.map( [&]( double x ) { return x + S; } ), e, e, "compound-plus-scalar" ); } { auto t = cp(); t -= s; same( c, t, a.map( [&]( double x ) { return x - S; } ), e, e, "compound-minus-scalar" ); }
    { auto t = cp(); t *= s; same( c, t, a.map( [&]( double x ) { return x * S; } ), e, e, "compound-times-scalar" ); } { auto t = cp(); t /= s; same( c, t, a.map( [&]( double x ) { return x / S; } ), e, e, "compound-divide-scalar" ); }
    T lo = static_cast<T>( r.real( -2, 0 ) ), hi = static_cast<T>( r.real( 0, 2 ) ); { auto t = cp(); auto u = ceras::clip( t, lo, hi ); auto w = a.map( [&]( double x ) { return std::min<double>( std::max<double>( x, lo ), hi ); } ); same( c, t, w, 0, 0, "clip" ); same( c, u, w, 0, 0, "clip" ); }
    c.require( !ceras::has_nan( ta ) && !ceras::has_inf( ta ) && ceras::is_valid( ta ), "is_valid" );
    { auto t = cp(); size_t k = r.below( t.size() ); t[k] = std::numeric_limits<T>::quiet_NaN(); c.require( ceras::has_nan( t ) && !ceras::has_inf( t ) && !ceras::is_valid( t ), "has_nan" ); t[k] = r.flip() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); c.require( !ceras::has_nan( t ) && ceras::has_inf( t ) && !ceras::is_valid( t ), "has_inf" ); }
    c.count( "operator results compared", 30 );
}
SCEN( "arith-double", 250, 20000 ) { body<double>( c ); }
SCEN( "arith-float", 120, 10000 ) { body<float>( c ); }
SCEN( "exhaustive-shape-pairs", 64, 256 )
{   // every pair of shapes with up to 3 (thorough: 4) dimensions of size 1 or 2/3 that is broadcastable, one shape per case
    int nd = c.thorough ? 4 : 3; Shape sa; int m = c.kase; int da = 1 + m % nd; m /= nd; for ( int i = 0; i < da; ++i ) { sa.push_back( m % 2 ? 2 + i : 1 ); m /= 2; }
    c.describe( "all partners of " + str( sa ) ); int pairs = 0;
    for ( int db = 1; db <= nd; ++db ) for ( int bits = 0; bits < ( 1 << db ); ++bits )
    {
        Shape sb; for ( int i = 0; i < db; ++i ) { long j = (long) sa.size() - db + i; unsigned long full = j >= 0 && sa[j] != 1 ? sa[j] : 3; sb.push_back( ( bits >> i ) & 1 ? full : 1 ); }
        Nd a = rnd( c.rng, sa ), b = rnd( c.rng, sb ); auto ta = tens<double>( a ), tb = tens<double>( b ); ++pairs;
        same( c, ta + tb, bin( a, b, []( double x, double y ) { return x + y; } ), 1e-14, 1e-14, "plus", str( sb ) ); ta = tens<double>( a ); tb = tens<double>( b ); same( c, ta - tb, bin( a, b, []( double x, double y ) { return x - y; } ), 1e-14, 1e-14, "minus", str( sb ) );
    }
    c.count( "exhaustive shape pairs", pairs );
}
// whole numbers are exact: no detour through floating point, division truncates
template< typename T > void exact( Ctx& c )
{
    Rng& r = c.rng; Shape sa, sb; bpair( r, sa, sb ); long top = sizeof( T ) == 8 ? r.pick( { 9L, 1000L, 1L << 30, ( 1L << 55 ) + 12345 } ) : r.pick( { 9L, 1000L, 30000L } ), small = sizeof( T ) == 8 ? 37 : 5; c.describe( sf( "%s values up to %ld ", sizeof( T ) == 8 ? "long" : "int", top ) + str( sa ) + " with " + str( sb ) );
    auto draw = [&]( Shape const& s, long m, bool nz ) { tensor<T> t{ s }; for ( auto& x : t ) do { x = r.flip( 0.2 ) ? ( r.flip() ? m : -m ) : static_cast<T>( (long) ( r.next() % ( 2 * (unsigned long) m + 1 ) ) - m ); } while ( nz && x == 0 ); return t; };
    auto ta = draw( sa, top, false ), tb = draw( sb, top, false ), td = draw( sa, small, true ); T s; do { s = r.range( -(int) small, small ); } while ( !s );
    auto at = []( tensor<T> const& t, Shape const& big, Shape const& ix ) { auto sh = t.shape(); size_t o = big.size() - sh.size(), j = 0; for ( size_t i = 0; i < sh.size(); ++i ) j = j * sh[i] + ( sh[i] == 1 ? 0 : ix[i + o] ); return t.data()[j]; };
    auto chk = [&]( tensor<T> const& got, tensor<T> const& x, tensor<T> const& y, auto f, char const* kind ) {
        Shape xs = x.shape(), ys = y.shape(), bs = bshape( xs, ys ); ++c.checks; if ( got.shape() != bs ) c.fail( std::string( "exact-" ) + kind + ":shape", str( got.shape() ) + " expected " + str( bs ) );
        for ( size_t k = 0; k < got.size(); ++k ) { Shape ix = unrank( bs, k ); T p = at( x, bs, ix ), q = at( y, bs, ix ), w = f( p, q ); ++c.checks; if ( got.data()[k] != w ) c.fail( std::string( "exact-" ) + kind + ":value", sf( "element %zu of %s is %ld, expected %ld from %ld and %ld", k, str( bs ).c_str(), (long) got.data()[k], (long) w, (long) p, (long) q ) ); } };
    auto cp = [&]( tensor<T> const& t ) { return t.deep_copy(); }; tensor<T> one{ Shape{ 1 } }; one[0] = s; auto a0 = cp( ta ), b0 = cp( tb ), d0 = cp( td );
    auto plus = []( T x, T y ) { return T( x + y ); }; auto sub = []( T x, T y ) { return T( x - y ); }; auto mul = []( T x, T y ) { return T( x * y ); }; auto div = []( T x, T y ) { return T( x / y ); };
    chk( ta + tb, a0, b0, plus, "plus" ); chk( cp( a0 ) - tb, a0, b0, sub, "minus" ); chk( cp( b0 ) - cp( a0 ), b0, a0, sub, "minus" ); ta = cp( a0 ); tb = cp( b0 );
    chk( ta + s, a0, one, plus, "plus-scalar" ); chk( s + ta, a0, one, plus, "scalar-plus" ); chk( ta - s, a0, one, sub, "minus-scalar" ); chk( s - ta, one, a0, sub, "scalar-minus" ); chk( ta * s, a0, one, mul, "times-scalar" ); chk( s * ta, one, a0, mul, "scalar-times" ); chk( ta / s, a0, one, div, "divide-scalar" );
    chk( -ta, one, a0, []( T, T y ) { return T( -y ); }, "negate" ); chk( ceras::abs( ta ), one, a0, []( T, T y ) { return T( y < 0 ? -y : y ); }, "abs" ); chk( ceras::elementwise_product( ta, td ), a0, d0, mul, "elementwise-product" ); chk( ceras::elementwise_divide( ta, td ), a0, d0, div, "elementwise-divide" );
    { auto t = cp( a0 ); t += td; chk( t, a0, d0, plus, "compound-plus" ); } { auto t = cp( a0 ); t -= td; chk( t, a0, d0, sub, "compound-minus" ); } { auto t = cp( a0 ); t *= td; chk( t, a0, d0, mul, "compound-times" ); } { auto t = cp( a0 ); t /= td; chk( t, a0, d0, div, "compound-divide" ); }
    { auto t = cp( a0 ); t += s; chk( t, a0, one, plus, "compound-plus-scalar" ); } { auto t = cp( a0 ); t -= s; chk( t, a0, one, sub, "compound-minus-scalar" ); } { auto t = cp( a0 ); t *= s; chk( t, a0, one, mul, "compound-times-scalar" ); } { auto t = cp( a0 ); t /= s; chk( t, a0, one, div, "compound-divide-scalar" ); }
    T lo = static_cast<T>( -top / 3 ), hi = static_cast<T>( top / 2 ); { auto t = cp( a0 ); ceras::clip( t, lo, hi ); chk( t, a0, one, [=]( T x, T ) { return std::min( std::max( x, lo ), hi ); }, "clip" ); } c.count( "exact integer results", 24 );
}
SCEN( "integers", 80, 6000 ) { if ( c.rng.flip() ) exact<int>( c ); else exact<long>( c ); }
// every magnitude the type holds: each result is within rounding of the exact one, relative to the operands
template< typename T > void magnitudes( Ctx& c )
{
    Rng& r = c.rng; Shape sa, sb; bpair( r, sa, sb ); double top = sizeof( T ) == 4 ? 18 : 140, e = sizeof( T ) == 4 ? 3e-7 : 1e-15; bool same_scale = r.flip(); double p0 = r.real( -top, top ); auto draw = [&]( Shape const& s ) { Nd a{ s }; for ( auto& x : a.v ) x = static_cast<T>( r.real( 0.5, 5 ) * ( r.flip() ? 1 : -1 ) * std::pow( 10, same_scale ? p0 : r.real( -top, top ) ) ); return a; };
    Nd a = draw( sa ), b = draw( sb ), d = draw( sa ); c.describe( sf( "%s 1e%.0f ", same_scale ? "all about" : "mixed from", same_scale ? p0 : -top ) + str( sa ) + " with " + str( sb ) ); auto ta = tens<T>( a ), tb = tens<T>( b ), td = tens<T>( d ); T s = static_cast<T>( draw( { 1 } ).v[0] ); double S = s;
    auto add = []( double x, double y ) { return double( T( x + y ) ); }; auto sub = []( double x, double y ) { return double( T( x - y ) ); }; auto mul = []( double x, double y ) { return double( T( x * y ) ); }; auto div = []( double x, double y ) { return double( T( x / y ) ); };
    same( c, ta + tb, bin( a, b, add ), e, 0, "magnitude-plus" ); ta = tens<T>( a ); tb = tens<T>( b ); same( c, ta - tb, bin( a, b, sub ), e, 0, "magnitude-minus" ); ta = tens<T>( a ); same( c, ceras::elementwise_product( ta, td ), bin( a, d, mul ), e, 0, "magnitude-product" ); same( c, ceras::elementwise_divide( ta, td ), bin( a, d, div ), e, 0, "magnitude-divide" );
    same( c, ta * s, a.map( [&]( double x ) { return mul( x, S ); } ), e, 0, "magnitude-times-scalar" ); same( c, ta / s, a.map( [&]( double x ) { return div( x, S ); } ), e, 0, "magnitude-divide-scalar" ); same( c, ta - s, a.map( [&]( double x ) { return sub( x, S ); } ), e, 0, "magnitude-minus-scalar" ); same( c, s + ta, a.map( [&]( double x ) { return add( x, S ); } ), e, 0, "magnitude-scalar-plus" );
    { auto t = tens<T>( a ); t /= s; same( c, t, a.map( [&]( double x ) { return div( x, S ); } ), e, 0, "magnitude-compound-divide-scalar" ); } { auto t = tens<T>( a ); t *= td; same( c, t, bin( a, d, mul ), e, 0, "magnitude-compound-times" ); } { auto t = tens<T>( a ); t /= td; same( c, t, bin( a, d, div ), e, 0, "magnitude-compound-divide" ); } { auto t = tens<T>( a ); t += td; same( c, t, bin( a, d, add ), e, 0, "magnitude-compound-plus" ); } { auto t = tens<T>( a ); t -= td; same( c, t, bin( a, d, sub ), e, 0, "magnitude-compound-minus" ); } c.count( "results at extreme magnitudes", 13 );
}
SCEN( "magnitudes", 60, 5000 ) { if ( c.rng.flip() ) magnitudes<double>( c ); else magnitudes<float>( c ); }
