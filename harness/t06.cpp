// T06: data movement: every output element is checked against the index mapping; inputs hold distinct values
#include "cx.hpp"
using namespace vp; using ceras::tensor;
static Nd distinct( Rng& r, Shape const& s, double base = 0 ) { Nd a{ s }; for ( size_t i = 0; i < a.size(); ++i ) a.v[i] = base + i + 1; for ( size_t i = a.size(); i-- > 1; ) std::swap( a.v[i], a.v[r.below( i + 1 )] ); return a; }
static Nd concat( Nd const& a, Nd const& b, size_t ax )
{
    Shape s = a.shape; s[ax] += b.shape[ax]; Nd r{ s }; for ( size_t k = 0; k < r.size(); ++k ) { Shape ix = unrank( s, k ); if ( ix[ax] < a.shape[ax] ) r.v[k] = a.at( ix ); else { ix[ax] -= a.shape[ax]; r.v[k] = b.at( ix ); } } return r;
}
template< typename T > void cat( Ctx& c )
{
    Rng& r = c.rng; Shape sa = rshape( r, 1, 5, 5, 300 ); size_t ax = r.below( sa.size() ); Shape sb = sa; sb[ax] = r.range( 1, 5 ); bool def = ax + 1 == sa.size() && r.flip(); bool zero = ax == 0 && r.flip(); c.describe( "concatenate " + str( sa ) + str( sb ) + sf( " axis %ld", def ? -1L : (long) ax ) );
    Nd a = distinct( r, sa ), b = distinct( r, sb, 1000 ); auto ta = tens<T>( a ), tb = tens<T>( b );
    auto got = def ? ceras::concatenate( ta, tb, -1UL ) : zero ? ceras::concatenate( ta, tb ) : ceras::concatenate( ta, tb, ax ); same( c, got, concat( a, b, ax ), 0, 0, "concatenate" ); c.count( "elements placed", got.size() );
}
SCEN( "concatenate-double", 150, 8000 ) { cat<double>( c ); }
SCEN( "concatenate-float", 60, 4000 ) { cat<float>( c ); }
SCEN( "concatenate-mixed-rank", 80, 4000 )
{   // the operand of smaller rank is repeated along the missing leading dimensions and comes second
    Rng& r = c.rng; Shape sa = rshape( r, 2, 4, 4, 200 ); size_t drop = r.range( 1, sa.size() - 1 ); Shape sb( sa.begin() + drop, sa.end() ); size_t ax = drop + r.below( sb.size() ); sb[ax - drop] = r.range( 1, 4 ); c.describe( "concatenate ranks " + str( sa ) + str( sb ) + sf( " axis %zu", ax ) );
    Nd a = distinct( r, sa ), b = distinct( r, sb, 1000 ); Shape bs( sa.begin(), sa.begin() + drop ); bs.insert( bs.end(), sb.begin(), sb.end() ); Nd bb{ bs }; for ( size_t i = 0; i < bb.size(); ++i ) bb.v[i] = b.v[i % b.size()];
    bool swap = r.flip(); auto ta = tens<double>( a ), tb = tens<double>( b ); auto got = swap ? ceras::concatenate( tb, ta, ax ) : ceras::concatenate( ta, tb, ax ); same( c, got, concat( a, bb, ax ), 0, 0, "concatenate-mixed-rank" );
}
SCEN( "repeat", 120, 6000 )
{
    Shape s = rshape( c.rng, 1, 4, 5, 200 ); unsigned long n = c.rng.range( 1, 6 ); c.describe( "repeat " + str( s ) + sf( " x%lu", n ) ); Nd a = distinct( c.rng, s ); Shape rs = s; rs.insert( rs.begin(), n ); Nd w{ rs }; for ( size_t i = 0; i < w.size(); ++i ) w.v[i] = a.v[i % a.size()]; same( c, ceras::repeat( tens<double>( a ), n ), w, 0, 0, "repeat" ); same( c, ceras::repeat( tens<float>( a ), n ), w, 0, 0, "repeat" ); c.count( "elements placed", w.size() );
}
SCEN( "repmat", 120, 6000 )
{
    unsigned long R = c.rng.range( 1, 6 ), C = c.rng.range( 1, 6 ), p = c.rng.range( 1, 4 ), q = c.rng.range( 1, 4 ); c.describe( sf( "repmat %lux%lu by %lux%lu", R, C, p, q ) ); Nd a = distinct( c.rng, { R, C } ), w{ Shape{ R * p, C * q } }; for ( size_t i = 0; i < R * p; ++i ) for ( size_t j = 0; j < C * q; ++j ) w.v[i * C * q + j] = a.v[( i % R ) * C + j % C]; same( c, ceras::repmat( tens<double>( a ), p, q ), w, 0, 0, "repmat" ); c.count( "elements placed", w.size() );
}
SCEN( "flip", 150, 6000 )
{
    Shape s = rshape( c.rng, 1, 4, 6, 300 ); long ax = c.rng.below( s.size() ); bool def = ax + 1 == (long) s.size() && c.rng.flip(); c.describe( "flip " + str( s ) + sf( " axis %ld", def ? -1 : ax ) ); Nd a = distinct( c.rng, s ), w{ s }; for ( size_t k = 0; k < w.size(); ++k ) { Shape ix = unrank( s, k ); ix[ax] = s[ax] - 1 - ix[ax]; w.v[k] = a.at( ix ); }
    auto t = tens<double>( a ); auto f = def ? ceras::flip( t ) : ceras::flip( t, ax ); same( c, f, w, 0, 0, "flip" ); same( c, t, a, 0, 0, "flip-operand" ); same( c, ceras::flip( f, ax ), a, 0, 0, "flip-twice" ); tensor<double> into{ rshape( c.rng, 1, 3 ), 3.0 }; ceras::flip( t, ax, into ); same( c, into, w, 0, 0, "flip-into" ); ceras::flip( t, ax, into ); same( c, into, w, 0, 0, "flip-into-again" ); c.count( "elements placed", w.size() );
}
SCEN( "broadcast", 150, 6000 )
{
    Shape full = rshape( c.rng, 1, 5, 4, 300 ), s = full; if ( c.rng.flip() ) s.erase( s.begin(), s.begin() + c.rng.below( s.size() ) ); for ( auto& x : s ) if ( c.rng.flip( 0.4 ) ) x = 1; c.describe( "broadcast " + str( s ) + " to " + str( full ) ); Nd a = distinct( c.rng, s ); auto t = tens<double>( a ); same( c, ceras::broadcast_tensor( t, full ), bin( a, Nd{ full }, []( double x, double ) { return x; } ), 0, 0, "broadcast" ); same( c, t, a, 0, 0, "broadcast-operand" ); c.count( "elements placed", prod( full ) );
}
SCEN( "squeeze", 80, 4000 )
{
    Shape s = rshape( c.rng, 1, 4, 4, 200 ); for ( int i = 0; i < 2; ++i ) s.insert( s.begin() + c.rng.below( s.size() + 1 ), 1 ); c.describe( "squeeze " + str( s ) ); Nd a = distinct( c.rng, s ); Shape q; for ( auto x : s ) if ( x > 1 ) q.push_back( x ); if ( q.empty() ) q = { 1 }; auto t = tens<double>( a ); same( c, ceras::squeeze( t ), reshaped( a, q ), 0, 0, "squeeze" ); same( c, ceras::squeeze( t, -1 ), reshaped( a, q ), 0, 0, "squeeze" ); same( c, t, a, 0, 0, "squeeze-operand" );
    for ( size_t i = 0; i < s.size(); ++i ) if ( s[i] == 1 ) { Shape z = s; z.erase( z.begin() + i ); same( c, ceras::squeeze( t, i ), reshaped( a, z ), 0, 0, "squeeze-axis", sf( "axis %zu", i ) ); }
    Shape r2{ 1, prod( s ) }; same( c, ceras::reshape( t, r2 ), reshaped( a, r2 ), 0, 0, "reshape" ); same( c, ceras::reshape( t, Shape{ -1UL } ), reshaped( a, { prod( s ) } ), 0, 0, "reshape" );
}
