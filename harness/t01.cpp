// T01: operand immutability, independence of results, copy/alias semantics over random histories
#include "cx.hpp"
using namespace vp; using ceras::tensor;

static double g_scalar = 2; // the number used by the scalar forms, drawn per case
template< typename T > struct Fn { std::string name; int arity; std::function<tensor<T>( tensor<T> const&, tensor<T> const& )> f; bool may_alias; int shapes; };
// shapes: 0 any single; 1 equal; 2 broadcastable; 3 suffix; 4 matmul; 5 2-D single; 6 concat axis 0; 7 image 3/4-D; 8 unit dims
template< typename T > std::vector<Fn<T>> table()
{
    using t = tensor<T>; std::vector<Fn<T>> v;
    auto one = [&]( std::string n, auto f, bool alias = false, int sh = 0 ) { v.push_back( { n, 1, [f]( t const& a, t const& ) { return f( a ); }, alias, sh } ); };
    auto two = [&]( std::string n, auto f, int sh, bool alias = false ) { v.push_back( { n, 2, [f]( t const& a, t const& b ) { return f( a, b ); }, alias, sh } ); };
    two( "add", []( t const& a, t const& b ) { return ceras::add( a, b ); }, 2 );
    two( "operator+", []( t const& a, t const& b ) { return a + b; }, 2 );
    two( "operator+same", []( t const& a, t const& b ) { return a + b; }, 1 );
    two( "minus", []( t const& a, t const& b ) { return ceras::minus( a, b ); }, 2 );
    two( "operator-same", []( t const& a, t const& b ) { return a - b; }, 1 );
    two( "elementwise_product", []( t const& a, t const& b ) { return ceras::elementwise_product( a, b ); }, 3 );
    two( "hadamard_product", []( t const& a, t const& b ) { return ceras::hadamard_product( a, b ); }, 1 );
    two( "elementwise_divide", []( t const& a, t const& b ) { return ceras::elementwise_divide( a, b ); }, 1 );
    two( "multiply", []( t const& a, t const& b ) { return ceras::multiply( a, b ); }, 4 );
    two( "operator*", []( t const& a, t const& b ) { return a * b; }, 4 );
    two( "multiply-into", []( t const& a, t const& b ) { t r; ceras::multiply( a, b, r ); return r; }, 4 );
    two( "concatenate", []( t const& a, t const& b ) { return ceras::concatenate( a, b, 0 ); }, 6 );
    one( "scalar+", []( t const& a ) { return T( g_scalar ) + a; } ); one( "+scalar", []( t const& a ) { return a + T( g_scalar ); } );
    one( "scalar-", []( t const& a ) { return T( g_scalar ) - a; } ); one( "-scalar", []( t const& a ) { return a - T( g_scalar ); } );
    one( "scalar*", []( t const& a ) { return T( g_scalar ) * a; } ); one( "*scalar", []( t const& a ) { return a * T( g_scalar ); } );
    one( "/scalar", []( t const& a ) { return a / T( g_scalar == 0 ? 1 : g_scalar ); } ); one( "negate", []( t const& a ) { return -a; } );
    one( "abs", []( t const& a ) { return ceras::abs( a ); } ); one( "softmax", []( t const& a ) { return ceras::softmax( a ); } );
    one( "copy", []( t const& a ) { return ceras::copy( a ); } ); one( "deep_copy", []( t const& a ) { return ceras::deep_copy( a ); } );
    one( "member copy", []( t const& a ) { return t{ a.copy() }; } ); one( "member deep_copy", []( t const& a ) { return t{ a.deep_copy() }; } );
    one( "as_type", []( t const& a ) { return a.template as_type<T>(); } );
    one( "repeat", []( t const& a ) { return ceras::repeat( a, 3 ); } );
    one( "repeat once", []( t const& a ) { return ceras::repeat( a, 1 ); } );
    one( "repmat", []( t const& a ) { return ceras::repmat( a, 2, 3 ); }, false, 5 );
    one( "repmat11", []( t const& a ) { return ceras::repmat( a, 1, 1 ); }, false, 5 );
    one( "reduce_sum", []( t const& a ) { return ceras::reduce_sum( a ); } ); one( "reduce_mean", []( t const& a ) { return ceras::reduce_mean( a ); } );
    one( "sum axis0", []( t const& a ) { return ceras::sum( a, 0 ); } ); one( "mean axis0", []( t const& a ) { return ceras::mean( a, 0, true ); } );
    one( "sum axis-1", []( t const& a ) { return ceras::sum( a, -1UL, true ); } ); one( "mean axis-1", []( t const& a ) { return ceras::mean( a, -1UL ); } );
    one( "variance", []( t const& a ) { return ceras::variance( a, 0 ); } ); one( "standard_deviation", []( t const& a ) { return ceras::standard_deviation( a, -1UL, true ); } );
    one( "max axis0", []( t const& a ) { return ceras::max( a, 0 ); } ); one( "min axis-1", []( t const& a ) { return ceras::min( a, -1UL, true ); } );
    one( "var/std/norm", []( t const& a ) { return t{ Shape{ 1UL }, { (T) ( ceras::var( a ) + ceras::std( a ) + ceras::norm( a ) + ceras::max( a ) + ceras::min( a ) + ceras::sum( a ) + ceras::mean( a ) ) } }; } );
    one( "flip", []( t const& a ) { return ceras::flip( a, -1 ); } ); one( "flip0", []( t const& a ) { return ceras::flip( a, 0 ); } );
    one( "zeros_like", []( t const& a ) { return ceras::zeros_like( a ); } ); one( "ones_like", []( t const& a ) { return ceras::ones_like( a ); } );
    one( "random_like", []( t const& a ) { return ceras::random_like( a ); } ); one( "randn_like", []( t const& a ) { return ceras::randn_like( a ); } );
    one( "poisson", []( t const& a ) { return ceras::poisson( ceras::abs( a ) * T( 10 ) ); } );
    // views: may share storage with their operand, must not change it
    one( "reshape", []( t const& a ) { return ceras::reshape( a, { a.size() } ); }, true ); one( "squeeze", []( t const& a ) { return ceras::squeeze( a ); }, true, 8 );
    one( "squeeze axis", []( t const& a ) { return ceras::squeeze( a, 0 ); }, true, 9 );
    one( "broadcast_tensor", []( t const& a ) { auto s = a.shape(); s.insert( s.begin(), 3 ); return ceras::broadcast_tensor( a, s ); }, true );
    one( "broadcast_tensor same", []( t const& a ) { return ceras::broadcast_tensor( a, a.shape() ); }, true );
    one( "print", []( t const& a ) { std::ostringstream os; os << a; return t{ Shape{ 1UL }, { (T) os.str().size() } }; } );
    one( "write_tensor", []( t const& a ) { std::ostringstream os; ceras::write_tensor( os, a ); return t{ Shape{ 1UL }, { (T) os.str().size() } }; } );
    one( "has_nan", []( t const& a ) { return t{ Shape{ 1UL }, { (T) ( ceras::has_nan( a ) + ceras::has_inf( a ) + ceras::is_valid( a ) ) } }; } );
    one( "copy-construct", []( t const& a ) { t b{ a }; return b; }, true );
    return v;
}

template< typename T > void immut( Ctx& c )
{
    auto tab = table<T>(); auto& f = tab[c.kase % tab.size()]; Rng& r = c.rng;
    Shape sa = rshape( r, 1, 4, 5, 200 ), sb = sa;
    switch ( f.shapes )
    {
        case 2: { if ( r.flip() ) { size_t drop = r.below( sb.size() ); sb.erase( sb.begin(), sb.begin() + drop ); } for ( auto& x : sb ) if ( r.flip( 0.3 ) ) x = 1; if ( r.flip( 0.3 ) ) for ( size_t i = 0; i < sb.size(); ++i ) if ( sb[i] != 1 && r.flip( 0.4 ) ) sa[sa.size() - sb.size() + i] = 1; if ( r.flip() ) std::swap( sa, sb ); break; }
        case 3: { sb.erase( sb.begin(), sb.begin() + r.below( sb.size() ) ); if ( r.flip() ) std::swap( sa, sb ); break; }
        case 4: { unsigned long m = r.range( 1, 7 ), k = r.range( 1, 7 ), n = r.range( 1, 7 ); sa = { m, k }; sb = { k, n }; break; }
        case 5: sa = { (unsigned long) r.range( 1, 5 ), (unsigned long) r.range( 1, 5 ) }; break;
        case 6: sb[0] = r.range( 1, 4 ); break;
        case 8: sa.insert( sa.begin() + r.below( sa.size() + 1 ), 1 ); break;
        case 9: sa.insert( sa.begin(), 1 ); break;
    }
    if ( f.arity == 1 && prod( sa ) == 0 ) return;
    bool selfop = f.arity == 2 && sa == sb && f.shapes != 4 && r.flip( 0.3 );
    c.describe( f.name + " " + str( sa ) + ( f.arity == 2 ? " " + str( sb ) : "" ) + ( selfop ? " (same object twice)" : "" ) );
    // ordinary values, or those for which a short cut might be tempting: zeros, ones, identities, constants
    auto vals = [&]( Shape const& s, double lo, double hi, bool zero ) { Nd x = rnd( r, s, lo, hi ); int k = r.below( 9 ); if ( k == 0 && zero ) x = Nd{ s }; else if ( k == 1 ) x = Nd{ s, 1 }; else if ( k == 2 ) { for ( auto& q : x.v ) q = zero ? r.range( -1, 1 ) : 1; } else if ( k == 3 && s.size() == 2 && zero ) { x = Nd{ s }; for ( size_t i = 0; i < std::min( s[0], s[1] ); ++i ) x.at( { i, i } ) = 1; } else if ( k == 4 ) x = Nd{ s, 0.75 }; return x; };
    g_scalar = r.pick( { 2.0, 0.0, 1.0, -1.0, -0.0, 0.5, 1e-9, -3.25 } );
    if ( f.shapes == 4 && r.flip( 0.4 ) ) { if ( r.flip() ) sb[1] = sb[0]; else sa[0] = sa[1]; }
    tensor<T> a = tens<T>( vals( sa, -2, 2, f.name != "elementwise_divide" || !selfop ) ), b = selfop ? a : tens<T>( vals( sb, 0.5, 2, f.name != "elementwise_divide" ) ), a2 = a, b2 = b;
    Snap<T> pa{ a, "first operand" }, pb{ b, "second operand" };
    auto res = f.f( a, b );
    pa.check( c, a ); pb.check( c, b ); pa.check( c, a2 ); pb.check( c, b2 ); c.count( "calls with operand snapshots" );
    if ( f.may_alias ) return;
    auto before = raw( res );
    for ( size_t i = 0; i < res.size(); ++i ) res.data()[i] = T( 777 + i );
    for ( auto* s : { &pa, &pb } ) { ++c.checks; auto now = raw( s->t ); if ( now.size() && std::memcmp( now.data(), s->v.data(), now.size() * sizeof( T ) ) ) c.fail( "result-aliases-operand", "writing to the result changed the " + s->name ); }
    auto res2 = f.f( a, b ); (void) res2; // operands must still give a result; and writing operands must not touch the earlier result
    for ( size_t i = 0; i < a.size(); ++i ) a.data()[i] = T( -5 ); for ( size_t i = 0; i < b.size(); ++i ) b.data()[i] = T( 3 );
    for ( size_t i = 0; i < res.size(); ++i ) c.require( res.data()[i] == T( 777 + i ), "operand-write-changes-result", sf( "element %zu", i ) );
}
SCEN( "immutable-double", 3000, 60000 ) { immut<double>( c ); }
SCEN( "immutable-float", 1200, 30000 ) { immut<float>( c ); }

// A history over a pool of tensors: shallow copies share, deep copies do not; mirrored by a model of storages.
template< typename T > void history( Ctx& c )
{
    Rng& r = c.rng; struct H { tensor<T> t; int store; Shape shape; }; std::vector<H> h; std::vector<std::vector<T>> stores;
    auto mk = [&]( Shape s ) { Nd a = rnd( r, s ); auto t = tens<T>( a ); stores.push_back( raw( t ) ); return H{ t, (int) stores.size() - 1, s }; };
    h.push_back( mk( { 2, 3 } ) ); int n = r.range( 15, 40 ); std::string log;
    for ( int i = 0; i < n; ++i )
    {
        int op = r.below( 13 ); size_t k = r.below( h.size() ); auto& x = h[k]; auto& st = stores[x.store];
        switch ( op )
        {
            case 0: if ( h.size() < 10 ) h.push_back( mk( rshape( r, 1, 3, 4, 40 ) ) ); break;
            case 1: { H y = h[k]; h.push_back( y ); break; }
            case 2: { tensor<T> d = r.flip() ? x.t.deep_copy() : x.t.copy(); auto cp = st; stores.push_back( cp ); h.push_back( { d, (int) stores.size() - 1, x.shape } ); break; }
            case 3: { size_t j = r.below( h.size() ); h[j].t = h[k].t; h[j].store = h[k].store; h[j].shape = h[k].shape; break; } // assignment
            case 4: { size_t e = r.below( st.size() ); T v = r.real( -9, 9 ); x.t[e] = v; st[e] = v; break; }
            case 5: { T v = r.real( -3, 3 ); x.t.reset( v ); std::fill( st.begin(), st.end(), v ); break; }
            case 6: { x.t += T( 1.5 ); for ( auto& q : st ) q += T( 1.5 ); break; }
            case 7: { x.t *= T( 0.5 ); for ( auto& q : st ) q *= T( 0.5 ); break; }
            case 8: { tensor<T> y = x.t * T( 2 ); std::vector<T> s2 = st; for ( auto& q : s2 ) q *= T( 2 ); stores.push_back( s2 ); h.push_back( { y, (int) stores.size() - 1, x.shape } ); break; }
            case 9: { // in-place with another tensor of the same shape (possibly itself or an alias)
                size_t j = r.below( h.size() ); if ( h[j].shape == x.shape ) { auto s2 = stores[h[j].store]; int w = r.below( 3 ); if ( w == 0 ) x.t += h[j].t; else if ( w == 1 ) x.t -= h[j].t; else x.t *= h[j].t; for ( size_t e = 0; e < st.size(); ++e ) st[e] = w == 0 ? st[e] + s2[e] : w == 1 ? st[e] - s2[e] : st[e] * s2[e]; } break; }
            case 10: { // a + b as value
                size_t j = r.below( h.size() ); if ( h[j].shape == x.shape ) { auto& s2 = stores[h[j].store]; std::vector<T> s3( st.size() ); bool p = r.flip(); for ( size_t e = 0; e < st.size(); ++e ) s3[e] = p ? st[e] + s2[e] : st[e] - s2[e]; tensor<T> y = p ? x.t + h[j].t : x.t - h[j].t; Shape s = x.shape; stores.push_back( s3 ); h.push_back( { y, (int) stores.size() - 1, s } ); } break; }
            case 11: { Shape s{ prod( x.shape ) }; if ( r.flip() && prod( x.shape ) % 2 == 0 ) s = { 2, -1UL }; x.t.reshape( s ); if ( s.back() == -1UL ) s.back() = prod( x.shape ) / 2; x.shape = s; break; }
            case 12: { tensor<T> tmp = h[k].t; tensor<T> mv = std::move( tmp ); h.push_back( { mv, h[k].store, h[k].shape } ); if ( h.size() > 14 ) h.erase( h.begin() + r.below( h.size() ) ); break; }
        }
        if ( h.size() > 16 ) h.erase( h.begin() + r.below( h.size() ) );
        for ( size_t j = 0; j < h.size(); ++j )
        {
            ++c.checks; auto got = raw( h[j].t ); auto& want = stores[h[j].store];
            if ( h[j].t.shape() != h[j].shape ) c.fail( "history-shape", sf( "after step %d (op %d) handle %zu has shape ", i, op, j ) + str( h[j].t.shape() ) + " expected " + str( h[j].shape ) );
            if ( got.size() != want.size() || std::memcmp( got.data(), want.data(), got.size() * sizeof( T ) ) ) c.fail( "history-contents", sf( "after step %d (op %d on %zu) handle %zu differs from its storage's history", i, op, k, j ) );
        }
        c.count( "history steps" );
    }
    c.describe( sf( "history of %d operations over shared and independent tensors", n ) );
}
SCEN( "history-double", 60, 4000 ) { history<double>( c ); }
SCEN( "history-float", 30, 2000 ) { history<float>( c ); }
