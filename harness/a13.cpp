// A13: complex expressions against std::complex arithmetic; gradients of the real and imaginary part of every result.
#include "graph.hpp"
#include <complex>
using namespace vp; using namespace ceras;
using C = std::complex<double>; using Z = std::vector<C>;
struct CN { Shape shape; Z v; };
static CN mk( Nd const& r, Nd const& i ) { CN z{ r.shape, Z( r.size() ) }; for ( size_t k = 0; k < z.v.size(); ++k ) z.v[k] = { r.v[k], i.v[k] }; return z; }
static CN mm( CN const& a, CN const& b ) { size_t m = a.shape[0], k = a.shape[1], n = b.shape[1]; CN r{ { m, n }, Z( m * n ) }; for ( size_t i = 0; i < m; ++i ) for ( size_t j = 0; j < n; ++j ) for ( size_t q = 0; q < k; ++q ) r.v[i * n + j] += a.v[i * k + q] * b.v[q * n + j]; return r; }
template< typename F > CN zip( CN const& a, CN const& b, F f ) { CN r{ bshape( a.shape, b.shape ), {} }; size_t n = r.shape.size(); r.v.resize( prod( r.shape ) ); for ( size_t k = 0; k < r.v.size(); ++k ) { Shape ix = unrank( r.shape, k ); auto get = [&]( CN const& q ) { size_t o = n - q.shape.size(), j = 0; for ( size_t i = 0; i < q.shape.size(); ++i ) j = j * q.shape[i] + ( q.shape[i] == 1 ? 0 : ix[i + o] ); return q.v[j]; }; r.v[k] = f( get( a ), get( b ) ); } return r; }
static Nd part( CN const& z, bool im ) { Nd r{ z.shape }; for ( size_t i = 0; i < r.size(); ++i ) r.v[i] = im ? z.v[i].imag() : z.v[i].real(); return r; }
template< typename F > CN el( CN a, F f ) { for ( auto& x : a.v ) x = f( x ); return a; }
using CF = std::function<CN( CN const&, CN const&, CN const& )>; // of the two complex operands and the real expression
struct Kind { char const* name; int form; /* 0 elementwise same shape, 1 matrix product, 2 right real factor, 3 left real factor */ std::function<std::pair<Node, Node>( Node, Node, Node, Node, Node )> mk; CF f; };
template< typename X > static std::pair<Node, Node> parts( X const& z ) { return { N( real( z ) ), N( imag( z ) ) }; }
template< typename X > static std::pair<Node, Node> only( X const& z ) { return { N( z ), N( z ) }; }
#define K_( NAME, FORM, EXPR, FN ) { NAME, FORM, []( Node a, Node b, Node p, Node q, Node e ) { auto z = ceras::complex{ a, b }; auto w = ceras::complex{ p, q }; (void) z; (void) w; return EXPR; }, []( CN const& z, CN const& w, CN const& e ) -> CN { (void) w; (void) e; return FN; } }
static std::vector<Kind> const& kinds()
{
    static std::vector<Kind> t{
        K_( "z+w", 0, parts( z + w ), zip( z, w, std::plus<>() ) ), K_( "z-w", 0, parts( z - w ), zip( z, w, std::minus<>() ) ), K_( "+z", 0, parts( +z ), z ), K_( "-z", 0, parts( -z ), el( z, []( C x ) { return -x; } ) ), K_( "conj", 0, parts( conj( z ) ), el( z, []( C x ) { return std::conj( x ); } ) ),
        K_( "norm", 0, only( norm( z ) ), el( z, []( C x ) { return C{ std::norm( x ), std::norm( x ) }; } ) ), K_( "abs", 0, only( abs( z ) ), el( z, []( C x ) { return C{ std::abs( x ), std::abs( x ) }; } ) ), K_( "arg", 0, only( arg( z ) ), el( z, []( C x ) { return C{ std::arg( x ), std::arg( x ) }; } ) ),
        K_( "polar", 0, parts( polar( a, b ) ), el( z, []( C x ) { return C{ x.real() * std::cos( x.imag() ), x.real() * std::sin( x.imag() ) }; } ) ), K_( "polar(abs,arg)", 0, parts( polar( abs( z ), arg( z ) ) ), z ), K_( "z*w", 1, parts( z * w ), mm( z, w ) ),
        K_( "z+e", 0, parts( z + e ), zip( z, e, std::plus<>() ) ), K_( "e+z", 0, parts( e + z ), zip( e, z, std::plus<>() ) ), K_( "z-e", 0, parts( z - e ), zip( z, e, std::minus<>() ) ), K_( "e-z", 0, parts( e - z ), zip( e, z, std::minus<>() ) ),
        K_( "z*e", 2, parts( z * e ), mm( z, e ) ), K_( "e*z", 3, parts( e * z ), mm( e, z ) ), K_( "z*value", 0, parts( z * value<double>{ -1.5 } ), el( z, []( C x ) { return -1.5 * x; } ) ), K_( "value*z", 0, parts( value<double>{ 2.5 } * z ), el( z, []( C x ) { return 2.5 * x; } ) ), K_( "z+value", 0, parts( z + value<double>{ 0.5 } ), el( z, []( C x ) { return 0.5 + x; } ) ),
        K_( "z*conj(z)+w", 4, parts( z * conj( z ) + w ), zip( mm( z, el( z, []( C x ) { return std::conj( x ); } ) ), w, std::plus<>() ) ), K_( "conj(z-w)+(-z)", 0, parts( conj( z - w ) + ( -z ) ), zip( z, w, []( C x, C y ) { return std::conj( x - y ) - x; } ) ), K_( "real,imag", 0, parts( z ), z ),
    };
    return t;
}
SCEN( "A13/operations", 460, 20000 )
{
    auto& r = c.rng; auto const& k = kinds()[c.kase % kinds().size()]; Shape s = k.form == 0 ? rshape( r, 1, 3, 4, 30 ) : Shape{ (unsigned long) r.range( 1, 4 ), (unsigned long) r.range( 1, 4 ) }, sw = s, se = s;
    if ( k.form == 1 ) sw = { s[1], (unsigned long) r.range( 1, 4 ) }; if ( k.form == 2 ) se = { s[1], (unsigned long) r.range( 1, 4 ) }; if ( k.form == 3 ) se = { (unsigned long) r.range( 1, 4 ), s[0] }; if ( k.form == 4 ) { s = sw = { s[0], s[0] }; }
    if ( k.form == 0 && r.flip( 0.4 ) && std::string( k.name ).size() == 3 ) { if ( r.flip() ) { sw = { s.back() }; se = sw; } else se = { 1 }; }
    c.describe( sf( "%s %s %s %s", k.name, str( s ).c_str(), str( sw ).c_str(), str( se ).c_str() ) ); c.count( k.name );
    // away from the origin and the branch cut of arg
    std::string kn = k.name; bool smooth = kn.find( "abs" ) == std::string::npos && kn != "arg"; // every other operation is smooth everywhere, zero included
    auto zeros = [&]( Nd n ) { if ( smooth && r.flip( 0.4 ) ) for ( auto& x : n.v ) if ( r.flip( 0.4 ) ) x = 0; return n; }; auto drawn = [&]( Shape const& q ) { return zeros( rnd_off( r, q, -2, 2, { 0 }, 0.1 ) ); };
    Nd a = drawn( s ), b = drawn( s ); std::vector<Nd> xs{ a, b, rnd( r, sw ), rnd( r, sw ), rnd( r, se ) }; std::vector<Var<double>> v; for ( auto& x : xs ) v.push_back( var<double>( x ) );
    bool alias = k.form == 0 && r.flip( 0.15 ); if ( alias ) c.describe( "w is z" );
    auto pr = k.mk( N( v[0] ), N( v[1] ), N( alias ? v[0] : v[2] ), N( alias ? v[1] : v[3] ), N( v[4] ) );
    for ( int im = 0; im < 2; ++im )
    {
        RefFn ref = [&, im]( std::vector<Nd> const& q ) { Nd zero{ q[4].shape }; return part( k.f( mk( q[0], q[1] ), alias ? mk( q[0], q[1] ) : mk( q[2], q[3] ), mk( q[4], zero ) ), im ); };
        Opt o; o.rtol = o.atol = 1e-11; o.grtol = 1e-5; o.gatol = 1e-6; o.rounds = r.range( 1, 2 ); o.redraw = [&]( size_t i, Nd const& n ) { return i < 2 ? drawn( n.shape ) : rnd( r, n.shape ); };
        // variables the part does not depend on keep a zero gradient only if no earlier pass reached them
        for ( auto& x : v ) x.gradient().reset(); Node e = im ? pr.second : pr.first; check_ex<double>( c, v, Ex_<double>{ [e]{ return run_node( e ); }, [e]( tensor<double> const& g ) { e.backward( g ); }, [e]{ return e.shape(); } }, ref, o );
        c.count( im ? "imaginary parts" : "real parts" );
    }
}
