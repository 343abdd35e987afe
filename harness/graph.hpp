// Random expression graphs: library expressions composed at run time next to a reference model with exact (dual number) derivatives.
#pragma once
#include "cx.hpp"
namespace ceras // found by argument-dependent lookup, like the library's own expressions
{
    // an expression of erased type; transparent: no caching, no evaluation of its own
    struct vp_node
    {
        typedef ceras::tensor<double> tensor_type; typedef double value_type;
        struct Base { virtual ~Base() {} virtual tensor_type forward() = 0; virtual void backward( tensor_type const& ) = 0; virtual std::vector<unsigned long> shape() = 0; };
        template< typename E > struct Of : Base { E e; Of( E const& x ) : e{ x } {} tensor_type forward() override { return e.forward(); } void backward( tensor_type const& g ) override { e.backward( g ); } std::vector<unsigned long> shape() override { auto s = e.shape(); return std::vector<unsigned long>( s.begin(), s.end() ); } };
        std::shared_ptr<Base> p;
        tensor_type forward() const { return p->forward(); }
        void backward( tensor_type const& g ) const { p->backward( g ); }
        std::vector<unsigned long> shape() const noexcept { return p->shape(); }
        int id() const { return -1; }
        std::string name() const { return "Node"; }
    };
    template<> struct is_unary_operator<vp_node> : std::true_type {};
}
namespace vp
{
    using Node = ceras::vp_node;
    template< typename E > Node N( E const& e ) { return Node{ std::make_shared<Node::Of<E>>( e ) }; }
    struct D { double v, d; };
    struct DNd { Shape shape; std::vector<D> v; size_t size() const { return v.size(); } size_t idx( Shape const& ix ) const { size_t k = 0; for ( size_t i = 0; i < shape.size(); ++i ) k = k * shape[i] + ix[i]; return k; } D const& at( Shape const& i ) const { return v[idx( i )]; } };
    inline DNd dn( Nd const& a ) { DNd r{ a.shape, {} }; for ( auto x : a.v ) r.v.push_back( { x, 0 } ); return r; }
    inline Nd vals( DNd const& a ) { Nd r{ a.shape }; for ( size_t i = 0; i < a.size(); ++i ) r.v[i] = a.v[i].v; return r; }
    using Args = std::vector<DNd const*>;
    struct NoFit {}; // the data does not fit the graph (shape or domain): the drawn data set is discarded
    template< typename F > DNd dbin( DNd const& a, DNd const& b, F f )
    {
        DNd r; try { r.shape = bshape( a.shape, b.shape ); } catch ( std::logic_error& ) { throw NoFit{}; } r.v.resize( prod( r.shape ) ); size_t n = r.shape.size();
        auto get = [&]( DNd const& q, Shape const& ix ) { size_t o = n - q.shape.size(), j = 0; for ( size_t i = 0; i < q.shape.size(); ++i ) j = j * q.shape[i] + ( q.shape[i] == 1 ? 0 : ix[i + o] ); return q.v[j]; };
        for ( size_t k = 0; k < r.size(); ++k ) { Shape ix = unrank( r.shape, k ); r.v[k] = f( get( a, ix ), get( b, ix ) ); }
        return r;
    }
    inline DNd dtake( DNd const& x, Shape const& os, std::function<Shape( Shape const& )> f ) { DNd r{ os, std::vector<D>( prod( os ) ) }; for ( size_t k = 0; k < r.size(); ++k ) r.v[k] = x.at( f( unrank( os, k ) ) ); return r; }
    template< typename F > DNd dalong( DNd const& a, size_t axis, bool keep, F f )
    {
        if ( axis >= a.shape.size() ) throw NoFit{};
        Shape s = a.shape; size_t n = s[axis], in = 1, out = 1; for ( size_t i = 0; i < axis; ++i ) out *= s[i]; for ( size_t i = axis + 1; i < s.size(); ++i ) in *= s[i];
        Shape rs = s; if ( keep ) rs[axis] = 1; else rs.erase( rs.begin() + axis ); DNd r{ rs, std::vector<D>( out * in ) }; std::vector<D> e( n );
        for ( size_t o = 0; o < out; ++o ) for ( size_t i = 0; i < in; ++i ) { for ( size_t q = 0; q < n; ++q ) e[q] = a.v[( o * n + q ) * in + i]; r.v[o * in + i] = f( e ); }
        return r;
    }
    inline void fit( bool ok ) { if ( !ok ) throw NoFit{}; }
    struct GN { std::string name; std::vector<int> args; std::function<DNd( Args const& )> ref; std::function<Node( std::vector<Node> const& )> mk; Node ex; std::shared_ptr<int> cnt; double paths = 1; int leaf = -1; };
    struct Leaf { int kind; /* 0 variable, 1 frozen variable, 2 constant, 3 placeholder */ Nd data; std::shared_ptr<Var<double>> var; std::shared_ptr<ceras::place_holder<ceras::tensor<double>>> ph; double lo = -1.5, hi = 1.5; };

    struct Un { char const* name; std::function<Node( Node const& )> mk; double ( *f )( double ); double ( *df )( double ); bool ( *ok )( double ); };
    inline double sgm( double x ) { return x >= 0 ? 1 / ( 1 + std::exp( -x ) ) : std::exp( x ) / ( 1 + std::exp( x ) ); }
    inline std::vector<Un> const& unaries()
    {
        using namespace ceras;
#define U_( NAME, EXPR, FN, DF, OK ) { NAME, []( Node const& x ) { return N( EXPR ); }, []( double x ) -> double { return FN; }, []( double x ) -> double { return DF; }, []( double x ) -> bool { return OK; } }
        static std::vector<Un> t{
            U_( "sin", sin( x ), std::sin( x ), std::cos( x ), true ), U_( "cos", cos( x ), std::cos( x ), -std::sin( x ), true ), U_( "tanh", tanh( x ), std::tanh( x ), 1 - std::tanh( x ) * std::tanh( x ), true ),
            U_( "exp", exp( x ), std::exp( x ), std::exp( x ), std::abs( x ) < 2.5 ), U_( "square", square( x ), x * x, 2 * x, std::abs( x ) < 8 ), U_( "sigmoid", sigmoid( x ), sgm( x ), sgm( x ) * ( 1 - sgm( x ) ), true ),
            U_( "softplus", softplus( x ), std::max( x, 0.0 ) + std::log1p( std::exp( -std::abs( x ) ) ), sgm( x ), true ), U_( "negative", -x, -x, -1, true ), U_( "relu", relu( x ), x > 0 ? x : 0, x > 0, std::abs( x ) > 1e-3 ),
            U_( "abs", abs( x ), std::abs( x ), x > 0 ? 1 : -1, std::abs( x ) > 1e-3 ), U_( "leaky_relu", leaky_relu( 0.25 )( x ), x > 0 ? x : 0.25 * x, x > 0 ? 1 : 0.25, std::abs( x ) > 1e-3 ), U_( "elu", elu( 1.0 )( x ), x > 0 ? x : std::exp( x ) - 1, x > 0 ? 1 : std::exp( x ), std::abs( x ) > 1e-3 ),
            U_( "sqrt", sqrt( x ), std::sqrt( x ), 0.5 / std::sqrt( x ), x > 0.1 ), U_( "log", log( x ), std::log( x ), 1 / x, x > 0.15 ), U_( "atan", atan( x ), std::atan( x ), 1 / ( 1 + x * x ), true ), U_( "erf", erf( x ), std::erf( x ), 2 / std::sqrt( M_PI ) * std::exp( -x * x ), true ),
            U_( "inverse", inverse( x ), 1 / x, -1 / ( x * x ), std::abs( x ) > 0.3 ), U_( "x+0.75", x + 0.75, x + 0.75, 1, true ), U_( "1.25-x", 1.25 - x, 1.25 - x, -1, true ), U_( "1.5*x", 1.5 * x, 1.5 * x, 1.5, true ), U_( "x/2.5", x / 2.5, x / 2.5, 1 / 2.5, true ), U_( "2/x", 2.0 / x, 2 / x, -2 / ( x * x ), std::abs( x ) > 0.3 ),
            U_( "clip", clip( -1.0, 1.5 )( x ), std::min( 1.5, std::max( -1.0, x ) ), x > -1 && x < 1.5, std::abs( x + 1 ) > 1e-3 && std::abs( x - 1.5 ) > 1e-3 ), U_( "swish", swish( x ), x * sgm( x ), sgm( x ) + x * sgm( x ) * ( 1 - sgm( x ) ), true ), U_( "lisht", lisht( x ), x * std::tanh( x ), std::tanh( x ) + x * ( 1 - std::tanh( x ) * std::tanh( x ) ), true ),
            U_( "tank_shrink", tank_shrink( x ), x - std::tanh( x ), std::tanh( x ) * std::tanh( x ), true ), U_( "value+x", value<double>{ 0.5 } + x, x + 0.5, 1, true ), U_( "x*value", x * value<double>{ -1.5 }, -1.5 * x, -1.5, true ), U_( "pow3", pow( x, 3.0 ), x * x * x, 3 * x * x, std::abs( x ) < 4 && std::abs( x ) > 1e-3 ), U_( "sinh", sinh( x ), std::sinh( x ), std::cosh( x ), std::abs( x ) < 3 ), U_( "asinh", asinh( x ), std::asinh( x ), 1 / std::sqrt( 1 + x * x ), true ),
        };
#undef U_
        return t;
    }

    struct Graph
    {
        std::vector<Leaf> leaves; std::vector<GN> n; std::vector<int> outs; std::string desc;
        std::vector<Nd> data() const { std::vector<Nd> r; for ( auto& l : leaves ) r.push_back( l.data ); return r; }
        // value of every node for the given leaf data, with derivative along element e of leaf w (w<0: none)
        std::vector<DNd> eval( std::vector<Nd> const& xs, int w = -1, size_t e = 0, int upto = -1 ) const
        {
            std::vector<DNd> r( n.size() ); if ( upto < 0 ) upto = n.size() - 1;
            for ( int i = 0; i <= upto; ++i )
            {
                if ( n[i].leaf >= 0 ) { r[i] = dn( xs[n[i].leaf] ); if ( w == n[i].leaf ) r[i].v[e].d = 1; continue; }
                Args a; for ( int k : n[i].args ) a.push_back( &r[k] ); r[i] = n[i].ref( a );
                for ( auto& q : r[i].v ) fit( std::abs( q.v ) < 60 && std::isfinite( q.v ) );
            }
            return r;
        }
        std::set<int> reach( int o ) const { std::set<int> s; std::function<void( int )> f = [&]( int i ) { if ( s.insert( i ).second ) for ( int a : n[i].args ) f( a ); }; f( o ); return s; }
        Node rebuild( int o ) const // an identical, freshly built expression over the same leaves
        {
            std::map<int, Node> m; std::function<Node( int )> f = [&]( int i ) -> Node { auto it = m.find( i ); if ( it != m.end() ) return it->second; Node q; if ( n[i].leaf >= 0 ) q = n[i].ex; else { std::vector<Node> a; for ( int k : n[i].args ) a.push_back( f( k ) ); q = n[i].mk( a ); } return m[i] = q; };
            return f( o );
        }
        // gradient of <seed, output o> with respect to leaf w
        Nd grad( std::vector<Nd> const& xs, int o, int w, Nd const& seed, double* scale ) const
        {
            Nd g{ xs[w].shape }; for ( size_t e = 0; e < g.size(); ++e ) { auto r = eval( xs, w, e, o ); long double s = 0, m = 0; for ( size_t k = 0; k < seed.size(); ++k ) { long double t = (long double) seed.v[k] * r[o].v[k].d; s += t; m += std::abs( t ); } g.v[e] = (double) s; if ( scale ) *scale = std::max( *scale, (double) m ); }
            return g;
        }
    };
    struct GOpt { int nodes = 8; bool batch = false; bool count = true; bool structural = true; };

    inline int add_leaf( Graph& g, Rng& r, int kind, Shape const& s, double lo = -1.5, double hi = 1.5 )
    {
        using TT = ceras::tensor<double>; Leaf l; l.kind = kind; l.data = rnd( r, s, lo, hi ); l.lo = lo; l.hi = hi; GN q; q.leaf = g.leaves.size(); q.name = sf( "%c%d", "vfcp"[kind], q.leaf );
        if ( kind <= 1 ) { l.var = std::make_shared<Var<double>>( var<double>( l.data ) ); if ( kind == 1 ) l.var->trainable( false ); q.ex = N( *l.var ); }
        else if ( kind == 2 ) q.ex = N( ceras::constant<TT>{ tens<double>( l.data ) } );
        else { l.ph = std::make_shared<ceras::place_holder<TT>>(); l.ph->bind( tens<double>( l.data ) ); q.ex = N( *l.ph ); }
        g.desc += q.name + str( s ) + " "; g.leaves.push_back( l ); g.n.push_back( q ); return g.n.size() - 1;
    }
    // draws one operation over existing nodes; false when the draw does not fit
    inline bool add_op( Graph& g, Rng& r, GOpt const& o )
    {
        using namespace ceras; std::vector<Nd> xs = g.data(); GN q; q.cnt = std::make_shared<int>( 0 );
        auto pick = [&]{ int m = g.n.size(); return (int) ( r.flip( 0.5 ) ? m - 1 - r.below( std::min( m, 3 ) ) : r.below( m ) ); };
        int kind = r.below( o.structural ? 30 : 22 ); int a = pick(), b = pick(); auto vv = g.eval( xs ); DNd const &A = vv[a], &B = vv[b]; size_t nd = A.shape.size(); q.args = { a };
        auto un1 = [&]( Un const& u ) { q.name = u.name; q.ref = [&u]( Args const& x ) { DNd y = *x[0]; for ( auto& e : y.v ) { fit( u.ok( e.v ) ); e = { u.f( e.v ), u.df( e.v ) * e.d }; } return y; }; q.mk = [&u]( auto const& x ) { return u.mk( x[0] ); }; };
        auto bin2 = [&]( char const* nm, auto f, auto mk ) { q.args = { a, b }; q.name = nm; q.ref = [f]( Args const& x ) { return dbin( *x[0], *x[1], f ); }; q.mk = [mk]( auto const& x ) { return mk( x[0], x[1] ); }; };
        auto suffix = [&]{ Shape const& s = A.shape.size() >= B.shape.size() ? A.shape : B.shape; Shape const& t = A.shape.size() >= B.shape.size() ? B.shape : A.shape; return std::equal( t.rbegin(), t.rend(), s.rbegin() ); };
        auto sfx = []( Args const& x ) { Shape const &p = x[0]->shape, &q = x[1]->shape; Shape const& s = p.size() >= q.size() ? p : q; Shape const& t = p.size() >= q.size() ? q : p; fit( std::equal( t.rbegin(), t.rend(), s.rbegin() ) ); };
        auto wrap = [&]( auto pre ) { auto in = q.ref; q.ref = [in, pre]( Args const& x ) { pre( x ); return in( x ); }; };
        switch ( kind )
        {
            default: un1( unaries()[ r.below( unaries().size() ) ] ); break;
            case 8: case 9: case 10: bin2( "+", []( D x, D y ) { return D{ x.v + y.v, x.d + y.d }; }, []( Node x, Node y ) { return N( x + y ); } ); break;
            case 11: case 12: bin2( "-", []( D x, D y ) { return D{ x.v - y.v, x.d - y.d }; }, []( Node x, Node y ) { return N( x - y ); } ); break;
            case 13: case 14: case 15: if ( !suffix() ) return false; bin2( "hadamard", []( D x, D y ) { return D{ x.v * y.v, x.d * y.v + y.d * x.v }; }, []( Node x, Node y ) { return N( hadamard_product( x, y ) ); } ); wrap( sfx ); break;
            case 16: if ( !suffix() ) return false; bin2( "/", []( D x, D y ) { fit( std::abs( y.v ) > 0.3 ); return D{ x.v / y.v, ( x.d - x.v / y.v * y.d ) / y.v }; }, []( Node x, Node y ) { return N( x / y ); } ); wrap( sfx ); break;
            case 17: if ( A.shape != B.shape ) return false; { bool mx = r.flip(); bin2( mx ? "maximum" : "minimum", [mx, same = a == b]( D x, D y ) { if ( same ) return x; fit( std::abs( x.v - y.v ) > 1e-3 ); return ( x.v > y.v ) == mx ? x : y; }, [mx]( Node x, Node y ) { return mx ? N( maximum( x, y ) ) : N( minimum( x, y ) ); } ); if ( a == b ) return false; wrap( []( Args const& x ) { fit( x[0]->shape == x[1]->shape ); } ); } break;
            case 18: if ( A.shape != B.shape ) return false; bin2( "atan2", []( D y, D x ) { double h = x.v * x.v + y.v * y.v; fit( h > 0.05 && !( x.v < 0 && std::abs( y.v ) < 1e-3 ) ); return D{ std::atan2( y.v, x.v ), ( x.v * y.d - y.v * x.d ) / h }; }, []( Node x, Node y ) { return N( atan2( x, y ) ); } ); wrap( []( Args const& x ) { fit( x[0]->shape == x[1]->shape ); } ); break;
            case 19: bin2( "hypot", []( D x, D y ) { double h = std::hypot( x.v, y.v ); fit( h > 0.1 ); return D{ h, ( x.v * x.d + y.v * y.d ) / h }; }, []( Node x, Node y ) { return N( hypot( x, y ) ); } ); break;
            case 20: case 21: { if ( nd != 2 ) return false; std::vector<int> c; for ( size_t i = 0; i < g.n.size(); ++i ) if ( vv[i].shape.size() == 2 && vv[i].shape[0] == A.shape[1] ) c.push_back( i ); if ( c.empty() ) return false; b = c[r.below( c.size() )]; q.args = { a, b }; q.name = "matmul";
                q.ref = []( Args const& x ) { DNd const &p = *x[0], &w = *x[1]; fit( p.shape.size() == 2 && w.shape.size() == 2 && p.shape[1] == w.shape[0] ); DNd y{ { p.shape[0], w.shape[1] }, std::vector<D>( p.shape[0] * w.shape[1] ) };
                    for ( size_t i = 0; i < p.shape[0]; ++i ) for ( size_t j = 0; j < w.shape[1]; ++j ) { D s{ 0, 0 }; for ( size_t k = 0; k < p.shape[1]; ++k ) { D u = p.v[i * p.shape[1] + k], z = w.v[k * w.shape[1] + j]; s.v += u.v * z.v; s.d += u.v * z.d + u.d * z.v; } y.v[i * w.shape[1] + j] = s; } return y; };
                q.mk = []( auto const& x ) { return N( x[0] * x[1] ); }; break; }
            case 22: { int w = r.below( 3 ); if ( w == 0 && nd >= 2 ) { q.name = "flatten"; q.ref = []( Args const& x ) { DNd y = *x[0]; fit( y.shape.size() >= 2 ); y.shape = { y.shape[0], y.size() / y.shape[0] }; return y; }; q.mk = []( auto const& x ) { return N( flatten( x[0] ) ); }; }
                else if ( w == 1 ) { Shape to( A.shape.rbegin(), A.shape.rend() ); if ( r.flip() ) to = { A.size() }; q.name = "reshape" + str( to ); q.ref = [to]( Args const& x ) { DNd y = *x[0]; fit( prod( to ) == y.size() ); y.shape = to; return y; }; q.mk = [to]( auto const& x ) { return N( reshape( to, false )( x[0] ) ); }; }
                else { if ( nd < 2 ) return false; Shape to( A.shape.rbegin(), A.shape.rend() - 1 ); q.name = "reshape-batch" + str( to ); q.ref = [to]( Args const& x ) { DNd y = *x[0]; fit( y.shape.size() >= 2 && prod( to ) * y.shape[0] == y.size() ); Shape s = to; s.insert( s.begin(), y.shape[0] ); y.shape = s; return y; }; q.mk = [to]( auto const& x ) { return N( reshape( to )( x[0] ) ); }; } break; }
            case 23: { size_t ax = r.below( nd ); q.name = sf( "flip%zu", ax ); q.ref = [ax]( Args const& x ) { fit( ax < x[0]->shape.size() ); return dtake( *x[0], x[0]->shape, [&]( Shape i ) { i[ax] = x[0]->shape[ax] - 1 - i[ax]; return i; } ); }; q.mk = [ax]( auto const& x ) { return N( flip( (int) ax )( x[0] ) ); }; break; }
            case 24: { if ( nd != 2 ) return false; q.name = "transpose"; q.ref = []( Args const& x ) { fit( x[0]->shape.size() == 2 ); return dtake( *x[0], { x[0]->shape[1], x[0]->shape[0] }, []( Shape i ) { return Shape{ i[1], i[0] }; } ); }; q.mk = []( auto const& x ) { return N( ceras::transpose( x[0] ) ); }; break; }
            case 25: { q.name = "softmax"; q.ref = []( Args const& x ) { DNd y = *x[0]; size_t n = y.shape.back(); for ( size_t o = 0; o < y.size(); o += n ) { double m = -1e300, s = 0, ds = 0; for ( size_t k = 0; k < n; ++k ) m = std::max( m, y.v[o + k].v ); for ( size_t k = 0; k < n; ++k ) { double e = std::exp( y.v[o + k].v - m ); s += e; ds += e * y.v[o + k].d; }
                    for ( size_t k = 0; k < n; ++k ) { double p = std::exp( y.v[o + k].v - m ) / s; y.v[o + k] = { p, p * ( y.v[o + k].d - ds / s ) }; } } return y; }; q.mk = []( auto const& x ) { return N( softmax( x[0] ) ); }; break; }
            case 26: { if ( r.flip() ) { if ( nd > 3 ) return false; int ax = r.range( 0, nd ); q.name = sf( "expand_dims%d", ax ); q.ref = [ax]( Args const& x ) { DNd y = *x[0]; fit( ax <= (int) y.shape.size() ); y.shape.insert( y.shape.begin() + ax, 1UL ); return y; }; q.mk = [ax]( auto const& x ) { return N( expand_dims( ax )( x[0] ) ); }; }
                else { size_t n = r.range( 2, 3 ), ax = r.below( nd ); if ( A.size() * n > 60 ) return false; q.name = sf( "repeat%zu@%zu", n, ax ); q.ref = [n, ax]( Args const& x ) { Shape s = x[0]->shape; fit( ax < s.size() ); s[ax] *= n; return dtake( *x[0], s, [&]( Shape i ) { i[ax] /= n; return i; } ); }; q.mk = [n, ax]( auto const& x ) { return N( repeat( n, ax )( x[0] ) ); }; } break; }
            case 27: { size_t ax = r.below( nd ); if ( nd < 2 ) return false; int w = r.below( 3 ); q.name = sf( "%s@%zu", w == 0 ? "reduce_sum" : w == 1 ? "reduce_max" : "reduce_min", ax );
                q.ref = [ax, w]( Args const& x ) { fit( x[0]->shape.size() >= 2 ); return dalong( *x[0], ax, false, [w]( auto const& e ) { if ( w == 0 ) { D s{ 0, 0 }; for ( auto z : e ) s.v += z.v, s.d += z.d; return s; } size_t m = 0; for ( size_t i = 1; i < e.size(); ++i ) if ( w == 1 ? e[i].v > e[m].v : e[i].v < e[m].v ) m = i; for ( size_t i = 0; i < e.size(); ++i ) fit( i == m || std::abs( e[i].v - e[m].v ) > 1e-3 ); return e[m]; } ); };
                q.mk = [ax, w]( auto const& x ) { return w == 0 ? N( reduce_sum( ax )( x[0] ) ) : w == 1 ? N( reduce_max( ax )( x[0] ) ) : N( reduce_min( ax )( x[0] ) ); }; break; }
            case 28: { size_t ax = r.below( nd ); std::vector<int> c; for ( size_t i = 0; i < g.n.size(); ++i ) if ( vv[i].shape.size() == nd ) { bool ok = true; for ( size_t d = 0; d < nd; ++d ) if ( d != ax && vv[i].shape[d] != A.shape[d] ) ok = false; if ( ok ) c.push_back( i ); } b = c[r.below( c.size() )]; q.args = { a, b }; q.name = sf( "concat@%zu", ax );
                q.ref = [ax]( Args const& x ) { Shape s = x[0]->shape; fit( ax < s.size() && s.size() == x[1]->shape.size() ); for ( size_t d = 0; d < s.size(); ++d ) fit( d == ax || s[d] == x[1]->shape[d] ); size_t na = s[ax]; s[ax] += x[1]->shape[ax]; DNd y{ s, std::vector<D>( prod( s ) ) }; for ( size_t k = 0; k < y.size(); ++k ) { Shape i = unrank( s, k ); if ( i[ax] < na ) y.v[k] = x[0]->at( i ); else { i[ax] -= na; y.v[k] = x[1]->at( i ); } } return y; };
                q.mk = [ax]( auto const& x ) { return N( concatenate( x[0], x[1] )( ax ) ); }; break; }
            case 29: { q.name = "sum_reduce"; q.ref = []( Args const& x ) { D s{ 0, 0 }; for ( auto z : x[0]->v ) s.v += z.v, s.d += z.d; return DNd{ { 1 }, { s } }; }; q.mk = []( auto const& x ) { return N( sum_reduce( x[0] ) ); }; break; }
        }
        Args av; q.paths = 0; for ( int k : q.args ) av.push_back( &vv[k] ), q.paths += g.n[k].paths; if ( q.paths > 200 ) return false;
        try { DNd y = q.ref( av ); if ( y.size() > 80 ) return false; for ( auto& e : y.v ) fit( std::abs( e.v ) < 30 ); } catch ( NoFit ) { return false; }
        auto mk = q.mk; if ( o.count ) { auto cnt = q.cnt; q.mk = mk; std::vector<Node> na; for ( int k : q.args ) na.push_back( g.n[k].ex );
            q.ex = N( ceras::make_unary_operator( [cnt]<ceras::Tensor Z>( Z const& t ) { ++*cnt; return t; }, []<ceras::Tensor Z>( Z const&, Z const&, Z const& gr ) { return gr; }, "probe" )( mk( na ) ) ); }
        else { q.cnt = nullptr; std::vector<Node> na; for ( int k : q.args ) na.push_back( g.n[k].ex ); q.ex = mk( na ); }
        g.desc += sf( "n%zu=%s(", g.n.size(), q.name.c_str() ); for ( size_t i = 0; i < q.args.size(); ++i ) g.desc += sf( i ? ",n%d" : "n%d", q.args[i] ); g.desc += ") "; g.n.push_back( q ); return true;
    }
    inline void draw_graph( Graph& g, Rng& r, GOpt const& o )
    {
        int nl = r.range( 1, 4 ); Shape base = rshape( r, 1, 3, 4, 18 );
        if ( o.batch && base.size() < 2 ) base.insert( base.begin(), r.range( 1, 4 ) );
        add_leaf( g, r, o.batch && r.flip( 0.7 ) ? 3 : 0, base );
        for ( int i = 1; i < nl; ++i )
        {
            int kind = r.pick( { 0, 0, 0, 1, 2, 3 } ); Shape s = base; int w = r.below( 5 );
            if ( o.batch && kind != 3 && w != 4 ) s.erase( s.begin() ); // parameters without the batch dimension broadcast
            if ( w == 1 ) s.erase( s.begin(), s.begin() + r.below( s.size() ) ); else if ( w == 2 ) for ( auto& d : s ) { if ( r.flip( 0.4 ) ) d = 1; } else if ( w == 3 && s.size() == 2 ) s = { s[1], (unsigned long) r.range( 1, 4 ) }; else if ( w == 4 && base.size() == 2 ) s = { base[1], base[1] };
            if ( s.empty() ) s = { 1 }; bool pos = r.flip( 0.2 ); add_leaf( g, r, kind, s, pos ? 0.4 : -1.5, pos ? 2 : 1.5 );
        }
        bool anyv = false; for ( auto& l : g.leaves ) if ( l.kind == 0 ) anyv = true; if ( !anyv ) { Shape s = base; if ( o.batch && s.size() > 1 ) s.erase( s.begin() ); add_leaf( g, r, 0, s ); }
        int made = 0; for ( int t = 0; t < 40 * o.nodes && made < o.nodes; ++t ) if ( add_op( g, r, o ) ) ++made;
        g.outs = { (int) g.n.size() - 1 }; if ( g.n.size() > 6 ) { int k = r.range( g.leaves.size(), g.n.size() - 2 ); g.outs.push_back( k ); }
    }
    // new leaf data on which the graph is still defined; empty when none found
    inline std::vector<Nd> redraw( Graph const& g, Rng& r, bool batch )
    {
        std::vector<Nd> best; unsigned long nb = r.range( 1, 5 ), ob = g.leaves[0].data.shape[0];
        for ( int t = 0; t < 12; ++t )
        {
            std::vector<Nd> xs; for ( auto& l : g.leaves ) { Shape s = l.data.shape; if ( l.kind == 3 && batch && s.size() == g.leaves[0].data.shape.size() && s[0] == ob ) s[0] = nb; xs.push_back( l.kind == 2 || ( r.flip( 0.3 ) && s == l.data.shape ) ? l.data : rnd( r, s, l.lo, l.hi ) ); }
            try { g.eval( xs ); return xs; } catch ( NoFit ) {}
        }
        return best;
    }
    inline void install( Graph& g, std::vector<Nd> const& xs, Rng& r )
    {
        for ( size_t i = 0; i < xs.size(); ++i )
        {
            auto& l = g.leaves[i]; if ( l.kind == 2 ) continue;
            if ( l.kind == 3 ) { if ( r.flip() ) l.ph->bind( tens<double>( xs[i] ) ); else { auto t = tens<double>( xs[i] ); sess<double>().rebind( *l.ph, t ); } }
            else if ( r.flip() && l.data.shape == xs[i].shape ) std::copy( xs[i].v.begin(), xs[i].v.end(), l.var->data().begin() ); else l.var->data() = tens<double>( xs[i] );
            l.data = xs[i];
        }
    }
    inline void leaves_intact( Ctx& c, Graph const& g, char const* when )
    {
        for ( auto& l : g.leaves ) { ++c.checks; if ( l.var ) { auto d = nd( l.var->data() ); if ( d.shape != l.data.shape || d.v != l.data.v ) c.fail( "leaf-modified", sf( "%s changed the data of a variable", when ) ); } if ( l.ph ) { auto d = nd( l.ph->forward() ); if ( d.shape != l.data.shape || d.v != l.data.v ) c.fail( "leaf-modified", sf( "%s changed the data bound to a placeholder", when ) ); } }
    }
    inline ceras::tensor<double> run_node( Node n ) { return sess<double>().run( n ); }
}
