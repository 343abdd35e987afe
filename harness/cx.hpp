// ceras-side helpers: reference nd-arrays, comparisons, snapshots, expression checking against a reference model.
#pragma once
#include "ceras.hpp"
#include "vp.hpp"
#include <any>
#include <numeric>

namespace vp
{
    using Shape = std::vector<unsigned long>;
    inline unsigned long prod( Shape const& s ) { unsigned long n = 1; for ( auto x : s ) n *= x; return n; }
    inline std::string str( Shape const& s ) { std::string o = "["; for ( size_t i = 0; i < s.size(); ++i ) o += sf( i ? ",%ld" : "%ld", (long) s[i] ); return o + "]"; }

    struct Nd // reference array, row-major
    {
        Shape shape; std::vector<double> v;
        Nd() {}
        Nd( Shape s, double x = 0 ) : shape{ s }, v( prod( s ), x ) {}
        Nd( Shape s, std::vector<double> d ) : shape{ s }, v{ d } {}
        size_t size() const { return v.size(); }
        double& operator[]( size_t i ) { return v[i]; }
        double operator[]( size_t i ) const { return v[i]; }
        size_t idx( Shape const& ix ) const { size_t k = 0; for ( size_t i = 0; i < shape.size(); ++i ) k = k * shape[i] + ix[i]; return k; }
        double& at( Shape const& ix ) { return v[idx( ix )]; }
        double at( Shape const& ix ) const { return v[idx( ix )]; }
        template< typename F > Nd map( F f ) const { Nd r{ shape }; for ( size_t i = 0; i < v.size(); ++i ) r.v[i] = f( v[i] ); return r; }
    };
    inline Shape unrank( Shape const& s, size_t k ) { Shape ix( s.size() ); for ( size_t i = s.size(); i-- > 0; ) { ix[i] = k % s[i]; k /= s[i]; } return ix; }
    // numpy broadcasting of two shapes (aligned at the trailing dimensions)
    inline Shape bshape( Shape a, Shape b )
    {
        size_t n = std::max( a.size(), b.size() ); a.insert( a.begin(), n - a.size(), 1 ); b.insert( b.begin(), n - b.size(), 1 ); Shape r( n );
        for ( size_t i = 0; i < n; ++i ) { if ( a[i] != b[i] && a[i] != 1 && b[i] != 1 ) throw std::logic_error( "bshape" ); r[i] = a[i] == 1 ? b[i] : a[i]; } return r;
    }
    template< typename F > Nd bin( Nd const& a, Nd const& b, F f )
    {
        Nd r{ bshape( a.shape, b.shape ) }; size_t n = r.shape.size();
        for ( size_t k = 0; k < r.size(); ++k )
        {
            Shape ix = unrank( r.shape, k ); auto get = [&]( Nd const& q ) { size_t o = n - q.shape.size(), j = 0; for ( size_t i = 0; i < q.shape.size(); ++i ) j = j * q.shape[i] + ( q.shape[i] == 1 ? 0 : ix[i + o] ); return q.v[j]; };
            r.v[k] = f( get( a ), get( b ) );
        }
        return r;
    }
    inline Nd matmul( Nd const& a, Nd const& b )
    {
        size_t m = a.shape[0], k = a.shape[1], n = b.shape[1]; Nd r{ Shape{ m, n } };
        for ( size_t i = 0; i < m; ++i ) for ( size_t j = 0; j < n; ++j ) { double s = 0; for ( size_t q = 0; q < k; ++q ) s += a.v[i * k + q] * b.v[q * n + j]; r.v[i * n + j] = s; }
        return r;
    }
    inline Nd transpose( Nd const& a ) { size_t m = a.shape[0], n = a.shape[1]; Nd r{ Shape{ n, m } }; for ( size_t i = 0; i < m; ++i ) for ( size_t j = 0; j < n; ++j ) r.v[j * m + i] = a.v[i * n + j]; return r; }
    inline Nd reshaped( Nd a, Shape s ) { a.shape = s; return a; }
    // reduce along one axis with f(vector of elements)
    template< typename F > Nd along( Nd const& a, size_t axis, bool keep, F f )
    {
        Shape s = a.shape; size_t n = s[axis], in = 1, out = 1; for ( size_t i = 0; i < axis; ++i ) out *= s[i]; for ( size_t i = axis + 1; i < s.size(); ++i ) in *= s[i];
        Shape rs = s; if ( keep ) rs[axis] = 1; else rs.erase( rs.begin() + axis );
        Nd r{ rs }; std::vector<double> e( n );
        for ( size_t o = 0; o < out; ++o ) for ( size_t i = 0; i < in; ++i ) { for ( size_t q = 0; q < n; ++q ) e[q] = a.v[( o * n + q ) * in + i]; r.v[o * in + i] = f( e ); }
        return r;
    }

    template< typename T > std::vector<T> raw( ceras::tensor<T> const& t ) { std::vector<T> r( t.size() ); for ( size_t i = 0; i < r.size(); ++i ) r[i] = t.data()[i]; return r; }
    template< typename T > Nd nd( ceras::tensor<T> const& t ) { Nd r; r.shape = t.shape(); r.v.resize( t.size() ); for ( size_t i = 0; i < r.v.size(); ++i ) r.v[i] = t.data()[i]; return r; }
    template< typename T > ceras::tensor<T> tens( Nd const& a ) { ceras::tensor<T> t{ a.shape }; for ( size_t i = 0; i < a.size(); ++i ) t.data()[i] = static_cast<T>( a.v[i] ); return t; }

    // widths around which blocked, unrolled, vectorised or fixed-buffer code changes its path
    inline unsigned long wide_dim( Rng& r, unsigned long top = 1100 ) { for ( ;; ) { unsigned long w = r.flip( 0.35 ) ? r.range( 17, 80 ) : r.pick( { 31UL, 32UL, 33UL, 63UL, 64UL, 65UL, 100UL, 127UL, 128UL, 129UL, 200UL, 255UL, 256UL, 257UL, 300UL, 511UL, 513UL, 1000UL, 1025UL } ); if ( w <= top ) return w; } }
    inline Shape rshape( Rng& r, size_t lo, size_t hi, unsigned long maxd = 6, unsigned long maxsz = 400 )
    {
        if ( maxsz >= 40 && r.flip( 0.05 ) ) for ( ;; ) { Shape s( r.range( lo, hi ) ); for ( auto& x : s ) x = r.flip( 0.5 ) ? 1 : r.range( 1, 3 ); s[r.below( s.size() )] = wide_dim( r ); if ( prod( s ) <= 1600 ) return s; }
        for ( ;; ) { Shape s( r.range( lo, hi ) ); for ( auto& x : s ) x = r.flip( 0.15 ) ? 1 : r.range( 1, maxd ); if ( prod( s ) <= maxsz ) return s; }
    }
    inline Nd rnd( Rng& r, Shape const& s, double lo = -2, double hi = 2 ) { Nd a{ s }; for ( auto& x : a.v ) x = r.real( lo, hi ); return a; }
    // random values whose magnitude stays away from each of the given kinks
    inline Nd rnd_off( Rng& r, Shape const& s, double lo, double hi, std::vector<double> const& kinks, double gap = 0.02 )
    {
        Nd a{ s }; for ( auto& x : a.v ) for ( ;; ) { x = r.real( lo, hi ); bool ok = true; for ( auto k : kinks ) if ( std::abs( x - k ) < gap ) ok = false; if ( ok ) break; } return a;
    }
    // all values pairwise apart (so that max/min are differentiable)
    inline Nd rnd_distinct( Rng& r, Shape const& s, double lo = -3, double hi = 3 )
    {
        Nd a{ s }; size_t n = a.size(); std::vector<size_t> p( n ); std::iota( p.begin(), p.end(), 0 ); for ( size_t i = n; i-- > 1; ) std::swap( p[i], p[r.below( i + 1 )] );
        for ( size_t i = 0; i < n; ++i ) a.v[i] = lo + ( hi - lo ) * ( p[i] + 0.5 + 0.3 * ( r.unit() - 0.5 ) ) / n; return a;
    }
    template< typename T > void quant( Nd& a ) { for ( auto& x : a.v ) x = static_cast<T>( x ); }

    // absolute error granted to float sums of k products of factors up to about two, whatever their order (an ordinary error is some fifteen times smaller); set per case
    inline double slack = 0; inline void float_terms( unsigned long k ) { slack = 8.0 * k * 6e-8; }
    inline bool close( double a, double b, double rtol, double atol )
    {
        if ( std::isnan( a ) || std::isnan( b ) ) return std::isnan( a ) && std::isnan( b );
        if ( std::isinf( a ) || std::isinf( b ) ) return a == b;
        return std::abs( a - b ) <= atol + slack + rtol * std::max( std::abs( a ), std::abs( b ) );
    }
    inline std::string brief( std::vector<double> const& v, size_t n = 8 ) { std::string o; for ( size_t i = 0; i < std::min( n, v.size() ); ++i ) o += sf( "%s%.9g", i ? "," : "", v[i] ); if ( v.size() > n ) o += ",.."; return o; }

    inline void same( Ctx& c, Nd const& got, Nd const& want, double rtol, double atol, std::string const& kind, std::string const& extra = "" )
    {
        ++c.checks;
        if ( got.shape != want.shape ) c.fail( kind + ":shape", extra + " shape " + str( got.shape ) + " expected " + str( want.shape ) );
        if ( got.size() != want.size() ) c.fail( kind + ":size", extra + sf( " size %zu expected %zu", got.size(), want.size() ) );
        for ( size_t i = 0; i < got.size(); ++i ) if ( !close( got.v[i], want.v[i], rtol, atol ) )
            c.fail( kind + ":value", extra + sf( " element %zu of %s is %.12g expected %.12g; got {%s} expected {%s}", i, str( got.shape ).c_str(), got.v[i], want.v[i], brief( got.v ).c_str(), brief( want.v ).c_str() ) );
        c.checks += got.size();
    }
    template< typename T > void same( Ctx& c, ceras::tensor<T> const& got, Nd const& want, double rtol, double atol, std::string const& kind, std::string const& extra = "" ) { same( c, nd( got ), want, rtol, atol, kind, extra ); }

    // remembers a tensor's contents; check() verifies that nothing changed since
    template< typename T > struct Snap
    {
        ceras::tensor<T> t; std::vector<unsigned long> shape; std::vector<T> v; std::string name;
        Snap( ceras::tensor<T> const& x, std::string n ) : t{ x }, shape{ x.shape() }, v{ raw( x ) }, name{ n } {}
        void check( Ctx& c, ceras::tensor<T> const& now ) const
        {
            ++c.checks;
            if ( now.shape() != shape ) c.fail( "operand-modified", name + " shape became " + str( now.shape() ) + " was " + str( shape ) );
            auto r = raw( now ); if ( r.size() != v.size() ) c.fail( "operand-modified", name + " size" );
            if ( !r.empty() && std::memcmp( r.data(), v.data(), r.size() * sizeof( T ) ) ) c.fail( "operand-modified", name + " contents changed" );
        }
        void check( Ctx& c ) const { check( c, t ); }
    };

    template< typename T > auto& sess() { return ceras::get_default_session<ceras::tensor<T>>(); }
    template< typename T > void wipe() { [&]( auto& s ) { if constexpr ( requires { s.forward_cache_.clear(); } ) s.forward_cache_.clear(); if constexpr ( requires { s.variables_.clear(); } ) s.variables_.clear(); if constexpr ( requires { s.place_holders_.clear(); } ) s.place_holders_.clear(); }( sess<T>() ); }
    inline void fresh( Ctx& c )
    {
        wipe<double>(); wipe<float>(); ceras::learning_phase = 1; slack = 0; ceras::random_generator.seed( static_cast<unsigned>( c.rng.s ) );
    }
    struct InstallFresh { InstallFresh() { before_case() = fresh; } }; inline InstallFresh install_fresh;

    template< typename T > using Var = ceras::variable<ceras::tensor<T>>;
    template< typename T > Var<T> var( Nd const& a ) { return Var<T>{ tens<T>( a ) }; }

    struct Opt { double rtol = 1e-9, atol = 1e-9; double grtol = 1e-5, gatol = 1e-6; bool grad = true; int rounds = 1; bool shape = false; double h = 1e-5; std::function<Nd( size_t, Nd const& )> redraw; std::function<std::vector<Nd>( std::vector<Nd> const&, Nd const& )> agrad; };

    using RefFn = std::function<Nd( std::vector<Nd> const& )>;
    // d/dx of <seed, ref(x)> by central differences on the reference model
    inline std::vector<Nd> numgrad( RefFn const& ref, std::vector<Nd> xs, Nd const& seed, double h0 = 1e-5 )
    {
        std::vector<Nd> g; 
        for ( auto const& x : xs ) g.push_back( Nd{ x.shape } );
        auto L = [&]( std::vector<Nd> const& q ) { Nd r = ref( q ); long double s = 0; for ( size_t i = 0; i < r.size(); ++i ) s += (long double) r.v[i] * seed.v[i]; return s; };
        for ( size_t a = 0; a < xs.size(); ++a ) for ( size_t i = 0; i < xs[a].size(); ++i )
        {
            double o = xs[a].v[i], h = h0 * std::max( 1.0, std::abs( o ) ); volatile double p = o + h, m = o - h;
            xs[a].v[i] = p; long double u = L( xs ); xs[a].v[i] = m; long double w = L( xs ); xs[a].v[i] = o; g[a].v[i] = (double) ( ( u - w ) / ( (long double) p - m ) );
        }
        return g;
    }

    // type-erased handle of an expression: keeps the checking code out of every expression type's instantiation
    template< typename T > struct Ex_
    {
        std::function<ceras::tensor<T>()> run; std::function<void( ceras::tensor<T> const& )> back; std::function<Shape()> shape;
    };
    template< typename T, typename E > Ex_<T> erase( E const& e )
    {
        auto p = std::make_shared<E>( e );
        return { [p]{ return sess<T>().run( *p ); }, [p]( ceras::tensor<T> const& g ) { p->backward( g ); }, [p]{ auto s = p->shape(); return Shape( s.begin(), s.end() ); } };
    }

    // Runs the expression in the default session, compares value and every variable's gradient with the reference.
    template< typename T >
    void check_ex( Ctx& c, std::vector<Var<T>> vars, Ex_<T> expr, RefFn const& ref, Opt const& o = {} )
    {
        for ( int round = 0; round < o.rounds; ++round )
        {
            std::vector<Nd> xs; for ( auto& v : vars ) xs.push_back( nd( v.data() ) );
            if ( round ) for ( size_t a = 0; a < xs.size(); ++a )
            {
                Nd n = o.redraw ? o.redraw( a, xs[a] ) : [&]{ Nd q = xs[a]; for ( size_t i = q.size(); i-- > 1; ) std::swap( q.v[i], q.v[c.rng.below( i + 1 )] ); return q; }();
                quant<T>( n ); xs[a] = n;
                if ( n.shape == nd( vars[a].data() ).shape ) for ( size_t i = 0; i < n.size(); ++i ) vars[a].data().data()[i] = static_cast<T>( n.v[i] );
                else vars[a].data() = tens<T>( n );
            }
            std::string ex = round ? sf( "round %d", round ) : "";
            Nd want = ref( xs );
            Shape predicted; if ( o.shape ) predicted = expr.shape();
            auto got = expr.run();
            c.count( "expression runs" );
            same( c, got, want, o.rtol, o.atol, "forward", ex );
            if ( o.shape ) c.require( predicted == want.shape, "predicted-shape", "predicted " + str( predicted ) + " actual " + str( want.shape ) );
            for ( size_t a = 0; a < vars.size(); ++a ) { ++c.checks; auto now = nd( vars[a].data() ); if ( now.shape != xs[a].shape || now.v != xs[a].v ) c.fail( "forward-modified-variable", sf( "variable %zu", a ) ); }
            if ( !o.grad ) continue;
            Nd seed = rnd( c.rng, want.shape, -1.5, 1.5 ); quant<T>( seed );
            auto g = tens<T>( seed ); Snap<T> sg{ g, "incoming gradient" };
            expr.back( g );
            c.count( "backward passes" );
            sg.check( c );
            size_t total = 0; for ( auto& q : xs ) total += q.size();
            if ( !o.agrad && total * want.size() > 40000 )
            {   // large: sampled elements plus one directional derivative over all elements of each operand
                auto L = [&]( std::vector<Nd> const& q ) { Nd r = ref( q ); long double s = 0; for ( size_t i = 0; i < r.size(); ++i ) s += (long double) r.v[i] * seed.v[i]; return s; };
                for ( size_t a = 0; a < vars.size(); ++a )
                {
                    Nd got = nd( vars[a].gradient() ); ++c.checks; if ( got.shape != xs[a].shape ) c.fail( "gradient:shape", ex + sf( " operand %zu ", a ) + str( got.shape ) );
                    for ( int k = 0; k < 10; ++k )
                    {
                        size_t i = k == 0 ? 0 : k == 1 ? xs[a].size() - 1 : c.rng.below( xs[a].size() ); double q = xs[a].v[i], h = o.h * std::max( 1.0, std::abs( q ) ); volatile double p = q + h, m = q - h;
                        auto y = xs; y[a].v[i] = p; long double u = L( y ); y[a].v[i] = m; double w = (double) ( ( u - L( y ) ) / ( (long double) p - m ) ); ++c.checks;
                        if ( !close( got.v[i], w, o.grtol, o.gatol ) ) c.fail( "gradient:value", ex + sf( " gradient of operand %zu element %zu of %s is %.12g expected %.12g", a, i, str( xs[a].shape ).c_str(), got.v[i], w ) );
                    }
                    std::vector<double> d( xs[a].size() ); auto y = xs, z = xs; long double dot = 0, mag = 0;
                    for ( size_t i = 0; i < d.size(); ++i ) { double h = ( c.rng.flip() ? 1 : -1 ) * o.h; volatile double p = xs[a].v[i] + h, m = xs[a].v[i] - h; y[a].v[i] = p; z[a].v[i] = m; dot += got.v[i] * ( (long double) p - m ); mag += std::abs( got.v[i] ); }
                    double w = (double) ( ( L( y ) - L( z ) ) / ( 2 * o.h ) ), g = (double) ( dot / ( 2 * o.h ) ); ++c.checks; c.count( "directional derivatives compared" );
                    if ( !( std::abs( g - w ) <= o.grtol * (double) mag + o.gatol * d.size() ) ) c.fail( "gradient:directional", ex + sf( " operand %zu %s directional derivative %.12g expected %.12g", a, str( xs[a].shape ).c_str(), g, w ) );
                    auto now = nd( vars[a].data() ); ++c.checks; if ( now.v != xs[a].v ) c.fail( "backward-modified-variable", sf( "variable %zu", a ) );
                }
                continue;
            }
            auto ng = o.agrad ? o.agrad( xs, seed ) : numgrad( ref, xs, seed, o.h );
            for ( size_t a = 0; a < vars.size(); ++a )
            {
                same( c, vars[a].gradient(), ng[a], o.grtol, o.gatol, sf( "gradient" ), ex + sf( " gradient of operand %zu", a ) );
                auto now = nd( vars[a].data() ); ++c.checks; if ( now.v != xs[a].v ) c.fail( "backward-modified-variable", sf( "variable %zu", a ) );
            }
            c.count( "gradient elements compared", [&]{ u64 n = 0; for ( auto& q : ng ) n += q.size(); return n; }() );
        }
    }
    template< typename T, typename E >
    void check_expr( Ctx& c, std::vector<Var<T>> const& vars, E expr, RefFn const& ref, Opt const& o = {} ) { check_ex<T>( c, vars, erase<T>( expr ), ref, o ); }
}
