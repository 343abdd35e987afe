// S03: handles share state, identifiers are unique, bindings take effect
#include "cx.hpp"
using namespace vp; using namespace ceras;
using T = float; using TT = ceras::tensor<T>; using V = Var<T>; using P = ceras::place_holder<TT>;
struct VM { Nd data, grad; bool trainable; T l1, l2; size_t contexts; };
SCEN( "variable-handles", 200, 10000 )
{
    auto& r = c.rng; wipe<T>(); std::vector<VM> m; struct H { V v; size_t s; }; std::vector<H> h; std::string log; learning_phase = 0; std::set<int> ids;
    auto draw = [&]( Shape const& s ) { Nd a = rnd( r, s ); quant<T>( a ); return a; };
    auto fresh = [&]{ Nd d = draw( rshape( r, 1, 3, 4, 40 ) ); bool t = r.flip( 0.8 ); T l1 = r.flip( 0.3 ) ? 0.25f : 0.f, l2 = r.flip( 0.3 ) ? 0.5f : 0.f; H x{ V{ tens<T>( d ), l1, l2, t }, m.size() }; c.require( ids.insert( x.v.id() ).second, "id-reused", sf( "%d", x.v.id() ) ); m.push_back( { d, Nd{ d.shape }, t, l1, l2, 0 } ); h.push_back( x ); log += " new"; };
    auto put = [&]( TT& t, Nd const& d ) { std::copy( d.v.begin(), d.v.end(), t.data() ); };
    fresh(); fresh();
    for ( int step = r.range( 5, 50 ); step--; )
    {
        if ( log.size() > 500 ) log = ".." + log.substr( 250 ); size_t k = r.below( h.size() ); auto& x = h[k]; auto& s = m[x.s];
        switch ( r.below( 16 ) )
        {
            case 0: if ( m.size() < 6 ) fresh(); break;
            case 1: h.push_back( { x.v, x.s } ); log += " copy"; break;
            case 2: { size_t q = r.below( h.size() ); h[q].v = x.v; h[q].s = x.s; log += " assign"; break; }
            case 3: { V t = x.v; V u = std::move( t ); h.push_back( { u, x.s } ); log += " move"; break; }
            case 4: s.data = draw( s.data.shape ); put( x.v.data(), s.data ); log += " write data"; break;
            case 5: { Nd d = draw( s.data.shape ); x.v.data() = tens<T>( d ); s.data = d; log += " replace data"; break; }
            case 6: s.grad = draw( s.data.shape ); if ( std::as_const( x.v ).gradient().shape() != s.data.shape ) x.v.gradient() = tens<T>( s.grad ); else put( x.v.gradient(), s.grad ); log += " write gradient"; break;
            case 7: s.trainable = r.flip(); x.v.trainable( s.trainable ); log += " trainable"; break;
            case 8: s.trainable = r.flip(); x.v.trainable() = s.trainable; log += " trainable"; break;
            case 9: s.l1 = r.pick( { 0.f, 0.125f, 1.f } ); x.v.l1_regularizer() = s.l1; log += " l1"; break;
            case 10: s.l2 = r.pick( { 0.f, 0.125f, 1.f } ); x.v.l2_regularizer() = s.l2; log += " l2"; break;
            case 11: x.v.contexts().push_back( tens<T>( draw( s.data.shape ) ) ); ++s.contexts; log += " context"; break;
            case 12: { auto e = -x.v; Nd y = nd( sess<T>().run( e ) ); same( c, y, s.data.map( []( double q ) { return -q; } ), 0, 0, "expression-sees-other-data", log ); log += " run"; break; }
            case 13: { Nd g = draw( s.data.shape ); x.v.backward( tens<T>( g ) ); if ( s.trainable ) { for ( size_t i = 0; i < g.size(); ++i ) s.grad.v[i] = (T) s.grad.v[i] + (T) g.v[i]; /* the first backward after a learning run also adds the regularizers: not here, phase 0 and marked as done by construction */ } log += " backward"; break; }
            case 14: if ( h.size() > 2 ) { size_t s0 = x.s; bool other = std::any_of( h.begin(), h.end(), [&]( H const& q ) { return &q != &x && q.s == s0; } ); if ( other ) { h.erase( h.begin() + k ); log += " drop"; } } break;
            default: { x.v.reset(); s.data = Nd{ s.data.shape }; s.grad = Nd{ s.data.shape }; log += " reset"; }
        }
        for ( auto& y : h )
        {
            auto& z = m[y.s]; V const& v = y.v; same( c, nd( v.data() ), z.data, 0, 0, "data", log ); if ( v.gradient().shape() == z.data.shape ) same( c, nd( v.gradient() ), z.grad, 1e-6, 1e-6, "gradient", log );
            c.require( v.trainable() == z.trainable, "trainable", log ); c.require( v.l1_regularizer() == z.l1 && v.l2_regularizer() == z.l2, "regularizer", log ); c.require( v.contexts().size() == z.contexts, "contexts", log ); c.require( v.shape() == z.data.shape, "shape", log );
            for ( auto& w : h ) { c.require( ( v.id() == w.v.id() ) == ( y.s == w.s ), "id-of-handles", log ); c.require( ( v == w.v ) == ( y.s == w.s ), "equality-of-handles", log ); }
        }
    }
    c.describe( sf( "%zu states %zu handles:", m.size(), h.size() ) + log.substr( 0, 200 ) ); c.count( "handles compared", h.size() );
}
SCEN( "placeholder-handles", 200, 10000 )
{
    auto& r = c.rng; wipe<T>(); struct M { bool bound; Nd d; }; struct H { P p; size_t s; }; std::vector<M> m; std::vector<H> h; std::string log; auto& s = sess<T>();
    auto fresh = [&]{ h.push_back( { P{}, m.size() } ); m.push_back( { false, {} } ); log += " new"; }; fresh(); fresh(); std::vector<std::pair<TT, Nd>> given; // every tensor ever bound stays what its owner made it
    for ( int step = r.range( 5, 50 ); step--; )
    {
        if ( log.size() > 500 ) log = ".." + log.substr( 250 ); size_t k = r.below( h.size() ); auto& x = h[k]; auto& z = m[x.s]; Nd d = rnd( r, z.bound && r.flip( 0.6 ) ? z.d.shape : rshape( r, 1, 3, 5, 40 ) ); quant<T>( d ); auto give = [&]{ given.emplace_back( tens<T>( d ), d ); return given.back().first; };
        switch ( r.below( 9 ) )
        {
            case 0: if ( m.size() < 6 ) fresh(); break;
            case 1: { H t{ x.p, x.s }; h.push_back( t ); log += " copy"; break; }
            case 2: { size_t q = r.below( h.size() ); h[q].p = x.p; h[q].s = x.s; log += " assign"; break; }
            case 3: x.p.bind( give() ); z = { true, d }; log += " bind"; break;
            case 4: s.bind( x.p, give() ); z = { true, d }; log += " session.bind"; break;
            case 5: s.rebind( x.p, give() ); z = { true, d }; log += " rebind"; break;
            case 6: x.p.reset(); z = { false, {} }; log += " reset"; break;
            case 7: { auto e = -x.p; if ( z.bound ) same( c, nd( s.run( e ) ), z.d.map( []( double q ) { return -q; } ), 0, 0, "expression-sees-other-binding", log ); else if ( r.flip( 0.3 ) ) { auto q = isolated( [&]{ s.run( e ); } ); c.require( q.kind == "abort:assertion" || q.kind == "exception", "unbound-placeholder-not-reported", log + q.kind ); c.count( "unbound placeholders reported" ); } break; }
            default: ceras::bind( x.p, give() ); z = { true, d }; log += " bind()";
        }
        for ( auto& [t, w] : given ) same( c, t, w, 0, 0, "bound-tensor-modified", log );
        for ( auto& y : h ) { auto& q = m[y.s]; if ( q.bound ) { same( c, nd( y.p.forward() ), q.d, 0, 0, "binding", log ); c.require( y.p.shape() == q.d.shape, "bound-shape", log ); } for ( auto& w : h ) { bool e = y.s == w.s; c.require( ( y.p == w.p ) == e && ( y.p != w.p ) == !e && ( y.p.id() == w.p.id() ) == e, "equality-of-handles", log ); } }
        for ( auto& a : h ) { c.require( !( a.p < a.p ) && !( a.p > a.p ) && a.p <= a.p && a.p >= a.p, "order-irreflexive" ); for ( auto& b : h ) { int n = ( a.p < b.p ) + ( b.p < a.p ) + ( a.p == b.p ); c.require( n == 1 && ( a.p < b.p ) == ( b.p > a.p ) && ( a.p <= b.p ) == !( b.p < a.p ) && ( a.p >= b.p ) == !( a.p < b.p ), "order-total" ); for ( auto& d : h ) c.require( !( a.p < b.p && b.p < d.p ) || a.p < d.p, "order-transitive" ); } if ( h.size() > 12 ) break; }
    }
    c.describe( sf( "%zu states %zu handles:", m.size(), h.size() ) + log.substr( 0, 200 ) ); c.count( "handles compared", h.size() );
}
// identifiers of everything that is created, in any order, are pairwise distinct; copies keep theirs
SCEN( "identifiers", 60, 2000 )
{
    auto& r = c.rng; wipe<T>(); std::map<int, std::string> seen; auto put = [&]( auto const& x, char const* what ) { auto y = x; c.require( y.id() == x.id(), "copy-changes-id", what ); auto [it, ok] = seen.emplace( x.id(), what ); c.require( ok, "id-shared", sf( "%d is a %s and a ", x.id(), what ) + it->second ); };
    int n = r.range( 1, 60 ); TT t{ Shape{ 2, 2 }, 1.f }; P p; put( p, "placeholder" ); V v{ t.deep_copy() }; put( v, "variable" ); auto f = reduce_sum( 0 ); auto fl = reshape( { 4 } );
    for ( int i = 0; i < n; ++i ) switch ( r.below( 12 ) ) { case 0: put( V{ t.deep_copy() }, "variable" ); break; case 1: put( P{}, "placeholder" ); break; case 2: put( ceras::constant<TT>{ t }, "constant" ); break; case 3: put( ceras::value<T>{ 2.f }, "value" ); break; case 4: put( v + p, "plus" ); break; case 5: put( v * v, "multiply" ); break; case 6: put( f( v ), "reduce_sum" ); break; case 7: put( f( p ), "reduce_sum" ); break; case 8: put( fl( v ), "reshape" ); break; case 9: put( relu( v ), "relu" ); break; case 10: put( -p, "negative" ); break; default: put( P{ { 3ul } }, "placeholder" ); }
    c.describe( sf( "%d objects", n ) ); c.count( "identifiers compared", seen.size() );
}
// identifiers stay distinct over long lifetimes: more objects than fit 16 bits, the early ones still alive
SCEN( "identifiers-over-a-long-run", 2, 8 )
{
    auto& r = c.rng; wipe<T>(); std::unordered_set<int> seen; TT t{ Shape{ 1 }, 1.f }; V v{ t.deep_copy() }; P p; seen.insert( v.id() ); seen.insert( p.id() ); size_t n = 70000 + r.below( 9000 ) + ( c.kase % 2 ) * 70000; std::vector<P> kept; c.describe( sf( "%zu objects", n ) );
    for ( size_t i = 0; i < n; ++i ) { int id; switch ( i % 1000 ) { case 0: { V w{ t }; id = w.id(); break; } case 1: { auto e = relu( v ); id = e.id(); break; } case 2: { ceras::constant<TT> k{ t }; id = k.id(); break; } case 3: { ceras::value<T> k{ 1.f }; id = k.id(); break; } default: { P q; id = q.id(); if ( i % 5000 == 7 ) kept.push_back( q ); } } c.require( seen.insert( id ).second, "id-shared", sf( "object %zu has the identifier %d of an earlier one", i, id ) ); }
    for ( size_t i = 1; i < kept.size(); ++i ) c.require( ( kept[i - 1] < kept[i] ) != ( kept[i] < kept[i - 1] ), "order-of-handles" ); c.count( "identifiers compared", n ); wipe<T>();
}
// distinct objects never influence each other
SCEN( "independence", 80, 3000 )
{
    auto& r = c.rng; wipe<T>(); size_t n = r.range( 2, 6 ); Shape s = rshape( r, 1, 3, 4, 30 ); std::vector<V> v; std::vector<Nd> d; for ( size_t i = 0; i < n; ++i ) { d.push_back( rnd( r, s ) ); quant<T>( d.back() ); v.emplace_back( tens<T>( d.back() ) ); } learning_phase = 1; c.describe( str( s ) + sf( " %zu variables", n ) );
    for ( int q = 0; q < 8; ++q ) { size_t k = r.below( n ); auto e = square( v[k] ); sess<T>().run( e ); e.backward( ones<T>( s ) ); for ( size_t i = 0; i < n; ++i ) { same( c, nd( std::as_const( v[i] ).data() ), d[i], 0, 0, "data-of-other-variable" ); if ( i == k ) same( c, nd( std::as_const( v[i] ).gradient() ), d[i].map( []( double x ) { return 2 * x; } ), 1e-6, 1e-6, "own-gradient" ); } std::vector<Nd> g; for ( auto& x : v ) g.push_back( nd( std::as_const( x ).gradient() ) ); size_t j = r.below( n ); d[j] = rnd( r, s ); quant<T>( d[j] ); std::copy( d[j].v.begin(), d[j].v.end(), v[j].data().data() ); for ( size_t i = 0; i < n; ++i ) same( c, nd( std::as_const( v[i] ).gradient() ), g[i], 0, 0, "gradient-changed" ); } learning_phase = 1;
}
