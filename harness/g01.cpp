// G01: the exported graph, parsed back, against the structure recorded while the expression was built
#include "cx.hpp"
#include <ceras.hpp>
#include <fstream>
#include <filesystem>
#include <regex>
using namespace vp; using namespace ceras; using T = float; using V = Var<T>; using C = constant<tensor<T>>;
struct NodeInfo { std::string name; std::vector<unsigned long> shape; int trainable = -1; };
struct Rec { std::map<long, NodeInfo> nodes; std::multiset<std::pair<long, long>> edges; };
// an expression together with the record of what it is made of
template< typename E > struct W { E e; Rec r; };
static Rec merge( Rec a, Rec const& b ) // shared parts count once
{
    std::set<long> had; for ( auto& [i, n] : a.nodes ) had.insert( i ); for ( auto& [x, y] : b.edges ) if ( !had.count( y ) ) a.edges.insert( { x, y } ); for ( auto& n : b.nodes ) a.nodes.insert( n ); return a;
}
template< typename E > W<E> leaf( E e, std::string name, int trainable = -1 ) { Rec r; r.nodes[e.id()] = { name, e.shape(), trainable }; return { e, r }; }
template< typename F, typename E > auto un( F f, W<E> const& a, std::string name ) { auto e = f( a.e ); W<decltype( e )> w{ e, a.r }; w.r.nodes[e.id()] = { e.name(), e.shape(), -1 }; w.r.edges.insert( { a.e.id(), e.id() } ); return w; }
template< typename F, typename A, typename B > auto bi( F f, W<A> const& a, W<B> const& b, std::string name ) { auto e = f( a.e, b.e ); W<decltype( e )> w{ e, merge( a.r, b.r ) }; w.r.nodes[e.id()] = { e.name(), e.shape(), -1 }; w.r.edges.insert( { a.e.id(), e.id() } ); w.r.edges.insert( { b.e.id(), e.id() } ); return w; }
struct Dot { std::map<long, std::vector<std::string>> nodes; std::multiset<std::pair<long, long>> edges; };
static Dot parse( Ctx& c, std::string const& s, std::string const& log )
{
    Dot d; std::istringstream is( s ); std::string l; int state = 0; static std::regex const node( "n(-?[0-9]+) \\[(.*)\\] ;" ), edge( "n(-?[0-9]+) -> n(-?[0-9]+) ;" ), attrs( "([a-z]+=(\"[^\"]*\"|[a-z0-9.]+),)*label=\"[^\"]*\"" ); std::smatch m;
    while ( std::getline( is, l ) )
    {
        if ( l.empty() ) continue; if ( state == 0 ) { c.require( l == "digraph g {", "not-a-digraph", log + " :: " + l ); state = 1; continue; } if ( l == "}" ) { c.require( state == 1, "unbalanced-braces", log ); state = 2; continue; } c.require( state == 1, "text-after-the-graph", log + " :: " + l );
        if ( std::regex_match( l, m, edge ) ) { d.edges.insert( { std::stol( m[1] ), std::stol( m[2] ) } ); continue; } if ( std::regex_match( l, m, node ) ) { std::string a = m[2]; c.require( std::regex_match( a, attrs ), "malformed-attributes", log + " :: " + l ); d.nodes[std::stol( m[1] )].push_back( a ); continue; } c.fail( "malformed-statement", log + " :: " + l );
    }
    c.require( state == 2, "unbalanced-braces", log ); return d;
}
template< typename E > void verify( Ctx& c, W<E> const& w, std::string const& log )
{
    auto s = computation_graph( w.e ); auto d = parse( c, s, log ); std::string full = log + " :: " + s.substr( 0, 700 );
    for ( auto& [id, n] : w.r.nodes )
    {
        auto it = d.nodes.find( id ); c.require( it != d.nodes.end(), "node-missing", sf( "n%ld %s of ", id, n.name.c_str() ) + full ); for ( auto& a : it->second ) { c.require( a == it->second[0], "node-described-twice", sf( "n%ld of ", id ) + full ); } auto& a = it->second[0];
        c.require( a.find( sf( "[id:%ld]", id ) ) != std::string::npos, "wrong-id-in-label", a + full ); auto p = a.find( "label=\"" ) + 7; c.require( a.compare( p, n.name.size() + 1, n.name + " " ) == 0, "wrong-name", n.name + " in " + a + full );
        std::vector<long> got; auto q = a.find( "<shape:" ), z = a.find( '>', q ); std::string in = a.substr( q + 7, z - q - 7 ); std::string num; for ( char ch : in + " " ) if ( isdigit( ch ) || ch == '-' ) num += ch; else if ( !num.empty() ) { got.push_back( (long) std::stoull( num[0] == '-' ? "18446744073709551615" : num ) ); num.clear(); } std::vector<long> want( n.shape.begin(), n.shape.end() ); c.require( got == want, "wrong-shape", a + " of " + full );
        if ( n.trainable == 1 ) c.require( a.find( ", trainable" ) != std::string::npos && a.find( "non-trainable" ) == std::string::npos, "wrong-trainable-state", a + full ); if ( n.trainable == 0 ) c.require( a.find( "non-trainable" ) != std::string::npos, "wrong-trainable-state", a + full );
    }
    for ( auto& [id, a] : d.nodes ) c.require( w.r.nodes.count( id ), "extra-node", sf( "n%ld of ", id ) + full );
    for ( auto& e : w.r.edges ) { size_t k = d.edges.count( e ), want = w.r.edges.count( e ); c.require( k >= want, "edge-missing", sf( "n%ld -> n%ld of ", e.first, e.second ) + full ); c.require( k == want, "edge-drawn-several-times", sf( "n%ld -> n%ld %zu times instead of %zu of ", e.first, e.second, k, want ) + full ); }
    for ( auto& e : d.edges ) c.require( w.r.edges.count( e ), "extra-edge", sf( "n%ld -> n%ld of ", e.first, e.second ) + full );
    c.count( "nodes", w.r.nodes.size() ); c.count( "edges", w.r.edges.size() ); c.require( computation_graph( w.e ) == s, "second-export-differs", full );
}
static V mk( Rng& r, Shape const& s ) { return V{ tens<T>( rnd( r, s ) ) }; }
static W<V> var( Rng& r, Shape const& s ) { auto v = mk( r, s ); int t = r.flip( 0.75 ); v.trainable( t ); return leaf( v, "Variable", t ); }
// unary steps over one static type each
#define U( F, NAME ) un( []( auto const& e ) { return F; }, X, NAME )
template< typename E > void tail( Ctx& c, W<E> const& X, std::string log )
{
    auto& r = c.rng; switch ( r.below( 7 ) )
    {
        case 0: verify( c, X, log ); break;
        case 1: verify( c, U( relu( e ), "relu" ), log + " relu" ); break;
        case 2: verify( c, bi( []( auto const& a, auto const& b ) { return a + b; }, X, X, "plus" ), log + " self+self" ); break;
        case 3: { auto w = bi( []( auto const& a, auto const& b ) { return elementwise_product( a, b ); }, X, X, "elementwise_product" ); verify( c, bi( []( auto const& a, auto const& b ) { return a + b; }, w, w, "plus" ), log + " x*x+x*x" ); break; }
        case 4: { auto w = U( exponential( e ), "exponential" ); verify( c, bi( []( auto const& a, auto const& b ) { return a + b; }, X, w, "plus" ), log + " x+exp x" ); break; }
        case 5: { auto w = U( softmax( e ), "softmax" ); verify( c, bi( []( auto const& a, auto const& b ) { return a + b; }, w, X, "plus" ), log + " softmax x+x" ); break; }
        default: { auto a = U( relu( e ), "relu" ); auto b = un( []( auto const& e ) { return sigmoid( e ); }, X, sigmoid( X.e ).name() ); auto p = bi( []( auto const& a, auto const& b ) { return a + b; }, a, b, "plus" ); auto q = bi( []( auto const& a, auto const& b ) { return elementwise_product( a, b ); }, p, a, "elementwise_product" ); verify( c, bi( []( auto const& a, auto const& b ) { return a + b; }, q, p, "plus" ), log + " diamond of diamonds" ); }
    }
}
SCEN( "random-expressions", 200, 6000 )
{
    auto& r = c.rng; size_t n = r.range( 1, 5 ), m = r.range( 1, 5 ); if ( r.flip( 0.06 ) ) ( r.flip() ? n : m ) = r.pick( { 127ul, 128ul, 255ul, 256ul, 1000ul, 32768ul, 40000ul, 65536ul, 100003ul } ); auto v = var( r, { n, m } ), w = var( r, { n, m } ); auto k = leaf( C{ tens<T>( rnd( r, { n, m } ) ) }, "Constant" ); std::string log = sf( "[%zu,%zu] ", n, m ); auto before = raw( v.e.data() ); auto grad = raw( std::as_const( v.e ).gradient() ); int t = r.below( 8 );
    switch ( t )
    {
        case 0: tail( c, v, log + "variable" ); break; case 1: tail( c, k, log + "constant" ); break;
        case 2: tail( c, bi( []( auto const& a, auto const& b ) { return a + b; }, v, w, "plus" ), log + "v+w" ); break; case 3: tail( c, bi( []( auto const& a, auto const& b ) { return a + b; }, v, k, "plus" ), log + "v+k" ); break;
        case 4: { auto u = leaf( mk( r, { m, n } ), "Variable", 1 ); auto p = bi( []( auto const& a, auto const& b ) { return a * b; }, v, u, "multiply" ); tail( c, p, log + "v*u" ); break; }
        case 5: { auto X = v; tail( c, U( transpose( e ), "transpose" ), log + "transpose" ); break; } case 6: { auto X = v; auto y = U( e + 2.5f, "arithmetic_plus" ); tail( c, y, log + "v+2.5" ); break; }
        default: { auto X = v; auto y = U( reduce_sum( 0 )( e ), "reduce_sum" ); verify( c, y, log + "reduce_sum" ); }
    }
    c.require( before == raw( v.e.data() ) && grad == raw( std::as_const( v.e ).gradient() ), "export-changed-a-variable", log ); c.describe( log + sf( "%d", t ) );
}
SCEN( "networks-and-summary", 30, 800 )
{
    auto& r = c.rng; wipe<T>(); size_t f = r.range( 1, 9 ), h = r.range( 1, 7 ); c.describe( sf( "%zu-%zu", f, h ) ); auto in = leaf( Input( { f } ), "PlaceHolder" ); auto hidden = []( size_t k, auto const& x ) { auto w = leaf( V{ random<T>( { x.e.shape().back(), k } ) }, "Variable", 1 ); auto b = leaf( V{ zeros<T>( { 1, k } ) }, "Variable", 1 ); return bi( []( auto const& a, auto const& b ) { return a + b; }, bi( []( auto const& a, auto const& b ) { return a * b; }, x, w, "multiply" ), b, "plus" ); };
    auto X = hidden( h, in ); auto y = hidden( 3, U( relu( e ), "relu" ) ); bool bound = r.flip(); auto m = model{ in.e, y.e }; if ( bound ) { auto out = m.predict( tens<T>( rnd( r, { 4, f } ) ) ); (void) out; } auto y2 = y; for ( auto& [id, n] : y2.r.nodes ) if ( id == in.e.id() ) n.shape = in.e.shape(); if ( !bound ) verify( c, y2, "network" ); else parse( c, computation_graph( y.e ), "network" );
    auto p = tmp_dir() + sf( "/g01-%d.dot", getpid() ); m.summary( p ); c.require( read_file( p ) == computation_graph( y.e ), "summary-file-differs", read_file( p ).substr( 0, 300 ) ); std::filesystem::remove( p );
    std::ostringstream os; auto* old = std::cout.rdbuf( os.rdbuf() ); m.summary(); std::cout.rdbuf( old ); c.require( os.str().find( computation_graph( y.e ) ) == 0, "printed-summary-differs", os.str().substr( 0, 300 ) );
}
SCEN( "layers", 30, 800 )
{ // layers build their own variables: the exported leaves must be those of the session
    auto& r = c.rng; wipe<T>(); size_t f = r.range( 1, 9 ), h = r.range( 1, 7 ); c.describe( sf( "%zu-%zu", f, h ) ); auto in = Input( { f } ); auto y = Dense( 3, "softmax" )( Dropout( 0.3f )( LeakyReLU( 0.2f )( Dense( h, "relu", r.flip() )( in ) ) ) ); auto d = parse( c, computation_graph( y ), "layers" ); std::set<long> vars; for ( auto& [id, v] : sess<T>().variables_ ) vars.insert( id ); size_t leaves = 0; for ( auto& [id, a] : d.nodes ) { bool source = true; for ( auto& e : d.edges ) source = source && e.second != id; size_t in_edges = 0; for ( auto& e : d.edges ) in_edges += e.second == id; c.require( in_edges <= 2, "too-many-operands", sf( "n%ld", id ) ); bool isvar = a[0].find( "label=\"Variable" ) != std::string::npos; if ( isvar ) { c.require( vars.count( id ), "variable-not-in-the-session", a[0] ); ++leaves; bool t = sess<T>().variables_.at( id ).trainable(); c.require( t == ( a[0].find( "non-trainable" ) == std::string::npos ), "wrong-trainable-state", a[0] ); } c.require( !source || isvar || id == in.id(), "dangling-operator", a[0] ); }
    c.require( leaves == vars.size(), "variables-missing", sf( "%zu of %zu", leaves, vars.size() ) ); size_t sinks = 0; for ( auto& [id, a] : d.nodes ) { bool sink = true; for ( auto& e : d.edges ) sink = sink && e.first != id; sinks += sink; } c.require( sinks == 1, "several-outputs", sf( "%zu", sinks ) ); c.count( "nodes", d.nodes.size() );
}
SCEN( "deep-sharing", 4, 20 )
{
    auto X = var( c.rng, { 2 } ); auto plus = []( auto const& a, auto const& b ) { return a + b; }; auto a = bi( plus, X, X, "plus" ); auto b = bi( plus, a, a, "plus" ); auto d = bi( plus, b, b, "plus" ); auto e = bi( plus, d, d, "plus" ); auto f = bi( plus, e, e, "plus" ); c.describe( "h=h+h five times" ); verify( c, f, "h=h+h five times" );
}
// the dump to C++ code: every operand is defined before it is used, tensors saved with it load back bit for bit
template< typename E > void dumped( Ctx& c, E const& e, V const& v, std::string const& log )
{
    auto const& [name, code] = serialize( e ); std::set<std::string> defined; static std::regex const def( "auto ([a-z_A-Z0-9]+) = .*;" ), decl( "ceras::[a-z_]+<.*> ([a-z_]+_[0-9]+)[ (;].*" ), use( "(unary_expression|binary_expression|variable|constant|place_holder|value|tensor)_[A-Za-z_0-9]*[0-9]+" ); std::smatch m; c.checks += code.size();
    for ( auto l : code ) { while ( !l.empty() && l.back() == '\n' ) l.pop_back(); std::string own; if ( std::regex_match( l, m, def ) ) own = m[1]; else if ( std::regex_match( l, m, decl ) ) own = m[1]; for ( auto i = std::sregex_iterator( l.begin(), l.end(), use ); i != std::sregex_iterator(); ++i ) { std::string u = i->str(); if ( u == own ) continue; c.require( defined.count( u ), "used-before-definition", u + " in '" + l + "' of " + log ); } if ( !own.empty() ) defined.insert( own ); }
    c.require( defined.count( name ), "result-not-defined", name + " of " + log ); std::string var = sf( "variable_%d", v.id() ); c.require( defined.count( var ), "variable-not-dumped", var ); auto t = v.data(); auto back = load_tensor<T>( sf( "tensor_%d.txt", t.id() ) ); c.require( raw( back ) == raw( t ) && back.shape() == t.shape(), "dumped-data-differs", log );
}
SCEN( "dump-to-code", 24, 400 )
{
    namespace fs = std::filesystem; auto d = tmp_dir() + sf( "/g01d-%d", getpid() ); fs::create_directories( d ); fs::current_path( d ); auto& r = c.rng; auto v = mk( r, { 3, 4 } ); auto k = C{ tens<T>( rnd( r, { 3, 4 } ) ) }; int w = r.below( 6 ); c.describe( sf( "%d", w ) ); auto before = raw( v.data() );
    switch ( w ) { case 0: dumped( c, v, v, "variable" ); break; case 1: dumped( c, relu( v + k ), v, "relu(v+k)" ); break; case 2: dumped( c, concatenate( 1 )( softmax( v ), k ), v, "concatenate" ); break; case 3: dumped( c, reshape( { 12 } )( v ) + 2.5, v, "reshape" ); break; case 4: dumped( c, elementwise_product( v, value<T>{ 2.f } ) - k, v, "product" ); break; default: dumped( c, mean_reduce( square( v ) ), v, "mean of squares" ); }
    c.require( raw( v.data() ) == before, "dump-changed-a-variable", "" ); fs::current_path( tmp_dir() ); fs::remove_all( d );
}
