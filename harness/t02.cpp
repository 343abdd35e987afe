// T02: shape / size / row-major order over operation sequences, views
#include "cx.hpp"
using namespace vp; using ceras::tensor;

template< typename T > void order( Ctx& c, tensor<T> const& t, Shape const& s, std::vector<T> const& want, char const* at )
{
    ++c.checks; size_t n = prod( s );
    if ( t.shape() != s ) c.fail( "shape", std::string( at ) + " shape " + str( t.shape() ) + " expected " + str( s ) );
    if ( t.size() != n || ceras::size( t ) != n ) c.fail( "size", sf( "%s size %lu expected %zu", at, t.size(), n ) );
    if ( t.ndim() != s.size() || ceras::ndim( t ) != s.size() || ceras::shape( t ) != s ) c.fail( "ndim", at );
    if ( t.empty() != ( n == 0 ) || ceras::empty( t ) != ( n == 0 ) ) c.fail( "empty", at );
    std::vector<T> f( t.begin(), t.end() ), g( t.cbegin(), t.cend() ), r( t.rbegin(), t.rend() ), rc( t.crbegin(), t.crend() ), f2( ceras::begin( t ), ceras::end( t ) );
    tensor<T> m = t; std::vector<T> fm( m.begin(), m.end() ), rm( m.rbegin(), m.rend() ), ix; for ( size_t i = 0; i < n; ++i ) ix.push_back( t[i] );
    std::vector<T> rw = want; std::reverse( rw.begin(), rw.end() );
    if ( f != want || g != want || f2 != want || fm != want || ix != want ) c.fail( "order", std::string( at ) + " forward iteration" );
    if ( r != rw || rc != rw || rm != rw ) c.fail( "order", std::string( at ) + " reverse iteration" );
    if ( n ) for ( size_t i = 0; i < n; ++i ) if ( t.data()[i] != want[i] || *( t.begin() + i ) != want[i] || t.cbegin()[i] != want[i] ) c.fail( "order", std::string( at ) + " data()" );
}
template< typename T > std::vector<T> seq( Rng& r, size_t n ) { std::vector<T> v( n ); for ( auto& x : v ) x = static_cast<T>( r.range( -100000, 100000 ) / 7.0 ); return v; }

template< typename T > void sequence( Ctx& c )
{
    Rng& r = c.rng; Shape s = rshape( r, 1, 5, 6, 300 ); auto v = seq<T>( r, prod( s ) );
    tensor<T> t{ s }; order( c, t, s, std::vector<T>( prod( s ), T{} ), "zero construction" );
    for ( size_t i = 0; i < v.size(); ++i ) t[i] = v[i];
    int n = r.range( 5, 20 ); std::string log = str( s );
    for ( int i = 0; i < n; ++i )
    {
        int op = r.below( 9 );
        if ( op == 0 ) { Shape q; unsigned long left = prod( s ); for ( int k = 0; k < 4 && left > 1; ++k ) { unsigned long d = r.range( 1, 6 ); if ( left % d == 0 ) { q.push_back( d ); left /= d; } } q.push_back( left ); Shape asked = q; if ( r.flip() ) asked.back() = -1UL; auto& ret = t.reshape( asked ); s = q; c.require( &ret == &t, "returns-self" ); log += " reshape" + str( asked ); }
        else if ( op == 1 ) { Shape q = rshape( r, 1, 4, 6, 300 ); size_t old = v.size(); t.resize( q ); s = q; v.resize( prod( q ) ); /* a different element count gives fresh storage */ if ( old != v.size() ) { for ( size_t k = 0; k < v.size(); ++k ) { t[k] = static_cast<T>( k % 91 ); v[k] = static_cast<T>( k % 91 ); } } log += " resize" + str( q ); }
        else if ( op == 2 ) { tensor<T> u{ rshape( r, 1, 3 ) }; u.deep_copy( t ); t = u; log += " deep_copy_from"; }
        else if ( op == 3 ) { tensor<T> u{ t }; t = std::move( u ); log += " move"; }
        else if ( op == 4 ) { T x = static_cast<T>( r.range( -50, 50 ) ); t = tensor<T>{ s, x }; std::fill( v.begin(), v.end(), x ); log += " fill"; }
        else if ( op == 5 ) { auto w = seq<T>( r, prod( s ) ); for ( size_t k = 0; k < w.size(); ++k ) *( t.begin() + k ) = w[k]; v = w; log += " write"; }
        else if ( op == 6 ) { t.map( []( auto& x ) { x = x + T( 1 ); } ); for ( auto& x : v ) x = x + T( 1 ); log += " map"; }
        else if ( op == 7 ) { Shape q = s; q.insert( q.begin() + r.below( q.size() + 1 ), 1 ); t = ceras::reshape( t, q ); s = q; log += " freereshape" + str( q ); }
        else { t = t.deep_copy(); log += " dup"; }
        if ( v.size() > 3000 ) break;
        c.desc = log; order( c, t, s, v, sf( "after step %d", i ).c_str() ); c.count( "shape-changing steps" );
    }
    c.desc.clear(); c.describe( log );
}
SCEN( "sequence-double", 150, 8000 ) { sequence<double>( c ); }
SCEN( "sequence-float", 60, 4000 ) { sequence<float>( c ); }
SCEN( "sequence-int", 40, 2000 ) { sequence<int>( c ); }

template< typename T > void ctors( Ctx& c )
{
    Rng& r = c.rng; Shape s = rshape( r, 1, 5, 5, 200 ); T x = static_cast<T>( r.range( -9, 9 ) ); c.describe( str( s ) ); size_t n = prod( s );
    order( c, tensor<T>{ s }, s, std::vector<T>( n, T{} ), "shape ctor" ); order( c, tensor<T>{ s, x }, s, std::vector<T>( n, x ), "fill ctor" );
    order( c, tensor<T>{ { 2UL, 3UL }, { T( 1 ), T( 2 ), T( 3 ), T( 4 ), T( 5 ), x } }, { 2, 3 }, { T( 1 ), T( 2 ), T( 3 ), T( 4 ), T( 5 ), x }, "initializer ctor" );
    order( c, tensor<T>{ Shape{ 3UL }, { T( 7 ), x, T( 9 ) } }, { 3 }, { T( 7 ), x, T( 9 ) }, "initializer ctor 1d" );
    order( c, tensor<T>{ { 2UL, 1UL, 2UL }, x }, { 2, 1, 2 }, std::vector<T>( 4, x ), "fill ctor list" );
    tensor<T> e; c.require( e.empty() && e.size() == 0 && e.ndim() == 0, "default-construction" );
    auto v = seq<T>( r, n ); tensor<T> t{ s }; std::copy( v.begin(), v.end(), t.begin() );
    order( c, tensor<T>{ t }, s, v, "copy ctor" ); { tensor<T> a{ t }; tensor<T> b{ std::move( a ) }; order( c, b, s, v, "move ctor" ); }
    std::vector<int> vi( n ); for ( size_t i = 0; i < n; ++i ) vi[i] = static_cast<int>( v[i] ); order( c, tensor<int>{ t.template as_type<int>() }, s, vi, "as_type<int>" );
    std::vector<double> vd( v.begin(), v.end() ); order( c, tensor<double>{ ceras::as_type<tensor<T>, double>( t ) }, s, vd, "as_type<double>" );
    tensor<T> one{ Shape{ 1UL }, x }; c.require( one.as_scalar() == x, "as_scalar" );
}
SCEN( "constructors-double", 30, 500 ) { ctors<double>( c ); }
SCEN( "constructors-float", 20, 500 ) { ctors<float>( c ); }

SCEN( "views", 150, 4000 )
{
    using namespace ceras; Rng& r = c.rng; unsigned long a = r.range( 1, 4 ), b = r.range( 1, 5 ), d = r.range( 1, 5 ), e = r.range( 1, 4 ), g = r.range( 1, 3 ); Shape s{ a, b, d, e };
    c.describe( str( s ) + sf( " x%lu", g ) ); auto v = seq<double>( r, prod( s ) ); tensor<double> t{ s }; std::copy( v.begin(), v.end(), t.begin() ); double* p = t.data();
    view_1d<double> v1{ p, v.size() }; for ( size_t i = 0; i < v.size(); ++i ) { ++c.checks; if ( &v1[i] != p + i ) c.fail( "view-1d", "" ); }
    view_2d<double> v2{ p, a * b, d * e }; view_3d<double> v3{ p, a * b, d, e }; view_4d<double> v4{ p, a, b, d, e }; view<double, 4> w4{ p, std::array<unsigned long, 4>{ a, b, d, e } }; view<double, 3> w3{ p, a, b, d * e };
    auto const& cv2 = v2; auto const& cv3 = v3; auto const& cv4 = v4;
    for ( size_t i = 0; i < a; ++i ) for ( size_t j = 0; j < b; ++j ) for ( size_t k = 0; k < d; ++k ) for ( size_t l = 0; l < e; ++l )
    {
        size_t o = ( ( i * b + j ) * d + k ) * e + l; ++c.checks;
        if ( &v2[i * b + j][k * e + l] != p + o || &cv2[i * b + j][k * e + l] != p + o ) c.fail( "view-2d", sf( "%zu", o ) );
        if ( &v3[i * b + j][k][l] != p + o || &cv3[i * b + j][k][l] != p + o ) c.fail( "view-3d", sf( "%zu", o ) );
        if ( &v4[i][j][k][l] != p + o || &cv4[i][j][k][l] != p + o ) c.fail( "view-4d", sf( "%zu", o ) );
        if ( &w4[i][j][k][l] != p + o || &w3[i][j][k * e + l] != p + o ) c.fail( "view-n", sf( "%zu", o ) );
    }
    c.require( v2.size() == v.size() && v2.row() == a * b && v2.col() == d * e && v2.shape() == std::make_pair( a * b, d * e ), "view-2d-shape" );
    for ( size_t i = 0; i < a * b; ++i ) { ++c.checks; if ( v2.row_begin( i ) != p + i * d * e || v2.row_end( i ) != p + ( i + 1 ) * d * e || cv2.row_begin( i ) != p + i * d * e ) c.fail( "view-2d-row", "" ); }
    for ( size_t j = 0; j < d * e; ++j ) { auto x = v2.col_begin( j ); size_t n = 0; for ( ; n < a * b; ++n, ++x ) { ++c.checks; if ( *x != v[n * d * e + j] ) c.fail( "view-2d-column", sf( "column %zu row %zu", j, n ) ); } c.require( x == v2.col_end( j ), "view-2d-col-end" ); }
    // a 5- and 6-dimensional view
    auto z = seq<double>( r, prod( s ) * g ); view<double, 5> w5{ z.data(), std::array<unsigned long, 5>{ g, a, b, d, e } };
    for ( size_t q = 0; q < g; ++q ) for ( size_t i = 0; i < a; ++i ) for ( size_t j = 0; j < b; ++j ) for ( size_t k = 0; k < d; ++k ) for ( size_t l = 0; l < e; ++l ) { ++c.checks; if ( &w5[q][i][j][k][l] != z.data() + ( ( ( q * a + i ) * b + j ) * d + k ) * e + l ) c.fail( "view-5d", "" ); }
    // a transposed 2-D view of an r x c product operand is stored c x r
    view_2d<double> tv{ p, d * e, a * b, true }; for ( size_t i = 0; i < a * b; ++i ) for ( size_t j = 0; j < d * e; ++j ) { ++c.checks; if ( &tv[i][j] != p + i * d * e + j ) c.fail( "view-2d-transposed", "" ); }
    c.count( "view elements addressed", v.size() * 8 );
}
