// U02: ranges, strided iterators, enumerations, reversals and progress loops visit exactly what they say
#include "cx.hpp"
#include <list>
#include <deque>
#include "utils/stride_iterator.hpp"
#include "utils/enumerate.hpp"
#include "utils/reverse.hpp"
#include "utils/list.hpp"
using namespace vp;
template< typename A, typename B > void eq( Ctx& c, A const& a, B const& b, std::string const& what ) { c.require( a.size() == b.size(), "count", what + sf( ": %zu visited, %zu expected", (size_t) a.size(), (size_t) b.size() ) ); auto i = a.begin(); auto j = b.begin(); for ( size_t k = 0; i != a.end(); ++i, ++j, ++k ) { ++c.checks; if ( !( *i == *j ) ) c.fail( "element", what + sf( ": position %zu", k ) ); } c.count( "elements visited", a.size() ); }
template< typename T > void ranges( Ctx& c, char const* type )
{
    auto& r = c.rng; using L = std::numeric_limits<T>; long n = r.below( 60 ); T lo; if constexpr ( std::is_floating_point_v<T> ) lo = (T) r.range( -50, 50 ); else lo = r.flip( 0.2 ) ? T( L::max() - n ) : r.flip( 0.2 ) ? L::min() : T( r.range( L::min() < 0 ? -60 : 0, 60 ) ); if constexpr ( std::is_integral_v<T> ) if ( (u64) n > (u64) L::max() ) n = 3; T hi = T( lo + n ); auto what = sf( "range<%s>(%.0f,%.0f)", type, (double) lo, (double) hi ); c.describe( what );
    std::vector<T> want, got; for ( long k = 0; k < n; ++k ) want.push_back( T( lo + k ) ); for ( auto x : ceras::range( lo, hi ) ) { got.push_back( x ); if ( got.size() > 500 ) break; } eq( c, got, want, what );
    { auto q = ceras::range( lo, hi ); got.clear(); for ( auto i = q.cbegin(); i != q.cend(); i++ ) { got.push_back( *i ); if ( got.size() > 500 ) break; } eq( c, got, want, what + " by iterator" ); if ( n ) { long k = r.below( n ); auto i = q.begin() + (unsigned long) k; c.require( *i == want[k], "advanced", what ); auto j = (unsigned long) k + q.begin(); c.require( i == j && !( i != j ), "advance-symmetric", what ); auto z = q.begin(); auto old = z++; c.require( *old == lo && z == q.begin() + 1ul, "post-increment", what ); z += (unsigned long) ( n - 1 ); c.require( z == q.end(), "reach-end", what ); } }
    if ( n <= 60 ) { std::vector<T> z, w; for ( auto x : ceras::range( T( n ) ) ) { z.push_back( x ); if ( z.size() > 500 ) break; } for ( long k = 0; k < n; ++k ) w.push_back( T( k ) ); eq( c, z, w, what + " from zero" ); }
}
SCEN( "range", 250, 8000 ) { switch ( c.rng.below( 7 ) ) { case 0: ranges<int>( c, "int" ); break; case 1: ranges<unsigned long>( c, "unsigned long" ); break; case 2: ranges<unsigned char>( c, "unsigned char" ); break; case 3: ranges<signed char>( c, "signed char" ); break; case 4: ranges<double>( c, "double" ); break; case 5: ranges<short>( c, "short" ); break; default: ranges<long>( c, "long" ); } }
SCEN( "range-custom-step", 80, 3000 )
{
    auto& r = c.rng; long lo = r.range( -30, 30 ), st = r.flip() ? r.range( 1, 7 ) : -r.range( 1, 7 ), n = r.below( 30 ), hi = lo + st * n; c.describe( sf( "from %ld by %ld %ld times", lo, st, n ) ); std::vector<long> want, got; for ( long k = 0; k < n; ++k ) want.push_back( lo + k * st );
    for ( auto x : ceras::range( lo, hi, [st]( long v ) { return v + st; } ) ) { got.push_back( x ); if ( got.size() > 200 ) break; } eq( c, got, want, "stepped range" );
    long over = hi + ( st > 0 ? -r.below( st ) : (long) r.below( -st ) ); got.clear(); if ( n ) { for ( auto x : ceras::range( lo, over, [st]( long v ) { return v + st; }, [st]( long a, long b ) { return st > 0 ? a >= b : a <= b; } ) ) { got.push_back( x ); if ( got.size() > 200 ) break; } eq( c, got, want, "stepped range with its own end test" ); }
    double a = r.real( -1, 1 ), q = r.real( 1.1, 2 ); std::vector<double> dw, dg; double v = a; int m = r.below( 20 ); for ( int k = 0; k < m; ++k ) { dw.push_back( v ); v *= q; } for ( auto x : ceras::range( a, v, [q]( double y ) { return y * q; } ) ) { dg.push_back( x ); if ( dg.size() > 100 ) break; } eq( c, dg, dw, "geometric range" );
}
template< typename It > void strides( Ctx& c, It base, long first, long n, long step, std::string const& what )
{
    auto& r = c.rng; using S = ceras::stride_iterator<It>; S b{ base + first, step }, e{ base + ( first + n * step ), step };
    std::vector<int> got, want; for ( long k = 0; k < n; ++k ) want.push_back( base[first + k * step] ); for ( S i = b; i != e; ++i ) { got.push_back( *i ); if ( got.size() > 300 ) break; } eq( c, got, want, what );
    c.require( e - b == n && b - e == -n && b - b == 0, "difference", what + sf( ": %ld instead of %ld", (long) ( e - b ), n ) ); got.clear(); for ( S i = e; i != b; ) { --i; got.push_back( *i ); if ( got.size() > 300 ) break; } std::reverse( got.begin(), got.end() ); eq( c, got, want, what + " backwards" );
    for ( int q = 0; q < 12 && n; ++q )
    {
        long i = r.below( n ), j = r.below( n ); S x = b + i, y = j + b; c.require( *x == want[i] && *y == want[j] && b[i] == want[i] && std::as_const( b )[j] == want[j], "indexed", what ); { S z = x; c.require( z[j - i] == want[j] && std::as_const( z )[j - i] == want[j] && e[i - n] == want[i] && std::as_const( e )[i - n] == want[i], "indexed-backwards", what + sf( ": from %ld to %ld", i, j ) ); } c.require( y - x == j - i, "difference", what + sf( ": from %ld to %ld gives %ld", i, j, (long) ( y - x ) ) ); c.require( x + ( j - i ) == y && y - ( j - i ) == x, "advance-and-back", what );
        c.require( ( x == y ) == ( i == j ) && ( x != y ) == ( i != j ), "equality", what ); if ( step > 0 ) c.require( ( x < y ) == ( i < j ) && ( x <= y ) == ( i <= j ) && ( x > y ) == ( i > j ) && ( x >= y ) == ( i >= j ), "order", what ); S z = x; z += j - i; c.require( z == y, "advance", what ); z -= j - i; c.require( z == x, "retreat", what );
        { S p = x; S o = p++; c.require( o == x && p == x + 1, "post-increment", what ); o = p--; c.require( o == x + 1 && p == x, "post-decrement", what ); S w = b; w = p; S u = std::move( w ); c.require( u == x, "copied", what ); }
    }
    c.count( "strides walked" );
}
SCEN( "stride-iterator", 200, 8000 )
{
    auto& r = c.rng; long step = r.range( 1, 9 ), n = r.below( 25 ); std::vector<int> v( n * step + 20 ); for ( auto& x : v ) x = r.next() % 100000; bool back = r.flip( 0.4 ); long first = back ? n * step + r.below( 5 ) : (long) r.below( 5 ); if ( back ) step = -step; auto what = sf( "%ld elements from %ld by %ld", n, first, step ); c.describe( what );
    switch ( r.below( 3 ) ) { case 0: strides( c, v.data(), first, n, step, what + " (pointer)" ); break; case 1: strides( c, v.begin(), first, n, step, what + " (vector)" ); break; default: { std::deque<int> d( v.begin(), v.end() ); strides( c, d.begin(), first, n, step, what + " (deque)" ); } }
    // standard algorithms over a strided column
    if ( !back && n ) { size_t w = step; ceras::stride_iterator<int*> b{ v.data() + first, (int) w }; auto e = b + n; std::vector<int> want; for ( long k = 0; k < n; ++k ) want.push_back( v[first + k * w] ); std::vector<int> copy( b, e ); eq( c, copy, want, "copied column" ); auto before = v; std::sort( b, e ); std::sort( want.begin(), want.end() ); for ( long k = 0; k < n; ++k ) c.require( v[first + k * w] == want[k], "sorted-column", what ); for ( size_t k = 0; k < v.size(); ++k ) if ( (long) k < first || ( k - first ) % w || (long) ( ( k - first ) / w ) >= n ) c.require( v[k] == before[k], "wrote-outside-column", what ); }
}
template< typename C > void enums( Ctx& c, char const* type, C x )
{
    C before = x; std::vector<int> want( x.begin(), x.end() ), got; std::vector<long> idx, widx; for ( size_t k = 0; k < want.size(); ++k ) widx.push_back( k ); c.describe( sf( "%s of %zu", type, want.size() ) );
    for ( auto [i, v] : ceras::enumerate( x ) ) { idx.push_back( i ); got.push_back( v ); if ( got.size() > 300 ) break; } eq( c, got, want, "enumerate values" ); eq( c, idx, widx, "enumerate indices" );
    got.clear(); idx.clear(); for ( auto [i, v] : ceras::enumerate( C( x ) ) ) { idx.push_back( i ); got.push_back( v ); if ( got.size() > 300 ) break; } eq( c, got, want, "enumerate a temporary" ); eq( c, idx, widx, "enumerate indices of a temporary" );
    got.clear(); for ( auto& v : ceras::reverse( x ) ) { got.push_back( v ); if ( got.size() > 300 ) break; } std::reverse( want.begin(), want.end() ); eq( c, got, want, "reverse" ); C const& k = x; got.clear(); for ( auto const& v : ceras::reverse( k ) ) got.push_back( v ); eq( c, got, want, "reverse of a constant" );
    for ( auto& v : ceras::reverse( x ) ) v += 5; for ( auto& v : want ) v += 5; got.clear(); for ( auto& v : ceras::reverse( x ) ) got.push_back( v ); eq( c, got, want, "written through reverse" ); { auto q = ceras::reverse( x ); std::vector<int> fwd; for ( auto& v : ceras::reverse( q.iterable ) ) fwd.push_back( v ); eq( c, fwd, want, "reverse twice over the same" ); }
}
SCEN( "enumerate-and-reverse", 120, 4000 ) { auto& r = c.rng; std::vector<int> v( r.below( 30 ) ); for ( auto& x : v ) x = r.next() % 1000; switch ( r.below( 3 ) ) { case 0: enums( c, "vector", v ); break; case 1: enums( c, "list", std::list<int>( v.begin(), v.end() ) ); break; default: enums( c, "deque", std::deque<int>( v.begin(), v.end() ) ); } }
SCEN( "progress-loop", 100, 3000 )
{
    auto& r = c.rng; std::vector<int> v( r.below( 60 ) ); for ( auto& x : v ) x = r.next() % 1000; std::ostringstream os; std::vector<int> got; int w = r.below( 6 ); static char const* N[] = { "container", "constant container", "temporary container", "iterators", "trange", "trange from" }; c.describe( sf( "%s of %zu", N[w], v.size() ) ); std::vector<int> want = v;
    auto go = [&]( auto&& bar ) { bar.set_ostream( os ); bar.set_min_update_time( r.flip() ? 0 : 0.1 ); if ( r.flip() ) bar.set_prefix( "p " ); if ( r.flip() ) bar.set_bar_size( r.range( 1, 100 ) ); for ( auto x : bar ) { got.push_back( x ); if ( r.flip( 0.2 ) ) bar << "note " << x; if ( got.size() > 300 ) break; } };
    switch ( w ) { case 0: { auto&& b = tq::dm( v ); go( b ); break; } case 1: { auto const& k = v; auto&& b = tq::dm( k ); go( b ); break; } case 2: { auto&& b = tq::dm( std::vector<int>( v ) ); go( b ); break; } case 3: { auto&& b = tq::dm( v.begin(), v.end() ); go( b ); break; } case 4: { for ( size_t k = 0; k < v.size(); ++k ) want[k] = k; auto&& b = tq::trange( (int) v.size() ); go( b ); break; } default: { int lo = r.range( -20, 20 ); for ( size_t k = 0; k < v.size(); ++k ) want[k] = lo + k; auto&& b = tq::trange( lo, lo + (int) v.size() ); go( b ); } }
    eq( c, got, want, N[w] );
}
SCEN( "make-list", 20, 200 ) { auto& r = c.rng; int a = r.range( -9, 9 ); double b = r.real( -1, 1 ); std::string s( r.below( 20 ), 'x' ); auto l = ceras::make_list( a, b, s ); auto k = l( []( int x, double y, std::string z ) { return std::make_tuple( x, y, z ); } ); c.require( k == std::make_tuple( a, b, s ), "list-elements" ); c.require( l( []( auto... x ) { return sizeof...( x ); } ) == 3, "list-length" ); c.require( ceras::make_list()( []( auto... x ) { return sizeof...( x ); } ) == 0, "empty-list" ); }
