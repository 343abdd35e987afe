// U01: parallel loops visit each index exactly once, for any bounds and any number of cores
#include "cx.hpp"
#include <atomic>
#include <sched.h>
using namespace vp; using namespace ceras;
static unsigned cores = 8; // the machine the loop believes to be on
unsigned int std::thread::hardware_concurrency() noexcept { return cores; }
static std::atomic<u64> ids_seen{ 0 };
struct Tally // counts visits; anything outside is kept apart
{
    u64 first, last; std::vector<std::atomic<unsigned>> n; std::atomic<u64> outside{ 0 }, where{ 0 }; int jitter; std::atomic<unsigned> tick{ 0 };
    Tally( u64 a, u64 b, int j = 0 ) : first{ a }, last{ b }, n( b - a ), jitter{ j } {}
    void hit( u64 i ) { if ( jitter && ++tick % 7 == 0 ) { if ( jitter == 1 ) sched_yield(); else usleep( tick % 50 ); } if ( i < first || i >= last ) { ++outside; where = i; } else ++n[i - first]; }
    void check( Ctx& c, std::string const& what ) { if ( outside ) c.fail( "index-outside", what + sf( ": %llu calls outside, one with %llu", (unsigned long long) outside.load(), (unsigned long long) where.load() ) ); for ( size_t k = 0; k < n.size(); ++k ) { ++c.checks; if ( n[k] != 1 ) c.fail( n[k] ? "index-repeated" : "index-skipped", what + sf( ": index %llu visited %u times", (unsigned long long) ( first + k ), n[k].load() ) ); } c.count( "indices visited", n.size() ); }
};
template< typename I > void loop( Ctx& c, char const* type, u64 lo, u64 hi, bool thr, unsigned long threshold, int jitter )
{
    Tally t{ lo, hi, jitter }; auto what = sf( "%s [%llu,%llu) on %u cores threshold %ld", type, (unsigned long long) lo, (unsigned long long) hi, cores, thr ? (long) threshold : -1 ); c.describe( what );
    auto f = [&]( I i ) { t.hit( i ); }; if ( thr ) parallel( f, static_cast<I>( lo ), static_cast<I>( hi ), threshold ); else if ( lo == 0 && c.rng.flip() ) parallel( f, static_cast<I>( hi ) ); else parallel( f, static_cast<I>( lo ), static_cast<I>( hi ) ); t.check( c, what ); c.count( sf( "loops on %s cores", cores == 0 ? "unknown" : cores == 1 ? "1" : cores <= 8 ? "2-8" : cores <= 33 ? "9-33" : "34-130" ).c_str() );
}
static unsigned draw_cores( Rng& r ) { return r.flip( 0.1 ) ? r.below( 2 ) : r.flip( 0.2 ) ? r.range( 34, 130 ) : r.range( 2, 33 ); }
static u64 draw_len( Rng& r ) { switch ( r.below( 5 ) ) { case 0: return r.below( 12 ); case 1: return std::max<long>( 0, (long) cores + r.range( -2, 2 ) ); case 2: return std::max<long>( 0, (long) cores * r.range( 1, 6 ) + r.range( -2, 2 ) ); default: return r.below( 700 ); } }
template< typename I > void any_bounds( Ctx& c, char const* type )
{
    auto& r = c.rng; cores = draw_cores( r ); u64 const top = std::numeric_limits<I>::max(); u64 len = std::min( draw_len( r ), top ), lo = 0; switch ( r.below( 4 ) ) { case 0: break; case 1: lo = r.below( std::min<u64>( top - len, 1000 ) + 1 ); break; case 2: lo = top - len; break; default: lo = r.next() % ( top - len ? top - len : 1 ); }
    loop<I>( c, type, lo, lo + len, r.flip(), r.pick( { 0ul, 1ul, 3ul, 8ul, 64ul, 100000ul } ), r.below( 3 ) );
}
SCEN( "bounds-unsigned-long",  170*3, 8000 ) { any_bounds<unsigned long>( c, "unsigned long" ); }
SCEN( "bounds-unsigned-int",  130*3, 6000 ) { any_bounds<unsigned int>( c, "unsigned int" ); }
SCEN( "bounds-unsigned-short",  80*3, 4000 ) { any_bounds<unsigned short>( c, "unsigned short" ); }
SCEN( "bounds-unsigned-char",  120*3, 6000 ) { any_bounds<unsigned char>( c, "unsigned char" ); }
SCEN( "every-small-loop",  40*3, 400 ) { auto& r = c.rng; cores = 1 + c.kase % 40; c.describe( sf( "all lengths up to 80 on %u cores", cores ) ); for ( u64 n = 0; n <= 80; n += ( cores > 12 && n > 14 ? 7 : 1 ) ) { u64 lo = r.below( 5 ); Tally t{ lo, lo + n }; parallel( [&]( unsigned long i ) { t.hit( i ); }, lo, lo + n, r.below( 9 ) ); t.check( c, sf( "[%llu,%llu) on %u cores", (unsigned long long) lo, (unsigned long long) ( lo + n ), cores ) ); } }
// effects of the body are visible after the loop, without further synchronisation
SCEN( "results-visible",  60*3, 2000 ) { auto& r = c.rng; cores = draw_cores( r ); size_t n = r.range( 0, 3000 ); std::vector<u64> v( n, ~0ull ); parallel( [&]( size_t i ) { if ( i % 37 == 0 ) sched_yield(); v[i] = mix64( i ); }, n ); c.describe( sf( "%zu elements, %u cores", n, cores ) ); for ( size_t i = 0; i < n; ++i ) c.require( v[i] == mix64( i ), "result-missing", sf( "%zu of %zu", i, n ) ); }
// nested loops, as convolution and matrix code use them
SCEN( "nested",  30*3, 800 ) { auto& r = c.rng; cores = r.range( 2, 10 ); size_t n = r.range( 1, 20 ), m = r.range( 1, 40 ); std::vector<std::atomic<int>> v( n * m ); c.describe( sf( "%zu x %zu, %u cores", n, m, cores ) ); parallel( [&]( size_t i ) { parallel( [&]( size_t j ) { ++v[i * m + j]; }, m ); }, n ); for ( auto& x : v ) c.require( x == 1, "nested-count" ); }
// element-wise application over several ranges
template< typename F > void eachn( Ctx& c, size_t n, F f ) { std::vector<std::atomic<int>> hits( n ); f( hits ); for ( size_t i = 0; i < n; ++i ) c.require( hits[i] == 1, "position-count", sf( "position %zu of %zu visited %d times", i, n, hits[i].load() ) ); c.count( "positions applied", n ); }
SCEN( "for-each",  200*3, 8000 )
{
    auto& r = c.rng; cores = draw_cores( r ); size_t n = draw_len( r ); int k = r.range( 1, 5 ); c.describe( sf( "%d ranges of %zu on %u cores", k, n, cores ) );
    std::vector<long> a( n ), b( n ), d( n ), e( n ); std::vector<double> x( n ); std::vector<size_t> id( n ); std::iota( id.begin(), id.end(), 0 ); for ( size_t i = 0; i < n; ++i ) { a[i] = r.next() % 1000; b[i] = r.next() % 1000; d[i] = r.next() % 1000; e[i] = -1; x[i] = -1; } auto a0 = a, b0 = b, d0 = d;
    eachn( c, n, [&]( auto& h ) { switch ( k )
    {
        case 1: ceras::for_each( id.begin(), id.end(), [&]( size_t i ) { ++h[i]; } ); break;
        case 2: ceras::for_each( id.begin(), id.end(), e.begin(), [&]( size_t i, long& o ) { ++h[i]; o = (long) i * 3; } ); for ( size_t i = 0; i < n; ++i ) c.require( e[i] == (long) i * 3, "for-each-2", sf( "%zu", i ) ); break;
        case 3: ceras::for_each( id.begin(), id.end(), a.begin(), x.begin(), [&]( size_t i, long p, double& o ) { ++h[i]; o = p * 2.5; } ); for ( size_t i = 0; i < n; ++i ) c.require( x[i] == a0[i] * 2.5, "for-each-3", sf( "%zu", i ) ); break;
        case 4: ceras::for_each( id.begin(), id.end(), a.data(), b.begin(), e.data(), [&]( size_t i, long p, long q, long& o ) { ++h[i]; o = p - q; } ); for ( size_t i = 0; i < n; ++i ) c.require( e[i] == a0[i] - b0[i], "for-each-4", sf( "%zu", i ) ); break;
        default: ceras::for_each( id.begin(), id.end(), a.begin(), b.begin(), d.begin(), e.begin(), [&]( size_t i, long p, long q, long s, long& o ) { ++h[i]; o = p * 1000000 + q * 1000 + s; } ); for ( size_t i = 0; i < n; ++i ) c.require( e[i] == a0[i] * 1000000 + b0[i] * 1000 + d0[i], "for-each-5", sf( "%zu", i ) );
    } } ); c.require( a == a0 && b == b0 && d == d0, "for-each-changed-input" );
}
// threaded tensor computations are bitwise those of a machine with one core
SCEN( "threaded-equals-serial",  120*3, 4000 )
{
    auto& r = c.rng; using T = float; int op = r.below( 10 ); size_t m = r.range( 1, 40 ), n = r.range( 1, 40 ), k = r.range( 1, 40 ); static char const* N[] = { "matrix product", "add", "broadcast add", "exp", "reduce_sum", "repeat", "softmax", "convolution and gradients", "max pooling and gradients", "concatenate" }; c.describe( sf( "%s %zu %zu %zu", N[op], m, n, k ) );
    Nd A = rnd( r, { m, k } ), B = rnd( r, { k, n } ), D = rnd( r, { m, k } ), E = rnd( r, { k } ), I = rnd( r, { (size_t) r.range( 1, 3 ), (size_t) r.range( 4, 9 ) * 2, (size_t) r.range( 4, 9 ) * 2, (size_t) r.range( 1, 3 ) } ), K = rnd( r, { 3, 3, 3, I.shape[3] } );
    auto go = [&]() -> std::vector<T>
    {
        auto a = tens<T>( A ), b = tens<T>( B ), d = tens<T>( D ), e = tens<T>( E ); std::vector<T> out; auto add = [&]( auto const& t ) { auto v = raw( t ); out.insert( out.end(), v.begin(), v.end() ); };
        switch ( op ) { case 0: add( a * b ); break; case 1: add( a + d ); break; case 2: add( a + e ); break; case 3: { auto x = variable{ a }; auto y = exp( x ); add( sess<T>().run( y ) ); break; } case 4: { auto x = variable{ a }; auto y = reduce_sum( 1 )( x ); add( sess<T>().run( y ) ); break; } case 5: add( repeat( a, 5 ) ); break; case 6: add( softmax( a ) ); break;
            case 7: { auto x = variable{ tens<T>( I ) }; auto w = variable{ tens<T>( K ) }; auto y = conv2d( I.shape[1], I.shape[2], 1, 1, 1, 1, "valid" )( x, w ); auto v = sess<T>().run( y ); add( v ); y.backward( ones_like( v ) ); add( x.gradient() ); add( w.gradient() ); break; }
            case 8: { auto x = variable{ tens<T>( I ) }; auto y = max_pooling_2d( 2 )( x ); auto v = sess<T>().run( y ); add( v ); y.backward( ones_like( v ) ); add( x.gradient() ); break; } default: add( concatenate( a, d, 0 ) ); }
        wipe<T>(); return out;
    };
    cores = 1; auto one = go(); for ( unsigned q : { 2u, (unsigned) r.range( 3, 16 ), (unsigned) r.range( 17, 70 ) } ) { cores = q; auto many = go(); c.require( one.size() == many.size() && !std::memcmp( one.data(), many.data(), one.size() * sizeof( T ) ), "differs-from-serial", sf( "%s on %u cores", N[op], q ) ); c.count( "threaded computations compared" ); }
}
