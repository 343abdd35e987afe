// M01: allocators and the vector container, mirrored by shadow maps; the heap is observed through the sanitizer's allocation hooks
#include "cx.hpp"
#include <new>
#include <sanitizer/allocator_interface.h>
using namespace vp; using namespace ceras;
static volatile bool watching = false; static long live_blocks = 0; static u64 mallocs = 0;
static void on_malloc( void const volatile*, size_t ) { if ( watching ) { ++live_blocks; ++mallocs; } }
static void on_free( void const volatile* p ) { if ( watching && p ) --live_blocks; }
static void watch( bool on ) { static bool once = __sanitizer_install_malloc_and_free_hooks( on_malloc, on_free ); (void) once; live_blocks = 0; watching = on; }
// fault injection: the next allocations of one size fail
static size_t fail_size = 0; static int fail_times = 0;
void* operator new( size_t n ) { if ( fail_times > 0 && n == fail_size ) { --fail_times; throw std::bad_alloc(); } void* p = std::malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); return p; }
void operator delete( void* p ) noexcept { std::free( p ); }
void operator delete( void* p, size_t ) noexcept { std::free( p ); }
struct Block { char* p; size_t bytes; unsigned char tag; int type; size_t n; };
struct Odd { char c[13]; };
template< typename T > char* get( size_t n ) { return (char*) cached_allocator<T>{}.allocate( n ); }
template< typename T > void put( char* p, size_t n ) { cached_allocator<T>{}.deallocate( (T*) p, n ); }
static size_t const SZ[] = { 1, 4, 8, 13, sizeof( long double ), 2 }; static size_t const AL[] = { 1, 4, 8, 1, alignof( long double ), 2 };
static char* get( int t, size_t n ) { switch ( t ) { case 0: return get<char>( n ); case 1: return get<float>( n ); case 2: return get<double>( n ); case 3: return get<Odd>( n ); case 4: return get<long double>( n ); default: return get<short>( n ); } }
static void put( int t, char* p, size_t n ) { switch ( t ) { case 0: return put<char>( p, n ); case 1: return put<float>( p, n ); case 2: return put<double>( p, n ); case 3: return put<Odd>( p, n ); case 4: return put<long double>( p, n ); default: return put<short>( p, n ); } }
static void fill( Block const& b ) { for ( size_t i = 0; i < b.bytes; ++i ) b.p[i] = b.tag + i * 7; }
static void intact( Ctx& c, Block const& b, std::string const& log ) { for ( size_t i = 0; i < b.bytes; ++i ) if ( b.p[i] != char( b.tag + i * 7 ) ) c.fail( "live-block-overwritten", log + sf( " byte %zu of a block of %zu", i, b.bytes ) ); c.checks += b.bytes; }
SCEN( "cached-allocator-history", 160, 8000 )
{
    auto& r = c.rng; get_memory_cache().gc(); std::vector<Block> live; std::string log; int n = r.range( 1, 120 ); std::vector<size_t> sizes; for ( int i = r.range( 1, 6 ); i--; ) sizes.push_back( r.below( 60 ) ); u64 reused = 0; std::set<char*> released; std::multiset<size_t> resting;
    for ( int i = 0; i < n; ++i )
    {
        int w = r.below( 10 );
        if ( w < 5 || live.empty() )
        {
            Block b; b.type = r.below( 6 ); b.n = r.flip( 0.8 ) ? r.pick( sizes ) : r.below( 3000 ); b.bytes = b.n * SZ[b.type]; b.tag = r.next(); bool faulty = r.flip( 0.08 ) && resting.size() && !resting.count( b.bytes ); log += sf( " +%d:%zu%s", b.type, b.n, faulty ? " (fails once)" : "" ); bool refused = false;
            if ( faulty ) { /* an allocation that cannot be served even after cleaning up is an assertion: only try with something to clean up; armed here, so that only the allocator sees it */ fail_size = b.bytes; fail_times = 1; }
            b.p = get( b.type, b.n ); if ( faulty && fail_times == 0 ) { c.count( "allocations recovered by cleaning up" ); resting.clear(); released.clear(); for ( auto& q : live ) intact( c, q, log ); } else if ( auto it = resting.find( b.bytes ); it != resting.end() ) resting.erase( it ); fail_times = 0; fail_size = 0; if ( refused ) continue; c.require( b.p != nullptr, "null-block", log ); c.require( (uintptr_t) b.p % AL[b.type] == 0, "misaligned-block", log );
            for ( auto& q : live ) { ++c.checks; if ( b.p < q.p + std::max<size_t>( q.bytes, 1 ) && q.p < b.p + std::max<size_t>( b.bytes, 1 ) ) c.fail( "overlapping-blocks", log + sf( " sizes %zu and %zu", q.bytes, b.bytes ) ); }
            if ( released.count( b.p ) ) ++reused; fill( b ); live.push_back( b );
        }
        else if ( w < 9 ) { size_t k = r.below( live.size() ); auto b = live[k]; intact( c, b, log ); log += sf( " -%d:%zu", b.type, b.n ); released.insert( b.p ); resting.insert( b.bytes ); put( b.type, b.p, b.n ); live.erase( live.begin() + k ); }
        else { log += " gc"; get_memory_cache().gc(); released.clear(); resting.clear(); for ( auto& b : live ) { intact( c, b, log ); fill( b ); } }
        if ( log.size() > 700 ) log = log.substr( 300 );
    }
    for ( auto& b : live ) { intact( c, b, log ); put( b.type, b.p, b.n ); } c.describe( sf( "%d steps", n ) + log.substr( 0, 200 ) ); c.count( "blocks reused from the cache", reused ); c.count( "allocator steps", n );
}
// everything that was handed out returns to the heap exactly once
SCEN( "cached-allocator-conservation", 60, 3000 )
{
    auto& r = c.rng; get_memory_cache().gc(); int rounds = r.range( 1, 5 ); c.describe( sf( "%d rounds", rounds ) ); size_t base = __sanitizer_get_current_allocated_bytes(); size_t spread = 0;
    for ( int k = 0; k < rounds; ++k )
    {
        std::vector<Block> live; live.reserve( 300 ); for ( int i = r.range( 1, 200 ); i--; ) { Block b; b.type = r.below( 6 ); b.n = r.below( 500 ); b.bytes = b.n * SZ[b.type]; b.p = get( b.type, b.n ); b.tag = i; fill( b ); live.push_back( b ); if ( live.size() > 3 && r.flip( 0.4 ) ) { size_t q = r.below( live.size() ); put( live[q].type, live[q].p, live[q].n ); live.erase( live.begin() + q ); } }
        size_t held = 0; for ( auto& b : live ) { held += b.bytes; put( b.type, b.p, b.n ); } live = {}; get_memory_cache().gc(); size_t now = __sanitizer_get_current_allocated_bytes(); long d = (long) now - (long) base; ++c.checks;
        if ( k == 0 ) spread = d > 0 ? d : 0; /* the bucket arrays of the hash tables stay */ else if ( d > (long) spread + 60000 ) c.fail( "blocks-not-returned", sf( "%ld bytes more than before after round %d", d, k ) ); if ( d > 200000 ) c.fail( "blocks-not-returned", sf( "%ld bytes", d ) ); c.count( "bytes held at a peak", held );
    }
}
// the vector container against a model
struct El { long v = 0; }; inline bool operator==( El const& a, El const& b ) { return a.v == b.v; }
template< typename V > void vec_history( Ctx& c, char const* what )
{
    auto& r = c.rng; using T = typename V::value_type; constexpr bool owning = !std::is_empty_v<typename V::allocator_type>; struct M { std::vector<T> v; bool known; }; std::string log = what; u64 stamp = 1; auto val = [&]{ T t; t = static_cast<T>( ++stamp % 120 ); return t; };
    {
        std::vector<std::unique_ptr<V>> x; std::vector<M> m; auto chk = [&]( size_t i ) { V const& v = *x[i]; c.require( v.size() == m[i].v.size(), "size", log + sf( " size %lu expected %zu", v.size(), m[i].v.size() ) ); c.require( v.empty() == m[i].v.empty(), "empty", log ); if ( m[i].known ) for ( size_t k = 0; k < m[i].v.size(); ++k ) { ++c.checks; if ( !( v.data()[k] == m[i].v[k] ) ) c.fail( "element", log + sf( " element %zu of %zu", k, m[i].v.size() ) ); } };
        for ( int s = r.range( 3, 60 ); s--; )
        {
            if ( log.size() > 600 ) log = std::string( what ) + " .." + log.substr( 300 );
            int w = r.below( x.empty() ? 3 : 11 ); size_t i = x.empty() ? 0 : r.below( x.size() ), j = x.empty() ? 0 : r.below( x.size() );
            if ( w == 0 ) { size_t n = r.below( 40 ); T t = val(); x.push_back( std::make_unique<V>( n, t ) ); m.push_back( { std::vector<T>( n, t ), true } ); log += sf( " new(%zu)", n ); i = x.size() - 1; }
            else if ( w == 1 ) { T a = val(), b = val(), d = val(); x.push_back( std::make_unique<V>( std::initializer_list<T>{ a, b, d } ) ); m.push_back( { { a, b, d }, true } ); log += " list"; i = x.size() - 1; }
            else if ( w == 2 ) { x.push_back( std::make_unique<V>() ); m.push_back( { {}, true } ); log += " new()"; i = x.size() - 1; }
            else if ( w == 3 ) { x.push_back( std::make_unique<V>( *x[i] ) ); m.push_back( m[i] ); log += " copy"; chk( i ); i = x.size() - 1; }
            else if ( w == 4 ) { x.push_back( std::make_unique<V>( std::move( *x[i] ) ) ); m.push_back( m[i] ); log += " move"; chk( x.size() - 1 ); x[i]->resize( 0 ); m[i] = { {}, true }; }
            else if ( w == 5 ) { *x[i] = *x[j]; m[i] = M{ m[j] }; log += i == j ? " self=" : " ="; chk( j ); }
            else if ( w == 6 ) { bool self = i == j; *x[i] = std::move( *x[j] ); log += self ? " selfmove=" : " move="; if ( !self ) { m[i] = m[j]; chk( i ); x[j]->clear(); m[j] = { {}, true }; } }
            else if ( w == 7 ) { size_t n = r.flip( 0.3 ) ? m[i].v.size() : r.below( 50 ); log += sf( " resize(%zu->%zu)", m[i].v.size(), n ); x[i]->resize( n ); if ( n != m[i].v.size() ) { m[i].v.assign( n, T{} ); m[i].known = false; } }
            else if ( w == 8 ) { log += " write"; for ( size_t k = 0; k < m[i].v.size(); ++k ) { T t = val(); x[i]->data()[k] = t; m[i].v[k] = t; } m[i].known = true; }
            else if ( w == 9 ) { log += " clear"; x[i]->clear(); m[i] = { {}, true }; }
            else { log += " drop"; x.erase( x.begin() + i ); m.erase( m.begin() + i ); i = 0; }
            for ( size_t k = 0; k < x.size(); ++k ) chk( k );
            // no two vectors share storage
            for ( size_t a = 0; a < x.size(); ++a ) for ( size_t b = 0; b < a; ++b ) { ++c.checks; auto& p = *x[a]; auto& q = *x[b]; if ( !p.empty() && !q.empty() && p.data() < q.data() + q.size() && q.data() < p.data() + p.size() ) c.fail( "vectors-share-storage", log ); }
            if constexpr ( owning ) (void) 0;
        }
        c.describe( log.substr( 0, 300 ) ); c.count( "vectors at the end", x.size() );
    }
    get_memory_cache().gc();
}
template< typename V > void vec_leak( Ctx& c, char const* what ) // a fixed history leaves the heap as it was
{
    auto& r = c.rng; size_t n = r.range( 1, 600 ), k = r.range( 1, 600 ); c.describe( sf( "%s sizes %zu and %zu", what, n, k ) ); get_memory_cache().gc(); using T = typename V::value_type; T one{}; int path = r.below( 6 );
    auto go = [&]{ V a( n, one ); V b( k, one ); switch ( path ) { case 0: a = b; break; case 1: a = std::move( b ); break; case 2: { V d( std::move( a ) ); V e( d ); a = e; break; } case 3: a.resize( k ); b.resize( 0 ); b.resize( n ); break; case 4: a = a; b.clear(); b = V( n, one ); break; default: { V d{ one, one }; d = std::move( a ); a = std::move( b ); b = std::move( d ); } } };
    go(); get_memory_cache().gc(); watch( true ); go(); get_memory_cache().gc(); watching = false; long left = live_blocks; c.require( left == 0, left > 0 ? "leak" : "freed-too-often", sf( "%s path %d: %ld blocks left", what, path, left ) ); c.count( "heap blocks observed", mallocs ); mallocs = 0;
}
#define VECS( OP ) switch ( c.rng.below( 7 ) ) { case 0: OP<ceras::vector<float, cached_allocator<float>>>( c, "cached float" ); break; case 1: OP<ceras::vector<long, std::allocator<long>>>( c, "std long" ); break; case 2: OP<ceras::vector<double, buffered_allocator<double, 64>>>( c, "buffered double" ); break; case 3: OP<ceras::vector<unsigned long, buffered_allocator<unsigned long, 256>>>( c, "buffered unsigned long" ); break; \
    case 4: OP<ceras::vector<char, cached_allocator<char>>>( c, "cached char" ); break; case 5: OP<ceras::vector<char, buffered_allocator<char, 17>>>( c, "buffered char" ); break; default: OP<ceras::vector<double, cached_allocator<double>>>( c, "cached double" ); }
SCEN( "vector-history", 250, 12000 ) { VECS( vec_history ) }
SCEN( "vector-leaks", 150, 4000 ) { VECS( vec_leak ) }
// buffered allocators: one small block per allocator object lies in the object, larger ones on the heap
template< size_t B, typename T > void buffered( Ctx& c )
{
    auto& r = c.rng; c.describe( sf( "%zu bytes, elements of %zu", B, sizeof( T ) ) ); std::vector<std::unique_ptr<buffered_allocator<T, B>>> al; struct L { size_t a; T* p; size_t n; unsigned char tag; }; std::vector<L> live; for ( int i = r.range( 1, 5 ); i--; ) al.push_back( std::make_unique<buffered_allocator<T, B>>() );
    for ( int s = r.range( 2, 40 ); s--; )
    {
        size_t a = r.below( al.size() ), n = r.flip() ? r.range( 0, B / sizeof( T ) ) : r.range( B / sizeof( T ) + 1, B / sizeof( T ) + 30 ); bool small = n * sizeof( T ) <= B; if ( small && std::any_of( live.begin(), live.end(), [&]( L const& l ) { return l.a == a && l.n * sizeof( T ) <= B; } ) ) continue; // one small block at a time
        T* p = al[a]->allocate( n ); unsigned char tag = r.next(); c.require( p && (uintptr_t) p % alignof( T ) == 0, "misaligned-block" ); for ( auto& l : live ) { ++c.checks; if ( n && l.n && (char*) p < (char*) ( l.p + l.n ) && (char*) l.p < (char*) ( p + n ) ) c.fail( "overlapping-blocks", sf( "%zu and %zu elements", n, l.n ) ); }
        std::memset( p, tag, n * sizeof( T ) ); live.push_back( { a, p, n, tag } ); for ( auto& l : live ) for ( size_t q = 0; q < l.n * sizeof( T ); ++q ) if ( ( (unsigned char*) l.p )[q] != l.tag ) c.fail( "live-block-overwritten", sf( "%zu elements", l.n ) );
        if ( r.flip() ) { size_t k = r.below( live.size() ); al[live[k].a]->deallocate( live[k].p, live[k].n ); live.erase( live.begin() + k ); }
    }
    for ( auto& l : live ) al[l.a]->deallocate( l.p, l.n ); c.count( "buffered histories" );
}
SCEN( "buffered-allocator", 80, 3000 ) { switch ( c.rng.below( 4 ) ) { case 0: buffered<64, double>( c ); break; case 1: buffered<256, unsigned long>( c ); break; case 2: buffered<10, char>( c ); break; default: buffered<30, float>( c ); } }
SCEN( "buffered-allocator-leaks", 40, 500 ) { auto& r = c.rng; size_t n = r.range( 0, 60 ); c.describe( sf( "%zu", n ) ); watch( true ); { buffered_allocator<double, 128> a; auto* p = a.allocate( n ); a.deallocate( p, n ); auto* q = a.allocate( n + 1 ); a.deallocate( q, n + 1 ); } watching = false; c.require( live_blocks == 0, "leak", sf( "%ld blocks", live_blocks ) ); }
// tensors: storage of dead tensors is recycled but never shared between live ones; everything returns to the heap
SCEN( "tensor-storage-history", 120, 5000 )
{
    auto& r = c.rng; struct E { ceras::tensor<float> t; std::shared_ptr<float> store; float tag; size_t n; }; std::vector<E> live; std::string log; get_memory_cache().gc();
    auto fillt = [&]( ceras::tensor<float>& t, float tag ) { for ( auto& x : t ) x = tag; };
    for ( int s = r.range( 5, 80 ); s--; )
    {
        int w = r.below( 6 ); if ( w < 3 || live.empty() ) { Shape sh = rshape( r, 1, 3, 6, 100 ); ceras::tensor<float> t{ sh }; float tag = r.below( 1000 ); fillt( t, tag ); live.push_back( { t, std::shared_ptr<float>( t.data(), []( float* ) {} ), tag, t.size() } ); }
        else { size_t k = r.below( live.size() ); if ( w == 3 ) live.erase( live.begin() + k ); else if ( w == 4 ) { auto u = live[k].t.deep_copy(); live.push_back( { u, std::shared_ptr<float>( u.data(), []( float* ) {} ), live[k].tag, live[k].n } ); } else { auto u = live[k].t + live[r.below( live.size() )].t[0]; (void) u; } }
        for ( size_t a = 0; a < live.size(); ++a ) { for ( auto x : live[a].t ) { ++c.checks; if ( x != live[a].tag ) c.fail( "live-tensor-overwritten", sf( "%zu live tensors", live.size() ) ); } for ( size_t b = 0; b < a; ++b ) { auto &p = live[a], &q = live[b]; ++c.checks; if ( p.t.data() < q.t.data() + q.n && q.t.data() < p.t.data() + p.n ) c.fail( "live-tensors-share-storage", sf( "sizes %zu and %zu", p.n, q.n ) ); } }
    }
    c.describe( sf( "%zu live tensors", live.size() ) ); c.count( "tensors checked", live.size() );
}
SCEN( "tensor-leaks", 60, 1500 )
{
    auto& r = c.rng; Shape s = rshape( r, 2, 4, 5, 200 ); c.describe( str( s ) ); u64 seed = r.next(); int path = r.below( 5 );
    auto go = [&]{ ceras::tensor<float> a = ones<float>( s ), b = zeros<float>( s ); switch ( path ) { case 0: { auto x = a + b; x += a; x = x - b; break; } case 1: { auto x = a; x.resize( { 3, 3 } ); x = b.deep_copy(); x.reshape( { b.size() } ); break; } case 2: { auto x = repeat( a, 3 ); auto y = sum( x, 0 ); break; } case 3: { ceras::tensor<float> x{ a }; x = ceras::tensor<float>{}; ceras::tensor<float> y{ std::move( a ) }; x = y; break; } default: { std::vector<ceras::tensor<float>> v; for ( int i = 0; i < 9; ++i ) v.push_back( a * float( i ) ); v.erase( v.begin() + 2 ); } } }; (void) seed;
    go(); get_memory_cache().gc(); watch( true ); go(); get_memory_cache().gc(); watching = false; c.require( live_blocks == 0, live_blocks > 0 ? "leak" : "freed-too-often", sf( "path %d: %ld blocks left", path, live_blocks ) ); c.count( "heap blocks observed", mallocs ); mallocs = 0;
}
