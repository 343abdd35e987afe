// Runtime-monitoring harness core: scenario registry, deterministic per-case PRNG, forked workers whose death
// (sanitizer report, assertion, signal, hang) is attributed to the running case, observation counters.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp
{
    using u64 = std::uint64_t;
    inline u64 mix64( u64 z ) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    inline u64 hash_str( std::string const& s, u64 h = 1469598103934665603ULL ) { for ( unsigned char ch : s ) { h ^= ch; h *= 1099511628211ULL; } return mix64( h ); }

    struct Rng
    {
        u64 s{1}; u64 h{0};
        explicit Rng( u64 seed = 1 ) : s{seed} {}
        u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = mix64( s ); h = mix64( h ^ z ); return z; }
        u64 below( u64 n ) { return n ? next() % n : 0; }
        long range( long lo, long hi ) { return lo + static_cast<long>( below( static_cast<u64>( hi - lo + 1 ) ) ); } // inclusive
        double unit() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
        double real( double lo, double hi ) { return lo + ( hi - lo ) * unit(); }
        bool flip( double p = 0.5 ) { return unit() < p; }
        template< typename C > auto const& pick( C const& c ) { return c[ below( c.size() ) ]; }
        template< typename T > T pick( std::initializer_list<T> l ) { return *( l.begin() + below( l.size() ) ); }
    };

    struct Failure { std::string kind, detail; };

    inline std::string sf( char const* f, ... )
    {
        char buf[4096]; va_list ap; va_start( ap, f ); vsnprintf( buf, sizeof buf, f, ap ); va_end( ap ); return buf;
    }

    constexpr int MAXC = 200;
    constexpr u64 HT = 1u << 18;
    struct Shared
    {
        volatile long scen, kase, done;   // done: cases completed (also after death: counted by parent)
        volatile long in_case;
        char desc[2048];
        u64 evals, checks, nontrivial;
        int ncounter; struct { char name[64]; u64 n; } counter[MAXC];
        int nsample; char sample[16][600];
        int nviol; struct { char scen[80]; long kase; char kind[200]; char detail[3000]; } viol[64];
        u64 dropped_viol;
        u64 htn, cfn; u64 ht[HT]; u64 cf[HT];
    };
    inline Shared* sh = nullptr;

    inline void ht_add( u64* t, u64& n, u64 v )
    {
        if ( !v ) v = 1; if ( n > HT * 3 / 4 ) return;
        for ( u64 i = v & ( HT - 1 );; i = ( i + 1 ) & ( HT - 1 ) ) { if ( t[i] == v ) return; if ( !t[i] ) { t[i] = v; ++n; return; } }
    }

    struct Ctx
    {
        Rng rng; std::string scen; long kase; bool thorough; u64 checks = 0; std::string desc;
        void describe( std::string const& s ) { desc += desc.empty() ? s : "; " + s; std::snprintf( sh->desc, sizeof sh->desc, "%s", desc.c_str() ); }
        [[noreturn]] void fail( std::string kind, std::string detail ) { throw Failure{ kind, detail }; }
        void require( bool ok, std::string const& kind, std::string const& detail = "" ) { ++checks; if ( !ok ) fail( kind, detail ); }
        void count( char const* name, u64 n = 1 )
        {
            for ( int i = 0; i < sh->ncounter; ++i ) if ( !std::strcmp( sh->counter[i].name, name ) ) { sh->counter[i].n += n; return; }
            if ( sh->ncounter < MAXC ) { std::snprintf( sh->counter[sh->ncounter].name, 64, "%s", name ); sh->counter[sh->ncounter++].n = n; }
        }
    };

    struct Scenario { std::string name; long quick, thorough; std::function<void( Ctx& )> body; };
    inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
    struct Reg { Reg( char const* n, long q, long t, std::function<void( Ctx& )> b ) { scenarios().push_back( { n, q, t, b } ); } };
#define VP_CAT2(a,b) a##b
#define VP_CAT(a,b) VP_CAT2(a,b)
#define SCEN( NAME, Q, T ) \
    static void VP_CAT(scen_,__LINE__)( vp::Ctx& ); \
    static vp::Reg VP_CAT(reg_,__LINE__){ NAME, Q, T, VP_CAT(scen_,__LINE__) }; \
    static void VP_CAT(scen_,__LINE__)( [[maybe_unused]] vp::Ctx& c )

    inline std::function<void( Ctx& )>& before_case() { static std::function<void( Ctx& )> f = []( Ctx& ) {}; return f; }

    // ---- running something that may die -----------------------------------------------------------------
    struct Death { bool died = false; std::string kind; std::string text; int code = 0; };

    inline std::string read_file( std::string const& p, size_t cap = 400000 )
    {
        std::string s; FILE* f = std::fopen( p.c_str(), "r" ); if ( !f ) return s; char b[65536]; size_t n;
        while ( s.size() < cap && ( n = std::fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, n ); std::fclose( f ); return s;
    }

    inline std::string first_line_with( std::string const& t, char const* what )
    {
        auto p = t.find( what ); if ( p == std::string::npos ) return ""; auto b = t.rfind( '\n', p ); b = b == std::string::npos ? 0 : b + 1;
        auto e = t.find( '\n', p ); auto s = t.substr( b, e == std::string::npos ? e : e - b ); return s.substr( 0, 300 );
    }

    // the first few frames lying in the code under test, function names dropped (they are template-heavy)
    inline std::string frames( std::string const& t )
    {
        std::string out; std::istringstream is( t ); std::string l; int n = 0;
        while ( n < 6 && std::getline( is, l ) )
        {
            auto p = l.find( "/repo/include/" ); if ( p == std::string::npos || l.find( "    #" ) == std::string::npos ) continue;
            auto e = l.find_first_of( " )", p ); out += " " + l.substr( p + 6, ( e == std::string::npos ? l.size() : e ) - p - 6 ); ++n;
        }
        return out;
    }

    inline Death classify( int status, std::string const& err )
    {
        Death d; d.code = status;
        std::string s;
        if ( !( s = first_line_with( err, "ERROR: AddressSanitizer" ) ).empty() )
        {
            auto p = s.find( "AddressSanitizer: " ); auto k = s.substr( p + 18 ); k = k.substr( 0, k.find( ' ' ) );
            if ( k == "SEGV" || k == "ABRT" || k == "BUS" || k == "FPE" || k == "ILL" ) k = "SEGV";
            d.died = true; d.kind = "crash:asan:" + k; d.text = s + " |" + frames( err );
        }
        else if ( !( s = first_line_with( err, "WARNING: ThreadSanitizer" ) ).empty() )
        {
            auto p = s.find( "ThreadSanitizer: " ); auto k = s.substr( p + 17 ); k = k.substr( 0, k.find( " (" ) ); std::replace( k.begin(), k.end(), ' ', '-' );
            d.died = true; d.kind = "tsan:" + k; d.text = s + " |" + frames( err );
        }
        else if ( !( s = first_line_with( err, "runtime error:" ) ).empty() )
        {
            d.died = true; d.kind = "crash:ubsan"; d.text = s;
        }
        else if ( !( s = first_line_with( err, "ERROR: LeakSanitizer" ) ).empty() ) { d.died = true; d.kind = "leak"; d.text = s + " |" + frames( err ); }
        else if ( WIFSIGNALED( status ) || ( WIFEXITED( status ) && WEXITSTATUS( status ) != 0 ) )
        {
            d.died = true;
            if ( WIFEXITED( status ) && WEXITSTATUS( status ) == 97 ) d.kind = "hang";
            else if ( !( s = first_line_with( err, "Assertion" ) ).empty() ) { d.kind = s.find( "/c++/" ) != std::string::npos && s.find( "bits/" ) != std::string::npos ? "crash:library-assertion" : "abort:assertion"; /* the standard library's own bound checks are not the answer of the code */ auto at = s.find( "Assertion" ); d.text = at > 200 ? s.substr( at - 200 ) : s; }
            else if ( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGKILL ) d.kind = "killed";
            else if ( WIFSIGNALED( status ) ) d.kind = sf( "signal:%d", WTERMSIG( status ) );
            else d.kind = sf( "exit:%d", WEXITSTATUS( status ) );
            if ( d.text.empty() ) d.text = err.substr( 0, 300 );
        }
        for ( auto& ch : d.text ) if ( ch == '\n' ) ch = ' ';
        return d;
    }

    inline std::string tmp_dir() { static std::string d = []{ char const* e = std::getenv( "VP_TMP" ); return std::string( e ? e : "/tmp" ); }(); return d; }
    inline void on_alarm( int ) { _exit( 97 ); }

    // Run f in a forked child. The child's exception is reported as kind "exception:<what>".
    inline Death isolated( std::function<void()> f, int seconds = 60 )
    {
        std::string path = tmp_dir() + sf( "/iso.%d.%d", getpid(), rand() );
        fflush( nullptr );
        pid_t p = fork();
        if ( p == 0 )
        {
            int fd = open( path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 ); dup2( fd, 2 ); dup2( fd, 1 ); signal( SIGALRM, on_alarm ); alarm( seconds );
            rlimit rl{0,0}; setrlimit( RLIMIT_CORE, &rl );
            try { f(); } catch ( Failure& e ) { fprintf( stderr, "FAILURE %s: %s\n", e.kind.c_str(), e.detail.c_str() ); fflush( nullptr ); _exit( 95 ); }
            catch ( std::exception& e ) { fprintf( stderr, "EXCEPTION %s\n", e.what() ); fflush( nullptr ); _exit( 96 ); }
            catch ( ... ) { _exit( 96 ); }
            fflush( nullptr ); _exit( 0 );
        }
        int st = 0; waitpid( p, &st, 0 );
        std::string err = read_file( path ); unlink( path.c_str() );
        Death d = classify( st, err );
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 96 ) { d.died = true; d.kind = "exception"; d.text = err.substr( 0, 300 ); }
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 95 ) { d.died = true; d.kind = "failure"; d.text = err.substr( 0, 1500 ); }
        return d;
    }

    inline std::string json_escape( std::string const& s )
    {
        std::string o; for ( unsigned char ch : s ) { if ( ch == '"' || ch == '\\' ) { o += '\\'; o += ch; } else if ( ch < 32 || ch > 126 ) o += sf( "\\u%04x", ch ); else o += ch; } return o;
    }

    struct Item { int s; long k; };

    inline u64 case_seed( u64 seed, std::string const& scen, long k ) { return mix64( mix64( seed * 1000003 + 17 ) ^ hash_str( scen ) ^ mix64( k + 1 ) ); }

    inline void record( std::string const& scen, long k, std::string const& kind, std::string const& detail )
    {
        if ( sh->nviol >= 64 ) { ++sh->dropped_viol; return; }
        auto& v = sh->viol[sh->nviol]; std::snprintf( v.scen, sizeof v.scen, "%s", scen.c_str() ); v.kase = k;
        std::snprintf( v.kind, sizeof v.kind, "%s", kind.c_str() ); std::snprintf( v.detail, sizeof v.detail, "%s", detail.c_str() ); ++sh->nviol;
    }

    inline int main_( int argc, char** argv )
    {
        u64 seed = 1; bool thorough = false; int shard = 0, shards = 1; std::string only, out; long only_case = -1; bool list = false; double scale = 1; int hang_s = 120; bool nofork = false;
        for ( int i = 1; i < argc; ++i )
        {
            std::string a = argv[i]; auto nx = [&]{ return std::string( argv[++i] ); };
            if ( a == "--seed" ) seed = std::stoull( nx() ); else if ( a == "--tier" ) thorough = nx() == "thorough";
            else if ( a == "--shard" ) std::sscanf( nx().c_str(), "%d/%d", &shard, &shards ); else if ( a == "--only" ) only = nx();
            else if ( a == "--case" ) only_case = std::stol( nx() ); else if ( a == "--out" ) out = nx(); else if ( a == "--list" ) list = true;
            else if ( a == "--scale" ) scale = std::stod( nx() ); else if ( a == "--hang" ) hang_s = std::stoi( nx() ); else if ( a == "--nofork" ) nofork = true;
        }
        if ( list ) { for ( auto& s : scenarios() ) printf( "%s %ld %ld\n", s.name.c_str(), s.quick, s.thorough ); return 0; }
        sh = (Shared*) mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
        std::memset( sh, 0, sizeof( Shared ) );
        rlimit rl{0,0}; setrlimit( RLIMIT_CORE, &rl );
        std::vector<Item> items;
        long maxn = 0; for ( auto& s : scenarios() ) maxn = std::max( maxn, thorough ? s.thorough : s.quick );
        long idx = 0;
        for ( int s = 0; s < (int) scenarios().size(); ++s )
        {
            auto& sc = scenarios()[s]; if ( !only.empty() && sc.name != only ) continue;
            long n = std::max( 1L, (long) ( ( thorough ? sc.thorough : sc.quick ) * scale ) );
            for ( long k = 0; k < n; ++k, ++idx )
            {
                if ( only_case >= 0 ) { if ( k == 0 ) items.push_back( { s, only_case } ); continue; }
                if ( (long) ( mix64( idx ) % shards ) == shard ) items.push_back( { s, k } );
            }
        }
        auto run_case = [&]( Item it )
        {
            auto& sc = scenarios()[it.s];
            Ctx c; c.rng = Rng{ case_seed( seed, sc.name, it.k ) }; c.scen = sc.name; c.kase = it.k; c.thorough = thorough;
            sh->desc[0] = 0;
            alarm( hang_s );
            try { before_case()( c ); sc.body( c ); }
            catch ( Failure& f ) { alarm( 0 ); record( sc.name, it.k, f.kind, c.desc + " :: " + f.detail ); ++sh->evals; return; }
            catch ( std::exception& e ) { alarm( 0 ); record( sc.name, it.k, "exception", c.desc + " :: " + e.what() ); ++sh->evals; return; }
            alarm( 0 );
            ++sh->evals; sh->checks += c.checks;
            if ( c.checks )
            {
                ++sh->nontrivial; ht_add( sh->ht, sh->htn, mix64( c.rng.h ^ hash_str( sc.name ) ) ); u64 before = sh->cfn; ht_add( sh->cf, sh->cfn, hash_str( sc.name + c.desc ) );
                if ( sh->cfn != before && sh->nsample < 16 && ( it.k == 0 ) ) std::snprintf( sh->sample[sh->nsample++], 600, "%s#%ld: %s [%llu oracle comparisons]", sc.name.c_str(), it.k, c.desc.c_str(), (unsigned long long) c.checks );
            }
        };
        signal( SIGALRM, on_alarm );
        if ( nofork ) { for ( auto it : items ) run_case( it ); }
        else
        {
            size_t next = 0; std::map<int, int> deaths; std::map<int,int> hangs;
            std::string errp = tmp_dir() + sf( "/err.%d", getpid() );
            while ( next < items.size() )
            {
                fflush( nullptr );
                sh->done = next; sh->in_case = 0;
                pid_t p = fork();
                if ( p == 0 )
                {
                    int fd = open( errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600 ); dup2( fd, 2 ); int nul = open( "/dev/null", O_WRONLY ); dup2( nul, 1 );
                    signal( SIGALRM, on_alarm );
                    for ( size_t i = next; i < items.size(); ++i )
                    {
                        sh->done = i;
                        if ( deaths[items[i].s] >= 3 ) continue; // already reported three times
                        sh->in_case = 1; if ( ftruncate( fd, 0 ) ) {}
                        run_case( items[i] );
                        sh->in_case = 0;
                    }
                    sh->done = items.size(); fflush( nullptr ); 
#ifdef VP_EXIT_NORMALLY
                    exit( 0 );
#endif
                    _exit( 0 );
                }
                int st = 0; waitpid( p, &st, 0 );
                std::string err = read_file( errp );
                size_t at = sh->done;
                Death d = classify( st, err );
                if ( at >= items.size() && !d.died ) break;
                if ( at >= items.size() ) at = items.size() - 1;
                Item it = items[at];
                if ( !d.died ) { d.kind = "vanished"; d.text = "worker ended early"; }
                if ( d.kind == "killed" ) { printf( "INCONCLUSIVE %s %ld killed\n", scenarios()[it.s].name.c_str(), it.k ); }
                else if ( d.kind == "hang" && !hangs[it.s]++ ) { next = at; continue; } // run it once more before believing it
                else { record( scenarios()[it.s].name, it.k, d.kind, std::string( sh->desc ) + " :: " + d.text ); ++sh->evals; }
                deaths[it.s]++;
                next = at + 1;
            }
            unlink( errp.c_str() );
        }
        std::string o = "{";
        o += sf( "\"evaluations\":%llu,\"checks\":%llu,\"nontrivial\":%llu,\"dropped\":%llu,\"planned\":%zu,", (unsigned long long) sh->evals, (unsigned long long) sh->checks, (unsigned long long) sh->nontrivial, (unsigned long long) sh->dropped_viol, items.size() );
        o += "\"counters\":{"; for ( int i = 0; i < sh->ncounter; ++i ) o += sf( "%s\"%s\":%llu", i ? "," : "", json_escape( sh->counter[i].name ).c_str(), (unsigned long long) sh->counter[i].n ); o += "},";
        o += "\"samples\":["; for ( int i = 0; i < sh->nsample; ++i ) o += std::string( i ? "," : "" ) + "\"" + json_escape( sh->sample[i] ) + "\""; o += "],";
        o += "\"violations\":["; for ( int i = 0; i < sh->nviol; ++i ) { auto& v = sh->viol[i]; o += std::string( i ? "," : "" ) + "{\"scenario\":\"" + json_escape( v.scen ) + sf( "\",\"case\":%ld,", v.kase ) + "\"kind\":\"" + json_escape( v.kind ) + "\",\"detail\":\"" + json_escape( v.detail ) + "\"}"; } o += "],";
        auto dump = [&]( char const* n, u64* t ) { o += std::string( "\"" ) + n + "\":["; bool f = true; for ( u64 i = 0; i < HT; ++i ) if ( t[i] ) { o += sf( f ? "%llu" : ",%llu", (unsigned long long) t[i] ); f = false; } o += "]"; };
        dump( "inputs", sh->ht ); o += ","; dump( "configs", sh->cf ); o += "}\n";
        if ( out.empty() )
        {
            printf( "evaluations %llu checks %llu nontrivial %llu distinct %llu configs %llu\n", (unsigned long long) sh->evals, (unsigned long long) sh->checks, (unsigned long long) sh->nontrivial, (unsigned long long) sh->htn, (unsigned long long) sh->cfn );
            for ( int i = 0; i < sh->ncounter; ++i ) printf( "  %s = %llu\n", sh->counter[i].name, (unsigned long long) sh->counter[i].n );
            for ( int i = 0; i < sh->nviol; ++i ) printf( "VIOL %s#%ld %s | %s\n", sh->viol[i].scen, sh->viol[i].kase, sh->viol[i].kind, sh->viol[i].detail );
        }
        else { FILE* f = std::fopen( out.c_str(), "w" ); std::fwrite( o.data(), 1, o.size(), f ); std::fclose( f ); }
        return sh->nviol ? 3 : 0;
    }
}
#ifndef VP_NO_MAIN
int main( int argc, char** argv ) { return vp::main_( argc, argv ); }
#endif
