// T04: gemm / multiply against the definition, operands placed at the edges of exactly sized heap blocks (ASan red zones)
#include "cx.hpp"
using namespace vp; using ceras::tensor;
#ifdef CBLAS
// Reference BLAS (no library is installed): column-major gemm with every transpose and leading dimension, itself bounds-monitored by ASan.
template< typename T > static void refgemm( int layout, int ta, int tb, int m, int n, int k, T alpha, T const* A, int lda, T const* B, int ldb, T beta, T* C, int ldc )
{
    if ( layout == 101 ) { std::swap( ta, tb ); std::swap( m, n ); std::swap( A, B ); std::swap( lda, ldb ); }
    for ( int j = 0; j < n; ++j ) for ( int i = 0; i < m; ++i )
    {
        double s = 0; for ( int q = 0; q < k; ++q ) { T a = ta == 111 ? A[i + (long) q * lda] : A[q + (long) i * lda]; T b = tb == 111 ? B[q + (long) j * ldb] : B[j + (long) q * ldb]; s += (double) a * b; }
        if ( beta == T{ 0 } ) C[i + (long) j * ldc] = T( alpha * s ); else C[i + (long) j * ldc] = T( alpha * s + beta * C[i + (long) j * ldc] );
    }
}
extern "C" void cblas_sgemm( CBLAS_LAYOUT l, CBLAS_TRANSPOSE a, CBLAS_TRANSPOSE b, const int M, const int N, const int K, const float al, const float* A, const int lda, const float* B, const int ldb, const float be, float* C, const int ldc ) { refgemm<float>( l, a, b, M, N, K, al, A, lda, B, ldb, be, C, ldc ); }
extern "C" void cblas_dgemm( CBLAS_LAYOUT l, CBLAS_TRANSPOSE a, CBLAS_TRANSPOSE b, const int M, const int N, const int K, const double al, const double* A, const int lda, const double* B, const int ldb, const double be, double* C, const int ldc ) { refgemm<double>( l, a, b, M, N, K, al, A, lda, B, ldb, be, C, ldc ); }
#endif
// rounding of a sum of n products of factors up to 2, for any order of summation (random signs: an ordinary error is some twenty times smaller)
template< typename T > static double bound( unsigned long n ) { return std::max( sizeof( T ) == 4 ? 2e-5 : 1e-12, 16.0 * n * ( std::numeric_limits<T>::epsilon() / 2 ) ); }
template< typename T > void raw_gemm( Ctx& c )
{
    Rng& r = c.rng; auto dim = [&]() -> unsigned long { return r.flip( 0.2 ) ? 1 : r.flip( 0.15 ) ? r.pick( { 15, 16, 17, 31, 32, 33 } ) : r.flip( 0.12 ) ? wide_dim( r ) : r.range( 1, 12 ); };
    unsigned long m, n, k; do { m = dim(), n = dim(), k = dim(); } while ( m * n * k > 120000 ); bool ta = r.flip(), tb = r.flip(); c.describe( sf( "gemm %lux%lux%lu ta=%d tb=%d", m, n, k, ta, tb ) );
    std::unique_ptr<T[]> A{ new T[m * n] }, B{ new T[n * k] }, C{ new T[m * k] }; Nd a{ Shape{ m, n } }, b{ Shape{ n, k } };
    // magnitudes: term j of every sum is a product of a huge and a tiny factor, or everything is scaled
    bool mixed = r.flip( 0.3 ); double sa = 1, sb = 1, span = sizeof( T ) == 4 ? 12 : 100; if ( !mixed && r.flip( 0.3 ) ) { sa = std::pow( 10, r.real( -1, 1 ) * span ); sb = std::pow( 10, r.real( -0.4, 0.4 ) * span ); } std::vector<double> p( n, 1 ); if ( mixed ) for ( auto& x : p ) x = std::pow( 10, r.real( -1, 1 ) * span * 2.5 );
    for ( size_t i = 0; i < a.size(); ++i ) a.v[i] = static_cast<T>( r.real( -2, 2 ) * sa * p[i % n] ); for ( size_t i = 0; i < b.size(); ++i ) b.v[i] = static_cast<T>( r.real( -2, 2 ) * sb / p[i / k] ); double sc = sa * sb; if ( mixed ) c.count( "mixed magnitudes" );
    for ( size_t i = 0; i < m; ++i ) for ( size_t j = 0; j < n; ++j ) A[ta ? j * m + i : i * n + j] = a.v[i * n + j]; for ( size_t i = 0; i < n; ++i ) for ( size_t j = 0; j < k; ++j ) B[tb ? j * n + i : i * k + j] = b.v[i * k + j];
    for ( size_t i = 0; i < m * k; ++i ) C[i] = r.flip() ? std::numeric_limits<T>::quiet_NaN() : T( 1e6 ); // the previous contents of C must not matter
    std::vector<T> a0( A.get(), A.get() + m * n ), b0( B.get(), B.get() + n * k );
    ceras::gemm( (T const*) A.get(), ta, (T const*) B.get(), tb, m, n, k, C.get() );
    Nd got{ Shape{ m, k } }; for ( size_t i = 0; i < m * k; ++i ) got.v[i] = C[i]; double e = bound<T>( n ); same( c, got, matmul( a, b ), e, e * sc, "gemm" );
    c.require( !std::memcmp( A.get(), a0.data(), sizeof( T ) * m * n ) && !std::memcmp( B.get(), b0.data(), sizeof( T ) * n * k ), "gemm-modified-operand" );
    { std::unique_ptr<T[]> D{ new T[m * k] }; ceras::gemm_cpu( (T const*) A.get(), ta, (T const*) B.get(), tb, m, n, k, D.get() ); Nd g2{ Shape{ m, k } }; for ( size_t i = 0; i < m * k; ++i ) g2.v[i] = D[i]; same( c, g2, matmul( a, b ), e, e * sc, "gemm_cpu" ); same( c, g2, got, e, e * sc, "backends-agree" ); }
    c.count( ta ? ( tb ? "transposed both" : "transposed first" ) : ( tb ? "transposed second" : "not transposed" ) );
}
SCEN( "gemm-double", 300, 20000 ) { raw_gemm<double>( c ); }
SCEN( "gemm-float", 200, 20000 ) { raw_gemm<float>( c ); }
template< typename T > void mul( Ctx& c )
{
    Rng& r = c.rng; unsigned long m = r.range( 1, 9 ), n = r.range( 1, 9 ), k = r.range( 1, 9 ); if ( r.flip( 0.15 ) ) ( r.flip( 0.34 ) ? m : r.flip() ? n : k ) = wide_dim( r ); int form = r.below( 4 ); c.describe( sf( "multiply form %d %lux%lux%lu", form, m, n, k ) ); double e = bound<T>( std::max( n, k ) );
    if ( form == 2 ) m = 1; if ( form == 3 ) k = 1;
    Nd a = rnd( r, { m, n } ), b = rnd( r, { n, k } ); quant<T>( a ); quant<T>( b ); auto ta = tens<T>( a ), tb = tens<T>( b ); Nd want = matmul( a, b );
    if ( form == 2 ) ta.reshape( { n } ); // vector * matrix
    if ( form == 3 ) { // matrix * vector: the right operand is a row of k = 1 columns reinterpreted by the library as {lhs.size(),1}; only valid for a 1-row left operand
        ta = tens<T>( rnd( r, { n } ) ); a = reshaped( nd( ta ), { 1, n } ); tb.reshape( { n } ); want = matmul( a, b ); }
    same( c, ta * tb, want, e, e, "operator*" ); same( c, ceras::multiply( ta, tb ), want, e, e, "multiply" );
    tensor<T> ans{ rshape( r, 1, 3 ), T( 5 ) }; ceras::multiply( ta, tb, ans ); same( c, ans, want, e, e, "multiply-into-used-tensor" );
    ceras::multiply( ta, tb, ans ); same( c, ans, want, e, e, "multiply-again" );
    if ( form < 2 ) { ceras::view_2d<T> x{ ta.data(), m, n }, y{ tb.data(), n, k }; std::unique_ptr<T[]> z{ new T[m * k] }; ceras::view_2d<T> zz{ z.get(), m, k }; ceras::gemm( x, y, zz ); Nd g{ Shape{ m, k } }; for ( size_t i = 0; i < m * k; ++i ) g.v[i] = z[i]; same( c, g, want, e, e, "gemm-view" ); }
    // identities
    if ( form < 2 ) { Nd id{ Shape{ n, n } }; for ( size_t i = 0; i < n; ++i ) id.v[i * n + i] = 1; same( c, ta * tens<T>( id ), a, 0, 0, "identity" ); Nd q = rnd( r, { k, 3 } ); same( c, ( ta * tb ) * tens<T>( q ), nd( ta * ( tb * tens<T>( q ) ) ), e * 20, e * 20, "associative" ); same( c, nd( tens<T>( transpose( b ) ) * tens<T>( transpose( a ) ) ), transpose( want ), e, e, "transpose-of-product" ); }
}
SCEN( "multiply-double", 150, 8000 ) { mul<double>( c ); }
SCEN( "multiply-float", 80, 5000 ) { mul<float>( c ); }
SCEN( "gemm-large", 8, 80 )
{
    auto dim = [&]{ return (unsigned long) c.rng.range( 40, c.thorough ? 300 : 140 ); }; unsigned long m = dim(), n = dim(), k = dim(); c.describe( sf( "large %lux%lux%lu", m, n, k ) ); Nd a = rnd( c.rng, { m, n } ), b = rnd( c.rng, { n, k } ); same( c, tens<double>( a ) * tens<double>( b ), matmul( a, b ), 1e-11, 1e-11, "large" );
    if ( c.kase % 2 ) same( c, tens<double>( transpose( b ) ) * tens<double>( transpose( a ) ), transpose( matmul( a, b ) ), 1e-11, 1e-11, "large-transposed" );
}
