// C21: sums, moments and order statistics
#include "sym.h"
#include <random>
// Random numbers are seeded with one of a few values instead of values of the system
static unsigned seed = 1;
unsigned std::random_device::_M_getval() { return seed; }
#include <aleph/math/Bootstrap.hh>
#include <aleph/math/KahanSummation.hh>
#include <vector>
#include <aleph/math/Quantiles.hh>
#include <aleph/math/Statistics.hh>
#include <algorithm>
#include <cmath>
#include <list>
#include <set>
#include <stdexcept>

using namespace aleph::math;
using Values = std::vector<double>;

static Values values( int n, long lo, long hi, int scale = 0 )
{
  Values r;
  for( int i = 0; i < n; ++i )
    r.push_back( sym::fixed( "v", lo, hi, scale ) );
  return r;
}

static Values small( int n, int lo, int hi )
{
  Values r;
  for( int i = 0; i < n; ++i )
    r.push_back( sym::choice( "v", lo, hi ) );
  return r;
}

//@ sums: zero to five values that are multiples of 1/4 between -1000 and 1000, plain and sorted, with an initial value; in-place operations
HARNESS(sums)
{
  symapi_linear();
  auto V = values( sym::choice( "n", 0, 5 ), -4000, 4000, 2 );
  double init = sym::fixed( "init", -100, 100 );
  double sum = init;
  for( double v : V )
    sum += v;
  ASSERT( accumulate_kahan( V.begin(), V.end(), init ) == sum, "sum" );
  if( V.size() < 4 )
    ASSERT( accumulate_kahan_sorted( V.begin(), V.end(), init ) == sum, "sum in sorted order" );
  KahanSummation<double> k( init ), zero;
  for( double v : V )
    k -= v;
  ASSERT( double( k ) == init - ( sum - init ), "subtraction" );
  k *= 2;
  k /= 4;
  ASSERT( double( k ) == ( init - ( sum - init ) ) / 2, "scaling" );
  ASSERT( double( zero ) == 0, "initial value" );
  sym::observe( sum );
  REACH("sums");
}

//@ compensation: a large and many small values: the compensated sum keeps what the plain sum would lose
HARNESS(compensation)
{
  // 2^53 is the first value to which one cannot be added
  double big = 9007199254740992.0;
  int n = sym::choice( "n", 1, 8 );
  KahanSummation<double> k( big );
  for( int i = 0; i < 2 * n; ++i )
    k += 1.0;
  ASSERT( double( k ) == big + 2 * n, "small summands are not lost" );
  for( int i = 0; i < 2 * n; ++i )
    k -= 1.0;
  ASSERT( double( k ) == big, "small summands are not lost when subtracting" );
  REACH("compensation");
}

//@ mean: one, two or four values -1000..1000 and three values -2..2
HARNESS(mean)
{
  int n = sym::choice( "n", 1, 4 );
  Values V = n == 3 ? small( 3, -2, 2 ) : values( n, -1000, 1000 );
  double s = 0;
  for( double v : V )
    s += v;
  ASSERT( sym::close( sampleMean( V.begin(), V.end() ), s / n ), "mean" );
  Values none;
  ASSERT( std::isnan( sampleMean( none.begin(), none.end() ) ), "mean of nothing" );
  std::list<int> L = { 1, 2, sym::choice( "last", 2, 3 ) };
  ASSERT( sym::close( sampleMean( L.begin(), L.end() ), ( 3 + L.back() ) / 3.0 ), "mean of integers" );
  REACH("mean");
}

//@ moments: two to four values -2..2 (two to three if signs matter), value by value: variance, standard deviation, skewness, kurtosis
HARNESS(moments)
{
  int n = sym::choice( "n", 2, 4 );
  auto V = small( n, -2, 2 );
  double m = 0, m2 = 0, m3 = 0, m4 = 0;
  for( double v : V )
    m += v / n;
  for( double v : V )
  {
    double d = v - m;
    m2 += d * d;
    m3 += d * d * d;
    m4 += d * d * d * d;
  }
  double var = sampleVariance( V.begin(), V.end() );
  ASSERT( std::fabs( var - m2 / ( n - 1 ) ) < 1e-9, "variance" );
  ASSERT( std::fabs( sampleStandardDeviation( V.begin(), V.end() ) - std::sqrt( m2 / ( n - 1 ) ) ) < 1e-9, "standard deviation" );
  if( m2 > 1e-9 )
  {
    ASSERT( std::fabs( sampleSkewness( V.begin(), V.end() ) - ( m3 / n ) / std::pow( m2 / n, 1.5 ) ) < 1e-9, "skewness" );
    ASSERT( std::fabs( sampleKurtosis( V.begin(), V.end() ) - ( ( m4 / n ) / ( ( m2 / n ) * ( m2 / n ) ) - 3 ) ) < 1e-9, "kurtosis" );
    REACH("moments");
  }
  Values none, one = { 1.0 };
  ASSERT( std::isnan( sampleVariance( none.begin(), none.end() ) ) && std::isnan( sampleVariance( one.begin(), one.end() ) ), "variance needs two values" );
  ASSERT( std::isnan( sampleSkewness( none.begin(), none.end() ) ) && std::isnan( sampleKurtosis( none.begin(), none.end() ) ), "higher moments of nothing" );
}

//@ variance2: two values -20..20
HARNESS(variance2)
{
  auto V = values( 2, -20, 20 );
  double d = V[0] - V[1];
  ASSERT( sampleVariance( V.begin(), V.end() ) == d * d / 2, "variance of two values" );
  REACH("variance2");
}

//@ covariance: two series of two values -4..4 or of three values -1..1; length mismatch
HARNESS(covariance)
{
  auto V = values( 2, -4, 4 );
  auto W = values( 2, -4, 4 );
  ASSERT( sampleCovariance( V.begin(), V.end(), W.begin(), W.end() ) == ( V[0] - V[1] ) * ( W[0] - W[1] ) / 2, "covariance of two pairs" );
  auto A = small( 3, -1, 1 ), B = small( 3, -1, 1 );
  double ma = ( A[0] + A[1] + A[2] ) / 3, mb = ( B[0] + B[1] + B[2] ) / 3, s = 0;
  for( int i = 0; i < 3; ++i )
    s += ( A[i] - ma ) * ( B[i] - mb );
  ASSERT( std::fabs( sampleCovariance( A.begin(), A.end(), B.begin(), B.end() ) - s / 2 ) < 1e-9, "covariance of three pairs" );
  bool thrown = false;
  try { sampleCovariance( V.begin(), V.end(), A.begin(), A.end() ); } catch( std::runtime_error& ) { thrown = true; }
  ASSERT( thrown, "lengths have to match" );
  ASSERT( std::isnan( sampleCovariance( V.begin(), V.begin() + 1, W.begin(), W.begin() + 1 ) ), "covariance needs two pairs" );
  REACH("covariance");
}

// Number of values below and up to a value
static void isMedian( const Values& V, double m )
{
  int n = V.size(), k = n / 2;
  Values S = V;
  for( int i = 0; i < n; ++i ) // sorts without branches
    for( int j = 0; j + 1 < n; ++j )
    {
      double a = sym::min( S[j], S[j+1] ), b = sym::max( S[j], S[j+1] );
      S[j] = a; S[j+1] = b;
    }
  ASSERT( m == ( n % 2 ? S[k] : ( S[k-1] + S[k] ) / 2 ), "median" );
}

//@ middle: one to five values -1000..1000 in any order
HARNESS(middle)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 5 );
  auto V = values( n, -1000, 1000 );
  auto W = V;
  isMedian( V, median( V.begin(), V.end() ) );
  ASSERT( W == V, "the values keep their order" );
  REACH("middle");
}

//@ t_middle: six values -1000..1000 in any order
HARNESS(t_middle)
{
  symapi_linear();
  auto V = values( 6, -1000, 1000 );
  isMedian( V, median( V.begin(), V.end() ) );
  REACH("T:middle");
}

//@ percentile: position of a percentile for 1..1000 samples and percentages 1..100
HARNESS(percentile)
{
  int n = 1 << sym::choice( "logarithm", 0, 6 );
  int k = sym::integer( "k", 1, 256 );
  unsigned i = Bootstrap::index( n, k / 256.0 );
  ASSERT( i < unsigned( n ), "position within the samples" );
  ASSERT( long( i ) * 256 < long( n ) * k && long( i + 1 ) * 256 >= long( n ) * k, "smallest position that covers the share" );
  REACH("percentile");
}

//@ replicates: one to three replicates of three values -100..100 (one concrete sequence of random numbers): number and range of replicates
HARNESS(replicates)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 3 );
  double v = sym::fixed( "v", -100, 100 );
  double d = sym::fixed( "d", 0, 10 );
  Values V = { v, v + d, v }, R, S = { v, v, v };
  auto sum = [] ( Values::iterator a, Values::iterator b ) { double s = 0; for( ; a != b; ++a ) s += *a; return s; };
  Bootstrap b;
  b.makeReplicates( n, V.begin(), V.end(), sum, std::back_inserter( R ) );
  ASSERT( R.size() == std::size_t( n ), "number of replicates" );
  for( double r : R )
    ASSERT( sym::both( r >= 3 * v, r <= 3 * v + 3 * d ), "a replicate has as many values as the sample" );
  ASSERT( b.standardError( 2, S.begin(), S.end(), sum ) == 0, "standard error of a constant" );
  auto I = b.percentileConfidenceInterval( 4, 0.5, S.begin(), S.end(), sum );
  ASSERT( I.first == 3 * v && I.second == 3 * v, "confidence interval of a constant" );
  auto J = b.basicConfidenceInterval( 4, 0.5, S.begin(), S.end(), sum );
  ASSERT( J.first == 3 * v && J.second == 3 * v, "basic confidence interval of a constant" );
  REACH("replicates");
}

//@ many: eight to sixteen values of which two are symbolic in -1000..1000: sum, median; mean for eight and sixteen values
HARNESS(many)
{
  symapi_linear();
  int n = sym::choice( "n", 8, 16 );
  Values V;
  for( int i = 0; i < n; ++i )
    V.push_back( double( i * 7 % 17 ) * 50 - 400 );
  V[2] = sym::fixed( "v", -1000, 1000 );
  V[ std::size_t( n ) - 2 ] = sym::fixed( "w", -1000, 1000 );
  double sum = 0;
  for( double v : V )
    sum += v;
  ASSERT( accumulate_kahan( V.begin(), V.end(), 0.0 ) == sum, "sum" );
  if( n == 8 || n == 16 )
    ASSERT( sampleMean( V.begin(), V.end() ) == sum / n, "mean" );
  double m = median( V.begin(), V.end() );
  std::sort( V.begin(), V.end() );
  std::size_t k = V.size() / 2;
  ASSERT( m == ( n % 2 ? V[k] : ( V[k-1] + V[k] ) / 2 ), "median" );
  REACH("many");
}

//@ manymoments: eight to twelve values of which one is taken from -5..5 value by value: variance, standard deviation, skewness, kurtosis, covariance with their positions
HARNESS(manymoments)
{
  int n = sym::choice( "n", 8, 12 );
  Values V, W;
  for( int i = 0; i < n; ++i )
  {
    V.push_back( double( i * 5 % 11 ) - 3 );
    W.push_back( double( i ) );
  }
  V[6] = sym::choice( "v", -5, 5 );
  double m = 0, m2 = 0, m3 = 0, m4 = 0, c = 0;
  for( double v : V )
    m += v / n;
  for( int i = 0; i < n; ++i )
  {
    double d = V[ std::size_t( i ) ] - m;
    m2 += d * d;
    m3 += d * d * d;
    m4 += d * d * d * d;
    c  += d * ( i - ( n - 1 ) / 2.0 );
  }
  ASSERT( std::fabs( sampleMean( V.begin(), V.end() ) - m ) < 1e-9, "mean" );
  ASSERT( std::fabs( sampleVariance( V.begin(), V.end() ) - m2 / ( n - 1 ) ) < 1e-9, "variance" );
  ASSERT( std::fabs( sampleStandardDeviation( V.begin(), V.end() ) - std::sqrt( m2 / ( n - 1 ) ) ) < 1e-9, "standard deviation" );
  ASSERT( std::fabs( sampleSkewness( V.begin(), V.end() ) - ( m3 / n ) / std::pow( m2 / n, 1.5 ) ) < 1e-9, "skewness" );
  ASSERT( std::fabs( sampleKurtosis( V.begin(), V.end() ) - ( ( m4 / n ) / ( ( m2 / n ) * ( m2 / n ) ) - 3 ) ) < 1e-9, "kurtosis" );
  ASSERT( std::fabs( sampleCovariance( V.begin(), V.end(), W.begin(), W.end() ) - c / ( n - 1 ) ) < 1e-9, "covariance" );
  REACH("manymoments");
}

//@ bootstrap: two to seven replicates of three to eight values, seeded with four concrete values: samples are drawn from all values, standard error and intervals are those of the replicates
HARNESS(bootstrap)
{
  seed = unsigned( sym::choice( "seed", 0, 3 ) );
  int n = sym::choice( "n", 2, 7 ), size = sym::choice( "size", 3, 8 );
  Values V, R;
  std::set<double> drawn;
  double total = 0;
  for( int i = 0; i < size; ++i )
  {
    V.push_back( double( i * i ) / 2 + 1 );
    total += V.back();
  }
  auto sum = [] ( Values::iterator a, Values::iterator b ) { double s = 0; for( ; a != b; ++a ) s += *a; return s; };
  Bootstrap().makeReplicates( 100, V.begin(), V.end(), [&drawn] ( Values::iterator a, Values::iterator b ) { drawn.insert( a, b ); return 0.0; }, std::back_inserter( R ) );
  ASSERT( R.size() == 100 && drawn == std::set<double>( V.begin(), V.end() ), "samples are drawn from all values" );
  R.clear();
  Bootstrap().makeReplicates( unsigned( n ), V.begin(), V.end(), sum, std::back_inserter( R ) );
  ASSERT( R.size() == std::size_t( n ), "number of replicates" );
  double mean = 0, squares = 0;
  for( double r : R )
    mean += r / n;
  for( double r : R )
    squares += ( r - mean ) * ( r - mean );
  double se = std::sqrt( squares / ( n - 1 ) );
  ASSERT( std::fabs( Bootstrap().standardError( unsigned( n ), V.begin(), V.end(), sum ) - se ) < 1e-9, "standard error is the standard deviation of the replicates" );
  std::sort( R.begin(), R.end() );
  for( double alpha : { 0.25, 0.5 } )
  {
    double lower = R[ Bootstrap::index( unsigned( n ), alpha / 2 ) ], upper = R[ Bootstrap::index( unsigned( n ), 1 - alpha / 2 ) ];
    auto I = Bootstrap().percentileConfidenceInterval( unsigned( n ), alpha, V.begin(), V.end(), sum );
    auto J = Bootstrap().basicConfidenceInterval( unsigned( n ), alpha, V.begin(), V.end(), sum );
    auto K = Bootstrap().studentConfidenceInterval( unsigned( n ), alpha, V.begin(), V.end(), sum );
    ASSERT( I.first == lower && I.second == upper, "percentiles of the replicates" );
    ASSERT( J.first == 2 * total - upper && J.second == 2 * total - lower, "percentiles of the replicates mirrored at the estimate" );
    double t = boost::math::quantile( boost::math::students_t( size - 1.0 ), 1 - alpha );
    ASSERT( std::fabs( K.first - total + t * se ) < 1e-9 && std::fabs( K.second - total - t * se ) < 1e-9, "multiples of the standard error around the estimate" );
  }
  REACH("bootstrap");
}
