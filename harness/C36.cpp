// C36: descriptors and estimators on point clouds
// flags: -DALEPH_WITH_EIGEN -DEIGEN_DONT_VECTORIZE -DEIGEN_MAX_ALIGN_BYTES=0 -I/usr/include/eigen3
#include "sym.h"
#include <aleph/containers/DataDescriptors.hh>
#include <aleph/containers/DimensionalityEstimators.hh>
#include <aleph/containers/FractalDimension.hh>
#include <aleph/containers/MeanShift.hh>
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <aleph/math/KernelDensityEstimator.hh>
#include <algorithm>
#include <array>
#include <cmath>
#include <iterator>
#include <vector>

using namespace aleph::containers;
typedef PointCloud<double> Cloud;
typedef aleph::geometry::distances::Manhattan<double> M;
typedef aleph::geometry::distances::Euclidean<double> E;
template <class D> using Wrapper = aleph::geometry::BruteForce<Cloud, D>;

struct P { double x, y; };
typedef std::vector<P> Points;

static Points points( int n, long hi, bool line = false )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::fixed( "x", -hi, hi, 1 );
    p.y = line ? 0 : sym::fixed( "y", -hi, hi, 1 );
    r.push_back( p );
  }
  return r;
}

static Points smallPoints( int n, int hi )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = double( sym::choice( "x", 0, hi ) );
    p.y = double( sym::choice( "y", 0, hi ) );
    r.push_back( p );
  }
  return r;
}

static Cloud cloud( const Points& p )
{
  Cloud c( p.size(), 2 );
  for( std::size_t i = 0; i < p.size(); ++i )
  {
    std::vector<double> v = { p[i].x, p[i].y };
    c.set( i, v.begin(), v.end() );
  }
  return c;
}

static double manhattan( P p, P q ) { return sym::abs( p.x - q.x ) + sym::abs( p.y - q.y ); }
static double squared( P p, P q ) { return ( p.x - q.x ) * ( p.x - q.x ) + ( p.y - q.y ) * ( p.y - q.y ); }
static double euclidean( P p, P q ) { return std::sqrt( squared( p, q ) ); }

//@ eccentricities: one, two or four points with coordinates between -50 and 50 in steps of 1/2, Manhattan distances, orders zero and one
HARNESS(eccentricities)
{
  symapi_linear();
  int n = sym::choice( "n", 0, 3 );
  n = n == 3 ? 4 : n;
  auto A = points( n, 100 );
  auto c = cloud( A );
  auto largest = aleph::containers::eccentricities<M>( c, 0 );
  auto average = aleph::containers::eccentricities<M>( c );
  ASSERT( largest.size() == A.size() && average.size() == A.size(), "one value per point" );
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    double a = 0, b = 0;
    for( auto&& q : A )
    {
      a  = sym::max( a, manhattan( A[i], q ) );
      b += manhattan( A[i], q );
    }
    ASSERT( largest[i] == a, "largest distance" );
    ASSERT( average[i] * n == b, "average distance" );
  }
  REACH("eccentricities");
}

//@ eccentricities2: one to three points with coordinates 0..2, Euclidean distances, orders zero, one and two
HARNESS(eccentricities2)
{
  int n = sym::choice( "n", 1, 3 );
  auto A = smallPoints( n, n == 3 ? 1 : 2 );
  auto c = cloud( A );
  for( unsigned order = 0; order <= 2; ++order )
  {
    auto e = aleph::containers::eccentricities<E>( c, order );
    ASSERT( e.size() == A.size(), "one value per point" );
    for( std::size_t i = 0; i < A.size(); ++i )
    {
      double a = 0;
      for( auto&& q : A )
      {
        double d = euclidean( A[i], q );
        a = order == 0 ? std::max( a, d ) : a + std::pow( d, double( order ) ) / n;
      }
      if( order == 2 )
        a = std::sqrt( a );
      ASSERT( sym::close( e[i], a ), "definition of eccentricity" );
    }
  }
  REACH("eccentricities");
}

//@ gaussian: one to three points with coordinates 0..2, bandwidths 1, 2, 3: average over all points not farther than the bandwidth
HARNESS(gaussian)
{
  int n = sym::choice( "n", 1, 3 );
  auto A = smallPoints( n, n == 3 ? 1 : 2 );
  double h = sym::choice( "bandwidth", 1, 3 );
  auto e = estimateDensityTruncatedGaussian( cloud( A ), h );
  ASSERT( e.size() == A.size(), "one value per point" );
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    double a = 0;
    for( auto&& q : A )
      if( squared( A[i], q ) <= h * h )
        a += std::exp( -squared( A[i], q ) / ( 2 * h ) );
    ASSERT( sym::close( e[i], a / n ), "average over close points" );
  }
  REACH("gaussian");
}

static std::vector<double> nearest( const Points& A, std::size_t i, bool root )
{
  std::vector<double> d;
  for( auto&& q : A )
    d.push_back( root ? euclidean( A[i], q ) : manhattan( A[i], q ) );
  std::sort( d.begin(), d.end() );
  return d;
}

//@ measure: one or two points of the plane or four points of a line with coordinates between -10 and 10 in steps of 1/2, Manhattan distances
HARNESS(measure)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 3 );
  n = n == 3 ? 4 : n;
  int k = sym::choice( "k", 1, n );
  auto A = points( n, 20, n == 4 );
  auto e = estimateDensityDistanceToMeasure<M>( cloud( A ), unsigned( k ) );
  ASSERT( e.size() == A.size(), "one value per point" );
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    // smallest sum of k distances
    double best = 0;
    bool first = true;
    for( unsigned s = 0; s < 1u << n; ++s )
    {
      double sum = 0;
      int size = 0;
      for( std::size_t j = 0; j < A.size(); ++j )
        if( s >> j & 1 )
        {
          sum += manhattan( A[i], A[j] );
          ++size;
        }
      if( size != k )
        continue;
      best  = first ? sum : sym::min( best, sum );
      first = false;
    }
    ASSERT( -e[i] * n == best, "distances to the nearest neighbours" );
  }
  REACH("measure");
}

static void lens( int n, long hi, bool line = false )
{
  symapi_linear();
  auto A = points( n, hi, line );
  auto e = estimateLensDataDepth<M>( cloud( A ) );
  ASSERT( e.size() == A.size(), "one value per point" );
  for( std::size_t k = 0; k < A.size(); ++k )
  {
    unsigned count = 0;
    for( std::size_t i = 0; i < A.size(); ++i )
      for( std::size_t j = 0; j < i; ++j )
      {
        double d = manhattan( A[i], A[j] );
        if( i != k && j != k && sym::both( manhattan( A[i], A[k] ) <= d, manhattan( A[j], A[k] ) <= d ) )
        {
          ++count;
          REACH("inside");
        }
      }
    ASSERT( e[k] == count, "number of lenses that contain the point" );
  }
}

//@ lens3: three points with coordinates between -50 and 50 in steps of 1/2, Manhattan distances
HARNESS(lens3) { lens( 3, 100 ); }
//@ lens4: four points of a line with coordinates between -50 and 50 in steps of 1/2, Manhattan distances
HARNESS(lens4) { lens( 4, 100, true ); }
//@ t_lens4: four points of the plane with coordinates between -1.5 and 1.5 in steps of 1/2, Manhattan distances
HARNESS(t_lens4) { lens( 4, 3 ); }
//@ lensfew: zero to two points: no lens contains another point
HARNESS(lensfew)
{
  int n = sym::choice( "n", 0, 2 );
  auto A = points( n, 100 );
  auto e = estimateLensDataDepth<E>( cloud( A ) );
  ASSERT( e == std::vector<unsigned>( std::size_t( n ), 0 ), "no lens" );
  REACH("few");
}

//@ correlation: two or three points with coordinates between -50 and 50 in steps of 1/2, Manhattan distances
HARNESS(correlation)
{
  symapi_linear();
  int n = sym::choice( "n", 2, 3 );
  auto A = points( n, 100 );
  auto s = correlationDimensionIntegral<M>( cloud( A ) );
  std::size_t pairs = std::size_t( n * ( n - 1 ) / 2 );
  std::vector<double> d;
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < i; ++j )
      d.push_back( manhattan( A[ std::size_t( i ) ], A[ std::size_t( j ) ] ) );
  ASSERT( s.x.size() == s.y.size(), "as many values as positions" );
  std::size_t found = 0;
  for( std::size_t i = 0; i < s.x.size(); ++i )
  {
    ASSERT( s.x[i] > 0 && ( i == 0 || s.x[i] > s.x[i-1] ), "positions are positive and ascending" );
    int below = 0;
    bool member = false;
    for( double x : d )
    {
      if( x <= s.x[i] )
        ++below;
      member = sym::either( member, x == s.x[i] );
    }
    ASSERT( member, "positions are distances" );
    below = int( symapi_concretize( below ) );
    ASSERT( s.y[i] == below / double( pairs ), "share of pairs within the distance" );
  }
  for( double x : d )
  {
    bool member = x == 0;
    for( double y : s.x )
      member = sym::either( member, x == y );
    ASSERT( member, "all positive distances are positions" );
    ++found;
  }
  REACH("correlation");
}

//@ slope: three positions 1..4 with values 1..4: slope of the regression line of logarithms
HARNESS(slope)
{
  CorrelationDimensionSequence s;
  for( int i = 0; i < 3; ++i )
  {
    int x = sym::choice( "x", 1, 4 );
    int y = sym::choice( "y", 1, 4 );
    s.x.push_back( x );
    s.y.push_back( y );
  }
  ASSUME( s.x[0] < s.x[1] && s.x[1] < s.x[2] );
  double mx = 0, my = 0, a = 0, b = 0;
  for( std::size_t i = 0; i < 3; ++i ) { mx += std::log( s.x[i] ) / 3; my += std::log( s.y[i] ) / 3; }
  for( std::size_t i = 0; i < 3; ++i )
  {
    a += ( std::log( s.x[i] ) - mx ) * ( std::log( s.y[i] ) - my );
    b += ( std::log( s.x[i] ) - mx ) * ( std::log( s.x[i] ) - mx );
  }
  ASSERT( std::abs( correlationDimension( s ) - a / b ) < 1e-9, "slope of the regression line" );
  s.x.push_back( 5 );
  bool refused = false;
  try { correlationDimension( s ); }
  catch( std::runtime_error& ) { refused = true; }
  ASSERT( refused, "different lengths are refused" );
  REACH("slope");
}

//@ shift: one to three points on a line at positions 0, 1/2, 1, 3/2, values -4..4, zero to two neighbours, zero to two steps
HARNESS(shift)
{
  int n = sym::choice( "n", 1, 3 );
  int k = sym::choice( "k", 0, n - 1 );
  int steps = sym::choice( "steps", 0, 2 );
  Points A;
  std::vector<double> f;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::choice( "x", 0, 3 ) / 2.0;
    p.y = 0;
    for( auto&& q : A )
      ASSUME( q.x != p.x );
    A.push_back( p );
    f.push_back( double( sym::choice( "f", -1, 1 ) * 4 ) );
  }
  // neighbours are unique if there are no equal distances
  for( std::size_t i = 0; i < A.size(); ++i )
    for( std::size_t j = 0; j < A.size(); ++j )
      for( std::size_t l = 0; l < j; ++l )
        ASSUME( k + 1 == n || j == i || l == i || manhattan( A[i], A[j] ) != manhattan( A[i], A[l] ) );
  std::vector<double> r;
  meanShiftSmoothing< Wrapper<M> >( cloud( A ), f.begin(), f.end(), std::back_inserter( r ), unsigned( k ), unsigned( steps ) );
  for( int s = 0; s < steps; ++s )
  {
    std::vector<double> g;
    for( std::size_t i = 0; i < A.size(); ++i )
    {
      double limit = nearest( A, i, false )[ std::size_t( k ) ], sum = 0, weights = 0;
      for( std::size_t j = 0; j < A.size(); ++j )
      {
        double d = manhattan( A[i], A[j] );
        if( d > limit )
          continue;
        double w = d > 0 ? 1 / ( d * d ) : 1;
        sum     += w * f[j];
        weights += w;
      }
      g.push_back( sum / weights );
    }
    f = g;
  }
  ASSERT( r.size() == f.size(), "one value per point" );
  for( std::size_t i = 0; i < f.size(); ++i )
    ASSERT( std::abs( r[i] - f[i] ) < 1e-9, "average weighted by distances" );
  REACH("shift");
}

static Points onLine( int n, int hi )
{
  Points A;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::choice( "x", 0, hi );
    p.y = 0;
    A.push_back( p );
  }
  return A;
}

static bool same( double a, double b ) { return ( a != a && b != b ) || a == b || std::abs( a - b ) < 1e-9; }
static double mean( const std::vector<double>& d, int k )
{
  double s = 0;
  for( int i = 0; i < k; ++i )
    s += d[ std::size_t( i ) ];
  return s / k;
}

//@ dimensionality: four points on a line at positions 0..3, estimates from mean distances to k and k+1 nearest points
HARNESS(dimensionality)
{
  auto A = onLine( 4, 3 );
  int k = sym::choice( "k", 1, 3 );
  auto e = estimateLocalDimensionalityNearestNeighbours< M, Cloud, Wrapper<M> >( cloud( A ), unsigned( k ) );
  ASSERT( e.size() == A.size(), "one value per point" );
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    auto d = nearest( A, i, false );
    double r = mean( d, k ), s = mean( d, k + 1 );
    ASSERT( same( e[i], r / ( ( s - r ) * k ) ), "quotient of mean distances" );
  }
  REACH("dimensionality");
}

//@ regression: four points on a line at positions 0..3, estimates from mean distances to a range of nearest points
HARNESS(regression)
{
  auto A = onLine( 4, 3 );
  int a = sym::choice( "first", 1, 4 );
  int b = sym::choice( "second", 1, 4 );
  auto e = estimateLocalDimensionalityNearestNeighbours< M, Cloud, Wrapper<M> >( cloud( A ), unsigned( a ), unsigned( b ) );
  ASSERT( e.size() == A.size(), "one value per point" );
  int lo = std::min( a, b ), hi = std::max( a, b );
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    auto d = nearest( A, i, false );
    double p = 0, q = 0;
    for( int k = lo; k < hi - 1; ++k )
    {
      double r = mean( d, k ), s = mean( d, k + 1 );
      p += ( s - r ) * r / k;
      q += ( s - r ) * ( s - r );
    }
    ASSERT( same( e[i], p / q ), "slope of the regression line" );
  }
  REACH("regression");
}

//@ likelihood: four points on a line at positions 0..3, maximum likelihood estimates for a range of nearest points
HARNESS(likelihood)
{
  auto A = onLine( 4, 3 );
  int a = sym::choice( "first", 1, 4 );
  int b = sym::choice( "second", 1, 4 );
  auto e = estimateLocalDimensionalityNearestNeighboursMLE< M, Cloud, Wrapper<M> >( cloud( A ), unsigned( a ), unsigned( b ) );
  ASSERT( e.size() == A.size(), "one value per point" );
  int lo = std::min( a, b ), hi = std::max( a, b );
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    auto d = nearest( A, i, false ); // the first one is the point itself
    double sum = 0;
    for( int k = lo - 1; k < hi; ++k )
    {
      double s = 0;
      for( int j = 1; j < k; ++j )
        if( d[ std::size_t( j ) ] > 0 )
          s += std::log( d[ std::size_t( k ) ] / d[ std::size_t( j ) ] );
      if( k > 1 && s > 0 )
        sum += ( k - 1 ) / s;
    }
    ASSERT( same( e[i], sum / ( hi - lo + 1 ) ), "average of the estimates" );
  }
  REACH("likelihood");
}

//@ refused: ranges of neighbours that start at zero are refused
HARNESS(refused)
{
  auto A = onLine( 2, 1 );
  int b = sym::choice( "second", 0, 2 );
  int refused = 0;
  try { estimateLocalDimensionalityNearestNeighbours< M, Cloud, Wrapper<M> >( cloud( A ), unsigned( b ), 0u ); }
  catch( std::runtime_error& ) { ++refused; }
  try { estimateLocalDimensionalityNearestNeighboursMLE< M, Cloud, Wrapper<M> >( cloud( A ), 0u, unsigned( b ) ); }
  catch( std::runtime_error& ) { ++refused; }
  ASSERT( refused == 2, "zero neighbours are refused" );
  REACH("refused");
}

using aleph::math::KernelDensityEstimator;
using aleph::math::kernels::Epanechnikov;
using aleph::math::kernels::Gaussian;
using aleph::math::norms::Identity;

//@ epanechnikov: one, two or four values -4..4 at a symbolic position, bandwidths 1, 2 or 4
HARNESS(epanechnikov)
{
  int n = sym::choice( "n", 1, 3 );
  n = n == 3 ? 4 : n;
  double h = sym::choice( "bandwidth", 0, 2 );
  h = h == 0 ? 1 : h == 1 ? 2 : 4;
  std::vector<double> v;
  for( int i = 0; i < n; ++i )
    v.push_back( sym::fixed( "v", -4, 4 ) );
  double x = sym::fixed( "position", -4, 4 );
  double r = KernelDensityEstimator( h, 1 )( v.begin(), v.end(), x, Epanechnikov(), Identity() );
  double s = 0;
  for( double y : v )
  {
    double u = ( y - x ) / h;
    if( u >= -1 && u <= 1 )
      s += 0.75 * ( 1 - u * u );
  }
  ASSERT( r * n * h == s, "sum of kernel values" );
  REACH("epanechnikov");
}

//@ kernel: one or two values -2..2 at a position -2..2, bandwidths 1 or 2, Gaussian kernel with parameter 1 or 2, dimension 1..3
HARNESS(kernel)
{
  int n = sym::choice( "n", 1, 2 );
  double h = sym::choice( "bandwidth", 1, 2 );
  double sigma = sym::choice( "sigma", 1, 2 );
  int dimension = sym::choice( "dimension", 1, 3 );
  std::vector<double> v;
  for( int i = 0; i < n; ++i )
    v.push_back( double( sym::choice( "v", -2, 2 ) ) );
  double x = sym::choice( "position", -2, 2 );
  double r = KernelDensityEstimator( h, unsigned( dimension ) )( v.begin(), v.end(), x, Gaussian( sigma ), Identity() );
  double s = 0;
  for( double y : v )
    s += std::exp( -( y - x ) * ( y - x ) / ( h * h ) / ( 2 * sigma * sigma ) ) / ( sigma * std::sqrt( 2 * M_PI ) );
  for( int i = 0; i < dimension; ++i )
    s /= h;
  ASSERT( sym::close( r, s / n ), "sum of kernel values" );
  REACH("kernel");
}

typedef std::array<double, 2> Pair;
struct Difference
{
  Pair operator()( const Pair& a, const Pair& b ) const { return Pair{ { a[0] - b[0], a[1] - b[1] } }; }
};

//@ vectors: one or two points with coordinates 0..2 at a position 0..2, Gaussian kernel of Euclidean norms
HARNESS(vectors)
{
  int n = sym::choice( "n", 1, 2 );
  std::vector<Pair> v;
  for( int i = 0; i <= n; ++i )
  {
    Pair p;
    p[0] = sym::choice( "x", 0, 2 );
    p[1] = sym::choice( "y", 0, 2 );
    v.push_back( p );
  }
  Pair x = v.back();
  v.pop_back();
  double r = KernelDensityEstimator( 2, 2 )( v.begin(), v.end(), x, Gaussian(), aleph::math::norms::Euclidean(), Difference() );
  double s = 0;
  for( auto&& y : v )
    s += std::exp( -( ( y[0] - x[0] ) * ( y[0] - x[0] ) + ( y[1] - x[1] ) * ( y[1] - x[1] ) ) / 8 ) / std::sqrt( 2 * M_PI );
  ASSERT( sym::close( r, s / n / 4 ), "sum of kernel values" );
  REACH("vectors");
}

//@ spectral: six points on the axes at distances 0..5 from the origin, all of them neighbours: number of singular values before the largest gap
HARNESS(spectral)
{
  std::vector<int> a;
  for( int i = 0; i < 3; ++i )
    a.push_back( sym::choice( "distance", 0, 5 ) );
  Cloud c( 6, 3 );
  for( std::size_t i = 0; i < 6; ++i )
  {
    std::vector<double> p( 3, 0.0 );
    p[ i / 2 ] = i % 2 ? a[ i / 2 ] : -a[ i / 2 ];
    c.set( i, p.begin(), p.end() );
  }
  std::sort( a.begin(), a.end() );
  int first = a[2] - a[1], second = a[1] - a[0];
  ASSUME( first != second );
  auto e = estimateLocalDimensionalityPCA< M, Cloud, Wrapper<M> >( c, 5 );
  ASSERT( e == std::vector<unsigned>( 6, first > second ? 1 : 2 ), "singular values before the largest gap" );
  REACH("spectral");
}

// Eight, or seven to nine points of a line, one of which is anywhere
static Points many( bool small )
{
  int n = small ? sym::choice( "n", 7, 9 ) : 8;
  Points A;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = i * 5 % n * 3;
    p.y = 0;
    A.push_back( p );
  }
  int which = sym::choice( "which", 0, 2 );
  A[ std::size_t( which == 2 ? n - 1 : which * 4 ) ].x = small ? double( sym::choice( "x", -1, 14 ) * 2 ) : sym::fixed( "x", -3, 30 );
  return A;
}

//@ manydepths: eight points of a line, one of them anywhere, Manhattan distances: lens depths, eccentricities and distances to a measure
HARNESS(manydepths)
{
  symapi_linear();
  auto A = many( false );
  int k = sym::choice( "k", 0, 1 );
  k = k ? int( A.size() ) - 1 : 4;
  auto c = cloud( A );
  auto depths  = estimateLensDataDepth<M>( c );
  auto largest = aleph::containers::eccentricities<M>( c, 0 );
  auto average = aleph::containers::eccentricities<M>( c );
  auto measure = estimateDensityDistanceToMeasure<M>( c, unsigned( k ) );
  ASSERT( depths.size() == A.size() && largest.size() == A.size() && average.size() == A.size() && measure.size() == A.size(), "one value per point" );
  for( std::size_t p = 0; p < A.size(); ++p )
  {
    unsigned count = 0;
    for( std::size_t i = 0; i < A.size(); ++i )
      for( std::size_t j = 0; j < i; ++j )
      {
        double d = manhattan( A[i], A[j] );
        if( i != p && j != p && sym::both( manhattan( A[i], A[p] ) <= d, manhattan( A[j], A[p] ) <= d ) )
          ++count;
      }
    ASSERT( depths[p] == count, "number of lenses that contain the point" );
    auto d = nearest( A, p, false );
    double sum = 0, all = 0;
    for( std::size_t i = 0; i < d.size(); ++i )
    {
      all += d[i];
      if( int( i ) < k )
        sum += d[i];
    }
    ASSERT( largest[p] == d.back(), "largest distance" );
    ASSERT( average[p] * double( A.size() ) == all, "average distance" );
    ASSERT( -measure[p] * double( A.size() ) == sum, "distances to the nearest neighbours" );
  }
  REACH("many");
}

//@ manyestimates: seven to nine points of a line, one of them at one of sixteen positions: densities, dimensionality estimates, correlations
HARNESS(manyestimates)
{
  auto A = many( true );
  int k = sym::choice( "k", 0, 2 );
  k = k == 0 ? 2 : k == 1 ? 5 : int( A.size() ) - 1;
  auto c = cloud( A );
  auto density = estimateDensityTruncatedGaussian( c, double( k ) );
  auto e1 = estimateLocalDimensionalityNearestNeighbours< M, Cloud, Wrapper<M> >( c, unsigned( k ) );
  auto e2 = estimateLocalDimensionalityNearestNeighbours< M, Cloud, Wrapper<M> >( c, 2u, unsigned( k ) + 1u );
  auto e3 = estimateLocalDimensionalityNearestNeighboursMLE< M, Cloud, Wrapper<M> >( c, 2u, unsigned( k ) + 1u );
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    double a = 0;
    for( auto&& q : A )
      if( squared( A[i], q ) <= k * k )
        a += std::exp( -squared( A[i], q ) / ( 2 * k ) );
    ASSERT( sym::close( density[i], a / double( A.size() ) ), "average over close points" );
    auto d = nearest( A, i, false );
    double r = mean( d, k ), s = mean( d, k + 1 ), p = 0, q = 0, sum = 0;
    ASSERT( same( e1[i], r / ( ( s - r ) * k ) ), "quotient of mean distances" );
    for( int l = 2; l < k; ++l )
    {
      double u = mean( d, l ), v = mean( d, l + 1 );
      p += ( v - u ) * u / l;
      q += ( v - u ) * ( v - u );
    }
    ASSERT( same( e2[i], p / q ), "slope of the regression line" );
    for( int l = 1; l < k + 1; ++l )
    {
      double t = 0;
      for( int j = 1; j < l; ++j )
        if( d[ std::size_t( j ) ] > 0 )
          t += std::log( d[ std::size_t( l ) ] / d[ std::size_t( j ) ] );
      if( l > 1 && t > 0 )
        sum += ( l - 1 ) / t;
    }
    ASSERT( same( e3[i], sum / k ), "average of the estimates" );
  }
  auto sequence = correlationDimensionIntegral<M>( c );
  std::vector<double> d;
  for( std::size_t i = 0; i < A.size(); ++i )
    for( std::size_t j = 0; j < i; ++j )
      d.push_back( manhattan( A[i], A[j] ) );
  std::sort( d.begin(), d.end() );
  std::size_t n = 0;
  for( std::size_t i = 0; i < d.size(); ++i )
    if( d[i] > 0 && ( i + 1 == d.size() || d[i+1] != d[i] ) )
    {
      ASSERT( n < sequence.x.size() && sequence.x[n] == d[i] && sym::close( sequence.y[n], double( i + 1 ) / double( d.size() ) ), "share of pairs within the distance" );
      ++n;
    }
  ASSERT( sequence.x.size() == n && sequence.y.size() == n, "one value per distance" );
  REACH("many");
}
