// C34: kernels on persistence diagrams
#include "sym.h"
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/kernels/KernelEmbedding.hh>
#include <aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh>
#include <algorithm>
#include <cmath>
#include <vector>

using namespace aleph;

using Diagram = PersistenceDiagram<double>;
struct P { double x, y; };
using Points = std::vector<P>;

static Points points( int n, long lo, long hi )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::fixed( "x", lo, hi );
    p.y = sym::fixed( "y", lo, hi );
    r.push_back( p );
  }
  return r;
}

static Points smallPoints( int n, int hi )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = double( sym::choice( "x", 0, hi ) );
    p.y = double( sym::choice( "y", 0, hi ) );
    r.push_back( p );
  }
  return r;
}

static Diagram diagram( const Points& points )
{
  Diagram D;
  for( auto&& p : points )
    D.add( p.x, p.y );
  return D;
}

// A weight and a kernel that are polynomials, so that the solver decides
// them for all values: the kernel is the inner product of the points.
struct Weight
{
  template <class Point> double operator()( const Point& p ) const { return p.y() - 2 * p.x() + 1; }
};

struct Inner
{
  template <class Point> double operator()( const Point& p, const Point& q ) const { return p.x() * q.x() + p.y() * q.y(); }
};

struct Skew
{
  template <class Point> double operator()( const Point& p, const Point& q ) const { return p.x() + 3 * q.x() + 5 * p.y() + 7 * q.y(); }
};

static double weight( P p ) { return p.y - 2 * p.x + 1; }

//@ linear: zero to two points against zero to two points with coordinates -4..4, a weight and two kernels that are polynomials
HARNESS(linear)
{
  int n = sym::choice( "n", 0, 2 );
  int m = sym::choice( "m", 0, 2 );
  auto A = points( n, -4, 4 );
  auto B = points( m, -4, 4 );
  double inner = 0, skew = 0;
  for( auto&& p : A )
    for( auto&& q : B )
    {
      inner += weight( p ) * weight( q ) * ( p.x * q.x + p.y * q.y );
      skew  += weight( p ) * weight( q ) * ( p.x + 3 * q.x + 5 * p.y + 7 * q.y );
    }
  auto D = diagram( A ), E = diagram( B );
  ASSERT( linearKernel( D, E, Weight(), Inner() ) == inner, "sum over all pairs of points" );
  ASSERT( linearKernel( D, E, Weight(), Skew() ) == skew, "the kernel is given points in the order of the diagrams" );
  ASSERT( linearKernel( E, D, Weight(), Inner() ) == inner, "symmetry" );
  REACH("linear");
}

// A kernel that is linear in the coordinates, namely the length of what the
// intervals [0,x] and [0,y] of two points have in common.
struct Common
{
  template <class Point> double operator()( const Point& p, const Point& q ) const
  {
    return sym::min( p.x(), q.x() ) + sym::min( p.y(), q.y() );
  }
};

struct Two
{
  template <class Point> double operator()( const Point& ) const { return 2; }
};

static double common( const Points& A, const Points& B )
{
  double r = 0;
  for( auto&& p : A )
    for( auto&& q : B )
      r += 4 * ( sym::min( p.x, q.x ) + sym::min( p.y, q.y ) );
  return r;
}

//@ pseudometric: zero to two points against zero to two points with coordinates 0..100, constant weight, kernel that measures common parts of intervals
HARNESS(pseudometric)
{
  symapi_linear();
  int n = sym::choice( "n", 0, 2 );
  int m = sym::choice( "m", 0, 2 );
  auto A = points( n, 0, 100 );
  auto B = points( m, 0, 100 );
  double d2 = common( A, A ) + common( B, B ) - 2 * common( A, B );
  ASSERT( d2 >= 0, "a kernel is positive" );
  double d = pseudoMetric( diagram( A ), diagram( B ), Two(), Common() );
  ASSERT( d == std::sqrt( d2 ), "distance in the space of the kernel" );
  REACH("pseudometric");
  if( d > 0 ) REACH("apart");
}

//@ gaussian: zero or one point against zero or one point with coordinates 0..3, polynomial weight, inner product of the points, smoothing parameters 1/2, 1, 2
HARNESS(gaussian)
{
  int n = sym::choice( "n", 0, 1 );
  int m = sym::choice( "m", 0, 1 );
  auto A = smallPoints( n, 3 );
  auto B = smallPoints( m, 3 );
  double tau = sym::choice( "tau", 1, 3 ) * 0.5;
  if( tau == 1.5 ) tau = 2;
  double x = 0, y = 0;
  for( auto&& p : A ) { x += weight( p ) * p.x; y += weight( p ) * p.y; }
  for( auto&& p : B ) { x -= weight( p ) * p.x; y -= weight( p ) * p.y; }
  double g = gaussianKernel( diagram( A ), diagram( B ), Weight(), Inner(), tau );
  ASSERT( sym::close( g, std::exp( -( x * x + y * y ) / ( 2 * tau * tau ) ) ), "Gaussian of the pseudometric" );
  REACH("gaussian");
}

static double arc( P p, double C, double e ) { return std::atan( C * std::pow( p.y - p.x, e ) ); }
static double bell( P p, P q, double sigma )
{
  return std::exp( -( ( p.x - q.x ) * ( p.x - q.x ) + ( p.y - q.y ) * ( p.y - q.y ) ) / ( 2 * sigma * sigma ) );
}

static double embedding( const Points& A, const Points& B, double sigma, double C, double e )
{
  double r = 0;
  for( auto&& p : A )
    for( auto&& q : B )
      r += arc( p, C, e ) * arc( q, C, e ) * bell( p, q, sigma );
  return r;
}

static void persistenceWeighted( int n, int m, int hi )
{
  auto A = smallPoints( n, hi );
  auto B = smallPoints( m, hi );
  double sigma = sym::choice( "sigma", 1, 2 );
  double C     = sym::choice( "C", 1, 2 );
  double e     = sym::choice( "power", 1, 2 );
  double tau   = sym::choice( "tau", 1, 2 );
  auto D = diagram( A ), E = diagram( B );
  aleph::detail::DefaultWeightFunction w( C, e );
  aleph::detail::DefaultKernel k( sigma );
  double ab = embedding( A, B, sigma, C, e );
  ASSERT( sym::close( linearKernel( D, E, w, k ), ab ), "persistence-weighted Gaussian kernel" );
  double d2 = embedding( A, A, sigma, C, e ) + embedding( B, B, sigma, C, e ) - 2 * ab;
  double d  = pseudoMetric( D, E, w, k );
  ASSERT( d >= 0, "never negative" );
  ASSERT( std::abs( d * d - d2 ) < 1e-9, "pseudometric of the kernel" );
  double g = gaussianKernel( D, E, sigma, C, e, tau );
  ASSERT( std::abs( g - std::exp( -d2 / ( 2 * tau * tau ) ) ) < 1e-9, "Gaussian of the pseudometric" );
  ASSERT( g == gaussianKernel( D, E, w, k, tau ), "both forms agree" );
  REACH("weighted");
}

//@ weighted: one point against one point with coordinates 0..3, default weights and kernel with parameters 1..2
HARNESS(weighted) { persistenceWeighted( 1, 1, 3 ); }
//@ weighted2: two points against one point with coordinates 0..1, default weights and kernel with parameters 1..2
HARNESS(weighted2) { persistenceWeighted( 2, 1, 1 ); }

//@ weighted0: one or two points against none with coordinates 0..2, default weights and kernel with parameters 1..2
HARNESS(weighted0)
{
  int n = sym::choice( "n", 1, 2 );
  persistenceWeighted( n, 0, 2 );
}

// Definition of the scale-space kernel by Reininghaus et al.
static double scaleSpace( const Points& A, const Points& B, double sigma )
{
  double r = 0;
  for( auto&& p : A )
    for( auto&& q : B )
    {
      double d = ( p.x - q.x ) * ( p.x - q.x ) + ( p.y - q.y ) * ( p.y - q.y );
      double m = ( p.x - q.y ) * ( p.x - q.y ) + ( p.y - q.x ) * ( p.y - q.x );
      r += std::exp( -d / ( 8 * sigma ) ) - std::exp( -m / ( 8 * sigma ) );
    }
  return r / ( 8 * M_PI * sigma );
}

static void multiScale( int n, int m, int hi )
{
  auto A = smallPoints( n, hi );
  auto B = smallPoints( m, hi );
  double sigma = sym::choice( "sigma", 1, 3 );
  sigma = sigma == 3 ? 0.5 : sigma;
  auto D = diagram( A ), E = diagram( B );
  double ab = scaleSpace( A, B, sigma );
  ASSERT( std::abs( multiScaleKernel( D, E, sigma ) - ab ) < 1e-12, "definition of the kernel" );
  ASSERT( std::abs( multiScaleKernel( E, D, sigma ) - ab ) < 1e-12, "symmetry" );
  double d2 = scaleSpace( A, A, sigma ) + scaleSpace( B, B, sigma ) - 2 * ab;
  double d  = multiScalePseudoMetric( D, E, sigma );
  ASSERT( d >= 0, "never negative" );
  ASSERT( std::abs( d * d - d2 ) < 1e-12, "pseudometric of the kernel" );
  // the norm of a diagram is the one in the space of the kernel, for half of the scale
  double f = scaleSpace( A, A, sigma / 2 );
  ASSERT( std::abs( multiScaleFeatureMap( D, sigma ) - f ) < 1e-12, "feature map" );
  if( n == 1 && A[0].x == A[0].y )
  {
    ASSERT( ab == 0 && std::abs( d2 - scaleSpace( B, B, sigma ) ) < 1e-12, "points on the diagonal do not matter" );
    REACH("diagonal");
  }
  REACH("multiscale");
}

//@ multiscale: one point against one point with coordinates 0..3, scales 1/2, 1, 2
HARNESS(multiscale) { multiScale( 1, 1, 3 ); }
//@ multiscale2: two points against one point with coordinates 0..1, scales 1/2, 1, 2
HARNESS(multiscale2)
{
  multiScale( 2, 1, 1 );
}

//@ permuted: two points with coordinates 0..3 against the same in another order: the pseudometrics are zero
HARNESS(permuted)
{
  auto A = smallPoints( 2, 3 );
  auto B = A;
  std::reverse( B.begin(), B.end() );
  auto D = diagram( A ), E = diagram( B );
  double d = multiScalePseudoMetric( D, E, 1.0 );
  ASSERT( d >= 0 && d < 1e-6, "multi-scale pseudometric" );
  aleph::detail::DefaultWeightFunction w( 1, 1 );
  aleph::detail::DefaultKernel k( 1 );
  double e = pseudoMetric( D, E, w, k );
  ASSERT( e >= 0 && e < 1e-6, "pseudometric of the persistence-weighted kernel" );
  ASSERT( multiScalePseudoMetric( D, D, 1.0 ) == 0 && pseudoMetric( D, D, w, k ) == 0, "zero for the same diagram" );
  REACH("permuted");
}
