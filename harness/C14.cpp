// C14: distances of persistence diagrams
#include "sym.h"
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/distances/Bottleneck.hh>
#include <aleph/persistenceDiagrams/distances/Hausdorff.hh>
#include <aleph/persistenceDiagrams/distances/PointSet.hh>
#include <aleph/persistenceDiagrams/distances/NearestNeighbour.hh>
#include <aleph/persistenceDiagrams/distances/Wasserstein.hh>
#include <algorithm>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <vector>

using namespace aleph;
using namespace aleph::distances;

using Diagram = PersistenceDiagram<double>;
struct P { double x, y; };
using Points = std::vector<P>;

static Points points( int n, long hi )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::fixed( "x", -hi, hi, 1 );
    p.y = sym::fixed( "y", -hi, hi, 1 );
    r.push_back( p );
  }
  return r;
}

static Diagram diagram( const Points& points )
{
  Diagram D;
  for( auto&& p : points )
    D.add( p.x, p.y );
  return D;
}

static double chebyshev( P p, P q ) { return sym::max( sym::abs( p.x - q.x ), sym::abs( p.y - q.y ) ); }
static double toDiagonal( P p )     { return sym::abs( p.x - p.y ) / 2; }
static double power( double x, int k ) { double r = x; for( int i = 1; i < k; ++i ) r *= x; return r; }

// Optimum over all partial matchings by recursion over the points of the
// first diagram; power 0 means maximum
static double optimum( const Points& A, const Points& B, std::size_t i, unsigned used, int k )
{
  if( i == A.size() )
  {
    double r = 0;
    for( std::size_t j = 0; j < B.size(); ++j )
      if( !( used & ( 1u << j ) ) )
        r = k == 0 ? sym::max( r, toDiagonal( B[j] ) ) : r + power( toDiagonal( B[j] ), k );
    return r;
  }
  auto combine = [&] ( double c, double rest ) { return k == 0 ? sym::max( c, rest ) : power( c, k ) + rest; };
  double best = combine( toDiagonal( A[i] ), optimum( A, B, i + 1, used, k ) );
  for( std::size_t j = 0; j < B.size(); ++j )
    if( !( used & ( 1u << j ) ) )
      best = sym::min( best, combine( chebyshev( A[i], B[j] ), optimum( A, B, i + 1, used | ( 1u << j ), k ) ) );
  return best;
}

static void wasserstein( int n, int m, long hi )
{
  symapi_linear();
  auto A = points( n, hi );
  auto B = points( m, hi );
  double d = wassersteinDistance( diagram( A ), diagram( B ) );
  ASSERT( d == optimum( A, B, 0, 0, 1 ), "minimum of the total cost over all matchings" );
  ASSERT( d >= 0, "never negative" );
  sym::observe( d );
  REACH("wasserstein");
}

//@ wasserstein10: one point against none and none against none, coordinates between -127.5 and 127.5 in steps of 1/2
HARNESS(wasserstein10) { wasserstein( 1, 0, 255 ); ASSERT( wassersteinDistance( Diagram(), Diagram() ) == 0, "empty diagrams" ); }
//@ wasserstein02: no point against two, coordinates between -127.5 and 127.5 in steps of 1/2
HARNESS(wasserstein02) { wasserstein( 0, 2, 255 ); }
//@ wasserstein11: one point against one, coordinates between -127.5 and 127.5 in steps of 1/2
HARNESS(wasserstein11) { wasserstein( 1, 1, 255 ); }
//@ wasserstein12: one point against two, coordinates between -31.5 and 31.5 in steps of 1/2
HARNESS(wasserstein12) { wasserstein( 1, 2, 63 ); }
//@ wasserstein21: two points against one, coordinates between -31.5 and 31.5 in steps of 1/2
HARNESS(wasserstein21) { wasserstein( 2, 1, 63 ); }
//@ wasserstein22: two points against two, coordinates between -1.5 and 1.5 in steps of 1/2
HARNESS(wasserstein22) { wasserstein( 2, 2, 3 ); }

//@ squared: one point against one with power two, coordinates between -3.5 and 3.5 in steps of 1/2
HARNESS(squared)
{
  auto A = points( 1, 7 );
  auto B = points( 1, 7 );
  double d = wassersteinDistance( diagram( A ), diagram( B ), 2.0 );
  double c = optimum( A, B, 0, 0, 2 );
  ASSERT( sym::close( d, std::sqrt( c ) ), "root of the minimum total of squared costs" );
  REACH("squared");
}

//@ bottleneck10: one point against none and none against none, coordinates between -127.5 and 127.5 in steps of 1/2
HARNESS(bottleneck10)
{
  symapi_linear();
  auto A = points( 1, 255 );
  double d1 = bottleneckDistance( diagram( A ), Diagram() );
  double d2 = bottleneckDistance( Diagram(), diagram( A ) );
  ASSERT( d1 == toDiagonal( A[0] ), "a single point is projected to the diagonal" );
  ASSERT( d2 == toDiagonal( A[0] ), "a single point of the second diagram is projected to the diagonal" );
  ASSERT( bottleneckDistance( Diagram(), Diagram() ) == 0, "empty diagrams" );
  REACH("bottleneck");
}

//@ bottleneck11: one point against one, coordinates between -127.5 and 127.5 in steps of 1/2
HARNESS(bottleneck11)
{
  symapi_linear();
  auto A = points( 1, 255 );
  auto B = points( 1, 255 );
  double d = bottleneckDistance( diagram( A ), diagram( B ) );
  ASSERT( d == optimum( A, B, 0, 0, 0 ), "minimum of the largest cost over all matchings" );
  sym::observe( d );
  REACH("bottleneck");
}

// Smallest largest cost if every point is matched to a point
static double perfect( const Points& A, const Points& B, std::size_t i, unsigned used )
{
  if( i == A.size() )
    return 0;
  double best = 1e6;
  for( std::size_t j = 0; j < B.size(); ++j )
    if( !( used & ( 1u << j ) ) )
      best = sym::min( best, sym::max( chebyshev( A[i], B[j] ), perfect( A, B, i + 1, used | ( 1u << j ) ) ) );
  return best;
}

// The bottleneck distance of larger diagrams is a known finding: projections
// are not connected completely. What has to hold nevertheless:
static void bottleneckBounds( int n, long hi )
{
  symapi_linear();
  auto A = points( n, hi );
  auto B = points( n, hi );
  // The point of the second diagram stored first is closest to the diagonal
  for( int i = 1; i < n; ++i )
    ASSUME( toDiagonal( B[0] ) <= toDiagonal( B[std::size_t(i)] ) );
  double d = bottleneckDistance( diagram( A ), diagram( B ) );
  ASSERT( d >= optimum( A, B, 0, 0, 0 ), "not below the optimum over all matchings" );
  ASSERT( d <= perfect( A, B, 0, 0 ), "not above the best matching without projections" );
  sym::observe( d );
  REACH("bottleneck");
}

//@ bounds22: two points against two, coordinates between -0.5 and 0.5 in steps of 1/2, bounds only, second diagram begins with the point closest to the diagonal
HARNESS(bounds22) { bottleneckBounds( 2, 1 ); }
//@ t_bounds22: two points against two, coordinates between -1.5 and 1.5 in steps of 1/2, bounds only, second diagram begins with the point closest to the diagonal
HARNESS(t_bounds22) { bottleneckBounds( 2, 3 ); }

//@ identical: a diagram of one or two points against itself in the same or reverse order, coordinates between -31.5 and 31.5 in steps of 1/2
HARNESS(identical)
{
  symapi_linear();
  auto A = points( sym::choice( "n", 1, 2 ), 63 );
  Points B( A.rbegin(), A.rend() );
  ASSERT( bottleneckDistance( diagram( A ), diagram( A ) ) == 0, "zero for equal diagrams" );
  ASSERT( bottleneckDistance( diagram( A ), diagram( B ) ) == 0, "zero in whatever order points are stored" );
  ASSERT( hausdorffDistance( diagram( A ), diagram( B ) ) == 0, "zero in whatever order points are stored" );
  ASSERT( nearestNeighbourDistance( diagram( A ), diagram( B ) ) == 0, "zero in whatever order points are stored" );
  REACH("identical");
}

//@ projections: the diagrams {(0,1)} and {(0,1),(10,20)}
HARNESS(projections)
{
  Points A = { { 0, 1 } }, B = { { 0, 1 }, { 10, 20 } };
  ASSERT( bottleneckDistance( diagram( A ), diagram( B ) ) == 5, "bottleneck distance of {(0,1)} and {(0,1),(10,20)} is 5" );
}

static double directed( const Points& A, const Points& B, bool sum )
{
  double r = 0;
  for( auto&& p : A )
  {
    double m = chebyshev( p, B[0] );
    for( auto&& q : B )
      m = sym::min( m, chebyshev( p, q ) );
    r = sum ? r + m : sym::max( r, m );
  }
  return r;
}

//@ hausdorff: one or two points against one or two, coordinates between -127.5 and 127.5 in steps of 1/2
HARNESS(hausdorff)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 2 ), m = sym::choice( "m", 1, 2 );
  auto A = points( n, 255 );
  auto B = points( m, 255 );
  double d = hausdorffDistance( diagram( A ), diagram( B ) );
  ASSERT( d == sym::max( directed( A, B, false ), directed( B, A, false ) ), "largest distance to the closest point" );
  sym::observe( d );
  ASSERT( hausdorffDistance( diagram( A ), Diagram() ) == std::numeric_limits<double>::infinity(), "infinite if one diagram is empty" );
  ASSERT( hausdorffDistance( Diagram(), diagram( B ) ) == std::numeric_limits<double>::infinity(), "infinite if the other diagram is empty" );
  ASSERT( hausdorffDistance( Diagram(), Diagram() ) == 0, "zero for empty diagrams" );
  REACH("hausdorff");
}

//@ nearest: one or two points against one or two, coordinates between -127.5 and 127.5 in steps of 1/2
HARNESS(nearest)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 2 ), m = sym::choice( "m", 1, 2 );
  auto A = points( n, 255 );
  auto B = points( m, 255 );
  double d = nearestNeighbourDistance( diagram( A ), diagram( B ) );
  ASSERT( d == ( directed( A, B, true ) + directed( B, A, true ) ) / 2, "mean of summed nearest neighbour distances" );
  sym::observe( d );
  REACH("nearest");
}

//@ minima: one or two points against one or two, coordinates between -127.5 and 127.5 in steps of 1/2
HARNESS(minima)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 2 ), m = sym::choice( "m", 1, 2 );
  auto A = points( n, 255 );
  auto B = points( m, 255 );
  double d = sumOfMinimumDistances( diagram( A ), diagram( B ) );
  ASSERT( d == ( directed( A, B, true ) + directed( B, A, true ) ) / 2, "mean of both sums of minimum distances" );
  sym::observe( d );
  ASSERT( sumOfMinimumDistances( diagram( A ), Diagram() ) == std::numeric_limits<double>::infinity(), "infinite if one diagram is empty" );
  ASSERT( sumOfMinimumDistances( Diagram(), diagram( B ) ) == std::numeric_limits<double>::infinity(), "infinite if the other diagram is empty" );
  ASSERT( sumOfMinimumDistances( Diagram(), Diagram() ) == 0, "zero for empty diagrams" );
  REACH("minima");
}

//@ dimensions: diagrams of different dimension are refused
HARNESS(dimensions)
{
  auto A = points( 1, 3 );
  Diagram D1 = diagram( A ), D2 = diagram( A );
  int a = sym::choice( "first", 0, 2 ), b = sym::choice( "second", 0, 2 );
  D1.setDimension( std::size_t( a ) );
  D2.setDimension( std::size_t( b ) );
  bool thrown = false;
  try { ASSERT( wassersteinDistance( D1, D2 ) == 0, "zero for equal diagrams" ); }
  catch( std::runtime_error& ) { thrown = true; }
  ASSERT( thrown == ( a != b ), "different dimensions are refused" );
  if( thrown ) REACH("refused");
}

// Larger diagrams with given points of which two coordinates are symbolic
static Points pattern( int n, int step, int shift )
{
  Points r;
  for( int i = 0; i < n; ++i )
    r.push_back( P{ double( i * step % 11 ), double( i * step % 11 + 3 + ( i * 5 + shift ) % 7 ) } );
  return r;
}

//@ larger: two to four points against three or four with two symbolic coordinates 0..15
HARNESS(larger)
{
  symapi_linear();
  int n = sym::choice( "n", 2, 4 ), m = sym::choice( "m", 3, 4 ), shift = sym::choice( "shift", 0, 2 );
  auto A = pattern( n, 3, 0 ), B = pattern( m, 4, shift );
  A[1].y = sym::fixed( "y", 0, 15 );
  B[2].x = sym::fixed( "x", 0, 15 );
  double h = hausdorffDistance( diagram( A ), diagram( B ) );
  ASSERT( h == sym::max( directed( A, B, false ), directed( B, A, false ) ), "largest distance to the closest point" );
  double s = ( directed( A, B, true ) + directed( B, A, true ) ) / 2;
  ASSERT( nearestNeighbourDistance( diagram( A ), diagram( B ) ) == s, "mean of summed nearest neighbour distances" );
  ASSERT( sumOfMinimumDistances( diagram( A ), diagram( B ) ) == s, "mean of both sums of minimum distances" );
  REACH("larger");
}

//@ wasserstein43: four points against three with one symbolic coordinate 0..15
HARNESS(wasserstein43)
{
  symapi_linear();
  auto A = pattern( 4, 3, 0 ), B = pattern( 3, 4, sym::choice( "shift", 0, 2 ) );
  if( sym::flag( "swap" ) ) std::swap( A, B );
  A[1].y = sym::fixed( "y", 0, 15 );
  double d = wassersteinDistance( diagram( A ), diagram( B ) );
  ASSERT( d == optimum( A, B, 0, 0, 1 ), "minimum of the total cost over all matchings" );
  REACH("wasserstein43");
}

//@ wasserstein55: five points against five, in reverse order, any one of them moved by a symbolic multiple of 1/4 up to 1
HARNESS(wasserstein55)
{
  symapi_linear();
  auto A = pattern( 5, 3, 1 ), B = A;
  std::reverse( B.begin(), B.end() );
  ASSERT( wassersteinDistance( diagram( A ), diagram( B ) ) == 0, "zero in whatever order points are stored" );
  ASSERT( hausdorffDistance( diagram( A ), diagram( B ) ) == 0, "zero in whatever order points are stored" );
  std::size_t k = std::size_t( sym::choice( "which", 0, 4 ) );
  double e = sym::fixed( "e", 0, 4, 2 );
  B[k].y += e;
  ASSERT( wassersteinDistance( diagram( A ), diagram( B ) ) == optimum( A, B, 0, 0, 1 ), "minimum of the total cost over all matchings" );
  REACH("wasserstein55");
}

//@ cubed: one point against one with powers three and four, coordinates 0..3 value by value; two against one with power three
HARNESS(cubed)
{
  int n = sym::choice( "n", 1, 2 ), k = n == 2 ? 3 : sym::choice( "power", 3, 4 );
  Points A, B;
  for( int i = 0; i < n; ++i )
    A.push_back( P{ double( i ), double( sym::choice( "y", 0, 3 ) ) } );
  B.push_back( P{ double( sym::choice( "x", 0, 3 ) ), double( sym::choice( "y", 0, 3 ) ) } );
  double d = wassersteinDistance( diagram( A ), diagram( B ), double( k ) );
  ASSERT( std::fabs( d - std::pow( optimum( A, B, 0, 0, k ), 1.0 / k ) ) < 1e-9, "root of the minimum total of powers of costs" );
  REACH("cubed");
}

//@ bounds44: three or four points against as many with one symbolic coordinate 0..15, bounds only, second diagram begins with the point closest to the diagonal
HARNESS(bounds44)
{
  symapi_linear();
  int n = sym::choice( "n", 3, 4 );
  auto A = pattern( n, 3, sym::choice( "shift", 0, 2 ) ), B = pattern( n, 4, 2 );
  std::swap( B[0], *std::min_element( B.begin(), B.end(), [] ( const P& p, const P& q ) { return p.y - p.x < q.y - q.x; } ) );
  A[1].y = sym::fixed( "y", 0, 15 );
  double d = bottleneckDistance( diagram( A ), diagram( B ) );
  ASSERT( d >= optimum( A, B, 0, 0, 0 ), "not below the optimum over all matchings" );
  ASSERT( d <= perfect( A, B, 0, 0 ), "not above the best matching without projections" );
  REACH("bounds44");
}
