// C38: means of persistence diagrams and optimal pairings between them
#include "sym.h"
#include <random>
// Random numbers are seeded with one of four values, such that the first number drawn is in each quarter of the range
unsigned std::random_device::_M_getval() { return unsigned( sym::choice( "seed", 0, 3 ) ) * 31943u + 17000u; }
#include <aleph/persistenceDiagrams/Mean.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <algorithm>
#include <stdexcept>
#include <vector>

using namespace aleph;

using Diagram = PersistenceDiagram<double>;
struct P { double x, y; };
using Points = std::vector<P>;

static Points points( int n, long hi )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::fixed( "x", -hi, hi, 1 );
    p.y = sym::fixed( "y", -hi, hi, 1 );
    r.push_back( p );
  }
  return r;
}

static Diagram diagram( const Points& points )
{
  Diagram D;
  for( auto&& p : points )
    D.add( p.x, p.y );
  return D;
}

static double chebyshev( P p, P q ) { return sym::max( sym::abs( p.x - q.x ), sym::abs( p.y - q.y ) ); }
static double toDiagonal( P p )     { return sym::abs( p.x - p.y ) / 2; }
static double power( double x, int k ) { double r = x; for( int i = 1; i < k; ++i ) r *= x; return r; }

// Optimum over all partial matchings by recursion over the points of the
// first diagram; power 0 means maximum
static double optimum( const Points& A, const Points& B, std::size_t i, unsigned used, int k )
{
  if( i == A.size() )
  {
    double r = 0;
    for( std::size_t j = 0; j < B.size(); ++j )
      if( !( used & ( 1u << j ) ) )
        r = k == 0 ? sym::max( r, toDiagonal( B[j] ) ) : r + power( toDiagonal( B[j] ), k );
    return r;
  }
  auto combine = [&] ( double c, double rest ) { return k == 0 ? sym::max( c, rest ) : power( c, k ) + rest; };
  double best = combine( toDiagonal( A[i] ), optimum( A, B, i + 1, used, k ) );
  for( std::size_t j = 0; j < B.size(); ++j )
    if( !( used & ( 1u << j ) ) )
      best = sym::min( best, combine( chebyshev( A[i], B[j] ), optimum( A, B, i + 1, used | ( 1u << j ), k ) ) );
  return best;
}

static void pairing( int n, int m, long hi, int k )
{
  if( k == 1 )
    symapi_linear();
  auto A = points( n, hi );
  auto B = points( m, hi );
  auto p = aleph::detail::optimalPairing( diagram( A ), diagram( B ), double( k ) );
  ASSERT( p.pairs.size() == std::size_t( n + m ), "one pair for every point" );
  unsigned used = 0;
  double total = 0;
  for( std::size_t i = 0; i < p.pairs.size(); ++i )
  {
    ASSERT( p.pairs[i].first == i, "pairs follow the points of the first diagram" );
    std::size_t j = p.pairs[i].second;
    ASSERT( j < std::size_t( n + m ) && !( used & ( 1u << j ) ), "every partner occurs once" );
    used |= 1u << j;
    if( i < std::size_t( n ) && j < std::size_t( m ) )
    {
      total += power( chebyshev( A[i], B[j] ), k );
      REACH("points");
    }
    else if( i < std::size_t( n ) )
    {
      P q = A[ j - std::size_t( m ) ];
      ASSERT( j - std::size_t( m ) == i || ( q.x == A[i].x && q.y == A[i].y ), "own projection" );
      total += power( toDiagonal( A[i] ), k );
      REACH("projections");
    }
    else if( j < std::size_t( m ) )
    {
      P q = B[ i - std::size_t( n ) ];
      ASSERT( i - std::size_t( n ) == j || ( q.x == B[j].x && q.y == B[j].y ), "own projection" );
      total += power( toDiagonal( B[j] ), k );
    }
  }
  ASSERT( p.cost == total, "the cost is the one of the pairs" );
  ASSERT( total == optimum( A, B, 0, 0, k ), "minimum of the total cost over all matchings" );
}

//@ pairing11: one point against one, coordinates between -127.5 and 127.5 in steps of 1/2
HARNESS(pairing11) { pairing( 1, 1, 255, 1 ); }
//@ pairing12: one point against two, coordinates between -31.5 and 31.5 in steps of 1/2
HARNESS(pairing12) { pairing( 1, 2, 63, 1 ); }
//@ pairing21: two points against one, coordinates between -31.5 and 31.5 in steps of 1/2
HARNESS(pairing21) { pairing( 2, 1, 63, 1 ); }
//@ pairing22: two points against two, coordinates between -1.5 and 1.5 in steps of 1/2
HARNESS(pairing22) { pairing( 2, 2, 3, 1 ); }
//@ squared11: one point against one with squared costs, coordinates between -3.5 and 3.5 in steps of 1/2
HARNESS(squared11) { pairing( 1, 1, 7, 2 ); }
//@ squared12: one point against two with squared costs, coordinates between -1.5 and 1.5 in steps of 1/2
HARNESS(squared12) { pairing( 1, 2, 3, 2 ); }

//@ dimensions: diagrams of different dimension 0..2 are refused
HARNESS(dimensions)
{
  int a = sym::choice( "first", 0, 2 );
  int b = sym::choice( "second", 0, 2 );
  Diagram D, E;
  D.add( 0, 1 );
  E.add( 0, 2 );
  D.setDimension( std::size_t( a ) );
  E.setDimension( std::size_t( b ) );
  bool refused = false;
  try { aleph::detail::optimalPairing( D, E ); }
  catch( std::runtime_error& ) { refused = true; }
  ASSERT( refused == ( a != b ), "different dimensions are refused" );
  REACH("dimensions");
}

static void sameAs( const Diagram& D, const Points& A )
{
  std::vector<bool> used( A.size() );
  std::size_t n = 0;
  for( auto&& p : A )
    n += p.x != p.y;
  ASSERT( D.size() == n, "number of points" );
  for( auto&& p : D )
  {
    bool found = false;
    for( std::size_t i = 0; i < A.size() && !found; ++i )
      if( !used[i] && A[i].x == p.x() && A[i].y == p.y() )
      {
        used[i] = true;
        found   = true;
      }
    ASSERT( found, "a point of the diagram" );
  }
}

static void identical( int n, int copies, long hi )
{
  auto A = points( n, hi );
  bool reverse = sym::flag( "reverse" );
  std::size_t d = std::size_t( sym::choice( "dimension", 0, 1 ) );
  std::vector<Diagram> diagrams;
  for( int i = 0; i < copies; ++i )
  {
    auto B = A;
    if( reverse && i % 2 )
      std::reverse( B.begin(), B.end() );
    diagrams.push_back( diagram( B ) );
    diagrams.back().setDimension( d );
  }
  auto M = mean( diagrams.begin(), diagrams.end() );
  sameAs( M, A );
  ASSERT( M.dimension() == d, "dimension of the mean" );
  REACH("identical");
}

//@ identical1: one, two or four copies of a diagram with one point, coordinates between -3.5 and 3.5 in steps of 1/2
HARNESS(identical1)
{
  int copies = sym::choice( "copies", 1, 3 );
  identical( 1, copies == 3 ? 4 : copies, 7 );
}
//@ identical2: two copies of a diagram with two points, coordinates between -3.5 and 3.5 in steps of 1/2
HARNESS(identical2) { identical( 2, 2, 7 ); }

//@ close: two diagrams with one point each, coordinates between -3.5 and 3.5 in steps of 1/2, closer to each other than half of their distance to the diagonal
HARNESS(close)
{
  auto A = points( 1, 7 );
  auto B = points( 1, 7 );
  ASSUME( A[0].y > A[0].x && B[0].y > B[0].x );
  ASSUME( 2 * chebyshev( A[0], B[0] ) <= toDiagonal( A[0] ) && 2 * chebyshev( A[0], B[0] ) <= toDiagonal( B[0] ) );
  std::vector<Diagram> diagrams = { diagram( A ), diagram( B ) };
  auto M = mean( diagrams.begin(), diagrams.end() );
  P c;
  c.x = ( A[0].x + B[0].x ) / 2;
  c.y = ( A[0].y + B[0].y ) / 2;
  sameAs( M, { c } );
  REACH("close");
  if( A[0].x != B[0].x ) REACH("different");
}

static void sameAsClosely( const Diagram& D, const Points& A )
{
  ASSERT( D.size() == A.size(), "number of points" );
  for( auto&& q : A )
  {
    bool found = false;
    for( auto&& p : D )
      found = sym::either( found, sym::both( sym::abs( p.x() - q.x ) <= 0.001, sym::abs( p.y() - q.y ) <= 0.001 ) );
    ASSERT( found, "a point of the mean" );
  }
}

//@ clusters: two to four diagrams with three points each in three places far apart and far from the diagonal, in any order, positions of one point in steps of 1 and shifts of the others by the number of the diagram
HARNESS(clusters)
{
  static const double place[3][2] = { { 0, 50 }, { 100, 180 }, { -200, 30 } };
  static const int order[6][3] = { {0,1,2}, {0,2,1}, {1,0,2}, {1,2,0}, {2,0,1}, {2,1,0} };
  int n = sym::choice( "diagrams", 2, 4 );
  double x = sym::choice( "x", -3, 3 );
  std::vector<Diagram> diagrams;
  Points expected( 3, P{ 0, 0 } );
  for( int i = 0; i < n; ++i )
  {
    int o = i < 2 ? sym::choice( "order", 0, 5 ) : i;
    Points A;
    for( int k : order[o] )
    {
      P p;
      p.x = place[k][0] + ( i == 1 && k == 2 ? x : k == 1 ? i : 0 );
      p.y = place[k][1] + ( k == 0 ? 2 * i : 0 );
      A.push_back( p );
      expected[ std::size_t( k ) ].x += p.x / n;
      expected[ std::size_t( k ) ].y += p.y / n;
    }
    diagrams.push_back( diagram( A ) );
  }
  sameAsClosely( mean( diagrams.begin(), diagrams.end() ), expected );
  REACH("clusters");
}

//@ absent: one to three diagrams with the same point and one or two without points: nothing, or the point drawn to the diagonal
HARNESS(absent)
{
  int present = sym::choice( "present", 1, 3 ), missing = sym::choice( "missing", 1, 2 );
  bool first = sym::flag( "first" );
  P p;
  p.x = sym::choice( "x", 0, 2 ) * 5;
  p.y = p.x + sym::choice( "persistence", 1, 3 ) * 4;
  std::vector<Diagram> diagrams;
  for( int i = 0; i < present + missing; ++i )
    if( first ? i < missing : i >= present )
      diagrams.push_back( Diagram() );
    else
      diagrams.push_back( diagram( { p } ) );
  auto M = mean( diagrams.begin(), diagrams.end() );
  double m = ( p.x + p.y ) / 2, n = present + missing;
  if( M.empty() )
    REACH("nothing");
  else
  {
    sameAsClosely( M, { P{ ( present * p.x + missing * m ) / n, ( present * p.y + missing * m ) / n } } );
    REACH("drawn");
  }
}

//@ terminates: three diagrams with two points each at integer positions such that the best pairings may alternate, two coordinates of one of nine points in steps of 1, each diagram as the start
HARNESS(terminates)
{
  static const double shape[2][3][2][2] = {
    { { { 2, 7 }, { 3, 7 } }, { { 3, 5 }, { 5, 6 } }, { { 1, 5 }, { 1, 6 } } },
    { { { 1, 6 }, { 1, 5 } }, { { 3, 7 }, { 3, 6 } }, { { 1, 3 }, { 6, 8 } } } };
  int s = sym::choice( "shape", 0, 1 ), moved = sym::choice( "moved", 0, 2 );
  double dx = sym::choice( "dx", -1, 1 ), dy = sym::choice( "dy", -1, 1 );
  std::vector<Diagram> diagrams;
  for( int i = 0; i < 3; ++i )
  {
    Points A;
    for( int k = 0; k < 2; ++k )
    {
      P p;
      p.x = shape[s][i][k][0] + ( i == moved && k == 0 ? dx : 0 );
      p.y = shape[s][i][k][1] + ( i == moved && k == 0 ? dy : 0 );
      A.push_back( p );
    }
    diagrams.push_back( diagram( A ) );
  }
  auto M = mean( diagrams.begin(), diagrams.end() );
  ASSERT( M.size() <= 2, "at most as many points as in the diagram at the start" );
  for( auto&& p : M )
    ASSERT( p.x() >= 0 && p.x() <= p.y() && p.y() <= 9, "points of the mean are within the range of all points" );
  REACH("mean");
}
