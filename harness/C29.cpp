// C29: cover trees
#include "sym.h"
#include <aleph/geometry/CoverTree.hh>
#include <algorithm>
#include <map>
#include <ostream>
#include <vector>

// Points on a line or in the plane with the maximum distance. Points and distances are not printed.
struct P
{
  double x, y;
  int id;
  bool operator<( const P& o ) const { return id < o.id; }
  bool operator==( const P& o ) const { return id == o.id; }
  bool operator!=( const P& o ) const { return id != o.id; }
};
struct D
{
  double value;
  operator double() const { return value; }
};
static std::ostream& operator<<( std::ostream& o, const P& ) { return o; }
static std::ostream& operator<<( std::ostream& o, const D& ) { return o; }
struct Metric
{
  D operator()( const P& a, const P& b ) const { return { sym::max( sym::abs( a.x - b.x ), sym::abs( a.y - b.y ) ) }; }
};
typedef aleph::geometry::CoverTree<P, Metric> Tree;

static double distance( const P& a, const P& b ) { return Metric()( a, b ); }

// Assigns the nodes from index i on to parents such that children of a parent are separated
static bool assign( const std::vector<P>& children, const std::vector<P>& parents, std::vector<int>& parent, double radius )
{
  std::size_t i = parent.size();
  if( i == children.size() )
    return true;
  for( std::size_t j = 0; j < parents.size(); ++j )
  {
    bool ok = distance( children[i], parents[j] ) <= radius;
    for( std::size_t k = 0; ok && k < i; ++k )
      if( parent[k] == int( j ) )
        ok = distance( children[i], children[k] ) > radius / 2;
    if( ok )
    {
      parent.push_back( int( j ) );
      if( assign( children, parents, parent, radius ) )
        return true;
      parent.pop_back();
    }
  }
  return false;
}

static void compare( Tree& T, const std::vector<P>& points )
{
  auto all = T.points();
  ASSERT( all.size() == points.size(), "number of points" );
  std::sort( all.begin(), all.end() );
  for( std::size_t i = 0; i < all.size(); ++i )
    ASSERT( all[i].id == int( i ) && all[i].x == points[i].x && all[i].y == points[i].y, "every point once" );
  auto byLevel = T.getNodesByLevel();
  auto levels  = T.nodesToLevel();
  ASSERT( byLevel.size() == points.size() && levels.size() == points.size(), "every point has a level" );
  std::map< long, std::vector<P> > L;
  for( auto&& p : byLevel )
  {
    ASSERT( levels.at( p.second ) == p.first, "levels agree" );
    L[p.first].push_back( p.second );
  }
  if( !points.empty() )
  {
    long top = T.level();
    ASSERT( L.rbegin()->first == top && L.rbegin()->second.size() == 1, "the root is the only point of the highest level" );
    for( auto&& p : L )
    {
      ASSERT( p.first == top || L.count( p.first + 1 ), "no level is left out" );
      if( p.first == top )
        continue;
      double radius = 1;
      for( long l = 0; l < p.first + 1; ++l ) radius *= 2;
      for( long l = 0; l > p.first + 1; --l ) radius /= 2;
      std::vector<int> parent;
      ASSERT( assign( p.second, L[p.first + 1], parent, radius ), "children are covered by their parents and separated from each other" );
    }
  }
  ASSERT( T.checkLevelInvariant(), "level invariant" );
  ASSERT( T.checkCoveringInvariant(), "covering invariant" );
  ASSERT( T.checkSeparatingInvariant(), "separating invariant" );
  ASSERT( T.isValid(), "valid" );
}

static std::vector<P> symbolicPoints( int n, long hi, bool plane, int scale )
{
  std::vector<P> points;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::fixed( "x", 0, hi, scale );
    p.y = plane ? sym::fixed( "y", 0, hi, scale ) : 0.0;
    p.id = i;
    points.push_back( p );
  }
  return points;
}

static void insert( int n, long hi, bool plane, int scale )
{
  auto points = symbolicPoints( n, hi, plane, scale );
  Tree T;
  T.insert( points.begin(), points.end() );
  compare( T, points );
}

//@ empty: a tree without points
HARNESS(empty)
{
  Tree T;
  compare( T, std::vector<P>() );
  ASSERT( T.level() == 0, "level of an empty tree" );
  REACH("empty");
}

//@ two: two points at symbolic multiples of 1/4 in 0..64 on a line, which may coincide
HARNESS(two)
{
  symapi_linear();
  insert( 2, 256, false, 2 );
  REACH("two");
}

//@ three: three points at symbolic multiples of 1/2 in 0..16 on a line
HARNESS(three)
{
  symapi_linear();
  insert( 3, 32, false, 1 );
  REACH("three");
}

//@ four: four points at symbolic multiples of 1/2 in 0..32 on a line
HARNESS(four)
{
  symapi_linear();
  insert( 4, 64, false, 1 );
  REACH("four");
}

//@ five: five points at symbolic integers in 0..20 on a line
HARNESS(five)
{
  symapi_linear();
  insert( 5, 20, false, 0 );
  REACH("five");
}

//@ plane: four points with symbolic integer coordinates in 0..9 in the plane
HARNESS(plane)
{
  symapi_linear();
  insert( 4, 9, true, 0 );
  REACH("plane");
}

//@ t_six: six points at symbolic integers in 0..12 on a line
HARNESS(t_six)
{
  symapi_linear();
  insert( 6, 12, false, 0 );
  REACH("T:t_six");
}

//@ many: seven to ten points of the plane: those of one of three patterns in either order, with a symbolic integer point -20..20 on a line inserted first, in between, or last
HARNESS(many)
{
  symapi_linear();
  int n = sym::choice( "n", 7, 10 ), pattern = sym::choice( "pattern", 0, 2 ), position = sym::choice( "position", 0, 3 );
  bool reversed = sym::flag( "reversed" );
  const int star[10][2] = { {0,0}, {7,0}, {-7,0}, {0,7}, {0,-7}, {7,7}, {-7,-7}, {7,-7}, {-7,7}, {1,1} };
  std::vector<P> points;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = pattern == 0 ? star[i][0] : pattern == 1 ? 3 * i : ( 1 << i ) / 4.0;
    p.y = pattern == 0 ? star[i][1] : 0;
    points.push_back( p );
  }
  if( reversed )
    std::reverse( points.begin(), points.end() );
  P q;
  q.x = sym::fixed( "x", -20, 20 );
  q.y = 2;
  q.id = 0;
  points.insert( points.begin() + position * n / 3, q );
  for( int i = 0; i <= n; ++i )
    points[ std::size_t( i ) ].id = i;
  Tree T;
  T.insert( points.begin(), points.end() );
  compare( T, points );
  REACH("many");
}
