// C42: searches for neighbours
// flags: -DALEPH_WITH_FLANN
// libs: -llz4
#include "sym.h"
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/RipsSkeleton.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <cmath>
#include <set>
#include <vector>

using namespace aleph::geometry;
typedef aleph::containers::PointCloud<double> Cloud;
typedef distances::Manhattan<double> M;
typedef distances::Euclidean<double> E;

struct P { double x, y; };
typedef std::vector<P> Points;

static Points points( int n, long hi, bool line )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::fixed( "x", -hi, hi, 1 );
    p.y = 0;
    if( !line )
      p.y = sym::fixed( "y", -hi, hi, 1 );
    r.push_back( p );
  }
  return r;
}

static Cloud cloud( const Points& p )
{
  Cloud c( p.size(), 2 );
  for( std::size_t i = 0; i < p.size(); ++i )
  {
    std::vector<double> v = { p[i].x, p[i].y };
    c.set( i, v.begin(), v.end() );
  }
  return c;
}

static double distance( P p, P q, M ) { return sym::abs( p.x - q.x ) + sym::abs( p.y - q.y ); }
static double distance( P p, P q, E ) { return std::sqrt( ( p.x - q.x ) * ( p.x - q.x ) + ( p.y - q.y ) * ( p.y - q.y ) ); }

typedef std::vector< std::vector<std::size_t> > Indices;
typedef std::vector< std::vector<double> > Distances;

// Checks that a row lists different points with their distances
template <class D> std::set<std::size_t> row( const Points& p, std::size_t i, const Indices& indices, const Distances& distances )
{
  std::set<std::size_t> found;
  ASSERT( indices[i].size() == distances[i].size(), "one distance per neighbour" );
  for( std::size_t j = 0; j < indices[i].size(); ++j )
  {
    std::size_t k = indices[i][j];
    ASSERT( k < p.size() && found.insert( k ).second, "neighbours are different points" );
    ASSERT( distances[i][j] == distance( p[i], p[k], D() ), "distances of neighbours" );
  }
  return found;
}

template <template <class, class> class W, class D> void radius( const Points& p, double r )
{
  Cloud c = cloud( p );
  W<Cloud, D> nn( c );
  Indices indices = { { 7, 7, 7, 7 } };
  Distances distances( 5, { 1, 2, 3 } );
  nn.radiusSearch( r, indices, distances );
  ASSERT( nn.size() == p.size() && indices.size() == p.size() && distances.size() == p.size(), "one entry per point" );
  bool fewer = false;
  for( std::size_t i = 0; i < p.size(); ++i )
  {
    auto found = row<D>( p, i, indices, distances );
    for( std::size_t k = 0; k < p.size(); ++k )
      ASSERT( sym::iff( found.count( k ) != 0, distance( p[i], p[k], D() ) < r ), "exactly the points within the radius" );
    fewer = fewer || found.size() != indices[0].size();
  }
  if( fewer )
    REACH("different numbers of neighbours");
}

template <template <class, class> class W, class D> void nearest( const Points& p, unsigned n )
{
  Cloud c = cloud( p );
  W<Cloud, D> nn( c );
  Indices indices = { { 7, 7, 7, 7 } };
  Distances distances( 5, { 1, 2, 3 } );
  nn.neighbourSearch( n, indices, distances );
  ASSERT( indices.size() == p.size() && distances.size() == p.size(), "one entry per point" );
  for( std::size_t i = 0; i < p.size(); ++i )
  {
    auto found = row<D>( p, i, indices, distances );
    ASSERT( found.size() == std::min( std::size_t( n ), p.size() ), "number of neighbours" );
    for( std::size_t j = 1; j < distances[i].size(); ++j )
      ASSERT( distances[i][j-1] <= distances[i][j], "neighbours are sorted by distance" );
    for( std::size_t k = 0; n && k < p.size(); ++k )
      ASSERT( sym::either( found.count( k ) != 0, distance( p[i], p[k], D() ) >= distances[i].back() ), "no other point is closer" );
  }
  REACH("nearest");
}

//@ flann: one to four points of a line, coordinates between -50 and 50 in steps of 1/2, all radii, index of FLANN, Manhattan distances
HARNESS(flann)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 4 );
  auto p = points( n, 100, true );
  double r = sym::fixed( "radius", 1, 150 );
  radius<FLANN, M>( p, r );
}

//@ flann2: three points of the plane, coordinates between -1.5 and 1.5 in steps of 1/2, radii 1..5, index of FLANN, Euclidean distances
HARNESS(flann2)
{
  auto p = points( 3, 3, false );
  double r = sym::choice( "radius", 1, 5 );
  radius<FLANN, E>( p, r );
}

//@ brute: one to four points of a line, coordinates between -50 and 50 in steps of 1/2, all radii, brute force, Manhattan distances
HARNESS(brute)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 4 );
  auto p = points( n, 100, true );
  double r = sym::fixed( "radius", 1, 150 );
  radius<BruteForce, M>( p, r );
}

//@ brute2: three points of the plane, coordinates between -1.5 and 1.5 in steps of 1/2, radii 1..5, brute force, Euclidean distances
HARNESS(brute2)
{
  auto p = points( 3, 3, false );
  double r = sym::choice( "radius", 1, 5 );
  radius<BruteForce, E>( p, r );
}

//@ nearest: one to three points of a line, coordinates between -50 and 50 in steps of 1/2, zero neighbours to one more than there are points, both backends, Manhattan distances
HARNESS(nearest)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 3 );
  int k = sym::choice( "k", 0, n + 1 );
  auto p = points( n, 100, true );
  if( sym::flag( "flann" ) )
    nearest<FLANN, M>( p, unsigned( k ) );
  else
    nearest<BruteForce, M>( p, unsigned( k ) );
}

//@ nearest2: three points of the plane, coordinates between -1.5 and 1.5 in steps of 1/2, two neighbours, both backends, Euclidean distances
HARNESS(nearest2)
{
  auto p = points( 3, 3, false );
  if( sym::flag( "flann" ) )
    nearest<FLANN, E>( p, 2 );
  else
    nearest<BruteForce, E>( p, 2 );
}

template <template <class, class> class W> void skeleton()
{
  symapi_linear();
  auto p = points( 3, 100, true );
  double r = sym::fixed( "radius", 1, 150 );
  Cloud c = cloud( p );
  W<Cloud, M> nn( c );
  auto K = RipsSkeleton< W<Cloud, M> >()( nn, r );
  std::size_t edges = 0;
  for( std::size_t i = 0; i < p.size(); ++i )
    for( std::size_t j = 0; j < i; ++j )
    {
      std::vector<std::size_t> v = { j, i };
      typedef typename decltype( K )::ValueType S;
      auto it = K.find( S( v.begin(), v.end() ) );
      bool in = it != K.end();
      double d = distance( p[i], p[j], M() );
      ASSERT( sym::iff( in, d < r ), "edges connect the points within the radius" );
      edges += in;
      if( in )
        ASSERT( it->data() == d, "weights of edges are distances" );
    }
  ASSERT( K.size() == p.size() + edges, "vertices and edges only" );
  REACH("skeleton");
}

//@ skeleton: three points of a line, coordinates between -50 and 50 in steps of 1/2, all radii, graph of close points, both backends
HARNESS(skeleton)
{
  if( sym::flag( "flann" ) )
    skeleton<FLANN>();
  else
    skeleton<BruteForce>();
}

//@ many: eight to ten points of a line or the plane, one of them anywhere on a line, both backends, one radius or number of neighbours out of four
HARNESS(many)
{
  symapi_linear();
  int n = sym::choice( "n", 8, 10 ), which = sym::choice( "which", 0, 1 ) ? n - 1 : 3, search = sym::choice( "search", 0, 3 );
  bool flann = sym::flag( "flann" ), plane = sym::flag( "plane" );
  Points p;
  for( int i = 0; i < n; ++i )
    p.push_back( P{ double( 3 * i * 7 % 20 ), plane ? double( i * i % 7 ) : 0.0 } );
  p[ std::size_t( which ) ].x = sym::fixed( "x", -5, 25 );
  if( search < 2 )
  {
    double r = search ? 6.5 : 15;
    if( flann ) radius<FLANN, M>( p, r ); else radius<BruteForce, M>( p, r );
    REACH("many radius");
  }
  else
  {
    unsigned k = search == 2 ? 4 : unsigned( n );
    if( flann ) nearest<FLANN, M>( p, k ); else nearest<BruteForce, M>( p, k );
    REACH("many nearest");
  }
}
