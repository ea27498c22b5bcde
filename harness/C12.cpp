// C12: Vietoris-Rips complexes follow the pairwise distances of the points
#include "complexes.h"
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <cmath>

using namespace aleph::containers;
using namespace aleph::geometry;

typedef PointCloud<double> Cloud;
typedef distances::Euclidean<double> E;
typedef distances::Manhattan<double> M;

static Cloud cloud( int n, int d, long hi )
{
  Cloud c( static_cast<std::size_t>( n ), static_cast<std::size_t>( d ) );
  for( int i = 0; i < n; ++i )
  {
    std::vector<double> p;
    for( int k = 0; k < d; ++k )
      p.push_back( sym::fixed( "x", -hi, hi, 1 ) );
    c.set( std::size_t( i ), p.begin(), p.end() );
  }
  return c;
}

// The distances by their formula
static double formula( const Cloud& c, std::size_t i, std::size_t j, E )
{
  double r = 0;
  auto p = c[i], q = c[j];
  for( std::size_t k = 0; k < p.size(); ++k )
    r += ( p[k] - q[k] ) * ( p[k] - q[k] );
  return std::sqrt( r );
}
static double formula( const Cloud& c, std::size_t i, std::size_t j, M )
{
  double r = 0;
  auto p = c[i], q = c[j];
  for( std::size_t k = 0; k < p.size(); ++k )
    r += sym::max( p[k] - q[k], q[k] - p[k] );
  return r;
}

template <class D> void rips( const Cloud& c, double radius, unsigned k )
{
  std::size_t n = c.size();
  BruteForce<Cloud, D> nn( c );
  ASSERT( nn.size() == n, "number of points" );
  auto K = buildVietorisRipsComplex( nn, radius, k );
  Mask full = Mask(1) << n;
  std::size_t count = 0;
  for( Mask m = 1; m < full; ++m )
  {
    std::vector<std::size_t> v;
    for( std::size_t b = 0; b < n; ++b )
      if( m >> b & 1 )
        v.push_back( b );
    typedef typename decltype(K)::ValueType S;
    S s( v.begin(), v.end() );
    auto it = K.find( s );
    bool in = it != K.end();
    count += in;
    bool wanted = v.size() <= k + 1;
    double w = 0;
    for( std::size_t a = 0; a < v.size(); ++a )
      for( std::size_t b = a+1; b < v.size(); ++b )
      {
        double d = formula( c, v[a], v[b], D() );
        wanted = wanted && d < radius;
        if( w < d )
          w = d;
      }
    ASSERT( in == wanted, "exactly the cliques of close points are present" );
    if( in )
      ASSERT( it->data() == w, "weight is the largest distance" );
    if( in && v.size() == 3 ) REACH("triangle");
    if( !in && v.size() == 2 && k ) REACH("no edge");
  }
  ASSERT( K.size() == count, "nothing else is present" );
  for( std::size_t i = 1; i < K.size(); ++i )
    ASSERT( K[i-1].data() <= K[i].data(), "simplices are sorted by weight" );
}

//@ line4: four points on a line, Manhattan distance, symbolic coordinates between -500 and 500 in steps of 1/2 and radius, dimension 0 to 3
HARNESS(line4)
{
  symapi_linear();
  auto c = cloud( 4, 1, 1000 );
  double r = sym::fixed( "radius", 0, 1500 );
  unsigned k = unsigned( sym::choice( "dimension", 2, 3 ) );
  rips<M>( c, r, k );
}

//@ line3: three points on a line, Manhattan distance, symbolic coordinates between -500 and 500 in steps of 1/2 and radius, dimension 0 or 1
HARNESS(line3)
{
  symapi_linear();
  auto c = cloud( 3, 1, 1000 );
  double r = sym::fixed( "radius", 0, 1500 );
  unsigned k = unsigned( sym::choice( "dimension", 0, 1 ) );
  rips<M>( c, r, k );
}

//@ plane3: three points of the plane, Euclidean distance, symbolic coordinates between -3.5 and 3.5 in steps of 1/2, radius 0..10, dimension 2
HARNESS(plane3)
{
  auto c = cloud( 3, 2, 7 );
  double r = sym::fixed( "radius", 0, 20, 1 );
  rips<E>( c, r, 2 );
}

//@ values: four points on a line, weights from symbolic data of the points
HARNESS(values)
{
  symapi_linear();
  auto c = cloud( 3, 1, 1000 );
  double r = sym::fixed( "radius", 0, 1500 );
  std::vector<double> v;
  for( int i = 0; i < 3; ++i )
    v.push_back( sym::fixed( "v", -100, 100 ) );
  BruteForce<Cloud, M> nn( c );
  auto K = buildVietorisRipsComplex( nn, r, 2, v.begin(), v.end() );
  auto L = buildVietorisRipsComplex( nn, r, 2 );
  ASSERT( K.size() == L.size(), "the same simplices" );
  for( auto&& s : K )
  {
    ASSERT( L.contains( s ), "the same simplices" );
    double w = -1000;
    for( auto x : s )
      w = sym::max( w, v[x] );
    ASSERT( s.data() == w, "weight is the largest value of a vertex" );
  }
  for( std::size_t i = 1; i < K.size(); ++i )
    ASSERT( K[i-1].data() <= K[i].data(), "simplices are sorted by weight" );
  REACH("values");
}

template <class D> void queries( const Cloud& c, double radius, unsigned k )
{
  std::size_t n = c.size();
  BruteForce<Cloud, D> nn( c );
  std::vector< std::vector<std::size_t> > indices;
  std::vector< std::vector<double> > dist;
  nn.radiusSearch( radius, indices, dist );
  ASSERT( indices.size() == n && dist.size() == n, "one list per point" );
  for( std::size_t i = 0; i < n; ++i )
  {
    ASSERT( indices[i].size() == dist[i].size(), "indices and distances match" );
    std::vector<int> seen( n, 0 );
    for( std::size_t j = 0; j < indices[i].size(); ++j )
    {
      ASSERT( indices[i][j] < n, "index" );
      ++seen[ indices[i][j] ];
      ASSERT( dist[i][j] == formula( c, i, indices[i][j], D() ), "distances belong to indices" );
    }
    for( std::size_t j = 0; j < n; ++j )
      ASSERT( seen[j] == int( formula( c, i, j, D() ) < radius ), "exactly the points within the radius" );
  }
  nn.neighbourSearch( k, indices, dist );
  ASSERT( indices.size() == n && dist.size() == n, "one list per point" );
  for( std::size_t i = 0; i < n; ++i )
  {
    ASSERT( indices[i].size() == std::min( std::size_t( k ), n ) && dist[i].size() == indices[i].size(), "k neighbours" );
    std::vector<int> seen( n, 0 );
    for( std::size_t j = 0; j < indices[i].size(); ++j )
    {
      ++seen[ indices[i][j] ];
      ASSERT( dist[i][j] == formula( c, i, indices[i][j], D() ), "distances belong to indices" );
      ASSERT( j == 0 || dist[i][j-1] <= dist[i][j], "neighbours are sorted by distance" );
    }
    for( std::size_t j = 0; j < n; ++j )
    {
      ASSERT( seen[j] <= 1, "a neighbour occurs once" );
      if( !seen[j] && k > 0 )
        ASSERT( dist[i].back() <= formula( c, i, j, D() ), "no other point is closer" );
    }
  }
  REACH("queries");
}

//@ queries1: four points on a line, Manhattan distance, symbolic coordinates between -500 and 500 in steps of 1/2, radius, zero to five neighbours
HARNESS(queries1)
{
  symapi_linear();
  auto c = cloud( 4, 1, 1000 );
  double r = sym::fixed( "radius", 0, 1500 );
  unsigned k = unsigned( sym::choice( "k", 0, 5 ) );
  queries<M>( c, r, k );
}

//@ queries2: three points of the plane, Euclidean distance, symbolic coordinates between -1.5 and 1.5 in steps of 1/2, radius, one to three neighbours
HARNESS(queries2)
{
  auto c = cloud( 3, 2, 3 );
  double r = sym::fixed( "radius", 0, 20, 1 );
  unsigned k = unsigned( sym::choice( "k", 1, 3 ) );
  queries<E>( c, r, k );
}

//@ line7: seven points on a line or in space in a fixed pattern except for one of three positions of a point, Manhattan distance, symbolic radius, dimension 1 to 6
HARNESS(line7)
{
  symapi_linear();
  std::size_t d = sym::flag( "space" ) ? 3 : 1;
  Cloud c( 7, d );
  double x = double( 20 * sym::choice( "x", 0, 2 ) );
  for( int i = 0; i < 7; ++i )
  {
    std::vector<double> p( d, 0.0 );
    p[ std::size_t( i ) % d ] = i == 3 ? x : double( i * 13 % 40 );
    c.set( std::size_t( i ), p.begin(), p.end() );
  }
  double r = sym::fixed( "radius", 0, 150 );
  unsigned k = unsigned( sym::choice( "dimension", 1, 6 ) );
  rips<M>( c, r, k );
}

//@ queries7: seven points on a line in a fixed pattern except for a symbolic coordinate 0..100, Manhattan distance, symbolic radius, four to eight neighbours
HARNESS(queries7)
{
  symapi_linear();
  Cloud c( 7, 1 );
  double x = sym::fixed( "x", 0, 100 );
  for( int i = 0; i < 7; ++i )
  {
    std::vector<double> p( 1, i == 3 ? x : double( i * 13 % 40 ) );
    c.set( std::size_t( i ), p.begin(), p.end() );
  }
  double r = sym::fixed( "radius", 0, 150 );
  unsigned k = unsigned( sym::choice( "k", 4, 8 ) );
  queries<M>( c, r, k );
}
