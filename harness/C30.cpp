// C30: witness complexes, beta skeletons and Cech complexes
#include "complexes.h"
#include <random>
// Random numbers are seeded with one of a few values instead of values of the system
unsigned std::random_device::_M_getval() { return unsigned( sym::choice( "seed", 0, 3 ) ); }
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BetaSkeleton.hh>
#include <aleph/geometry/CechComplex.hh>
#include <aleph/geometry/WitnessComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <cmath>

using namespace aleph::geometry;
typedef aleph::containers::PointCloud<double> Cloud;
typedef distances::Manhattan<double> M;
typedef distances::Euclidean<double> E;

static double manhattan( const std::vector<double>& p, const std::vector<double>& q )
{
  double d = 0;
  for( std::size_t i = 0; i < p.size(); ++i )
    d += sym::abs( p[i] - q[i] );
  return d;
}

template <class K> static void sortedByWeight( const K& L )
{
  for( std::size_t i = 1; i < L.size(); ++i )
    ASSERT( L[i-1].data() <= L[i].data(), "sorted by weight" );
}

template <class K, class S> static void closed( const K& L, const S& s )
{
  for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it )
    ASSERT( L.contains( *it ), "faces are contained" );
}

static Cloud cloud( int n, int d, long hi )
{
  Cloud c( static_cast<std::size_t>( n ), static_cast<std::size_t>( d ) );
  for( int i = 0; i < n; ++i )
  {
    std::vector<double> p;
    for( int k = 0; k < d; ++k )
      p.push_back( sym::fixed( "x", -hi, hi, 1 ) );
    c.set( std::size_t( i ), p.begin(), p.end() );
  }
  return c;
}

static double smallest( std::vector<double> v, unsigned k )
{
  // k-th smallest value without branches
  for( std::size_t i = 0; i < v.size(); ++i )
    for( std::size_t j = 0; j + 1 < v.size(); ++j )
    {
      double a = sym::min( v[j], v[j+1] ), b = sym::max( v[j], v[j+1] );
      v[j] = a;
      v[j+1] = b;
    }
  return v[ k - 1 ];
}

static void witnesses( const Cloud& c, const std::vector<std::size_t>& landmarks, unsigned dimension, unsigned nu, double R )
{
  std::size_t n = landmarks.size(), N = c.size();
  auto K = buildWitnessComplex<M>( c, landmarks.begin(), landmarks.end(), dimension, nu, R );
  std::vector< std::vector<double> > D( N );
  std::vector<double> m( N, 0.0 );
  for( std::size_t k = 0; k < N; ++k )
  {
    for( auto l : landmarks )
      D[k].push_back( manhattan( c[k], c[l] ) );
    if( nu )
      m[k] = smallest( D[k], nu );
  }
  const double none = 1000000;
  double w[4][4];
  for( std::size_t i = 0; i < n; ++i )
    for( std::size_t j = 0; j < n; ++j )
    {
      w[i][j] = none;
      for( std::size_t k = 0; k < N; ++k )
      {
        double d = sym::max( D[k][i], D[k][j] );
        w[i][j] = sym::ite( d <= R + m[k], sym::min( w[i][j], d ), w[i][j] );
      }
    }
  typedef decltype( K ) Result;
  typedef typename Result::ValueType S;
  std::size_t count = 0;
  unsigned largest = dimension ? dimension : unsigned( c.dimension() ) + 1;
  for( Mask s : subsets( int( n ), int( n ) ) )
  {
    if( unsigned( popcount( s ) ) > largest + 1 )
      continue;
    bool present = true;
    double weight = 0;
    std::vector<std::size_t> v;
    for( std::size_t i = 0; i < n; ++i )
      if( s >> i & 1 )
      {
        for( auto j : v )
        {
          present = sym::both( present, w[i][j] != none );
          weight = sym::max( weight, w[i][j] );
        }
        v.push_back( i );
      }
    auto it = K.find( S( v.begin(), v.end() ) );
    ASSERT( ( it != K.end() ) == present, "simplices with witnesses" );
    if( it != K.end() )
    {
      ++count;
      ASSERT( it->data() == weight, "weight of a simplex" );
    }
  }
  ASSERT( K.size() == count, "no other simplex" );
  sortedByWeight( K );
}

//@ witness3: three symbolic landmarks between -4 and 4 in steps of 1/2 on a line and a further point, radius 0 or 2, all values of nu, dimension 0 or 1
HARNESS(witness3)
{
  symapi_linear();
  Cloud c = cloud( 4, 1, 8 );
  unsigned nu = unsigned( sym::choice( "nu", 0, 3 ) );
  double R = sym::flag( "R" ) ? 2.0 : 0.0;
  witnesses( c, { 0, 2, 3 }, nu == 3 ? 1 : 0, nu, R );
  REACH("witness3");
}

//@ t_witness3: three symbolic landmarks between -7.5 and 7.5 in steps of 1/2 on a line and a further point, symbolic radius, all values of nu, dimension 0..2
HARNESS(t_witness3)
{
  symapi_linear();
  Cloud c = cloud( 4, 1, 15 );
  unsigned nu = unsigned( sym::choice( "nu", 0, 3 ) );
  unsigned dimension = unsigned( sym::choice( "dimension", 0, 2 ) );
  double R = sym::fixed( "R", 0, 10 );
  witnesses( c, { 0, 2, 3 }, dimension, nu, R );
  REACH("T:t_witness3");
}

//@ witness2: two symbolic landmarks between -7.5 and 7.5 in steps of 1/2 in the plane and a further point, symbolic radius, all values of nu
HARNESS(witness2)
{
  symapi_linear();
  Cloud c = cloud( 3, 2, 15 );
  unsigned nu = unsigned( sym::choice( "nu", 0, 2 ) );
  double R = sym::fixed( "R", 0, 10 );
  witnesses( c, { 1, 0 }, 0, nu, R );
  REACH("witness2");
}

//@ nothing: clouds without points and no landmarks
HARNESS(nothing)
{
  Cloud c = cloud( sym::choice( "n", 0, 2 ), 1, 5 );
  std::vector<std::size_t> none;
  auto K = buildWitnessComplex<M>( c, none.begin(), none.end() );
  ASSERT( K.empty(), "no landmarks, no simplices" );
  REACH("nothing");
}

//@ landmarks: landmarks of four symbolic points between -10 and 10 in steps of 1/2 on a line, seeded with four concrete values
HARNESS(landmarks)
{
  symapi_linear();
  Cloud c = cloud( 4, 1, 20 );
  std::size_t n = std::size_t( sym::choice( "n", 1, 5 ) );
  std::vector<std::size_t> L;
  bool thrown = false;
  try
  {
    generateMaxMinLandmarks( c, n, std::back_inserter( L ), M() );
  }
  catch( std::out_of_range& )
  {
    thrown = true;
  }
  ASSERT( thrown == ( n > 4 ), "more landmarks than points are rejected" );
  if( !thrown )
  {
    ASSERT( L.size() == n, "number of landmarks" );
    for( std::size_t i = 1; i < n; ++i )
    {
      // Distance to the landmarks in front of this one is as large as possible
      double best = -1, own = 1000;
      for( std::size_t p = 0; p < 4; ++p )
      {
        double d = 1000;
        for( std::size_t j = 0; j < i; ++j )
          d = sym::min( d, manhattan( c[p], c[ L[j] ] ) );
        best = sym::max( best, d );
        if( p == L[i] )
          own = d;
      }
      ASSERT( L[i] < 4 && own == best, "every landmark is as far as possible from those before" );
    }
  }
  std::vector<int> r;
  int k = sym::choice( "k", 0, 3 );
  generateRandomLandmarks( 3, k, std::back_inserter( r ) );
  std::sort( r.begin(), r.end() );
  ASSERT( int( r.size() ) == k, "number of random landmarks" );
  for( int i = 0; i < k; ++i )
    ASSERT( r[i] >= 0 && r[i] < 3 && ( i == 0 || r[i-1] < r[i] ), "different random landmarks" );
  REACH("landmarks");
}

//@ line: beta skeleton of three symbolic points between -3.5 and 3.5 in steps of 1/2 on a line, beta of 1, 1.5, 2 and 3
HARNESS(line)
{
  Cloud c = cloud( 3, 1, 7 );
  double beta = 0.5 * sym::choice( "beta", 2, 6 );
  ASSUME( beta != 2.5 );
  auto K = buildBetaSkeletonNaive( c, beta, M() );
  typedef decltype( K )::ValueType S;
  std::size_t count = 3;
  for( std::size_t i = 0; i < 3; ++i )
  {
    auto it = K.find( S( i ) );
    ASSERT( it != K.end() && it->data() == 0, "all points are vertices" );
    for( std::size_t j = i + 1; j < 3; ++j )
    {
      std::size_t r = 3 - i - j;
      double p = c[i][0], q = c[j][0], x = c[r][0];
      double d = sym::abs( p - q );
      double a = sym::abs( 2 * x - ( ( 2 - beta ) * p + beta * q ) ), b = sym::abs( 2 * x - ( ( 2 - beta ) * q + beta * p ) );
      bool occupied = sym::both( a <= beta * d, b <= beta * d );
      auto jt = K.find( S( { i, j } ) );
      ASSERT( ( jt != K.end() ) == !occupied, "edges with an empty region" );
      if( jt != K.end() )
      {
        ASSERT( jt->data() == d, "edges have their length as weight" );
        ++count;
      }
    }
  }
  ASSERT( K.size() == count, "no other simplex" );
  REACH("line");
}

//@ lune: beta skeleton of the points (0,0), (x,0), and a point in a grid 0..4, explored by value, beta of 1 and 2, apart from points on the boundary of the region
HARNESS(lune)
{
  int X[3] = { 0, sym::choice( "x", 1, 4 ), sym::choice( "u", 0, 4 ) };
  int Y[3] = { 0, sym::choice( "y", 0, 3 ), sym::choice( "v", 0, 4 ) };
  int beta = sym::choice( "beta", 1, 2 );
  Cloud c( 3, 2 );
  for( std::size_t i = 0; i < 3; ++i )
    c.set( i, { double( X[i] ), double( Y[i] ) } );
  auto K = buildBetaSkeletonNaive( c, double( beta ), E() );
  typedef decltype( K )::ValueType S;
  for( int i = 0; i < 3; ++i )
    for( int j = i + 1; j < 3; ++j )
    {
      int r = 3 - i - j;
      auto square = [] ( int x, int y ) { return x * x + y * y; };
      int d = square( X[i] - X[j], Y[i] - Y[j] );
      // four times the squared distance to the centres of both discs minus that of the radius
      int a = square( 2 * X[r] - ( 2 - beta ) * X[i] - beta * X[j], 2 * Y[r] - ( 2 - beta ) * Y[i] - beta * Y[j] ) - beta * beta * d;
      int b = square( 2 * X[r] - ( 2 - beta ) * X[j] - beta * X[i], 2 * Y[r] - ( 2 - beta ) * Y[j] - beta * Y[i] ) - beta * beta * d;
      auto it = K.find( S( { std::size_t( i ), std::size_t( j ) } ) );
      if( std::max( a, b ) < 0 )
        ASSERT( it == K.end(), "no edge if a point is inside of the region" );
      else if( std::max( a, b ) > 0 )
        ASSERT( it != K.end() && sym::close( it->data(), std::sqrt( double( d ) ) ), "edge if no point is inside of the region" );
    }
  REACH("lune");
}

// Squared radius of the smallest circle around points, as a fraction
static double squaredRadius( const std::vector< std::pair<int,int> >& p )
{
  auto square = [&] ( std::size_t i, std::size_t j ) { return double( ( p[i].first - p[j].first ) * ( p[i].first - p[j].first ) + ( p[i].second - p[j].second ) * ( p[i].second - p[j].second ) ); };
  if( p.size() == 1 )
    return 0;
  if( p.size() == 2 )
    return square( 0, 1 ) / 4;
  double a = square( 1, 2 ), b = square( 0, 2 ), c = square( 0, 1 );
  double largest = std::max( a, std::max( b, c ) );
  if( a + b + c <= 2 * largest ) // obtuse or right angle, or collinear
    return largest / 4;
  double area2 = double( ( p[1].first - p[0].first ) * ( p[2].second - p[0].second ) - ( p[2].first - p[0].first ) * ( p[1].second - p[0].second ) ); // twice the area
  return a * b * c / ( 4 * area2 * area2 );
}

//@ cech: Cech complex of (0,0) and two different points of a grid 0..3, explored by value, symbolic radius, apart from radii closer than 0.001 to that of a circle
HARNESS(cech)
{
  std::vector< std::pair<int,int> > P = { { 0, 0 } };
  Cloud c( 3, 2 );
  for( std::size_t i = 1; i < 3; ++i )
  {
    int x = sym::choice( "x", 0, 3 );
    int y = sym::choice( "y", 0, 3 );
    P.push_back( { x, y } );
    c.set( i, { double( x ), double( y ) } );
  }
  ASSUME( P[1] != P[0] && P[2] != P[0] && P[1] != P[2] );
  double r = sym::fixed( "r", 0, 96, 5 );
  for( Mask s : subsets( 3, 3 ) )
    if( popcount( s ) > 1 )
    {
      std::vector< std::pair<int,int> > Q;
      for( std::size_t i = 0; i < 3; ++i )
        if( s >> i & 1 )
          Q.push_back( P[i] );
      double q = squaredRadius( Q );
      ASSUME( sym::either( r * r < q - 0.001, r * r > q + 0.001 ) );
    }
  auto K = buildCechComplex( c, r );
  typedef decltype( K )::ValueType S;
  std::size_t count = 0;
  for( Mask s : subsets( 3, 3 ) )
  {
    std::vector< std::pair<int,int> > Q;
    std::vector<std::size_t> v;
    for( std::size_t i = 0; i < 3; ++i )
      if( s >> i & 1 )
      {
        Q.push_back( P[i] );
        v.push_back( i );
      }
    double q = squaredRadius( Q );
    auto it = K.find( S( v.begin(), v.end() ) );
    if( v.size() == 1 || q < r * r )
    {
      ASSERT( it != K.end(), "points within a circle of the radius" );
      ASSERT( std::abs( it->data() - 2 * std::sqrt( q ) ) < 0.0001, "diameter of the circle" );
      closed( K, *it );
      ++count;
    }
    else
      ASSERT( it == K.end(), "points not within a circle of the radius" );
  }
  ASSERT( K.size() == count, "no other simplex" );
  sortedByWeight( K );
  REACH("cech");
}
