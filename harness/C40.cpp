// C40: matrices of graphs, heat kernels, bisections and principal components
// flags: -DALEPH_WITH_EIGEN -DEIGEN_DONT_VECTORIZE -DEIGEN_MAX_ALIGN_BYTES=0 -I/usr/include/eigen3
#include "sym.h"
#include <aleph/geometry/HeatKernel.hh>
#include <aleph/math/PrincipalComponentAnalysis.hh>
#include <aleph/topology/Partitions.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <algorithm>
#include <cmath>
#include <vector>

using namespace aleph::geometry;
typedef aleph::topology::Simplex<double, unsigned> S;
typedef aleph::topology::SimplicialComplex<S> K;
typedef std::vector< std::vector<double> > Rows;

static Rows zero( std::size_t n ) { return Rows( n, std::vector<double>( n, 0.0 ) ); }

// Graph whose vertices have numbers with gaps; the matrix holds the weights
static K graph( const Rows& w )
{
  std::vector<S> s;
  for( std::size_t i = 0; i < w.size(); ++i )
    s.push_back( S( unsigned( 3 * i + 1 ), 0.0 ) );
  for( std::size_t i = 0; i < w.size(); ++i )
    for( std::size_t j = 0; j < i; ++j )
      if( w[i][j] != 0 )
      {
        std::vector<unsigned> v = { unsigned( 3 * i + 1 ), unsigned( 3 * j + 1 ) };
        s.push_back( S( v.begin(), v.end(), w[i][j] ) );
      }
  return K( s.begin(), s.end() );
}

static Rows laplacian( const Rows& w )
{
  Rows l = zero( w.size() );
  for( std::size_t i = 0; i < w.size(); ++i )
    for( std::size_t j = 0; j < w.size(); ++j )
      if( i != j )
      {
        l[i][j] -= w[i][j];
        l[i][i] += w[i][j];
      }
  return l;
}

static Rows weights( std::size_t n, int hi )
{
  Rows w = zero( n );
  for( std::size_t i = 0; i < n; ++i )
    for( std::size_t j = 0; j < i; ++j )
      w[i][j] = w[j][i] = double( sym::choice( "weight", 0, hi ) );
  return w;
}

static bool near( double a, double b ) { return std::abs( a - b ) < 1e-8; }

//@ matrices: all graphs with one to four vertices, weights between -500 and 500 in steps of 1/2 of edges, with and without a triangle
HARNESS(matrices)
{
  std::size_t n = std::size_t( sym::choice( "n", 1, 4 ) );
  Rows w = zero( n );
  std::vector<S> s;
  for( std::size_t i = 0; i < n; ++i )
    s.push_back( S( unsigned( 3 * i + 1 ), 7.0 ) );
  for( std::size_t i = 0; i < n; ++i )
    for( std::size_t j = 0; j < i; ++j )
      if( sym::flag( "edge" ) )
      {
        w[i][j] = w[j][i] = sym::fixed( "weight", -1000, 1000, 1 );
        std::vector<unsigned> v = { unsigned( 3 * j + 1 ), unsigned( 3 * i + 1 ) };
        s.push_back( S( v.begin(), v.end(), w[i][j] ) );
      }
  if( n >= 3 && w[0][1] != 0 && w[0][2] != 0 && w[1][2] != 0 && sym::flag( "triangle" ) )
  {
    s.push_back( S( { 1u, 4u, 7u }, 9.0 ) );
    REACH("triangle");
  }
  K k( s.begin(), s.end() );
  auto W = weightedAdjacencyMatrix( k );
  auto L = weightedLaplacianMatrix( k );
  ASSERT( std::size_t( W.rows() ) == n && std::size_t( W.cols() ) == n, "one row and column per vertex" );
  ASSERT( std::size_t( L.rows() ) == n && std::size_t( L.cols() ) == n, "one row and column per vertex" );
  Rows l = laplacian( w );
  for( std::size_t i = 0; i < n; ++i )
    for( std::size_t j = 0; j < n; ++j )
    {
      ASSERT( W( long( i ), long( j ) ) == w[i][j], "weights of edges" );
      ASSERT( L( long( i ), long( j ) ) == l[i][j], "degrees minus weights" );
    }
  REACH("matrices");
}

//@ inverse: connected graphs with two or three vertices and weights 0..2: Moore-Penrose conditions
HARNESS(inverse)
{
  std::size_t n = std::size_t( sym::choice( "n", 2, 3 ) );
  Rows w = weights( n, 2 );
  ASSUME( n == 2 ? w[0][1] > 0 : int( w[0][1] > 0 ) + int( w[0][2] > 0 ) + int( w[1][2] > 0 ) >= 2 );
  auto k = graph( w );
  auto P = pinvWeightedLaplacianMatrix( k );
  auto L = weightedLaplacianMatrix( k );
  Eigen::MatrixXd A = L * P * L, B = P * L * P, C = L * P, D = P * L;
  for( long i = 0; i < long( n ); ++i )
    for( long j = 0; j < long( n ); ++j )
    {
      ASSERT( near( A(i,j), L(i,j) ), "L P L is L" );
      ASSERT( near( B(i,j), P(i,j) ), "P L P is P" );
      ASSERT( near( C(i,j), C(j,i) ) && near( D(i,j), D(j,i) ), "products are symmetric" );
    }
  REACH("inverse");
}

// Exponential of a matrix by its series, halving the exponent first
static Rows product( const Rows& a, const Rows& b )
{
  Rows r = zero( a.size() );
  for( std::size_t i = 0; i < a.size(); ++i )
    for( std::size_t j = 0; j < a.size(); ++j )
      for( std::size_t k = 0; k < a.size(); ++k )
        r[i][j] += a[i][k] * b[k][j];
  return r;
}

static Rows exponential( Rows a, double t )
{
  std::size_t n = a.size();
  for( auto&& r : a )
    for( auto&& x : r )
      x *= -t / 64;
  Rows sum = zero( n ), term = zero( n );
  for( std::size_t i = 0; i < n; ++i )
    sum[i][i] = term[i][i] = 1;
  for( int k = 1; k < 16; ++k )
  {
    term = product( term, a );
    for( std::size_t i = 0; i < n; ++i )
      for( std::size_t j = 0; j < n; ++j )
        sum[i][j] += term[i][j] /= k;
  }
  for( int k = 0; k < 6; ++k )
    sum = product( sum, sum );
  return sum;
}

static void heat( std::size_t n, int hi )
{
  Rows w = weights( n, hi );
  double t = sym::choice( "time", 0, 2 );
  HeatKernel H( graph( w ) );
  Rows l = laplacian( w );
  Rows e = exponential( l, t );
  double trace = 0, sum = 0;
  for( std::size_t i = 0; i < n; ++i )
  {
    ASSERT( near( H( long( i ), t ), e[i][i] ), "diffusion of a vertex" );
    for( std::size_t j = 0; j < n; ++j )
      ASSERT( near( H( long( i ), long( j ), t ), e[i][j] ), "exponential of the Laplacian" );
    trace += e[i][i];
    sum   += l[i][i];
  }
  ASSERT( near( H.trace( t ), trace ), "trace" );
  ASSERT( near( H.determinant( t ), std::exp( -t * sum ) ), "determinant" );
  auto all = H( t );
  ASSERT( all.size() == n * n, "all pairs of vertices" );
  for( std::size_t i = 0; i < n; ++i )
    for( std::size_t j = 0; j < n; ++j )
      ASSERT( near( all[i * n + j], e[i][j] ), "all values" );
  REACH("heat");
}

//@ heat3: all graphs with three vertices, weights 0..2, times 0..2
HARNESS(heat3) { heat( 3, 2 ); }
//@ heat4: all graphs with four vertices, unit weights, times 0..2
HARNESS(heat4) { heat( 4, 1 ); }
//@ heat1: single vertices and pairs, weights 0..2, times 0..2
HARNESS(heat1) { heat( std::size_t( sym::choice( "n", 1, 2 ) ), 2 ); }

//@ interval: connected graphs with three vertices, weights 1..3, two to four samples
HARNESS(interval)
{
  Rows w = weights( 3, 3 );
  ASSUME( int( w[0][1] > 0 ) + int( w[0][2] > 0 ) + int( w[1][2] > 0 ) >= 2 );
  unsigned n = unsigned( sym::choice( "samples", 2, 4 ) );
  HeatKernel H( graph( w ) );
  auto s = H.logarithmicSamplingInterval( n );
  // eigenvalues other than zero have the sum a and the product b
  double x = w[0][1], y = w[0][2], z = w[1][2];
  double a = 2 * ( x + y + z ), b = 3 * ( x * y + x * z + y * z );
  double r = std::sqrt( std::max( a * a - 4 * b, 0.0 ) );
  double lo = ( a - r ) / 2, hi = ( a + r ) / 2;
  ASSERT( s.size() == n, "number of samples" );
  ASSERT( std::abs( s.front() * hi - 4 * std::log( 10.0 ) ) < 1e-6, "first sample" );
  ASSERT( std::abs( s.back()  * lo - 4 * std::log( 10.0 ) ) < 1e-6, "last sample" );
  for( unsigned i = 1; i + 1 < n; ++i )
    ASSERT( std::abs( s[i] * s[i] - s[i-1] * s[i+1] ) < 1e-6, "geometric sequence" );
  REACH("interval");
}

//@ bisection: all graphs with two to four vertices and unit weights: halves are disjoint, full subcomplexes of sizes that differ by at most one if values are different
HARNESS(bisection)
{
  std::size_t n = std::size_t( sym::choice( "n", 2, 4 ) );
  Rows w = weights( n, 1 );
  auto k = graph( w );
  auto parts = aleph::topology::bisect( k );
  ASSERT( parts.size() == 2, "two parts" );
  std::vector<int> side( n, -1 );
  for( int p = 0; p < 2; ++p )
    for( auto&& s : parts[ std::size_t( p ) ] )
      if( s.dimension() == 0 )
      {
        std::size_t v = ( s[0] - 1 ) / 3;
        ASSERT( v < n && side[v] == -1, "every vertex belongs to one part only" );
        side[v] = p;
      }
  std::size_t inside = n;
  for( std::size_t i = 0; i < n; ++i )
  {
    ASSERT( side[i] != -1, "every vertex belongs to a part" );
    for( std::size_t j = 0; j < i; ++j )
      if( w[i][j] != 0 && side[i] == side[j] )
      {
        ++inside;
        std::vector<unsigned> v = { unsigned( 3 * i + 1 ), unsigned( 3 * j + 1 ) };
        ASSERT( parts[ std::size_t( side[i] ) ].contains( S( v.begin(), v.end() ) ), "edges within a part are kept" );
        REACH("edge within");
      }
  }
  ASSERT( parts[0].size() + parts[1].size() == inside, "nothing else is contained" );
  REACH("bisection");
}

//@ path: paths with weights 1..4 on two and on four vertices: the halves of the path
HARNESS(path)
{
  std::size_t n = sym::flag( "four" ) ? 4 : 2;
  Rows w = zero( n );
  for( std::size_t i = 1; i < n; ++i )
    w[i][i-1] = w[i-1][i] = double( sym::choice( "weight", 1, 4 ) );
  auto parts = aleph::topology::bisect( graph( w ) );
  ASSERT( parts.size() == 2 && parts[0].size() == n - 1 && parts[1].size() == n - 1, "halves have the same size" );
  for( auto&& p : parts )
  {
    bool left = false, right = false;
    for( auto&& s : p )
      for( auto&& v : s )
        ( v / 3 < n / 2 ? left : right ) = true;
    ASSERT( left != right, "a half is one end of the path" );
  }
  REACH("path");
}

static void components( std::size_t n, std::size_t m, int hi )
{
  Rows a( n, std::vector<double>( m ) );
  for( auto&& r : a )
    for( auto&& x : r )
      x = double( sym::choice( "x", 0, hi ) );
  aleph::math::PrincipalComponentAnalysis pca;
  auto result = pca( a );
  Rows c = a;
  for( std::size_t j = 0; j < m; ++j )
  {
    double mean = 0;
    for( std::size_t i = 0; i < n; ++i )
      mean += a[i][j] / double( n );
    for( std::size_t i = 0; i < n; ++i )
      c[i][j] -= mean;
  }
  std::size_t k = std::min( n, m );
  ASSERT( result.singularValues.size() == k && result.components.size() == k, "number of components" );
  double total = 0, expected = 0;
  for( std::size_t i = 0; i < k; ++i )
  {
    double s = result.singularValues[i];
    auto&& v = result.components[i];
    ASSERT( v.size() == m, "dimension of components" );
    ASSERT( s >= 0 && ( i == 0 || s <= result.singularValues[i-1] ), "singular values descend" );
    for( std::size_t j = 0; j <= i; ++j )
    {
      double d = 0;
      for( std::size_t l = 0; l < m; ++l )
        d += v[l] * result.components[j][l];
      ASSERT( near( d, i == j ? 1 : 0 ), "components are orthonormal" );
    }
    // covariance times component
    for( std::size_t p = 0; p < m; ++p )
    {
      double d = 0;
      for( std::size_t l = 0; l < n; ++l )
        for( std::size_t q = 0; q < m; ++q )
          d += c[l][p] * c[l][q] * v[q] / double( m );
      ASSERT( near( d, s * s * v[p] ), "components are directions of variance" );
    }
    total += s * s;
  }
  for( auto&& r : c )
    for( auto&& x : r )
      expected += x * x / double( m );
  ASSERT( near( total, expected ), "singular values explain the total variance" );
  REACH("components");
}

//@ components2: two or three points of the plane with coordinates 0..2
HARNESS(components2) { components( std::size_t( sym::choice( "n", 2, 3 ) ), 2, 2 ); }
//@ components1: one point of the plane, two values, or two points of the space
HARNESS(components1)
{
  int kind = sym::choice( "kind", 0, 2 );
  if( kind == 0 )      components( 1, 2, 2 );
  else if( kind == 1 ) components( 2, 1, 3 );
  else                 components( 2, 3, 1 );
  aleph::math::PrincipalComponentAnalysis pca;
  ASSERT( pca( Rows() ).components.empty(), "no data" );
}
