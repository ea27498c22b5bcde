// C44: points, spheres, vectors, sets, samples and random graphs
#include "sym.h"
#include <aleph/geometry/Point.hh>
#include <aleph/geometry/SphereSampling.hh>
#include <aleph/geometry/TorusSampling.hh>
#include <aleph/math/AlgebraicSphere.hh>
#include <aleph/topology/RandomGraph.hh>
#include <aleph/utilities/ContainerOperators.hh>
#include <aleph/utilities/UnorderedSetOperations.hh>
#include <aleph/utilities/Values.hh>
#include <algorithm>
#include <cmath>
#include <random>
#include <set>
#include <sstream>
#include <unordered_set>
#include <vector>

// Every generator gets one of a few seeds
std::random_device::result_type std::random_device::_M_getval()
{
  return std::random_device::result_type( sym::choice( "seed", 0, 3 ) );
}

typedef aleph::geometry::Point<int> Point;

static std::vector<int> values( int lo, int hi )
{
  std::size_t n = std::size_t( sym::choice( "n", 0, 3 ) );
  std::vector<int> r;
  for( std::size_t i = 0; i < n; ++i )
    r.push_back( sym::integer( "x", lo, hi ) );
  return r;
}

//@ points: all pairs of points with up to three coordinates of arbitrary values: equality, order, iteration
HARNESS(points)
{
  auto a = values( -1000000, 1000000 ), b = values( -1000000, 1000000 );
  Point p( a.begin(), a.end() ), q( b.begin(), b.end() );
  ASSERT( p.size() == a.size() && p.dimension() == a.size(), "number of coordinates" );
  ASSERT( std::equal( p.begin(), p.end(), a.begin() ), "coordinates" );
  bool equal = a.size() == b.size(), less = a.size() < b.size();
  for( std::size_t i = std::min( a.size(), b.size() ); i-- > 0; )
  {
    equal = sym::both( equal, a[i] == b[i] );
    less  = sym::either( a[i] < b[i], sym::both( a[i] == b[i], less ) );
  }
  ASSERT( ( p == q ) == equal, "points are equal if all coordinates are" );
  ASSERT( ( p != q ) == !equal, "points are different otherwise" );
  ASSERT( ( p < q ) == less, "lexicographical order" );
  if( a.size() != b.size() ) REACH("different dimensions");
  else if( equal )           REACH("equal");
  else                       REACH("different");
}

//@ text: points with up to three small coordinates as text
HARNESS(text)
{
  std::vector<int> a;
  int n = sym::choice( "n", 0, 3 );
  for( int i = 0; i < n; ++i )
    a.push_back( sym::choice( "x", -2, 2 ) );
  Point p( a.begin(), a.end() );
  if( n == 2 )
    ASSERT( ( Point{ a[0], a[1] } == p ), "list of coordinates" );
  std::ostringstream out, expected;
  out << p;
  for( int i = 0; i < n; ++i )
    expected << ( i ? " " : "" ) << a[ std::size_t( i ) ];
  ASSERT( out.str() == expected.str(), "coordinates separated by spaces" );
  for( auto&& x : p )
    x += 1;
  for( int i = 0; i < n; ++i )
    ASSERT( *( p.begin() + i ) == a[ std::size_t( i ) ] + 1, "coordinates can be changed" );
  REACH("text");
}

//@ spheres: all spheres of one to three dimensions with centres -8..8 and radii 1..8, scaled by 1, 2, 4, or negative factors
HARNESS(spheres)
{
  std::size_t d = std::size_t( sym::choice( "dimension", 1, 3 ) );
  int k = sym::choice( "factor", 0, 3 );
  double f = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? -1 : -4;
  std::vector<double> centre;
  double r = sym::choice( "radius", 1, 4 ), n = 0;
  for( std::size_t i = 0; i < d; ++i )
  {
    centre.push_back( sym::fixed( "c", -8, 8 ) );
    n += centre[i] * centre[i];
  }
  // u_0 + u_1 x_1 + ... + s |x|^2 = 0
  std::vector<double> u = { f * ( n - r * r ) };
  for( double c : centre )
    u.push_back( -2 * f * c );
  u.push_back( f );
  aleph::math::AlgebraicSphere<double> s( u.begin(), u.end() );
  auto c = s.centre();
  ASSERT( c.size() == d, "dimension of the centre" );
  for( std::size_t i = 0; i < d; ++i )
    ASSERT( c[i] == centre[i], "centre" );
  ASSERT( s.radius() == r, "radius" );
  ASSERT( s.radius() == r && s.centre() == c, "repeated queries" );
  REACH("spheres");
}

//@ curvature: spheres of two dimensions with centres 0..1 and radii 1..4, and a degenerate one
HARNESS(curvature)
{
  int x = sym::choice( "x", 0, 1 ), r = sym::choice( "radius", 0, 4 );
  std::vector<double> u = { double( x * x - r * r ), double( -2 * x ), 0.0, 1.0 };
  aleph::math::AlgebraicSphere<double> s( u.begin(), u.end() );
  ASSERT( std::abs( s.meanCurvature() - ( r ? 1.0 / r : 0 ) ) < 1e-12, "mean curvature" );
  ASSERT( std::abs( s.gaussianCurvature() - ( r ? 1.0 / ( r * r ) : 0 ) ) < 1e-12, "Gaussian curvature" );
  bool refused = false;
  try { aleph::math::AlgebraicSphere<double> t( u.begin(), u.begin() + 2 ); }
  catch( std::runtime_error& ) { refused = true; }
  ASSERT( refused, "too few coefficients" );
  REACH("curvature");
}

//@ vectors: vectors with up to three arbitrary values: sum, difference, multiple
HARNESS(vectors)
{
  using namespace aleph::utilities;
  auto a = values( -1000, 1000 );
  std::vector<int> b;
  for( std::size_t i = 0; i < a.size(); ++i )
    b.push_back( sym::integer( "y", -1000, 1000 ) );
  int f = sym::choice( "factor", -3, 3 );
  auto s = a + b, d = a - b, m = f * a;
  ASSERT( s.size() == a.size() && d.size() == a.size() && m.size() == a.size(), "sizes" );
  for( std::size_t i = 0; i < a.size(); ++i )
    ASSERT( sym::both( s[i] == a[i] + b[i], sym::both( d[i] == a[i] - b[i], m[i] == f * a[i] ) ), "values" );
  REACH("vectors");
}

//@ close: sequences with up to two values and quarters as tolerances
HARNESS(close)
{
  std::size_t n = std::size_t( sym::choice( "n", 0, 2 ) ), m = std::size_t( sym::choice( "m", 0, 2 ) );
  std::vector<double> a, b;
  for( std::size_t i = 0; i < n; ++i ) a.push_back( sym::fixed( "a", -100, 100 ) );
  for( std::size_t i = 0; i < m; ++i ) b.push_back( sym::fixed( "b", -100, 100 ) );
  double r = sym::choice( "relative", 0, 1 ) * 0.25, t = sym::choice( "absolute", 0, 2 ) * 0.5;
  bool expected = n == m;
  for( std::size_t i = 0; i < std::min( n, m ); ++i )
    expected = sym::both( expected, sym::abs( a[i] - b[i] ) <= t + r * sym::abs( b[i] ) );
  bool is = aleph::utilities::allclose( a.begin(), a.end(), b.begin(), b.end(), r, t );
  ASSERT( is == expected, "all values within the tolerance" );
  if( is ) REACH("close"); else REACH("not close");
}

//@ sets: all pairs of subsets of four values, result initially empty or not
HARNESS(sets)
{
  std::unordered_set<int> a, b, c;
  std::set<int> expected;
  if( sym::flag( "initial" ) )
  {
    c.insert( 9 );
    expected.insert( 9 );
  }
  for( int i = 0; i < 4; ++i )
  {
    bool x = sym::flag( "a" ), y = sym::flag( "b" );
    if( x ) a.insert( i );
    if( y ) b.insert( i );
    if( x && y ) expected.insert( i );
  }
  aleph::utilities::set_intersection( a, b, c );
  ASSERT( std::set<int>( c.begin(), c.end() ) == expected, "common elements" );
  REACH("sets");
}

//@ ranges: all values and bounds
HARNESS(ranges)
{
  int x = sym::integer( "x", -1000000, 1000000 ), lo = sym::integer( "lower", -1000000, 1000000 ), hi = sym::integer( "upper", -1000000, 1000000 );
  bool range = true, larger = true;
  try { aleph::utilities::ensureRange( x, lo, hi ); }
  catch( std::out_of_range& ) { range = false; }
  try { aleph::utilities::ensureLarger( x, lo ); }
  catch( std::out_of_range& ) { larger = false; }
  ASSERT( range == sym::both( x >= lo, x <= hi ), "values within both bounds are accepted" );
  ASSERT( larger == ( x > lo ), "larger values are accepted" );
  if( range ) REACH("inside"); else REACH("outside");
}

static bool near( double a, double b ) { return std::abs( a - b ) < 1e-9; }

//@ sphere: zero to three samples for four seeds, radii 1..2, centres 0..1: all points lie on the sphere
HARNESS(sphere)
{
  unsigned n = unsigned( sym::choice( "n", 0, 3 ) );
  auto angles = aleph::geometry::sphereSampling<double>( n );
  ASSERT( angles.size() == n, "number of samples" );
  double r = sym::choice( "radius", 1, 2 ), x = sym::choice( "x", 0, 1 ), y = 2, z = -3;
  auto pc = aleph::geometry::makeSphere( angles, r, x, y, z );
  ASSERT( pc.size() == n && ( n == 0 || pc.dimension() == 3 ), "one point per sample" );
  for( unsigned i = 0; i < n; ++i )
  {
    double t = angles[i].first, p = angles[i].second;
    ASSERT( t >= 0 && t <= 2 * M_PI && p >= 0 && p <= M_PI, "ranges of angles" );
    auto v = pc[i];
    ASSERT( near( v[0], x + r * std::cos( t ) * std::sin( p ) ) && near( v[1], y + r * std::sin( t ) * std::sin( p ) ) && near( v[2], z + r * std::cos( p ) ), "coordinates" );
    ASSERT( near( ( v[0] - x ) * ( v[0] - x ) + ( v[1] - y ) * ( v[1] - y ) + ( v[2] - z ) * ( v[2] - z ), r * r ), "points lie on the sphere" );
  }
  REACH("sphere");
}

//@ torus: zero to three samples for four seeds, radii 2..3 and 1: all points lie on the torus
HARNESS(torus)
{
  unsigned n = unsigned( sym::choice( "n", 0, 3 ) );
  double R = sym::choice( "radius", 2, 3 ), r = 1;
  auto angles = aleph::geometry::torusRejectionSampling<double>( R, r, n );
  ASSERT( angles.size() == n, "number of samples" );
  auto pc = aleph::geometry::makeTorus( angles, R, r );
  ASSERT( pc.size() == n, "one point per sample" );
  for( unsigned i = 0; i < n; ++i )
  {
    double t = angles[i].first, p = angles[i].second;
    ASSERT( t >= 0 && t <= 2 * M_PI && p >= 0 && p <= 2 * M_PI, "ranges of angles" );
    auto v = pc[i];
    double d = std::sqrt( v[0] * v[0] + v[1] * v[1] ) - R;
    ASSERT( near( d * d + v[2] * v[2], r * r ), "points lie on the torus" );
    ASSERT( near( v[2], r * std::sin( t ) ) && near( v[0], ( R + r * std::cos( t ) ) * std::cos( p ) ) && near( v[1], ( R + r * std::cos( t ) ) * std::sin( p ) ), "coordinates" );
  }
  REACH("torus");
}

//@ graphs: random graphs with zero to five vertices, probabilities zero, one half and one, four seeds
HARNESS(graphs)
{
  unsigned n = unsigned( sym::choice( "n", 0, 5 ) );
  double p = sym::choice( "probability", 0, 2 ) * 0.5;
  auto K = aleph::topology::generateErdosRenyiGraph( n, p );
  std::set< std::set<unsigned> > found;
  std::size_t vertices = 0, edges = 0;
  for( auto&& s : K )
  {
    std::set<unsigned> v( s.begin(), s.end() );
    ASSERT( v.size() <= 2 && v.size() == s.size() && *v.rbegin() < n, "vertices and edges" );
    ASSERT( found.insert( v ).second, "no simplex occurs twice" );
    ( v.size() == 1 ? vertices : edges ) += 1;
  }
  ASSERT( vertices == n, "all vertices are present" );
  ASSERT( p != 0 || edges == 0, "no edge is present" );
  ASSERT( p != 1 || edges == n * ( n - 1 ) / 2, "all edges are present" );
  if( edges && p == 0.5 ) REACH("random edges");
}

//@ weighted: random weighted graphs with zero to five vertices, probabilities zero, one quarter and one half, four seeds
HARNESS(weighted)
{
  unsigned n = unsigned( sym::choice( "n", 0, 5 ) );
  double p = sym::choice( "probability", 0, 2 ) * 0.25;
  auto K = aleph::topology::generateWeightedRandomGraph( n, p );
  std::set< std::set<unsigned> > found;
  std::size_t vertices = 0, edges = 0;
  unsigned last = 0;
  for( auto&& s : K )
  {
    std::set<unsigned> v( s.begin(), s.end() );
    ASSERT( v.size() <= 2 && v.size() == s.size() && *v.rbegin() < n, "vertices and edges" );
    ASSERT( found.insert( v ).second, "no simplex occurs twice" );
    ASSERT( v.size() == 1 ? s.data() == 0 : s.data() > 0, "weights of edges are positive" );
    ASSERT( s.data() >= last, "sorted by weight" );
    last = s.data();
    ( v.size() == 1 ? vertices : edges ) += 1;
  }
  ASSERT( vertices == n, "all vertices are present" );
  ASSERT( p != 0 || edges == 0, "no edge is present" );
  if( edges ) REACH("random edges");
}
