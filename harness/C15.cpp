// C15: distances of points
#include "sym.h"
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Hamming.hh>
#include <aleph/geometry/distances/Infinity.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <aleph/geometry/distances/Traits.hh>
#include <aleph/geometry/distances/Wrapper.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <cmath>
#include <vector>

using namespace aleph::geometry::distances;
using Vec = std::vector<double>;

// Coordinates are multiples of one half
static Vec vec( const char* name, int n, long hi )
{
  Vec v;
  for( int i = 0; i < n; ++i )
    v.push_back( sym::fixed( name, -hi, hi, 1 ) );
  return v;
}

static double squares( const Vec& a, const Vec& b )
{
  double r = 0;
  for( std::size_t i = 0; i < a.size(); ++i )
    r += ( a[i] - b[i] ) * ( a[i] - b[i] );
  return r;
}

static double absolutes( const Vec& a, const Vec& b )
{
  double r = 0;
  for( std::size_t i = 0; i < a.size(); ++i )
    r += sym::abs( a[i] - b[i] );
  return r;
}

static double different( const Vec& a, const Vec& b )
{
  double r = 0;
  for( std::size_t i = 0; i < a.size(); ++i )
    r += sym::ite( a[i] == b[i], 0.0, 1.0 );
  return r;
}

static bool equal( const Vec& a, const Vec& b )
{
  bool r = true;
  for( std::size_t i = 0; i < a.size(); ++i )
    r = sym::both( r, a[i] == b[i] );
  return r;
}

template <class D, class F> void check( int n, long hi, F formula )
{
  symapi_linear();
  Vec a = vec( "a", n, hi ), b = vec( "b", n, hi );
  D dist;
  double d = dist( a.begin(), b.begin(), std::size_t( n ) );
  ASSERT( d == formula( a, b ), "the distance equals its formula" );
  double e = dist( b.data(), a.data(), std::size_t( n ) );
  ASSERT( d == e, "the distance is symmetric" );
  ASSERT( sym::iff( d == 0, equal( a, b ) ), "the distance is zero exactly for equal vectors" );
  ASSERT( d >= 0, "the distance is not negative" );
  sym::observe( d );
  REACH("formula");
}

//@ euclidean: vectors of length 1..4 with coordinates k/2 with -50<=k<=50
HARNESS(euclidean) { check< Euclidean<double> >( sym::choice( "n", 1, 4 ), 50, squares ); }
//@ manhattan: vectors of length 1..9 with coordinates k/2 with -1000<=k<=1000
HARNESS(manhattan) { check< Manhattan<double> >( sym::choice( "n", 1, 9 ), 1000, absolutes ); }
//@ hamming: vectors of length 1..9 with coordinates k/2 with -1000<=k<=1000
HARNESS(hamming) { check< Hamming<double> >( sym::choice( "n", 1, 9 ), 1000, different ); }

//@ longer: formula of all three distances for vectors of length 5..13 with coordinates k/2 with -50<=k<=50
HARNESS(longer)
{
  symapi_linear();
  int n = sym::choice( "n", 5, 13 );
  Vec a = vec( "a", n, 50 ), b = vec( "b", n, 50 );
  auto size = std::size_t( n );
  ASSERT( Euclidean<double>()( a.begin(), b.begin(), size ) == squares( a, b ), "Euclidean distance equals its formula" );
  ASSERT( Manhattan<double>()( a.begin(), b.begin(), size ) == absolutes( a, b ), "Manhattan distance equals its formula" );
  ASSERT( Hamming<double>()( a.begin(), b.begin(), size ) == different( a, b ), "Hamming distance equals its formula" );
  REACH("longer");
}

//@ single: the same with single precision and length 1..6, coordinates k/2 with -20<=k<=20
HARNESS(single)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 6 );
  Vec a = vec( "a", n, 20 ), b = vec( "b", n, 20 );
  std::vector<float> s( a.begin(), a.end() ), t( b.begin(), b.end() );
  auto size = std::size_t( n );
  ASSERT( double( Euclidean<float>()( s.begin(), t.begin(), size ) ) == squares( a, b ), "Euclidean distance equals its formula" );
  ASSERT( double( Manhattan<float>()( s.begin(), t.begin(), size ) ) == absolutes( a, b ), "Manhattan distance equals its formula" );
  ASSERT( double( Hamming<float>()( s.begin(), t.begin(), size ) ) == different( a, b ), "Hamming distance equals its formula" );
  REACH("single");
}

// A bound on interesting distances may shorten the calculation, but only of
// distances beyond it
template <class D, class F> void bounded( F formula )
{
  symapi_linear();
  int n = sym::choice( "n", 3, 9 );
  Vec a = vec( "a", n, 20 ), b = vec( "b", n, 20 );
  double worst = sym::fixed( "worst", 1, 500 );
  double d = D()( a.begin(), b.begin(), std::size_t( n ), worst );
  double f = formula( a, b );
  ASSERT( sym::either( d == f, sym::both( d > worst, f > worst ) ), "bounded distance is right unless it exceeds the bound" );
  REACH("bounded");
}

//@ boundedmanhattan: lengths 3..9, coordinates k/2 with -20<=k<=20, bound 1..500
HARNESS(boundedmanhattan) { bounded< Manhattan<double> >( absolutes ); }
//@ boundedhamming: lengths 3..9, coordinates k/2 with -20<=k<=20, bound 1..500
HARNESS(boundedhamming) { bounded< Hamming<double> >( different ); }

//@ components: contribution of a single coordinate k/2 with -1000<=k<=1000
HARNESS(components)
{
  symapi_linear();
  Vec a = vec( "a", 1, 1000 ), b = vec( "b", 1, 1000 );
  ASSERT( Euclidean<double>().accum_dist( a[0], b[0], 0 ) == squares( a, b ), "contribution of a coordinate to the Euclidean distance" );
  ASSERT( Manhattan<double>().accum_dist( a[0], b[0], 0 ) == absolutes( a, b ), "contribution of a coordinate to the Manhattan distance" );
  ASSERT( Hamming<double>().accum_dist( a[0], b[0], 0 ) == different( a, b ), "contribution of a coordinate to the Hamming distance" );
  REACH("components");
}

template <class D> void triangle( int n )
{
  symapi_linear();
  Vec a = vec( "a", n, 100 ), b = vec( "b", n, 100 ), c = vec( "c", n, 100 );
  D dist;
  auto size = std::size_t( n );
  double ab = dist( a.begin(), b.begin(), size ), bc = dist( b.begin(), c.begin(), size ), ac = dist( a.begin(), c.begin(), size );
  ASSERT( ac <= ab + bc, "triangle inequality" );
  REACH("triangle");
}

//@ trianglemanhattan: three vectors of length 1..3, coordinates k/2 with -100<=k<=100
HARNESS(trianglemanhattan) { triangle< Manhattan<double> >( sym::choice( "n", 1, 3 ) ); }
//@ trianglehamming: three vectors of length 1..4, coordinates k/2 with -100<=k<=100
HARNESS(trianglehamming) { triangle< Hamming<double> >( sym::choice( "n", 1, 4 ) ); }

using Point = aleph::PersistenceDiagram<double>::Point;
//@ plane: Chebyshev and squared Euclidean distance of points in the plane, coordinates k/2 with -1000<=k<=1000
HARNESS(plane)
{
  symapi_linear();
  Vec c = vec( "c", 6, 1000 );
  Point p( c[0], c[1] ), q( c[2], c[3] ), r( c[4], c[5] );
  InfinityDistance<double> d;
  double pq = d( p, q );
  ASSERT( pq == sym::max( sym::abs( c[0] - c[2] ), sym::abs( c[1] - c[3] ) ), "Chebyshev distance equals its formula" );
  ASSERT( pq == d( q, p ), "symmetric" );
  ASSERT( sym::iff( pq == 0, sym::both( c[0] == c[2], c[1] == c[3] ) ), "zero exactly for equal points" );
  ASSERT( d( p, r ) <= pq + d( q, r ), "triangle inequality" );
  ASSERT( Euclidean<double>()( p, q ) == ( c[0] - c[2] ) * ( c[0] - c[2] ) + ( c[1] - c[3] ) * ( c[1] - c[3] ), "squared Euclidean distance of points" );
  sym::observe( pq );
  REACH("plane");
}

//@ conversion: internal form to distance and back, value k with 0<=k<=1000; wrapper on vectors of length 1..5, coordinates k/2 with -10<=k<=10
HARNESS(conversion)
{
  double x = sym::fixed( "x", 0, 1000 );
  Traits< Euclidean<double> > e;
  Traits< Manhattan<double> > m;
  ASSERT( e.to( x ) == x * x, "squared" );
  ASSERT( e.from( e.to( x ) ) == x, "root of the square" );
  ASSERT( e.from( x ) == std::sqrt( x ), "root" );
  ASSERT( m.to( x ) == x && m.from( x ) == x, "nothing to convert" );

  int n = sym::choice( "n", 1, 5 );
  Vec a = vec( "a", n, 10 ), b = vec( "b", n, 10 );
  Wrapper< Euclidean<double>, Vec > we;
  Wrapper< Manhattan<double>, Vec > wm;
  ASSERT( we( a, b ) == std::sqrt( squares( a, b ) ), "wrapped Euclidean distance" );
  ASSERT( wm( a, b ) == absolutes( a, b ), "wrapped Manhattan distance" );
  REACH("conversion");
}
