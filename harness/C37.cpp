// C37: discrete curvature of simplicial complexes
#include "sym.h"
#include "complexes.h"
#include <aleph/topology/CombinatorialCurvature.hh>
#include <cmath>
#include <iterator>
#include <map>
#include <vector>

using namespace aleph::topology;

using Weights = std::map<Mask, double>;

static std::vector<Mask> ofDimension( const Complex& K, std::size_t d )
{
  std::vector<Mask> r;
  auto range = K.range( d );
  for( auto it = range.first; it != range.second; ++it )
    r.push_back( maskOf( *it ) );
  return r;
}

static bool isFacet( Mask s, Mask t ) { return ( s & t ) == s && popcount( t ) == popcount( s ) + 1; }

// Definition by Forman, on vertex sets
static double forman( const Weights& w, Mask s )
{
  double r = 0;
  for( auto&& t : w )
  {
    if( isFacet( s, t.first ) ) r += w.at( s ) / t.second;
    if( isFacet( t.first, s ) ) r += t.second / w.at( s );
    if( popcount( t.first ) == popcount( s ) && t.first != s )
    {
      double d = 0, m = std::sqrt( t.second * w.at( s ) );
      for( auto&& u : w )
      {
        if( isFacet( s, u.first ) && isFacet( t.first, u.first ) ) d += m / u.second;
        if( isFacet( u.first, s ) && isFacet( u.first, t.first ) ) d -= u.second / m;
      }
      r -= std::abs( d );
    }
  }
  return r * w.at( s );
}

// Numbers of cofaces, faces and parallel neighbours
static int counting( const std::vector<Mask>& sets, Mask s )
{
  int r = 0;
  for( Mask t : sets )
  {
    r += isFacet( s, t );
    r += isFacet( t, s );
    if( popcount( t ) == popcount( s ) && t != s )
    {
      bool face = false, coface = false;
      for( Mask u : sets )
      {
        coface |= isFacet( s, u ) && isFacet( t, u );
        face   |= isFacet( u, s ) && isFacet( u, t );
      }
      r -= face != coface;
    }
  }
  return r;
}

static void numbers( const std::vector<Mask>& sets )
{
  bool reverse = sym::flag( "reverse" );
  Complex K;
  int top = 0;
  for( std::size_t i = 0; i < sets.size(); ++i )
  {
    Mask m = sets[ reverse ? sets.size() - 1 - i : i ];
    K.push_back( simplexOf( m, 1.0 ) );
    top = std::max( top, popcount( m ) - 1 );
  }
  for( int d = 0; d <= top + 1; ++d )
  {
    auto s = ofDimension( K, std::size_t( d ) );
    std::vector<int> c;
    curvature( K, std::back_inserter( c ), unsigned( d ) );
    std::vector<double> w;
    weightedCurvature( K, std::back_inserter( w ), unsigned( d ) );
    ASSERT( c.size() == s.size() && w.size() == s.size(), "one value per simplex" );
    for( std::size_t i = 0; i < s.size(); ++i )
    {
      int e = counting( sets, s[i] );
      ASSERT( c[i] == e, "cofaces and faces without parallel neighbours" );
      ASSERT( w[i] == e, "unit weights give the unweighted curvature" );
      if( e < 0 ) REACH("negative");
    }
    if( d == 1 )
    {
      std::vector<int> standard;
      curvature( K, std::back_inserter( standard ) );
      ASSERT( standard == c, "edges by default" );
    }
  }
  for( Mask a : sets )
    for( Mask b : sets )
      ASSERT( hasFace( simplexOf( b ), simplexOf( a ) ) == isFacet( a, b ), "faces of a simplex" );
  if( top >= 2 )
  {
    auto s = ofDimension( K, std::size_t( top - 2 ) );
    std::vector<double> defects;
    angleDefectCurvature( K, std::back_inserter( defects ) );
    ASSERT( defects.size() == s.size(), "one defect per simplex of codimension two" );
    for( std::size_t i = 0; i < s.size(); ++i )
    {
      int n = 0;
      for( Mask t : sets )
        n += popcount( t ) == top + 1 && ( t & s[i] ) == s[i];
      ASSERT( sym::close( defects[i], 2 * M_PI - n * std::acos( 1.0 / top ) ), "angle defect" );
    }
    REACH("defects");
  }
}

//@ complexes: all complexes on up to four vertices, in two orders; all dimensions; unweighted, unit weights, angle defects
HARNESS(complexes) { numbers( symbolicComplex( 4, 4 ) ); }
//@ graphs: all graphs with five vertices, in two orders; all dimensions; unweighted, unit weights
HARNESS(graphs)
{
  auto g = symbolicGraph( 5 );
  numbers( cliques( g, 2 ) );
}
//@ flag5: clique complexes of all graphs with five vertices, in two orders; all dimensions; unweighted, unit weights, angle defects
HARNESS(flag5)
{
  auto g = symbolicGraph( 5 );
  numbers( cliques( g, 5 ) );
}

static void weighted( const std::vector<Mask>& sets, int heavy )
{
  Weights w;
  for( Mask m : sets )
    w[m] = 1;
  int last = -1;
  for( int i = 0; i < heavy; ++i )
  {
    if( last + 1 >= int( sets.size() ) )
      break;
    last = sym::choice( "heavy", last + 1, int( sets.size() ) - 1 );
    w[ sets[ std::size_t( last ) ] ] = double( sym::choice( "weight", 1, 3 ) * 2 );
  }
  Complex K;
  for( Mask m : sets )
    K.push_back( simplexOf( m, w[m] ) );
  for( std::size_t d = 0; d <= 3; ++d )
  {
    auto s = ofDimension( K, d );
    std::vector<double> c;
    weightedCurvature( K, std::back_inserter( c ), unsigned( d ) );
    ASSERT( c.size() == s.size(), "one value per simplex" );
    for( std::size_t i = 0; i < s.size(); ++i )
      ASSERT( std::abs( c[i] - forman( w, s[i] ) ) < 1e-9, "weighted curvature" );
  }
  REACH("weighted");
}

//@ weights: all complexes on up to three vertices, weights 2, 4 or 6 of up to two simplices, others having weight one
HARNESS(weights) { weighted( symbolicComplex( 3, 3 ), 2 ); }
//@ weights4: all complexes on up to four vertices, weight 2, 4 or 6 of one simplex, others having weight one
HARNESS(weights4) { weighted( symbolicComplex( 4, 4 ), 1 ); }

//@ open: sets of simplices on three vertices that need not contain all faces; missing simplices do not count
HARNESS(open)
{
  std::vector<Mask> sets;
  for( Mask m : subsets( 3, 3 ) )
    if( sym::flag( "present" ) )
      sets.push_back( m );
  Weights w;
  for( Mask m : sets )
    w[m] = 1;
  Complex K;
  for( Mask m : sets )
    K.push_back( simplexOf( m, 1.0 ) );
  auto s = ofDimension( K, 1 );
  std::vector<double> c;
  weightedCurvature( K, std::back_inserter( c ) );
  ASSERT( c.size() == s.size(), "one value per simplex" );
  for( std::size_t i = 0; i < s.size(); ++i )
    ASSERT( std::abs( c[i] - forman( w, s[i] ) ) < 1e-9, "weighted curvature" );
  REACH("open");
}
