// C35: hierarchies of zero-dimensional persistence pairs
#include "sym.h"
#include "complexes.h"
#include "hierarchy.h"
#include <aleph/persistentHomology/ExtendedPersistenceHierarchy.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <vector>

using namespace aleph;
using namespace aleph::topology;

using Hierarchy = ExtendedPersistenceHierarchy<Spx>;
static const Vertex NONE = std::numeric_limits<Vertex>::max();

struct Result
{
  std::vector< std::pair<Vertex, Vertex> > edges;
  std::vector<Mask> order; // vertices and edges in filtration order
};

// Checks the pairing and what holds for every hierarchy
static Result calculate( const Complex& K )
{
  Hierarchy hierarchy;
  auto pair = hierarchy( K );
  Result r;
  std::vector<double> value;
  for( std::size_t i = 0; i < K.size(); ++i )
    if( K[i].dimension() <= 1 )
    {
      r.order.push_back( maskOf( K[i] ) );
      value.push_back( K[i].data() );
    }
  r.edges.assign( pair.second.begin(), pair.second.end() );

  std::set< std::pair<int, int> > expected, reported;
  std::set<int> positive;
  std::size_t n = 0;
  for( auto&& p : pairsByRanks( boundaryColumns( r.order ) ) )
    if( popcount( r.order[ std::size_t( p.first ) ] ) == 1 )
    {
      expected.insert( p );
      if( p.second >= 0 && value[ std::size_t( p.first ) ] != value[ std::size_t( p.second ) ] )
        positive.insert( p.first );
    }
  for( auto&& p : pair.first )
  {
    reported.insert( std::make_pair( int( p.first ), p.second == NONE ? -1 : int( p.second ) ) );
    ++n;
  }
  ASSERT( reported == expected, "pairs of zero-dimensional persistence" );
  ASSERT( n == expected.size(), "every pair occurs once" );

  // every pair of positive persistence is the child of exactly one other
  auto position = [&] ( Vertex v )
  {
    return int( std::find( r.order.begin(), r.order.end(), Mask(1) << v ) - r.order.begin() );
  };
  std::map<int, int> parent;
  for( auto&& e : r.edges )
  {
    int a = position( e.first ), b = position( e.second );
    ASSERT( a < int( r.order.size() ) && b < int( r.order.size() ), "edges join vertices of the complex" );
    ASSERT( positive.count( b ), "children are creators of pairs" );
    ASSERT( !parent.count( b ), "a child has one parent" );
    parent[b] = a;
    bool root = expected.count( std::make_pair( a, -1 ) ) > 0;
    ASSERT( positive.count( a ) || root, "parents are creators of pairs, too" );
  }
  ASSERT( parent.size() == positive.size(), "every pair of positive persistence is a child" );
  for( auto&& p : parent )
  {
    int v = p.first;
    std::size_t steps = 0;
    while( parent.count( v ) )
    {
      v = parent[v];
      ASSERT( ++steps <= parent.size(), "there is no cycle" );
    }
  }
  return r;
}

static void sorted( Complex& K, bool up )
{
  if( up )
    K.sort( filtrations::Data<Spx>() );
  else
    K.sort( filtrations::Data<Spx, std::greater<double> >() );
}

static std::vector<double> values( int n, long hi )
{
  std::vector<double> f;
  for( int i = 0; i < n; ++i )
    f.push_back( sym::fixed( "f", -hi, hi, 1 ) );
  return f;
}

static Complex star( const std::vector<Mask>& sets, const std::vector<double>& f, bool up )
{
  Complex K;
  for( Mask m : sets )
  {
    bool first = true;
    double w = 0;
    for( std::size_t v = 0; v < f.size(); ++v )
      if( m >> v & 1 )
      {
        w     = first ? f[v] : up ? sym::max( w, f[v] ) : sym::min( w, f[v] );
        first = false;
      }
    K.push_back( simplexOf( m, w ) );
  }
  sorted( K, up );
  return K;
}

static void path( int n, bool zigzag = false )
{
  symapi_linear();
  bool up = sym::flag( "ascending" );
  auto f = values( n, 1000 );
  if( zigzag )
    ASSUME( f[0] < f[8] );
  if( zigzag )
    for( int i = 0; i < n; ++i )
      if( up == ( i % 2 == 0 ) )
        ASSUME( f[ std::size_t( i ) ] < 0 );
      else
        ASSUME( f[ std::size_t( i ) ] > 0 );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < i; ++j )
      ASSUME( f[ std::size_t( i ) ] != f[ std::size_t( j ) ] );
  std::vector<Mask> sets;
  for( int i = 0; i < n; ++i )
    sets.push_back( Mask(1) << i );
  for( int i = 0; i + 1 < n; ++i )
    sets.push_back( Mask(3) << i );
  auto r = calculate( star( sets, f, up ) );
  std::vector<int> rank( std::size_t( n ), 0 );
  int k = 0;
  for( Mask m : r.order )
    if( popcount( m ) == 1 )
    {
      int v = 0;
      while( !( m >> v & 1 ) ) ++v;
      rank[ std::size_t( v ) ] = k++;
    }
  auto expected = onPath( rank, r.order );
  ASSERT( r.edges == expected, "a pair belongs to the latest one of the other component if both are neighbours above it, and to the oldest one otherwise" );
  REACH("path");
  for( auto&& e : expected )
    if( rank[ e.first ] > rank[ e.second ] || !( r.order[0] >> e.first & 1 ) )
      REACH("deeper");
}

//@ path5: functions without ties on a path with five vertices, ascending and descending
HARNESS(path5) { path( 5 ); }
//@ path6: functions without ties on a path with six vertices, ascending and descending
HARNESS(path6) { path( 6 ); }
//@ zigzag9: functions on a path with nine vertices with five minima below four maxima, or the other way round; the first value is less than the last one
HARNESS(zigzag9) { path( 9, true ); }
//@ t_path7: functions without ties on a path with seven vertices, ascending and descending
HARNESS(t_path7) { path( 7 ); }

static void graph( int n, long hi, int maxSize )
{
  symapi_linear();
  bool up = sym::flag( "ascending" );
  auto g = symbolicGraph( n );
  auto f = values( n, hi );
  calculate( star( cliques( g, maxSize ), f, up ) );
  REACH("graph");
}

//@ graphs3: clique complexes of all graphs with three vertices, values between -50 and 50 in steps of 1/2 with ties, ascending and descending
HARNESS(graphs3) { graph( 3, 100, 3 ); }
//@ graphs4: all graphs with four vertices, values between -50 and 50 in steps of 1/2 with ties, ascending and descending
HARNESS(graphs4) { graph( 4, 100, 2 ); }

//@ edges: weights of the edges of a cycle with four vertices are symbolic as well
HARNESS(edges)
{
  symapi_linear();
  std::vector<Mask> sets;
  for( int i = 0; i < 4; ++i )
    sets.push_back( Mask(1) << i );
  for( int i = 0; i < 4; ++i )
    sets.push_back( Mask(1) << i | Mask(1) << ( ( i + 1 ) % 4 ) );
  auto s = weightedSubsets( sets, 100 );
  Complex K( s.begin(), s.end() );
  sorted( K, true );
  calculate( K );
  REACH("edges");
}

//@ triangle: a triangle with two more vertices attached to it, values of two vertices symbolic with ties
HARNESS(triangle)
{
  symapi_linear();
  bool up = sym::flag( "ascending" );
  int k = sym::choice( "k", 0, 4 );
  std::vector<double> f = { 10, 20, 30, 40, 50 };
  f[ std::size_t( k ) ] = sym::fixed( "f", -60, 60, 1 );
  f[ std::size_t( ( k + 2 ) % 5 ) ] = sym::fixed( "f", -60, 60, 1 );
  calculate( star( { 1, 2, 4, 8, 16, 3, 6, 5, 7, 9, 24 }, f, up ) );
  REACH("triangle");
}
