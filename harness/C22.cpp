// C22: maximal cliques and clique graphs
#include "complexes.h"
#include <aleph/topology/CliqueGraph.hh>
#include <aleph/topology/MaximalCliques.hh>
#include <set>

using namespace aleph::topology;
using Cliques = std::set< std::set<Vertex> >;

// Complex of the vertices and edges of a graph; vertices get the given names
static Complex skeleton( const Graph& g, const std::vector<Vertex>& name )
{
  Complex K;
  for( int i = 0; i < g.n; ++i )
    K.push_back( Spx( name[ std::size_t(i) ] ) );
  for( int i = 0; i < g.n; ++i )
    for( int j = i+1; j < g.n; ++j )
      if( g.a[i][j] )
        K.push_back( Spx( { name[ std::size_t(i) ], name[ std::size_t(j) ] } ) );
  return K;
}

static void maximal( const Graph& g, bool named )
{
  int n = g.n;
  std::vector<Vertex> name;
  for( int i = 0; i < n; ++i )
    name.push_back( Vertex( named ? ( 7 * i + 5 ) % 23 : i ) );
  Complex K = skeleton( g, name );
  Cliques expected;
  for( Mask m : cliques( g, n ) )
  {
    bool maximal = true;
    for( int i = 0; i < n; ++i )
      if( !( m >> i & 1 ) && isClique( g, m | Mask(1) << i ) )
        maximal = false;
    if( !maximal )
      continue;
    std::set<Vertex> s;
    for( int i = 0; i < n; ++i )
      if( m >> i & 1 )
        s.insert( name[ std::size_t(i) ] );
    expected.insert( s );
  }
  auto A = maximalCliquesKoch( K );
  auto B = maximalCliquesBronKerbosch( K );
  ASSERT( Cliques( A.begin(), A.end() ) == expected && A.size() == expected.size(), "maximal cliques with pivot" );
  ASSERT( Cliques( B.begin(), B.end() ) == expected && B.size() == expected.size(), "maximal cliques without pivot" );
  sym::observe( long( A.size() ) );
}

//@ small: all graphs with one to four vertices whose names are not consecutive
HARNESS(small)
{
  maximal( symbolicGraph( sym::choice( "n", 1, 4 ) ), true );
  REACH("small");
}

//@ five: all graphs with five vertices
HARNESS(five)
{
  maximal( symbolicGraph( 5 ), false );
  REACH("five");
}

//@ t_six: all graphs with six vertices
HARNESS(t_six)
{
  maximal( symbolicGraph( 6 ), false );
  REACH("T:six");
}

static void graphOf( const Complex& K, unsigned k )
{
  auto G = getCliqueGraph( K, k );
  auto H = getCliqueGraph( K, k, [] ( double a, double b ) { return sym::min( a, b ); } );
  std::size_t vertices = 0, edges = 0;
  for( std::size_t i = 0; i < K.size(); ++i )
  {
    if( K[i].dimension() != k )
      continue;
    ++vertices;
    auto it = G.find( Spx( Vertex(i) ) );
    ASSERT( it != G.end() && it->data() == K[i].data(), "every simplex of dimension k is a vertex, named by its position" );
    for( std::size_t j = i+1; j < K.size(); ++j )
    {
      if( K[j].dimension() != k )
        continue;
      bool adjacent = popcount( maskOf( K[i] ) & maskOf( K[j] ) ) == int( k );
      edges += adjacent;
      Spx e( { Vertex(i), Vertex(j) } );
      auto a = G.find( e ), b = H.find( e );
      ASSERT( ( a != G.end() ) == adjacent && ( b != H.end() ) == adjacent, "edges join simplices that share a face" );
      if( adjacent )
      {
        ASSERT( a->data() == sym::max( K[i].data(), K[j].data() ), "weight of an edge is the maximum" );
        ASSERT( b->data() == sym::min( K[i].data(), K[j].data() ), "weight of an edge by the given function" );
      }
    }
  }
  ASSERT( G.size() == vertices + edges && H.size() == vertices + edges, "nothing else" );
}

//@ edges: clique graphs for k=1 of all graphs with four vertices, symbolic weights
HARNESS(edges)
{
  symapi_linear();
  Graph g = symbolicGraph( 4 );
  Complex K;
  for( Mask m : cliques( g, 2 ) )
    K.push_back( simplexOf( m, sym::fixed( "w", -100, 100, 1 ) ) );
  graphOf( K, 1 );
  if( K.size() == 10 ) REACH("edges");
}

//@ triangles: clique graphs for k=2 of the subsets of the triangles on five vertices that contain vertex 0 or all are on four vertices, symbolic weights
HARNESS(triangles)
{
  symapi_linear();
  std::vector<Mask> candidates;
  bool four = sym::flag( "four" );
  for( Mask m : subsets( four ? 4 : 5, 3 ) )
    if( popcount( m ) == 3 && ( four || ( m & 1 ) ) )
      candidates.push_back( m );
  std::set<Mask> all;
  for( Mask m : candidates )
    if( sym::flag( "triangle" ) )
      for( Mask s = m; s; s = ( s - 1 ) & m )
        all.insert( s );
  Complex K;
  for( int d = 1; d <= 3; ++d )
    for( Mask m : all )
      if( popcount( m ) == d )
        K.push_back( simplexOf( m, d == 3 ? sym::fixed( "w", 0, 100, 1 ) : 0.0 ) );
  graphOf( K, 2 );
  if( K.size() > 20 ) REACH("triangles");
}

//@ stars: up to seven edges at one vertex, or up to six triangles at one edge, two of them with symbolic weights
HARNESS(stars)
{
  symapi_linear();
  bool edge = sym::flag( "edge" );
  int n = sym::choice( "n", 5, edge ? 6 : 7 );
  std::set<Mask> all;
  Mask centre = edge ? 3 : 1;
  std::vector<Mask> top;
  for( int i = 0; i < n; ++i )
  {
    Mask m = centre | Mask(1) << ( i + 2 );
    top.push_back( m );
    for( Mask t = m; t; t = ( t - 1 ) & m )
      all.insert( t );
  }
  int a = sym::choice( "first", 0, n - 1 ), b = sym::choice( "second", 0, n - 1 );
  Complex K;
  for( int d = 1; d <= 3; ++d )
    for( Mask m : all )
      if( popcount( m ) == d )
        K.push_back( simplexOf( m, m == top[ std::size_t(a) ] || m == top[ std::size_t(b) ] ? sym::fixed( "w", 0, 100, 1 ) : 10.0 * d ) );
  graphOf( K, edge ? 2 : 1 );
  REACH("stars");
}

//@ vertices: clique graph for k=0 joins no vertices since they share no face; one to three vertices and an edge
HARNESS(vertices)
{
  Complex K;
  int n = sym::choice( "n", 1, 3 );
  for( int i = 0; i < n; ++i )
    K.push_back( Spx( Vertex(i), sym::fixed( "w", 0, 10 ) ) );
  if( n > 1 )
    K.push_back( Spx( { Vertex(0), Vertex(1) }, 10.0 ) );
  auto G = getCliqueGraph( K, 0 );
  for( auto&& s : G )
    ASSERT( s.dimension() == 0 && s.data() == K[ s[0] ].data(), "only vertices" );
  ASSERT( G.size() == std::size_t( n ), "one vertex per vertex" );
  REACH("vertices");
}

//@ large: seven to nine vertices: complements of disjoint triangles, of cycles and of perfect matchings, complete graphs and wheels, three edges of which are removed or added
HARNESS(large)
{
  Graph g;
  int n = sym::choice( "n", 7, 9 ), kind = sym::choice( "kind", 0, 4 );
  g.n = n;
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
    {
      int d = i > j ? i - j : j - i;
      bool cycle = d == 1 || d == n - 1;
      g.a[i][j] = i != j && ( kind == 0 ? i / 3 != j / 3 : kind == 1 ? !cycle : kind == 2 ? i / 2 != j / 2 : kind == 3 ? true : cycle || i == 0 || j == 0 );
    }
  const int e[3][2] = { {0,2}, {5,6}, {1,4} };
  for( int i = 0; i < 3; ++i )
    if( sym::flag( "toggle" ) )
      g.a[e[i][1]][e[i][0]] = g.a[e[i][0]][e[i][1]] = !g.a[e[i][0]][e[i][1]];
  bool named = sym::flag( "named" );
  maximal( g, named );
  REACH("large");
}
