// C10: union-find and connected components give the reachability partition
#include "complexes.h"
#include <aleph/topology/ConnectedComponents.hh>
#include <aleph/topology/UnionFind.hh>
#include <algorithm>
#include <set>

using namespace aleph::topology;

struct Model
{
  std::vector<int> root;
  explicit Model( int n ) { for( int i = 0; i < n; ++i ) root.push_back( i ); }
  void merge( int u, int v )
  {
    int a = root[ std::size_t(u) ], b = root[ std::size_t(v) ];
    for( int& r : root ) if( r == a ) r = b;
  }
};

// Lookups shorten paths, so every query is asked of a copy without earlier lookups, too
template <class T> void verify( UnionFind<T>& uf, const Model& m, const std::vector<T>& name )
{
  int n = int( m.root.size() );
  std::set<T> roots;
  const UnionFind<T> fresh = uf;
  for( int i = 0; i < n; ++i )
  {
    UnionFind<T> one = fresh, other = fresh;
    ASSERT( one.find( name[ std::size_t(i) ] ) == name[ std::size_t( m.root[ std::size_t(i) ] ) ], "representative without earlier lookups" );
    ASSERT( fresh.contains( name[ std::size_t(i) ] ), "members are contained" );
    std::vector<T> all;
    other.get( name[ std::size_t(i) ], std::back_inserter( all ) );
    for( int j = 0; j < n; ++j )
      ASSERT( std::count( all.begin(), all.end(), name[ std::size_t(j) ] ) == ( m.root[ std::size_t(i) ] == m.root[ std::size_t(j) ] ), "members of a set without earlier lookups" );
    T r = uf.find( name[ std::size_t(i) ] );
    sym::observe( long( r ) );
    ASSERT( r == name[ std::size_t( m.root[ std::size_t(i) ] ) ], "representative is that of the set merged into" );
    roots.insert( r );
    ASSERT( uf.contains( name[ std::size_t(i) ] ), "members are contained" );
    for( int j = 0; j < n; ++j )
      ASSERT( ( uf.find( name[ std::size_t(i) ] ) == uf.find( name[ std::size_t(j) ] ) ) == ( m.root[ std::size_t(i) ] == m.root[ std::size_t(j) ] ), "same representative exactly for connected elements" );
    std::vector<T> members;
    uf.get( name[ std::size_t(i) ], std::back_inserter( members ) );
    std::set<T> want, got( members.begin(), members.end() );
    for( int j = 0; j < n; ++j )
      if( m.root[ std::size_t(i) ] == m.root[ std::size_t(j) ] )
        want.insert( name[ std::size_t(j) ] );
    ASSERT( got == want && got.size() == members.size(), "members of a set" );
  }
  UnionFind<T> another = fresh;
  std::vector<T> reported;
  another.roots( std::back_inserter( reported ) );
  ASSERT( std::set<T>( reported.begin(), reported.end() ) == roots && reported.size() == roots.size(), "roots without earlier lookups" );
  reported.clear();
  uf.roots( std::back_inserter( reported ) );
  ASSERT( std::set<T>( reported.begin(), reported.end() ) == roots && reported.size() == roots.size(), "roots" );
  ASSERT( !uf.contains( T( 999 ) ), "other elements are not contained" );
  bool thrown = false;
  try { uf.find( T( 999 ) ); } catch( std::out_of_range& ) { thrown = true; }
  ASSERT( thrown, "other elements are rejected" );
  if( roots.size() == 1 ) REACH("one set");
  if( roots.size() > 1 ) REACH("several sets");
}

static void merges( int n, int k, int lookups )
{
  std::vector<Vertex> name;
  for( int i = 0; i < n; ++i )
    name.push_back( Vertex( 7*i + 3 ) );
  UnionFind<Vertex> uf( name.begin(), name.end() );
  Model m( n );
  for( int i = 0; i < k; ++i )
  {
    int u = sym::choice( "u", 0, n-1 ), v = sym::choice( "v", 0, n-1 );
    uf.merge( name[ std::size_t(u) ], name[ std::size_t(v) ] );
    m.merge( u, v );
    if( lookups )
      uf.find( name[ std::size_t(u) ] );
  }
  verify( uf, m, name );
}

//@ merges: three merges of any elements of four, with and without lookups between merges
HARNESS(merges)
{
  bool lookups = sym::flag( "lookups" );
  merges( 4, 3, lookups );
}

//@ chain: four merges among six elements, each joining an element with a neighbour at distance one to three, in either direction
HARNESS(chain)
{
  const int n = 6;
  std::vector<int> name;
  for( int i = 0; i < n; ++i )
    name.push_back( 7*i - 9 );
  UnionFind<int> uf( name.begin(), name.end() );
  Model m( n );
  for( int i = 0; i < 4; ++i )
  {
    int u = i, v = u + sym::choice( "distance", 1, 2 );
    bool swap = sym::flag( "swap" );
    if( swap ) std::swap( u, v );
    if( sym::flag( "far" ) ) v = ( v + 3 ) % n;
    uf.merge( name[ std::size_t(u) ], name[ std::size_t(v) ] );
    m.merge( u, v );
  }
  verify( uf, m, name );
}

//@ components: graphs and clique complexes of all graphs on five vertices, vertex numbers with gaps
HARNESS(components)
{
  auto g = symbolicGraph( 5 );
  auto sets = cliques( g, 3 );
  Complex K;
  for( std::size_t i = sets.size(); i-- > 0; )
  {
    Mask wide = 0;
    for( int b = 0; b < 5; ++b )
      if( sets[i] >> b & 1 )
        wide |= Mask(1) << ( 2*b + 1 );
    K.push_back( simplexOf( wide ) );
  }
  auto uf = calculateConnectedComponents( K ), fresh = uf;
  // reachability by repeated squaring
  bool r[5][5];
  for( int i = 0; i < 5; ++i ) for( int j = 0; j < 5; ++j ) r[i][j] = i == j || g.a[i][j];
  for( int k = 0; k < 5; ++k ) for( int i = 0; i < 5; ++i ) for( int j = 0; j < 5; ++j ) r[i][j] = r[i][j] || ( r[i][k] && r[k][j] );
  int classes = 0;
  for( int i = 0; i < 5; ++i )
  {
    bool first = true;
    std::set<Vertex> want;
    for( int j = 0; j < 5; ++j )
    {
      if( j < i && r[i][j] ) first = false;
      if( r[i][j] ) want.insert( Vertex( 2*j + 1 ) );
      ASSERT( ( uf.find( Vertex( 2*i + 1 ) ) == uf.find( Vertex( 2*j + 1 ) ) ) == r[i][j], "components are classes of joined vertices" );
    }
    classes += first;
    std::vector<Vertex> got;
    uf.get( Vertex( 2*i + 1 ), std::back_inserter( got ) );
    ASSERT( std::set<Vertex>( got.begin(), got.end() ) == want && got.size() == want.size(), "members of a component" );
    auto other = fresh;
    got.clear();
    other.get( Vertex( 2*i + 1 ), std::back_inserter( got ) );
    ASSERT( std::set<Vertex>( got.begin(), got.end() ) == want && got.size() == want.size(), "members of a component without earlier lookups" );
  }
  std::vector<Vertex> roots;
  uf.roots( std::back_inserter( roots ) );
  ASSERT( int( roots.size() ) == classes, "number of components" );
  if( classes > 1 ) REACH("disconnected");
}

//@ t_merges: four merges of any elements of four
HARNESS(t_merges) { merges( 4, 4, 0 ); }

//@ large: twelve elements merged in a row, to the first, in pairs and pairs of pairs, or interleaved, in either direction, forwards or backwards; then one or two merges of any elements
HARNESS(large)
{
  const int n = 12;
  std::vector<int> name;
  for( int i = 0; i < n; ++i )
    name.push_back( 5*i - 9 );
  UnionFind<int> uf( name.begin(), name.end() );
  Model m( n );
  int pattern = sym::choice( "pattern", 0, 3 ), length = sym::choice( "length", 6, 9 );
  bool swap = sym::flag( "swap" ), backwards = sym::flag( "backwards" );
  for( int i = 0; i < length; ++i )
  {
    int u = i, v = i + 1;
    if( pattern == 1 ) u = 0;
    if( pattern == 2 ) { u = i < 6 ? 2*i : 4*( i - 6 ); v = i < 6 ? u + 1 : u + 3; }
    if( pattern == 3 ) { u = i; v = i + 2; }
    if( backwards ) { u = n - 1 - u; v = n - 1 - v; }
    if( swap ) std::swap( u, v );
    uf.merge( name[ std::size_t(u) ], name[ std::size_t(v) ] );
    m.merge( u, v );
  }
  int u = sym::choice( "u", 0, n-1 ), v = sym::choice( "v", 0, n-1 );
  uf.merge( name[ std::size_t(u) ], name[ std::size_t(v) ] );
  m.merge( u, v );
  verify( uf, m, name );
  REACH("large");
}
