// C25: half-edge meshes
#include "sym.h"
#include <tuple>
#include <aleph/topology/Mesh.hh>
#include <algorithm>
#include <map>
#include <set>
#include <stdexcept>
#include <vector>

using Mesh = aleph::topology::Mesh<double, double>;
using Face = std::vector<unsigned>;
using Faces = std::vector<Face>;

static std::set< std::pair<unsigned, unsigned> > directedEdges( const Faces& faces )
{
  std::set< std::pair<unsigned, unsigned> > E;
  for( auto&& f : faces )
    for( std::size_t i = 0; i < f.size(); ++i )
      E.insert( { f[i], f[( i + 1 ) % f.size()] } );
  return E;
}

// Number of fans of faces around a vertex; meshes with more than one fan have a singular vertex
static int fans( const Faces& faces, unsigned v )
{
  std::map<unsigned, unsigned> next; // of the link
  for( auto&& f : faces )
    for( std::size_t i = 0; i < f.size(); ++i )
      if( f[i] == v )
        next[ f[( i + 1 ) % f.size()] ] = f[( i + f.size() - 1 ) % f.size()];
  std::set<unsigned> targets;
  for( auto&& p : next )
    targets.insert( p.second );
  int starts = 0;
  for( auto&& p : next )
    if( !targets.count( p.first ) )
      ++starts;
  if( next.empty() || starts )
  {
    // closed fans next to open ones cannot occur unless a component is closed
    std::set<unsigned> seen;
    for( auto&& p : next )
      if( !targets.count( p.first ) )
        for( unsigned w = p.first; next.count( w ) && seen.insert( w ).second; )
          w = next[w];
    return starts + ( seen.size() < next.size() ? 1 : 0 );
  }
  std::size_t n = 0;
  unsigned first = next.begin()->first;
  unsigned w = first;
  do
  {
    w = next[w];
    ++n;
  }
  while( w != first );
  return n == next.size() ? 1 : 2;
}

static bool regular( const Faces& faces, unsigned n )
{
  for( unsigned v = 0; v < n; ++v )
    if( fans( faces, v ) > 1 )
      return false;
  return true;
}

static Face canonical( Face f )
{
  std::rotate( f.begin(), std::min_element( f.begin(), f.end() ), f.end() );
  return f;
}

template <class C> static std::set<unsigned> setOf( const C& c )
{
  return std::set<unsigned>( c.begin(), c.end() );
}

// Compares every query with the list of faces. The i-th vertex is called names[i].
static void compare( const Mesh& M, const Faces& faces, const std::vector<unsigned>& names, const std::vector<double>& data )
{
  unsigned n = unsigned( names.size() );
  auto E = directedEdges( faces );
  std::map< unsigned, std::set<unsigned> > N;
  for( auto&& e : E )
  {
    N[e.first].insert( e.second );
    N[e.second].insert( e.first );
  }

  ASSERT( M.numVertices() == n, "number of vertices" );
  ASSERT( M.vertices().size() == n && setOf( M.vertices() ) == setOf( names ), "vertices" );
  ASSERT( M.numFaces() == faces.size(), "number of faces" );
  auto got = M.faces();
  ASSERT( got.size() == faces.size(), "one entry per face" );
  std::multiset<Face> A, B;
  for( auto&& f : got )
    A.insert( canonical( Face( f.begin(), f.end() ) ) );
  for( auto&& f : faces )
    B.insert( canonical( f ) );
  ASSERT( A == B, "faces with their orientation" );

  std::map<unsigned, unsigned> part;
  for( unsigned v : names )
    part[v] = v;
  for( unsigned round = 0; round < n; ++round )
    for( auto&& e : E )
      part[e.first] = part[e.second] = std::min( part[e.first], part[e.second] );
  std::set<unsigned> parts;
  for( auto&& p : part )
    parts.insert( p.second );
  ASSERT( M.numConnectedComponents() == parts.size(), "number of components" );

  std::map<unsigned, double> value;
  for( unsigned i = 0; i < n; ++i )
    value[ names[i] ] = data[i];
  for( unsigned u : names )
  {
    ASSERT( M.data( u ) == value[u], "data of a vertex" );
    auto link = M.link( u );
    ASSERT( link.size() == N[u].size() && setOf( link ) == N[u], "neighbours of a vertex" );
    for( unsigned v : names )
      ASSERT( M.hasEdge( u, v ) == ( N[u].count( v ) != 0 ), "edges" );
    auto higher = M.getHigherNeighbours( u );
    auto lower  = M.getLowerNeighbours( u );
    auto H = setOf( higher );
    auto L = setOf( lower );
    ASSERT( H.size() == higher.size() && L.size() == lower.size(), "every neighbour once" );
    for( unsigned v : names )
    {
      ASSERT( ( H.count( v ) != 0 ) == ( N[u].count( v ) && value[v] > value[u] ), "higher neighbours" );
      ASSERT( ( L.count( v ) != 0 ) == ( N[u].count( v ) && value[v] < value[u] ), "lower neighbours" );
    }

    // Faces incident to the vertex
    Faces S;
    std::set<unsigned> V;
    for( auto&& f : faces )
      if( std::find( f.begin(), f.end(), u ) != f.end() )
      {
        S.push_back( f );
        V.insert( f.begin(), f.end() );
      }
    auto st = M.star( u );
    ASSERT( st.numFaces() == S.size(), "number of faces of a star" );
    if( !S.empty() )
    {
      ASSERT( st.numVertices() == V.size() && setOf( st.vertices() ) == V, "vertices of a star" );
      for( unsigned v : V )
        ASSERT( st.data( v ) == value[v], "data of a star" );
      auto SE = directedEdges( S );
      for( unsigned a : V )
        for( unsigned b : V )
          ASSERT( st.hasEdge( a, b ) == ( SE.count( { a, b } ) || SE.count( { b, a } ) ), "edges of a star" );
    }
  }
}

// Adds some of the faces in any order, each starting with any of its vertices. All meshes on the
// way are free of singular vertices.
static void build( unsigned n, const Faces& candidates, unsigned least, bool rotations, int values )
{
  Mesh M;
  std::vector<unsigned> names;
  std::vector<double> data;
  for( unsigned v = 0; v < n; ++v )
  {
    names.push_back( v );
    data.push_back( values ? sym::fixed( "data", 0, values ) : double( v % 3 ) );
    M.addVertex( double( v ), 0.0, 0.0, data.back() );
  }
  Faces faces;
  unsigned used = 0;
  int size = sym::choice( "faces", int( least ), int( candidates.size() ) );
  for( int i = 0; i < size; ++i )
  {
    int j = sym::choice( "face", 0, int( candidates.size() ) - 1 );
    ASSUME( !( used >> j & 1 ) );
    used |= 1u << j;
    Face f = candidates[j];
    faces.push_back( f );
    ASSUME( regular( faces, n ) );
    if( rotations )
      std::rotate( f.begin(), f.begin() + sym::choice( "start", 0, int( f.size() ) - 1 ), f.end() );
    M.addFace( f.begin(), f.end() );
  }
  compare( M, faces, names, data );
}

//@ disk: faces of two triangles and one quadrangle sharing edges, any subset in any order with any first vertex
HARNESS(disk)
{
  build( 5, { { 0, 1, 2 }, { 2, 1, 3 }, { 2, 3, 4, 0 } }, 0, true, 0 );
  REACH("disk");
}

//@ tetrahedron: faces of a tetrahedron, any subset in any order with any first vertex
HARNESS(tetrahedron)
{
  build( 4, { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 1 }, { 1, 3, 2 } }, 0, true, 0 );
  REACH("tetrahedron");
}

//@ fan: four triangles around a vertex, any subset in any order
HARNESS(fan)
{
  build( 5, { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 4 }, { 0, 4, 1 } }, 1, false, 0 );
  REACH("fan");
}

//@ components: two triangles with a common edge and a triangle apart, any subset in any order with any first vertex
HARNESS(components)
{
  build( 8, { { 0, 1, 2 }, { 1, 0, 3 }, { 6, 5, 4 } }, 0, true, 0 );
  REACH("components");
}

//@ annulus: four quadrangles around a hole, any subset in any order
HARNESS(annulus)
{
  build( 8, { { 0, 1, 5, 4 }, { 1, 2, 6, 5 }, { 2, 3, 7, 6 }, { 3, 0, 4, 7 } }, 1, false, 0 );
  REACH("annulus");
}

//@ values: symbolic data of the vertices of two triangles
HARNESS(values)
{
  build( 4, { { 0, 1, 2 }, { 2, 1, 3 } }, 2, false, 100 );
  REACH("values");
}

//@ names: vertices with given names 0..3 and without, in any order
HARNESS(names)
{
  Mesh M;
  std::vector<unsigned> names;
  for( int i = 0; i < 3; ++i )
  {
    bool given = sym::flag( "given" );
    if( given )
    {
      unsigned id = unsigned( sym::choice( "id", 0, 3 ) );
      bool taken = std::find( names.begin(), names.end(), id ) != names.end();
      bool thrown = false;
      try
      {
        M.addVertex( 0.0, 0.0, 0.0, 1.0, id );
      }
      catch( std::runtime_error& )
      {
        thrown = true;
      }
      ASSERT( thrown == taken, "names of vertices are unique" );
      if( !taken )
        names.push_back( id );
    }
    else
    {
      M.addVertex( 0.0, 0.0, 0.0, 1.0 );
      auto V = M.vertices();
      ASSERT( V.size() == names.size() + 1, "a vertex without name gets a new one" );
      for( auto v : V )
        if( std::find( names.begin(), names.end(), unsigned( v ) ) == names.end() )
        {
          names.push_back( unsigned( v ) );
          break;
        }
    }
    ASSERT( M.numVertices() == names.size(), "number of vertices" );
  }
  if( names.size() >= 3 )
  {
    Face f = { names[0], names[1], names[2] };
    M.addFace( f.begin(), f.end() );
    compare( M, { f }, names, std::vector<double>( names.size(), 1.0 ) );
    REACH("face");
  }
  REACH("names");
}

//@ wheel: five to nine triangles around a vertex, with or without the last one, added in cyclic order from any of them forwards or backwards; names consecutive or not, value of the centre any multiple of one half
HARNESS(wheel)
{
  unsigned k = unsigned( sym::choice( "spokes", 5, 9 ) ), first = unsigned( sym::choice( "first", 0, int( k ) - 1 ) ), stride = sym::flag( "stride" ) ? 7 : 1;
  bool open = sym::flag( "open" ), backwards = sym::flag( "backwards" );
  double centre = sym::fixed( "centre", -1, 20, 2 );
  Mesh M;
  std::vector<unsigned> names;
  std::vector<double> data;
  for( unsigned v = 0; v <= k; ++v )
  {
    names.push_back( stride * v );
    data.push_back( v ? double( v * 5 % k ) : centre );
    M.addVertex( double( v ), 0.0, 0.0, data.back(), names.back() );
  }
  Faces faces;
  for( unsigned i = 0; i + ( open ? 1 : 0 ) < k; ++i )
  {
    unsigned j = ( backwards ? first + k - i : first + i ) % k;
    faces.push_back( { names[0], names[ 1 + j ], names[ 1 + ( j + 1 ) % k ] } );
    M.addFace( faces.back().begin(), faces.back().end() );
  }
  compare( M, faces, names, data );
  if( open ) REACH("open wheel"); else REACH("wheel");
}

//@ t_octahedron: at least six faces of an octahedron in any order
HARNESS(t_octahedron)
{
  build( 6, { { 0, 1, 2 }, { 0, 2, 3 }, { 0, 3, 4 }, { 0, 4, 1 }, { 5, 2, 1 }, { 5, 3, 2 }, { 5, 4, 3 }, { 5, 1, 4 } }, 6, false, 0 );
  REACH("T:t_octahedron");
}
