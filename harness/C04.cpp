// C04: simplices behave as canonical vertex sets
#include "complexes.h"
#include <aleph/topology/Simplex.hh>
#include <functional>
#include <iterator>
#include <set>

static std::vector<Vertex> symbolicVertices( const char* name, int n, int hi )
{
  std::vector<Vertex> v;
  for( int i = 0; i < n; ++i )
    v.push_back( Vertex( sym::integer( name, 0, hi ) ) );
  return v;
}

static bool in( Vertex x, const std::vector<Vertex>& v )
{
  bool r = false;
  for( Vertex y : v )
    r = sym::either( r, x == y );
  return r;
}

static int distinct( const std::vector<Vertex>& v )
{
  int n = 0;
  for( std::size_t i = 0; i < v.size(); ++i )
  {
    bool seen = false;
    for( std::size_t j = 0; j < i; ++j )
      seen = sym::either( seen, v[i] == v[j] );
    n += int( sym::neg( seen ) );
  }
  return n;
}

static bool sameSet( const std::vector<Vertex>& a, const std::vector<Vertex>& b )
{
  bool r = true;
  for( Vertex x : a ) r = sym::both( r, in( x, b ) );
  for( Vertex x : b ) r = sym::both( r, in( x, a ) );
  return r;
}

static void structure( const std::vector<Vertex>& v )
{
  Spx s( v.begin(), v.end(), 3.0 );
  ASSERT( s.data() == 3.0, "data is kept" );
  ASSERT( int( s.size() ) == distinct( v ), "size counts distinct vertices" );
  ASSERT( s.empty() == v.empty(), "emptiness" );
  ASSERT( bool( s ) == !v.empty(), "conversion to bool" );
  if( !v.empty() )
    ASSERT( s.dimension() + 1 == s.size(), "dimension" );
  std::vector<Vertex> w( s.begin(), s.end() );
  ASSERT( w.size() == s.size(), "iteration" );
  ASSERT( sameSet( v, w ), "vertices are those given" );
  for( std::size_t i = 0; i < w.size(); ++i )
  {
    ASSERT( s[i] == w[i], "access by position" );
    if( i )
      ASSERT( w[i-1] > w[i], "vertices are sorted in one direction" );
  }
  std::vector<Vertex> r( s.rbegin(), s.rend() );
  for( std::size_t i = 0; i < w.size(); ++i )
    ASSERT( r[i] == w[w.size()-1-i], "reverse iteration" );
  for( Vertex x : w )
    ASSERT( s.contains( x ), "contains its vertices" );
  Vertex y = Vertex( sym::integer( "probe", 0, 20 ) );
  ASSERT( s.contains( y ) == in( y, v ), "membership" );

  // boundary: every set with one vertex less, once
  std::size_t n = 0;
  std::vector< std::vector<Vertex> > faces;
  for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it )
  {
    Spx f = *it;
    ASSERT( f.size() + 1 == s.size(), "faces have one vertex less" );
    faces.push_back( std::vector<Vertex>( f.begin(), f.end() ) );
    ++n;
    if( n > 20 )
      break;
  }
  ASSERT( n == ( s.size() > 1 ? s.size() : 0 ), "number of faces" );
  for( std::size_t i = 0; i < w.size() && w.size() > 1; ++i )
  {
    int found = 0;
    for( auto&& f : faces )
    {
      bool same = true;
      std::size_t k = 0;
      for( std::size_t j = 0; j < w.size(); ++j )
        if( j != i )
          same = sym::both( same, f[k++] == w[j] );
      found += int( same );
    }
    ASSERT( found == 1, "every face occurs once" );
    REACH("faces");
  }
}

//@ structure: vertex lists of length 0 to 5 with symbolic vertices 0..20 (duplicates and any order included)
HARNESS(structure0) { structure( symbolicVertices( "v", 0, 20 ) ); }
HARNESS(structure1) { structure( symbolicVertices( "v", 1, 20 ) ); }
HARNESS(structure2) { structure( symbolicVertices( "v", 2, 20 ) ); }
HARNESS(structure3) { structure( symbolicVertices( "v", 3, 20 ) ); }
HARNESS(structure4) { structure( symbolicVertices( "v", 4, 20 ) ); }
HARNESS(structure5) { structure( symbolicVertices( "v", 5, 20 ) ); }

// Six to nine vertices with gaps in rotated order, forwards or backwards
static std::vector<Vertex> longList()
{
  int n = sym::choice( "n", 6, 9 ), r = sym::choice( "rotate", 0, 2 );
  bool backwards = sym::flag( "backwards" );
  std::vector<Vertex> v;
  for( int i = 0; i < n; ++i )
    v.push_back( Vertex( 2 * ( ( backwards ? n - 1 - i + r : i + r ) % n ) + 3 ) );
  return v;
}

//@ large: six to nine vertices with gaps in rotated order, forwards or backwards, one of them repeated
HARNESS(large)
{
  auto v = longList();
  int dup = sym::choice( "repeat", -1, 2 );
  if( dup >= 0 )
    v.push_back( v[ std::size_t( 3 * dup ) ] );
  structure( v );
  REACH("large");
}

//@ replaced: six to nine vertices with gaps compared to the same with any vertex replaced by a symbolic one 0..30
HARNESS(replaced)
{
  auto v = longList(), w = v;
  std::size_t k = std::size_t( sym::choice( "which", 0, int( v.size() ) - 1 ) );
  Vertex old = w[k];
  w[k] = Vertex( sym::integer( "replacement", 0, 30 ) );
  Spx s( v.begin(), v.end(), 1.0 ), t( w.begin(), w.end(), 2.0 );
  bool same = w[k] == old, less = s < t, greater = t < s;
  ASSERT( ( s == t ) == same && ( s != t ) == !same, "equality is equality of vertex sets" );
  ASSERT( !( less && greater ) && ( less || greater ) == !same, "order is total on vertex sets" );
  if( same )
    ASSERT( std::hash<Spx>()( s ) == std::hash<Spx>()( t ), "equal simplices hash equally" );
  REACH("replaced");
}

static void pairwise( int n, int m )
{
  auto a = symbolicVertices( "a", n, 20 );
  auto b = symbolicVertices( "b", m, 20 );
  Spx s( a.begin(), a.end(), 1.0 ), t( b.begin(), b.end(), 2.0 );
  bool same = sameSet( a, b );
  bool eq = s == t, ne = s != t, lt = s < t, gt = t < s;
  ASSERT( eq == same, "equality is equality of vertex sets" );
  ASSERT( ne == !same, "inequality" );
  ASSERT( !( lt && gt ), "order is antisymmetric" );
  ASSERT( ( lt || gt ) == !same, "order is total on vertex sets" );
  ASSERT( !( s < s ), "order is irreflexive" );
  if( same ) REACH("equal"); else REACH("different");
}

//@ pairs: pairs of vertex lists of lengths (1,1) (1,2) (2,2) (2,3) (3,3), symbolic vertices 0..20
HARNESS(pairs11) { pairwise( 1, 1 ); }
HARNESS(pairs12) { pairwise( 1, 2 ); }
HARNESS(pairs22) { pairwise( 2, 2 ); }
HARNESS(pairs23) { pairwise( 2, 3 ); }
HARNESS(pairs33) { pairwise( 3, 3 ); }

//@ hash: all subsets of five vertices, given twice in different orders with repeated vertices; equal sets hash equally; vertices 0..4 shifted by 0 or 1000
HARNESS(hash)
{
  bool in[5];
  std::vector<Vertex> a, b;
  Vertex shift = Vertex( sym::choice( "shift", 0, 1 ) * 1000 );
  for( int i = 0; i < 5; ++i )
  {
    in[i] = sym::flag( "in" );
    if( in[i] )
    {
      a.push_back( Vertex( i + shift ) );
      b.insert( b.begin(), Vertex( i + shift ) );
    }
  }
  if( !b.empty() && sym::flag( "repeat" ) )
    b.push_back( b.front() );
  std::size_t r = b.empty() ? 0 : std::size_t( sym::choice( "rotate", 0, int( b.size() ) - 1 ) );
  std::rotate( b.begin(), b.begin() + long( r ), b.end() );
  Spx s( a.begin(), a.end(), 1.0 ), t( b.begin(), b.end(), 5.0 );
  ASSERT( std::hash<Spx>()( s ) == std::hash<Spx>()( t ), "equal simplices hash equally" );
  ASSERT( s == t, "equal simplices" );
  t.setData( 9.0 );
  ASSERT( std::hash<Spx>()( s ) == std::hash<Spx>()( t ) && s == t, "data does not take part" );
  REACH("hashed");
}

static void chain( int n, int m, int k )
{
  auto a = symbolicVertices( "a", n, 9 );
  auto b = symbolicVertices( "b", m, 9 );
  auto c = symbolicVertices( "c", k, 9 );
  Spx r( a.begin(), a.end() ), s( b.begin(), b.end() ), t( c.begin(), c.end() );
  if( r < s && s < t )
  {
    REACH("chain");
    ASSERT( r < t, "order is transitive" );
  }
}
//@ chain: three simplices with up to two vertices each, symbolic vertices 0..9
HARNESS(chain122) { chain( 1, 2, 2 ); }
HARNESS(chain212) { chain( 2, 1, 2 ); }
HARNESS(chain222) { chain( 2, 2, 2 ); }

//@ construct: other constructors, copying, assignment and access behind the end
HARNESS(construct)
{
  Vertex u = Vertex( sym::integer( "u", 0, 60000 ) );
  double w = sym::fixed( "w", -1000, 1000, 2 );
  Spx s( u, w );
  ASSERT( s.size() == 1 && s[0] == u && s.data() == w && s.dimension() == 0, "single vertex" );
  Spx t( s, 7.0 );
  ASSERT( t == s && t.data() == 7.0, "same vertices, other data" );
  Vertex v = Vertex( sym::integer( "v", 0, 60000 ) );
  Spx e( { u, v }, w ), d( { u, v } );
  ASSERT( ( e.size() == 2 ) == ( u != v ) && e.data() == w && d.data() == 0.0 && e == d, "initialiser lists" );
  Spx c( e );
  c.setData( 1.0 );
  ASSERT( c == e && e.data() == w && c.data() == 1.0, "copies" );
  c = t;
  ASSERT( c == t && c.data() == 7.0, "assignment" );
  bool thrown = false;
  try { (void) s[1]; } catch( std::out_of_range& ) { thrown = true; }
  ASSERT( thrown, "access behind the last vertex is rejected" );
  Spx z;
  ASSERT( z.empty() && !z && z.size() == 0 && z.begin() == z.end(), "empty simplex" );
  thrown = false;
  try { (void) z.dimension(); } catch( std::exception& ) { thrown = true; }
  ASSERT( thrown, "an empty simplex has no dimension" );
  REACH("constructed");
}
