// C26: constructions on simplicial complexes
#include "complexes.h"
#include <aleph/topology/BarycentricSubdivision.hh>
#include <aleph/topology/Filter.hh>
#include <aleph/topology/Intersections.hh>
#include <aleph/topology/QuotientSpaces.hh>
#include <aleph/topology/Skeleton.hh>
#include <aleph/topology/Spine.hh>
#include <map>
#include <set>

using namespace aleph::topology;

static Complex complexOf( const std::vector<Mask>& sets, bool weighted = true )
{
  std::vector<Spx> s;
  for( std::size_t i = 0; i < sets.size(); ++i )
    s.push_back( simplexOf( sets[i], weighted ? double( i + 1 ) : 0.0 ) );
  return Complex( s.begin(), s.end() );
}

static std::map<Mask, double> contents( const Complex& K )
{
  std::map<Mask, double> r;
  for( auto&& s : K )
    ASSERT( r.insert( std::make_pair( maskOf( s ), s.data() ) ).second, "no simplex twice" );
  return r;
}

static bool closed( const std::map<Mask, double>& K )
{
  for( auto&& p : K )
    for( int i = 0; i < 64; ++i )
      if( ( p.first >> i & 1 ) && p.first != Mask(1) << i && !K.count( p.first ^ Mask(1) << i ) )
        return false;
  return true;
}

static std::vector<Mask> keys( const std::map<Mask, double>& K )
{
  std::vector<Mask> r;
  for( auto&& p : K )
    r.push_back( p.first );
  return r;
}

static std::vector<int> trimmed( std::vector<int> b )
{
  while( !b.empty() && b.back() == 0 )
    b.pop_back();
  return b;
}

static std::vector<int> homology( const std::map<Mask, double>& K )
{
  return trimmed( bettiByDimension( keys( K ) ) );
}

static int largestVertex( const std::vector<Mask>& sets )
{
  int v = -1;
  for( Mask m : sets )
    for( int i = 0; i < 16; ++i )
      if( m >> i & 1 )
        v = std::max( v, i );
  return v;
}

static double factor( const Spx& s )
{
  return s.empty() ? 77.0 : 3.0 * s.data() + double( s.size() );
}

static void cones( int n )
{
  auto sets = symbolicComplex( n, n );
  Complex K = complexOf( sets );
  bool weights = sym::flag( "weights" );
  auto expected = contents( K );
  auto before = expected;
  auto L = contents( weights ? cone( K, factor ) : cone( K ) );
  if( !sets.empty() )
  {
    Mask apex = Mask(1) << ( largestVertex( sets ) + 1 );
    expected[apex] = weights ? 77.0 : 0.0;
    for( auto&& p : before )
      expected[p.first | apex] = weights ? 3.0 * p.second + popcount( p.first ) : 0.0;
    ASSERT( homology( L ) == std::vector<int>( 1, 1 ), "cones are contractible" );
  }
  ASSERT( L == expected, "simplices and weights of the cone" );

  expected = before;
  auto S = contents( weights ? suspension( K, factor ) : suspension( K ) );
  if( !sets.empty() )
  {
    for( int k = 1; k <= 2; ++k )
    {
      Mask apex = Mask(1) << ( largestVertex( sets ) + k );
      expected[apex] = weights ? 77.0 : 0.0;
      for( auto&& p : before )
        expected[p.first | apex] = weights ? 3.0 * p.second + popcount( p.first ) : 0.0;
    }
    auto b = homology( before );
    std::vector<int> c( 1, 1 );
    c.push_back( b[0] - 1 );
    c.insert( c.end(), b.begin() + 1, b.end() );
    ASSERT( homology( S ) == trimmed( c ), "suspensions shift homology" );
  }
  ASSERT( S == expected, "simplices and weights of the suspension" );
  ASSERT( contents( K ) == before, "the complex itself is left as it is" );
}

//@ quotients: all complexes on up to three vertices, default and given weights
HARNESS(quotients)
{
  cones( 3 );
  REACH("quotients");
}

//@ quotients4: all complexes on up to four vertices, default and given weights
HARNESS(quotients4)
{
  cones( 4 );
  REACH("quotients4");
}

static double half( std::size_t d ) { return d == 0 ? 0.25 : 0.5; }

static void subdivide( int n )
{
  auto sets = symbolicComplex( n, n );
  Complex K = complexOf( sets ); // all weights are different
  if( sym::flag( "reversed" ) )
    K.sort( [] ( const Spx& a, const Spx& b ) { return a.data() > b.data(); } );
  auto L = contents( BarycentricSubdivision()( K ) );
  ASSERT( closed( L ), "the subdivision contains all faces" );

  // The weight of a vertex tells which simplex it belongs to
  std::map<int, Mask> simplex;
  for( auto&& p : L )
    if( popcount( p.first ) == 1 )
    {
      int v = 0;
      while( !( p.first >> v & 1 ) )
        ++v;
      simplex[v] = sets.at( std::size_t( p.second ) - 1 );
    }
  ASSERT( simplex.size() == sets.size(), "one vertex per simplex" );
  std::set< std::vector<Mask> > chains;
  for( auto&& p : L )
  {
    std::vector<Mask> chain;
    for( auto&& q : simplex )
      if( p.first >> q.first & 1 )
        chain.push_back( q.second );
    std::sort( chain.begin(), chain.end(), [] ( Mask a, Mask b ) { return popcount( a ) < popcount( b ); } );
    for( std::size_t i = 1; i < chain.size(); ++i )
      ASSERT( chain[i-1] != chain[i] && ( chain[i-1] & chain[i] ) == chain[i-1], "simplices of the subdivision are chains of faces" );
    ASSERT( sets.at( std::size_t( p.second ) - 1 ) == chain.back(), "weight of the simplex that is subdivided" );
    chains.insert( chain );
  }
  // Number of chains
  std::map<Mask, long> ending;
  long total = 0;
  for( Mask m : sets )
  {
    ending[m] = 1;
    for( auto&& p : ending )
      if( p.first != m && ( p.first & m ) == p.first )
        ending[m] += p.second;
    total += ending[m];
  }
  ASSERT( chains.size() == L.size() && long( L.size() ) == total, "every chain of faces is a simplex of the subdivision" );
  ASSERT( homology( L ) == homology( contents( K ) ), "subdivision keeps homology" );

  auto S = contents( BarycentricSubdivision()( K, half ) );
  ASSERT( S.size() == L.size(), "weights do not change the simplices" );
  for( auto&& p : L )
  {
    auto it = S.find( p.first );
    ASSERT( it != S.end(), "weights do not change the simplices" );
    bool original = popcount( p.first ) == 1 && popcount( sets.at( std::size_t( p.second ) - 1 ) ) == 1;
    double f = original ? 1.0 : popcount( p.first ) == 1 ? 0.25 : 0.5;
    ASSERT( it->second == f * p.second, "weights are scaled by dimension" );
  }
}

//@ subdivision: all complexes on up to three vertices, in two orders, with default and given weights
HARNESS(subdivision)
{
  subdivide( 3 );
  REACH("subdivision");
}

//@ subdivision4: all complexes on up to four vertices, in two orders, with default and given weights
HARNESS(subdivision4)
{
  subdivide( 4 );
  REACH("subdivision4");
}

//@ subdivision5: the full simplex on five vertices, and its boundary
HARNESS(subdivision5)
{
  auto sets = subsets( 5, 5 );
  if( sym::flag( "boundary" ) )
    sets.pop_back();
  auto L = contents( BarycentricSubdivision()( complexOf( sets ) ) );
  ASSERT( closed( L ), "the subdivision contains all faces" );
  long euler = 0;
  std::size_t vertices = 0;
  for( auto&& p : L )
  {
    euler += popcount( p.first ) % 2 ? 1 : -1;
    vertices += popcount( p.first ) == 1;
  }
  ASSERT( vertices == sets.size(), "one vertex per simplex" );
  ASSERT( L.size() == ( sets.size() == 31 ? 1081 : 540 ), "every chain of faces is a simplex of the subdivision" );
  ASSERT( euler == ( sets.size() == 31 ? 1 : 0 ), "subdivision keeps the Euler characteristic" );
  REACH("subdivision5");
}

//@ selection: all complexes on up to four vertices, skeletons up to every dimension
HARNESS(selection)
{
  auto sets = symbolicComplex( 4, 4 );
  Complex K = complexOf( sets );
  int k = sym::choice( "k", 0, 4 );
  Complex S = Skeleton()( std::size_t( k ), K );
  std::size_t j = 0;
  for( std::size_t i = 0; i < sets.size(); ++i )
    if( popcount( sets[i] ) <= k + 1 )
    {
      ASSERT( j < S.size() && maskOf( S[j] ) == sets[i] && S[j].data() == double( i + 1 ), "skeleton keeps simplices, weights and order" );
      ++j;
    }
  ASSERT( S.size() == j, "skeleton contains no other simplex" );
  REACH("selection");
}

//@ filter: the simplices of a triangle with symbolic weights between -50 and 50 in steps of 1/2, all those up to a symbolic threshold
HARNESS(filter)
{
  auto sets = subsets( 3, 3 );
  std::vector<Spx> simplices;
  std::vector<double> w;
  for( Mask m : sets )
  {
    w.push_back( sym::fixed( "weight", -100, 100, 1 ) );
    simplices.push_back( simplexOf( m, w.back() ) );
  }
  Complex K( simplices.begin(), simplices.end() );
  double t = sym::fixed( "threshold", -1, 101 );
  Complex F = Filter()( K, [t] ( const Spx& s ) { return s.data() <= t; } );
  std::size_t j = 0;
  for( std::size_t i = 0; i < sets.size(); ++i )
    if( w[i] <= t )
    {
      ASSERT( j < F.size() && maskOf( F[j] ) == sets[i] && F[j].data() == w[i], "filtered complex keeps simplices, weights and order" );
      ++j;
    }
  ASSERT( F.size() == j, "filtered complex contains no other simplex" );
  REACH("filter");
}

static std::set<Mask> masks( const std::set<Spx>& s )
{
  std::set<Mask> r;
  for( auto&& x : s )
    r.insert( maskOf( x ) );
  ASSERT( r.size() == s.size(), "no simplex twice" );
  return r;
}

static Mask symbolicSet( const char* name, int n )
{
  return Mask( sym::choice( name, 1, ( 1 << n ) - 1 ) );
}

//@ simplices: all pairs of simplices on up to five vertices
HARNESS(simplices)
{
  Mask a = symbolicSet( "a", 5 ), b = symbolicSet( "b", 5 );
  Spx s = simplexOf( a ), t = simplexOf( b );
  ASSERT( sizeOfIntersection( s, t ) == std::size_t( popcount( a & b ) ), "number of common vertices" );
  ASSERT( maskOf( intersect( s, t ) ) == ( a & b ), "common vertices" );
  ASSERT( bool( intersect( s, t ) ) == ( ( a & b ) != 0 ), "disjoint simplices have an empty intersection" );
  REACH("simplices");
}

static void intersections( int n )
{
  auto sets = symbolicComplex( n, n );
  Complex K = complexOf( sets );
  Mask m = symbolicSet( "simplex", n );
  Spx s = simplexOf( m );
  std::set<Mask> all( sets.begin(), sets.end() ), expected, constrained;
  int largest = 0;
  for( Mask t : all )
    if( ( t & m ) == t )
      largest = std::max( largest, popcount( t ) );
  for( Mask t : all )
    if( t & m )
    {
      expected.insert( t & m );
      if( popcount( t ) == popcount( m ) )
        constrained.insert( t & m );
    }
  if( all.count( m ) )
    expected = { m };
  ASSERT( masks( intersect( K, s ) ) == expected, "intersection of a complex and a simplex" );
  ASSERT( masks( intersectWithConstrainedDimension( K, s ) ) == constrained, "intersection with simplices of the same dimension" );
  Spx last = lastLexicographicalIntersection( K, s );
  ASSERT( popcount( maskOf( last ) ) == largest, "largest common face" );
  if( largest )
  {
    ASSERT( all.count( maskOf( last ) ) && ( maskOf( last ) & m ) == maskOf( last ), "common face" );
    ASSERT( last.data() == K.find( last )->data(), "weight of the common face" );
  }
}

//@ intersecting: all complexes on up to three vertices and every simplex on these
HARNESS(intersecting)
{
  intersections( 3 );
  REACH("intersecting");
}

//@ intersecting4: all complexes on up to four vertices and every simplex on these
HARNESS(intersecting4)
{
  intersections( 4 );
  REACH("intersecting4");
}

static void collapse( const std::vector<Mask>& sets, bool simple )
{
  Complex K = complexOf( sets, false );
  K.sort();
  auto before = contents( K );
  auto L = contents( simple ? dumb::spine( K ) : spine( K ) );
  for( auto&& p : L )
    ASSERT( before.count( p.first ), "the spine is a part of the complex" );
  ASSERT( closed( L ), "the spine contains all faces" );
  ASSERT( homology( L ) == homology( before ), "the spine has the same homology" );
  for( auto&& p : L )
  {
    int cofaces = 0;
    for( auto&& q : L )
      if( q.first != p.first && ( q.first & p.first ) == p.first )
        ++cofaces;
    ASSERT( cofaces != 1, "the spine has no free face" );
  }
}

//@ spines: all complexes on up to four vertices
HARNESS(spines)
{
  bool simple = sym::flag( "simple" );
  collapse( symbolicComplex( 4, 4 ), simple );
  REACH("spines");
}

//@ spines5: all clique complexes of graphs with five vertices
HARNESS(spines5)
{
  collapse( cliques( symbolicGraph( 5 ), 5 ), false );
  REACH("spines5");
}

//@ surfaces: parts of the torus and the projective plane where up to two triangles are left out
HARNESS(surfaces)
{
  auto top = sym::flag( "torus" ) ? torus() : projectivePlane();
  int a = sym::choice( "first", 0, int( top.size() ) - 1 );
  int b = sym::choice( "second", a, int( top.size() ) - 1 );
  std::vector<Mask> rest;
  for( int i = 0; i < int( top.size() ); ++i )
    if( i != a && i != b )
      rest.push_back( top[i] );
  collapse( withFaces( rest ), false );
  REACH("surfaces");
}

//@ t_spines5: all complexes on up to five vertices with at most three vertices per simplex
HARNESS(t_spines5)
{
  collapse( symbolicComplex( 5, 3 ), false );
  REACH("T:t_spines5");
}
