// C27: intersection homology
#include "complexes.h"
#include <aleph/persistentHomology/PhiPersistence.hh>
#include <aleph/topology/BarycentricSubdivision.hh>
#include <map>
#include <set>

//@ partitions: all complexes on up to four vertices, up to two simplices or all but two being admissible
HARNESS(partitions)
{
  auto sets = symbolicComplex( 4, 3 );
  std::set<Mask> chosen;
  if( !sets.empty() )
    for( int i = 0; i < 2; ++i )
      chosen.insert( sets[ std::size_t( sym::choice( "chosen", 0, int( sets.size() ) - 1 ) ) ] );
  bool inverted = sym::flag( "inverted" );
  std::vector<Spx> s;
  for( std::size_t i = 0; i < sets.size(); ++i )
    s.push_back( simplexOf( sets[i], double( i ) ) );
  Complex K( s.begin(), s.end() );
  auto phi = [&] ( const Spx& x ) { return ( chosen.count( maskOf( x ) ) != 0 ) != inverted; };
  auto result = aleph::partition( K, phi );
  std::vector<Spx> expected;
  for( auto&& x : s )
    if( phi( x ) )
      expected.push_back( x );
  ASSERT( result.second == expected.size(), "number of admissible simplices" );
  for( auto&& x : s )
    if( !phi( x ) )
      expected.push_back( x );
  ASSERT( result.first.size() == expected.size(), "no simplex is lost" );
  for( std::size_t i = 0; i < expected.size(); ++i )
    ASSERT( result.first[i] == expected[i] && result.first[i].data() == expected[i].data(), "admissible simplices first, in the original order" );
  REACH("partitions");
}

//@ perversities: up to three symbolic values -5..8, queried in dimensions 0..6
HARNESS(perversities)
{
  std::vector<int> v;
  int n = sym::choice( "n", 0, 3 );
  for( int i = 0; i < n; ++i )
    v.push_back( sym::integer( "value", -5, 8 ) );
  aleph::Perversity p( v.begin(), v.end() );
  std::size_t d = std::size_t( sym::choice( "dimension", 0, 6 ) );
  int value = p( d );
  int expected = 0;
  if( d >= 1 && d <= v.size() )
  {
    int k = int( d );
    expected = sym::ite( v[d-1] < -1, -1, sym::ite( v[d-1] > k - 1, k - 1, v[d-1] ) );
  }
  ASSERT( value == expected, "values are clamped, and zero for invalid dimensions" );
  ASSERT( std::size_t( std::distance( p.begin(), p.end() ) ) == v.size(), "one value per dimension" );
  REACH("perversities");
}

//@ classical: up to three symbolic values 0..5 of a classical perversity, queried in dimensions 0..6
HARNESS(classical)
{
  std::vector<int> v;
  int n = sym::choice( "n", 0, 3 );
  for( int i = 0; i < n; ++i )
    v.push_back( sym::integer( "value", 0, 5 ) );
  aleph::PerversityGM p( v.begin(), v.end() );
  for( std::size_t d = 0; d < 7; ++d )
  {
    unsigned value = p( d );
    if( d < 2 || d >= v.size() + 2 )
      ASSERT( value == 0, "zero for invalid dimensions" );
    else if( d == 2 )
      ASSERT( value == 0, "starts with zero" );
    else
      ASSERT( sym::either( value == p( d-1 ), value == p( d-1 ) + 1 ), "grows by at most one" );
  }
  // Valid values are kept
  bool valid = true;
  for( int i = 0; i < n; ++i )
    valid = sym::both( valid, i == 0 ? v[0] == 0 : sym::either( v[i] == v[i-1], v[i] == v[i-1] + 1 ) );
  if( valid )
    for( int i = 0; i < n; ++i )
      ASSERT( int( p( std::size_t( i ) + 2 ) ) == v[i], "valid values are kept" );
  REACH("classical");
}

// Rank of columns over Z/2, restricted to the given rows
static int rankOf( std::vector<Mask> c, Mask rows )
{
  for( auto&& x : c )
    x &= rows;
  return c.empty() ? 0 : rankLowerLeft( c, 0, int( c.size() ) - 1 );
}

typedef std::multiset< std::pair<double, double> > Points;

// Compares the diagrams with those of the chain complex of allowable chains. The positions of
// simplices serve as weights. X contains strata as sets of simplices.
template <class P> static void compare( const std::vector<Mask>& order, const std::vector< std::set<Mask> >& X, const P& p, bool classical, bool dualize )
{
  std::vector<Spx> s;
  int d = 0;
  for( std::size_t i = 0; i < order.size(); ++i )
  {
    s.push_back( simplexOf( order[i], double( i ) ) );
    d = std::max( d, popcount( order[i] ) - 1 );
  }
  Complex K( s.begin(), s.end() );
  std::vector<Complex> strata;
  for( auto&& x : X )
  {
    std::vector<Spx> t;
    for( Mask m : x )
      t.push_back( simplexOf( m, 0.0 ) );
    strata.push_back( Complex( t.begin(), t.end() ) );
  }

  std::vector<Mask> sequence; // allowable simplices first
  std::vector<bool> allowable;
  for( Mask m : order )
  {
    bool ok = true;
    for( int k = classical ? 2 : 1; k <= d; ++k )
    {
      int value = int( p( std::size_t( k ) ) );
      if( value >= k )
        continue;
      int largest = -1;
      for( Mask t : X[ std::size_t( d - k ) ] )
        largest = std::max( largest, popcount( t & m ) - 1 );
      ok = ok && ( largest < 0 || largest <= popcount( m ) - 1 - k + value );
    }
    allowable.push_back( ok );
    if( ok )
      sequence.push_back( m );
  }
  std::size_t n = sequence.size();
  for( std::size_t i = 0; i < order.size(); ++i )
    if( !allowable[i] )
      sequence.push_back( order[i] );
  std::map<Mask, double> position;
  for( std::size_t i = 0; i < order.size(); ++i )
    position[ order[i] ] = double( i );
  auto columns = boundaryColumns( sequence );
  for( std::size_t i = n; i < columns.size(); ++i )
    columns[i] = 0;

  std::map<int, Points> expected, actual;
  std::map<int, int> essential;
  const double infinity = std::numeric_limits<double>::infinity();
  for( auto&& q : pairsByRanks( columns ) )
    if( q.first < int( n ) )
    {
      Mask creator = sequence[ std::size_t( q.first ) ];
      int dim = popcount( creator ) - 1;
      if( q.second < 0 )
        ++essential[dim];
      expected[dim].insert( std::make_pair( position[creator], q.second < 0 ? infinity : position[ sequence[ std::size_t( q.second ) ] ] ) );
    }

  // Betti numbers from the definition
  Mask inside = n ? ( n >= 64 ? ~Mask(0) : ( Mask(1) << n ) - 1 ) : 0;
  for( int i = 0; i <= d; ++i )
  {
    int cycles = 0, boundaries = 0;
    for( int k = 0; k < 2; ++k )
    {
      std::vector<Mask> c;
      for( std::size_t j = 0; j < n; ++j )
        if( popcount( sequence[j] ) - 1 == i + k )
          c.push_back( columns[j] );
      int kernel = int( c.size() ) - rankOf( c, ~Mask(0) );
      if( k == 0 )
        cycles = kernel;
      else
        boundaries = int( c.size() ) - rankOf( c, ~inside ) - kernel;
    }
    ASSERT( essential[i] == cycles - boundaries, "oracles agree" );
  }

  auto diagrams = aleph::calculateIntersectionHomology( K, strata, p, dualize );
  for( auto&& D : diagrams )
  {
    int dim = int( D.dimension() );
    for( auto&& q : D )
      actual[dim].insert( std::make_pair( q.x(), q.y() ) );
  }
  for( int i = 0; i <= d; ++i )
    ASSERT( actual[i] == expected[i], "points of the diagram" );
  for( auto&& q : actual )
    ASSERT( q.first <= d || q.second.empty(), "no other dimension" );

  if( n == order.size() )
  {
    auto ordinary = aleph::calculatePersistenceDiagrams( K, dualize, true );
    std::map<int, Points> o;
    for( auto&& D : ordinary )
      for( auto&& q : D )
        o[ int( D.dimension() ) ].insert( std::make_pair( q.x(), q.y() ) );
    for( int i = 0; i <= d; ++i )
      ASSERT( o[i] == actual[i], "ordinary homology if all simplices are allowable" );
    REACH("ordinary");
  }
}

// Any subcomplex of the given one whose simplices have at most `size` vertices
static std::set<Mask> symbolicStratum( const std::vector<Mask>& all, int size, const std::set<Mask>& smaller )
{
  std::vector<Mask> top( smaller.begin(), smaller.end() );
  std::set<Mask> result( smaller );
  for( std::size_t i = all.size(); i-- > 0; )
    if( popcount( all[i] ) <= size )
    {
      bool covered = false;
      for( Mask t : top )
        covered = covered || ( t & all[i] ) == all[i];
      if( !covered && sym::boolean( "stratum" ) )
      {
        top.push_back( all[i] );
        covered = true;
      }
      if( covered )
        result.insert( all[i] );
    }
  return result;
}

static std::vector<Mask> sorted( std::vector<Mask> sets, int kind )
{
  if( kind == 1 ) // simplices as soon as their last vertex occurs
    std::sort( sets.begin(), sets.end(), [] ( Mask a, Mask b )
    {
      int u = 0, v = 0;
      while( a >> ( u + 1 ) ) ++u;
      while( b >> ( v + 1 ) ) ++v;
      return u != v ? u < v : popcount( a ) != popcount( b ) ? popcount( a ) < popcount( b ) : a < b;
    } );
  return sets;
}

static void strata( const std::vector<Mask>& sets, bool all )
{
  int order = sym::choice( "order", 0, 1 );
  bool dualize = sym::flag( "dualize" );
  std::vector< std::set<Mask> > X;
  X.push_back( symbolicStratum( sets, 1, std::set<Mask>() ) );
  X.push_back( all ? symbolicStratum( sets, 2, X[0] ) : X[0] );
  X.push_back( std::set<Mask>( sets.begin(), sets.end() ) );
  int a = sym::choice( "first", -1, 0 );
  int b = sym::choice( "second", -1, 1 );
  compare( sorted( sets, order ), X, aleph::Perversity( { a, b } ), false, dualize );
}

//@ triangle: a triangle with all strata, perversities and both variants of the calculation
HARNESS(triangle)
{
  strata( withFaces( { tri( 0, 1, 2 ) } ), true );
  REACH("triangle");
}

//@ bowtie: two triangles with a common vertex, strata being sets of vertices, all perversities
HARNESS(bowtie)
{
  strata( withFaces( { tri( 0, 1, 2 ), tri( 2, 3, 4 ) } ), false );
  REACH("bowtie");
}

//@ sphere: boundary of a tetrahedron, strata being sets of vertices, all perversities
HARNESS(sphere)
{
  strata( withFaces( { tri( 0, 1, 2 ), tri( 0, 1, 3 ), tri( 0, 2, 3 ), tri( 1, 2, 3 ) } ), false );
  REACH("sphere");
}

//@ graphs: all graphs with four vertices, strata being sets of vertices, all perversities
HARNESS(graphs)
{
  auto sets = cliques( symbolicGraph( 4 ), 2 );
  ASSUME( popcount( sets.back() ) == 2 );
  std::vector< std::set<Mask> > X;
  X.push_back( symbolicStratum( sets, 1, std::set<Mask>() ) );
  X.push_back( std::set<Mask>( sets.begin(), sets.end() ) );
  int a = sym::choice( "first", -1, 0 );
  compare( sets, X, aleph::Perversity( { a } ), false, true );
  REACH("graphs");
}

//@ goresky: classical perversity on the suspension of a circle and a bow tie, strata being sets of vertices
HARNESS(goresky)
{
  bool bow = sym::flag( "bow" );
  auto sets = bow ? withFaces( { tri( 0, 1, 2 ), tri( 2, 3, 4 ) } )
                  : withFaces( { tri( 0, 1, 3 ), tri( 0, 2, 3 ), tri( 1, 2, 3 ), tri( 0, 1, 4 ), tri( 0, 2, 4 ), tri( 1, 2, 4 ) } );
  std::vector< std::set<Mask> > X;
  X.push_back( symbolicStratum( sets, 1, std::set<Mask>() ) );
  X.push_back( X[0] );
  X.push_back( std::set<Mask>( sets.begin(), sets.end() ) );
  bool dualize = sym::flag( "dualize" );
  compare( sets, X, aleph::PerversityGM( { 0 } ), true, dualize );
  REACH("goresky");
}

//@ invalid: stratifications that violate the requirements are rejected
HARNESS(invalid)
{
  auto sets = withFaces( { tri( 0, 1, 2 ) } );
  std::vector<Spx> s, v, e;
  for( Mask m : sets )
  {
    s.push_back( simplexOf( m ) );
    if( popcount( m ) == 1 )
      v.push_back( simplexOf( m ) );
    if( popcount( m ) <= 2 )
      e.push_back( simplexOf( m ) );
  }
  Complex K( s.begin(), s.end() ), V( v.begin(), v.end() ), E( e.begin(), e.end() );
  int which = sym::choice( "case", 0, 2 );
  bool thrown = false;
  try
  {
    if( which == 0 )
      aleph::calculateIntersectionHomology( K, { V, V, V }, aleph::Perversity( { 0, 0 } ) );
    else if( which == 1 )
      aleph::calculateIntersectionHomology( K, { V, E, K }, aleph::PerversityGM( { 0 } ) );
    else
      aleph::calculateIntersectionHomology( K, { V, K }, aleph::PerversityGM( { 0 } ) );
  }
  catch( std::runtime_error& )
  {
    thrown = true;
  }
  ASSERT( thrown, "invalid stratifications are rejected" );
  REACH("invalid");
}

//@ solid: a tetrahedron, strata being sets of vertices and two of its edges and triangles, all perversities
HARNESS(solid)
{
  auto sets = withFaces( { Mask( 15 ) } );
  bool dualize = sym::flag( "dualize" );
  std::vector< std::set<Mask> > X;
  X.push_back( symbolicStratum( sets, 1, std::set<Mask>() ) );
  X.push_back( X[0] );
  if( sym::flag( "edge" ) )
    for( Mask m : { Mask( 1 ), Mask( 4 ), Mask( 5 ) } )
      X[1].insert( m );
  X.push_back( X[1] );
  if( sym::flag( "triangle" ) )
    for( Mask m : withFaces( { Mask( 14 ) } ) )
      X[2].insert( m );
  X.push_back( std::set<Mask>( sets.begin(), sets.end() ) );
  int a = sym::choice( "first", -1, 0 ), b = sym::choice( "second", -1, 1 ), c = sym::choice( "third", -1, 2 );
  compare( sets, X, aleph::Perversity( { a, b, c } ), false, dualize );
  REACH("solid");
}

//@ manifold: two tetrahedra with a common vertex or a common triangle, classical perversities of dimension three
HARNESS(manifold)
{
  auto sets = withFaces( { Mask( 15 ), sym::flag( "vertex" ) ? Mask( 0x78 ) : Mask( 0x1e ) } );
  bool dualize = sym::flag( "dualize" );
  std::vector< std::set<Mask> > X( 1 );
  X[0].insert( Mask( 8 ) );
  if( sym::flag( "more" ) )
    X[0].insert( Mask( 1 ) );
  X.push_back( X[0] );
  if( sym::flag( "edge" ) )
    for( Mask m : { Mask( 8 ), Mask( 4 ), Mask( 12 ) } )
      X[1].insert( m );
  X.push_back( X[1] );
  X.push_back( std::set<Mask>( sets.begin(), sets.end() ) );
  int b = sym::choice( "second", 0, 1 );
  compare( sets, X, aleph::PerversityGM( { 0, b } ), true, dualize );
  REACH("manifold");
}
