// C09: zero-dimensional persistence by merging components equals the homological one
#include "complexes.h"
#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <functional>
#include <limits>
#include <map>

using namespace aleph;
using namespace aleph::topology;

static const Vertex NONE = std::numeric_limits<Vertex>::max();

struct P { double x, y; bool unpaired; };
static bool equal( const P& a, const P& b )
{
  if( a.unpaired != b.unpaired )
    return false;
  return a.unpaired ? a.x == b.x : sym::both( a.x == b.x, a.y == b.y );
}

static void sameMultiset( const PersistenceDiagram<double>& D, const std::vector<P>& want )
{
  std::vector<P> got;
  for( auto&& p : D )
    got.push_back( P{ p.x(), p.y(), p.isUnpaired() } );
  ASSERT( got.size() == want.size(), "number of points" );
  for( auto&& p : want )
  {
    int n = 0, m = 0;
    for( auto&& q : want ) n += int( equal( p, q ) );
    for( auto&& q : got )  m += int( equal( p, q ) );
    ASSERT( n == m, "points equal those of matrix reduction" );
  }
  ASSERT( D.dimension() == 0, "dimension" );
}

// Records what is reported at every merge
struct Recorder
{
  const Complex* K;
  std::map<Vertex,int> initialised, roots;
  std::map<Vertex,Vertex> parent;
  int merges = 0;

  void initialize( Vertex v ) { ++initialised[v]; }
  void operator()( Vertex younger, Vertex older, double creation, double destruction, Vertex u, Vertex v )
  {
    ++merges;
    std::size_t y = K->index( Spx( younger ) ), o = K->index( Spx( older ) );
    ASSERT( y > o, "the younger component dies" );
    ASSERT( creation == (*K)[y].data(), "creation value is that of the younger component" );
    ASSERT( K->contains( Spx( { u, v } ) ), "merging edge" );
    ASSERT( K->find( Spx( { u, v } ) )->data() == destruction, "destruction value is that of the merging edge" );
    ASSERT( root( u ) != root( v ), "a merge joins different components" );
    ASSERT( ( root( u ) == younger && root( v ) == older ) || ( root( u ) == older && root( v ) == younger ), "components of the merging edge" );
    parent[younger] = older;
  }
  void operator()( Vertex r, double creation )
  {
    ++roots[r];
    ASSERT( creation == K->find( Spx( r ) )->data(), "creation value of a root" );
  }
  Vertex root( Vertex v ) { while( parent.count( v ) ) v = parent[v]; return v; }
};

static void checkAll( const Complex& K )
{
  auto order = orderOf( K );
  auto pairs = pairsByRanks( boundaryColumns( order ) );
  std::vector<P> all, offDiagonal;
  std::size_t expected = 0, vertices = 0, expectedOff = 0;
  typedef PersistencePairing<Vertex> Pairing;
  Recorder recorder; recorder.K = &K;
  auto full = calculateZeroDimensionalPersistenceDiagram<Spx, traits::PersistencePairingCalculation<Pairing>, traits::DiagonalElementCalculation>( K );
  auto off  = calculateZeroDimensionalPersistenceDiagram<Spx, traits::PersistencePairingCalculation<Pairing>, traits::NoDiagonalElementCalculation>( K );
  auto none = calculateZeroDimensionalPersistenceDiagram<Spx>( K );
  const Pairing& A = std::get<1>( full );
  const Pairing& B = std::get<1>( off );
  int unpaired = 0, merges = 0;
  for( auto&& p : pairs )
  {
    std::size_t i = std::size_t( p.first ), j = std::size_t( p.second );
    if( popcount( order[i] ) != 1 )
      continue;
    if( p.second < 0 )
    {
      ++unpaired;
      all.push_back( P{ K[i].data(), 0, true } );
      offDiagonal.push_back( P{ K[i].data(), 0, true } );
      ASSERT( A.contains( Vertex( i ), NONE ) && B.contains( Vertex( i ), NONE ), "unpaired vertices" );
      ++expected; ++expectedOff;
      REACH("unpaired");
    }
    else
    {
      ++merges;
      all.push_back( P{ K[i].data(), K[j].data(), false } );
      ASSERT( A.contains( Vertex( i ), Vertex( j ) ), "every pair is found" );
      ++expected;
      bool diagonal = K[i].data() == K[j].data();
      ASSERT( B.contains( Vertex( i ), Vertex( j ) ) == !diagonal, "pairs off the diagonal" );
      if( !diagonal )
      {
        ++expectedOff;
        offDiagonal.push_back( P{ K[i].data(), K[j].data(), false } );
        REACH("off diagonal");
      }
      else
        REACH("diagonal");
    }
  }
  for( Mask m : order )
    vertices += popcount( m ) == 1;
  ASSERT( A.size() == expected, "no other pairs" );
  ASSERT( B.size() == expectedOff, "no other pairs" );
  ASSERT( std::get<1>( none ).empty(), "no pairing unless requested" );
  sameMultiset( std::get<0>( full ), all );
  sameMultiset( std::get<0>( off ), offDiagonal );
  sameMultiset( std::get<0>( none ), offDiagonal );

  calculateZeroDimensionalPersistenceDiagram<Spx, traits::NoPersistencePairingCalculation<Pairing>, traits::NoDiagonalElementCalculation, Recorder&>( K, recorder );
  ASSERT( recorder.initialised.size() == vertices, "every vertex is initialised" );
  for( auto&& p : recorder.initialised )
    ASSERT( p.second == 1, "every vertex is initialised once" );
  ASSERT( recorder.merges == merges, "number of merges" );
  ASSERT( int( recorder.roots.size() ) == unpaired, "roots are reported" );
  for( auto&& p : recorder.roots )
    ASSERT( p.second == 1 && !recorder.parent.count( p.first ), "a root is reported once and never died" );
}

//@ graph3: all graphs on three vertices, symbolic vertex and edge weights between -500 and 500 in steps of 1/2, ascending or descending
HARNESS(graph3)
{
  symapi_linear();
  bool up = sym::flag( "ascending" );
  auto g = symbolicGraph( 3 );
  Complex K;
  std::vector<double> f;
  for( int i = 0; i < 3; ++i )
  {
    f.push_back( sym::fixed( "f", -1000, 1000, 1 ) );
    K.push_back( simplexOf( Mask(1) << i, up ? f.back() : -f.back() ) );
  }
  for( int i = 0; i < 3; ++i )
    for( int j = i+1; j < 3; ++j )
      if( g.a[i][j] )
      {
        double w = sym::fixed( "w", -1000, 1000, 1 );
        ASSUME( sym::both( f[ std::size_t(i) ] <= w, f[ std::size_t(j) ] <= w ) );
        K.push_back( simplexOf( Mask(1) << i | Mask(1) << j, up ? w : -w ) );
      }
  if( up )
    K.sort( filtrations::Data<Spx>() );
  else
    K.sort( filtrations::Data<Spx, std::greater<double> >() );
  checkAll( K );
}

//@ star4: clique complexes of all graphs on four vertices (triangles included), lower star of symbolic vertex values
HARNESS(star4)
{
  symapi_linear();
  auto g = symbolicGraph( 4 );
  std::vector<double> f;
  for( int i = 0; i < 4; ++i )
    f.push_back( sym::fixed( "f", -1000, 1000, 1 ) );
  Complex K;
  for( Mask m : cliques( g, 3 ) )
  {
    double w = -10000;
    for( int b = 0; b < 4; ++b )
      if( m >> b & 1 )
        w = sym::max( w, f[ std::size_t(b) ] );
    K.push_back( simplexOf( m, w ) );
  }
  filtrations::LowerStar<Spx> c( f.begin(), f.end() );
  K.sort( c );
  checkAll( K );
}

//@ graph4: complete graph on four vertices of weight zero, symbolic edge weights 0..250 in steps of 1/4
HARNESS(graph4)
{
  symapi_linear();
  Complex K;
  for( Mask m : subsets(4,2) )
    K.push_back( simplexOf( m, popcount( m ) == 1 ? 0.0 : sym::fixed( "weight", 0, 1000, 2 ) ) );
  K.sort( filtrations::Data<Spx>() );
  checkAll( K );
}

//@ graph5: all graphs on five vertices with gaps between vertex numbers, unit weights
HARNESS(graph5)
{
  auto g = symbolicGraph( 5 );
  Complex K;
  for( Mask m : cliques( g, 2 ) )
  {
    Mask wide = 0;
    for( int b = 0; b < 5; ++b )
      if( m >> b & 1 )
        wide |= Mask(1) << ( 3*b + 1 );
    K.push_back( simplexOf( wide, popcount( m ) ) );
  }
  checkAll( K );
}

// Vertices may be stored in any order that agrees with their weights; weights tell nothing about the order of equal ones
static void ties( int n, long range )
{
  symapi_linear();
  std::vector<Vertex> names;
  for( int i = 0; i < n; ++i )
    names.insert( names.begin() + sym::choice( "position", 0, i ), Vertex( i ) );
  Graph g = symbolicGraph( n );
  std::vector<Spx> simplices;
  double last = 0;
  for( Vertex v : names )
  {
    double w = sym::fixed( "weight", 0, range, 1 );
    ASSUME( w >= last );
    last = w;
    simplices.push_back( Spx( v, w ) );
  }
  for( int i = 0; i < n; ++i )
    for( int j = i+1; j < n; ++j )
      if( g.a[i][j] )
      {
        double w = sym::fixed( "weight", 0, range, 1 );
        ASSUME( w >= last );
        last = w;
        simplices.push_back( Spx( { Vertex(i), Vertex(j) }, w ) );
      }
  checkAll( Complex( simplices.begin(), simplices.end() ) );
}

//@ ties3: all graphs on three vertices stored in any order, symbolic weights 0..2^20 that do not decrease in this order
HARNESS(ties3) { ties( 3, 1 << 20 ); }
//@ t_ties4: all graphs on four vertices stored in any order, symbolic weights 0..2^20 that do not decrease in this order
HARNESS(t_ties4) { ties( 4, 1 << 20 ); }

//@ longer: paths, cycles, stars and combs on nine vertices with gaps, alternating values of which two are symbolic in between -500 and 500 in steps of 1/2, lower star ascending
HARNESS(longer)
{
  symapi_linear();
  const int n = 9;
  int kind = sym::choice( "kind", 0, 3 );
  std::vector<double> f( 3*n + 2, 0.0 );
  double a = sym::fixed( "a", -100, 100, 1 ), b = sym::fixed( "b", -100, 100, 1 );
  for( int i = 0; i < n; ++i )
    f[ std::size_t( 3*i + 1 ) ] = i == 2 ? a : i == 5 ? b : double( i * 7 % n ) * 10 + 4;
  std::vector<Mask> sets;
  auto bit = [] ( int i ) { return Mask(1) << ( 3*i + 1 ); };
  for( int i = 0; i < n; ++i )
    sets.push_back( bit( i ) );
  for( int i = 1; i < n; ++i )
    sets.push_back( kind == 2 ? bit( 4 ) | bit( i == 4 ? 0 : i ) : kind == 3 && i > 5 ? bit( i ) | bit( i - 6 ) : bit( i ) | bit( i - 1 ) );
  if( kind == 1 )
    sets.push_back( bit( 0 ) | bit( n - 1 ) );
  Complex K;
  for( Mask m : sets )
  {
    double w = 0;
    for( int i = 0; i < n; ++i )
      if( m & bit( i ) )
        w = sym::max( w, f[ std::size_t( 3*i + 1 ) ] );
    K.push_back( simplexOf( m, w ) );
  }
  K.sort( filtrations::Data<Spx>() );
  checkAll( K );
  REACH("longer");
}
