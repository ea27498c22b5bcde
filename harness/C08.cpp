// C08: persistence diagrams of a complex hold the right points in the right dimension
#include "complexes.h"
#include <aleph/persistenceDiagrams/Calculation.hh>
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>
#include <functional>

using namespace aleph;
using namespace aleph::topology;

struct P { double x, y; bool unpaired; };
typedef std::vector<P> Points;

static bool equal( const P& a, const P& b )
{
  if( a.unpaired != b.unpaired )
    return false;
  if( a.unpaired )
    return a.x == b.x;
  return sym::both( a.x == b.x, a.y == b.y );
}

static void sameMultiset( const Points& a, const Points& b )
{
  ASSERT( a.size() == b.size(), "number of points" );
  bool inOrder = a.size() == b.size();
  for( std::size_t i = 0; i < a.size() && inOrder; ++i )
    inOrder = sym::both( inOrder, equal( a[i], b[i] ) );
  if( inOrder )
    return;
  for( auto&& p : a )
  {
    int n = 0, m = 0;
    for( auto&& q : a ) n += int( equal( p, q ) );
    for( auto&& q : b ) m += int( equal( p, q ) );
    ASSERT( n == m, "points are those of the pairing" );
  }
}

static void checkDiagrams( const std::vector< PersistenceDiagram<double> >& D, const Complex& K, bool all, int direction )
{
  auto order = orderOf( K );
  auto pairs = pairsByRanks( boundaryColumns( order ) );
  auto betti = bettiNumbers( order );
  int top = 0;
  for( Mask m : order )
    top = std::max( top, popcount( m ) - 1 );
  std::vector<bool> seen( std::size_t( top+1 ), false );
  std::size_t last = 0;
  for( std::size_t k = 0; k < D.size(); ++k )
  {
    std::size_t d = D[k].dimension();
    ASSERT( k == 0 || last < d, "diagrams are ordered by dimension" );
    ASSERT( int( d ) <= top, "dimension of a diagram" );
    last = d;
    seen[d] = true;
    Points got, want;
    std::size_t unpaired = 0;
    for( auto&& p : D[k] )
    {
      got.push_back( P{ p.x(), p.y(), p.isUnpaired() } );
      unpaired += p.isUnpaired();
      if( !p.isUnpaired() && direction > 0 )
        ASSERT( p.x() <= p.y(), "births precede deaths" );
      if( !p.isUnpaired() && direction < 0 )
        ASSERT( p.x() >= p.y(), "births precede deaths" );
      sym::observe( p.x() );
    }
    for( auto&& p : pairs )
      if( popcount( order[ std::size_t( p.first ) ] ) == int( d ) + 1 )
      {
        if( p.second >= 0 )
          want.push_back( P{ K[ std::size_t( p.first ) ].data(), K[ std::size_t( p.second ) ].data(), false } );
        else if( all || int( d ) != top )
          want.push_back( P{ K[ std::size_t( p.first ) ].data(), 0, true } );
      }
    ASSERT( !want.empty(), "no empty diagrams" );
    sameMultiset( got, want );
    ASSERT( D[k].betti() == unpaired, "Betti number of the diagram" );
    if( all || int( d ) != top )
      ASSERT( int( unpaired ) == betti[d], "number of unpaired points is the Betti number" );
    if( unpaired && d > 0 )
      REACH("unpaired in higher dimension");
  }
  for( auto&& p : pairs )
  {
    int d = popcount( order[ std::size_t( p.first ) ] ) - 1;
    if( p.second >= 0 || all || d != top )
      ASSERT( seen[ std::size_t( d ) ], "no diagram is missing" );
  }
}

static void checkAll( const Complex& K, int direction )
{
  for( int all = 0; all < 2; ++all )
    for( int dual = 0; dual < 2; ++dual )
      checkDiagrams( calculatePersistenceDiagrams( K, dual != 0, all != 0 ), K, all != 0, direction );
  auto M = makeBoundaryMatrix( K );
  checkDiagrams( makePersistenceDiagrams( calculatePersistencePairing( M, true ), K ), K, true, direction );
}

//@ simplex3: all subsets of three vertices with symbolic monotone weights between -2^19 and 2^19 in steps of 1/2
HARNESS(simplex3)
{
  symapi_linear();
  auto s = weightedSubsets( subsets(3,3), 1 << 20 );
  Complex K( s.begin(), s.end() );
  K.sort( filtrations::Data<Spx>() );
  checkAll( K, 1 );
}

//@ star4: all clique complexes on four vertices, weights from symbolic vertex values, lower or upper star
HARNESS(star4)
{
  symapi_linear();
  auto g = symbolicGraph( 4 );
  bool low = sym::flag( "lower" );
  std::vector<double> f;
  for( int i = 0; i < 4; ++i )
    f.push_back( sym::fixed( "f", -( 1 << 20 ), 1 << 20, 2 ) );
  Complex K;
  for( Mask m : cliques( g, 4 ) )
  {
    double w = low ? -( 1 << 21 ) : 1 << 21;
    for( int b = 0; b < 4; ++b )
      if( m >> b & 1 )
        w = low ? sym::max( w, f[ std::size_t(b) ] ) : sym::min( w, f[ std::size_t(b) ] );
    K.push_back( simplexOf( m, w ) );
  }
  if( low )
  {
    filtrations::LowerStar<Spx> c( f.begin(), f.end() );
    K.sort( c );
  }
  else
  {
    filtrations::UpperStar<Spx> c( f.begin(), f.end() );
    K.sort( c );
  }
  checkAll( K, low ? 1 : -1 );
}

//@ flag5: clique complexes of all graphs on five vertices; ordered by dimension, each simplex with its own weight
HARNESS(flag5)
{
  auto g = symbolicGraph( 5 );
  Complex K;
  double w = 1;
  for( Mask m : cliques( g, 5 ) )
    K.push_back( simplexOf( m, w++ ) );
  checkAll( K, 1 );
}

//@ surfaces: minimal triangulations of the projective plane and the torus, three triangles with symbolic weights or missing
HARNESS(surfaces)
{
  symapi_linear();
  bool rp = sym::boolean( "plane" );
  auto top = rp ? projectivePlane() : torus();
  auto all = withFaces( top );
  Complex K;
  for( Mask m : all )
  {
    double w = popcount( m ) - 1;
    if( m == top[0] || m == top[4] || m == top[7] )
    {
      w = sym::fixed( "weight", 4, 1 << 20, 2 );
      if( sym::boolean( "missing" ) )
        continue;
    }
    K.push_back( simplexOf( m, w ) );
  }
  K.sort( filtrations::Data<Spx>() );
  checkAll( K, 1 );
}

//@ function: one-dimensional functions on paths of one to four vertices with symbolic values, from matrix and values alone
HARNESS(function)
{
  symapi_linear();
  int n = sym::choice( "n", 1, 4 );
  std::vector<double> f;
  for( int i = 0; i < n; ++i )
    f.push_back( sym::fixed( "f", -1000, 1000, 1 ) );
  Complex K;
  for( int i = 0; i < n; ++i )
    K.push_back( simplexOf( Mask(1) << i, f[ std::size_t(i) ] ) );
  for( int i = 0; i + 1 < n; ++i )
    K.push_back( simplexOf( Mask(3) << i, sym::max( f[ std::size_t(i) ], f[ std::size_t(i+1) ] ) ) );
  K.sort( filtrations::Data<Spx>() );
  std::vector<double> values;
  for( auto&& s : K )
    values.push_back( s.data() );
  auto M = makeBoundaryMatrix( K );
  auto pairs = pairsByRanks( boundaryColumns( orderOf( K ) ) );
  Points want, got;
  for( auto&& p : pairs )
    if( p.second >= 0 )
      want.push_back( P{ values[ std::size_t( p.first ) ], values[ std::size_t( p.second ) ], false } );
    else if( n > 1 )
      want.push_back( P{ values[ std::size_t( p.first ) ], 0, true } );
  auto D = calculatePersistenceDiagram( M, values );
  for( auto&& p : D )
    got.push_back( P{ p.x(), p.y(), p.isUnpaired() } );
  sameMultiset( got, want );
  ASSERT( D.dimension() == 0, "dimension of the diagram of a function" );
  REACH("function");
}
