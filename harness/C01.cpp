// C01: the persistence pairing of a filtered complex is the one given by the rank formula
#include "complexes.h"
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <limits>

using namespace aleph;
using namespace aleph::topology;

typedef PersistencePairing<unsigned> Pairing;
static const unsigned NONE = std::numeric_limits<unsigned>::max();

static void compare( const Pairing& P, const std::vector< std::pair<int,int> >& oracle, const std::vector<Mask>& order, bool all, unsigned max )
{
  int top = 0;
  for( Mask m : order )
    top = std::max( top, popcount( m ) );
  std::size_t expected = 0;
  std::vector<bool> seen( order.size(), false );
  for( auto&& p : oracle )
  {
    if( unsigned( p.first ) >= max )
      continue;
    if( p.second < 0 )
    {
      bool wanted = all || popcount( order[ std::size_t( p.first ) ] ) != top;
      ASSERT( P.contains( unsigned( p.first ), NONE ) == wanted, "unpaired simplices are reported as requested" );
      if( wanted )
        ++expected;
      ASSERT( P.contains( unsigned( p.first ) ) == wanted, "creators are found" );
    }
    else
    {
      ASSERT( P.contains( unsigned( p.first ), unsigned( p.second ) ), "every pair of the rank formula is reported" );
      ASSERT( P.contains( unsigned( p.first ) ), "creators are found" );
      ++expected;
    }
  }
  ASSERT( P.size() == expected, "no other pairs are reported" );
  ASSERT( P.empty() == ( expected == 0 ), "emptiness" );
  std::size_t n = 0;
  for( auto&& p : P )
  {
    ASSERT( p.first < order.size(), "index of creator" );
    ASSERT( !seen[p.first], "a simplex occurs at most once" );
    seen[p.first] = true;
    if( p.second != NONE )
    {
      ASSERT( p.second < order.size() && !seen[p.second], "a simplex occurs at most once" );
      seen[p.second] = true;
      ASSERT( p.first < p.second, "the creator comes first" );
      ASSERT( popcount( order[p.first] ) + 1 == popcount( order[p.second] ), "dimensions of a pair" );
      REACH("paired");
    }
    else
      REACH("unpaired");
    sym::observe( p.first ); sym::observe( p.second );
    ++n;
  }
  ASSERT( n == P.size(), "size matches iteration" );
}

template <class Algorithm, class Matrix> void checkAlgorithm( const Matrix& M, const Matrix& D, const std::vector< std::pair<int,int> >& oracle, const std::vector<Mask>& order )
{
  for( int all = 0; all < 2; ++all )
  {
    compare( calculatePersistencePairing<Algorithm>( M, all != 0 ), oracle, order, all != 0, NONE );
    compare( calculatePersistencePairing<Algorithm>( D, all != 0 ), oracle, order, all != 0, NONE );
  }
}

template <class Representation> void checkRepresentation( const Complex& K, bool limits )
{
  using namespace aleph::persistentHomology::algorithms;
  auto order  = orderOf( K );
  auto oracle = pairsByRanks( boundaryColumns( order ) );
  auto M      = makeBoundaryMatrix<Representation>( K );
  auto D      = M.dualize();
  checkAlgorithm<Standard>( M, D, oracle, order );
  checkAlgorithm<Twist>( M, D, oracle, order );
  if( limits )
    for( unsigned max = 0; max <= unsigned( K.size() ); ++max )
      for( int all = 0; all < 2; ++all )
      {
        compare( calculatePersistencePairing( M, all != 0, max ), oracle, order, all != 0, max );
        compare( calculatePersistencePairing( D, all != 0, max ), oracle, order, all != 0, max );
      }
}

static void checkAll( const Complex& K, bool limits )
{
  checkRepresentation< representations::Vector<unsigned> >( K, limits );
  checkRepresentation< representations::List<unsigned> >( K, false );
  checkRepresentation< representations::Set<unsigned> >( K, false );
}

//@ simplex3: all subsets of three vertices with symbolic monotone weights between -2^19 and 2^19 in steps of 1/2, sorted by data; every limit of the index
HARNESS(simplex3)
{
  symapi_linear();
  auto s = weightedSubsets( subsets(3,3), 1 << 20 );
  Complex K( s.begin(), s.end() );
  K.sort( filtrations::Data<Spx>() );
  checkAll( K, true );
}

//@ lowerstar4: all clique complexes on four vertices, lower-star order of symbolic vertex values between -2^18 and 2^18 in steps of 1/4
HARNESS(lowerstar4)
{
  symapi_linear();
  auto g = symbolicGraph( 4 );
  std::vector<double> f;
  for( int i = 0; i < 4; ++i )
    f.push_back( sym::fixed( "f", -( 1 << 20 ), 1 << 20, 2 ) );
  Complex K;
  for( Mask m : cliques( g, 4 ) )
    K.push_back( simplexOf( m ) );
  filtrations::LowerStar<Spx> order( f.begin(), f.end() );
  K.sort( order );
  checkAll( K, false );
}

//@ graph4: complete graph on four vertices, symbolic edge weights 1/8..2^17 in steps of 1/8
HARNESS(graph4)
{
  symapi_linear();
  Complex K;
  for( Mask m : subsets(4,1) )
    K.push_back( simplexOf( m ) );
  for( Mask m : subsets(4,2) )
    if( popcount(m) == 2 )
      K.push_back( simplexOf( m, sym::fixed( "weight", 1, 1 << 20, 3 ) ) );
  K.sort( filtrations::Data<Spx>() );
  checkAll( K, false );
}

//@ flag5: clique complexes of all graphs on five vertices up to dimension 4, ordered by dimension
HARNESS(flag5)
{
  auto g = symbolicGraph( 5 );
  Complex K;
  for( Mask m : cliques( g, 5 ) )
    K.push_back( simplexOf( m ) );
  checkAll( K, false );
}

//@ surfaces: minimal triangulations of the projective plane and the torus, three triangles with symbolic weights, any of these missing
HARNESS(surfaces)
{
  symapi_linear();
  bool rp = sym::boolean( "plane" );
  auto top = rp ? projectivePlane() : torus();
  auto all = withFaces( top );
  Complex K;
  int k = 0;
  for( Mask m : all )
  {
    double w = 0;
    if( m == top[0] || m == top[4] || m == top[7] )
    {
      ++k;
      w = sym::fixed( "weight", 0, 1 << 20, 2 );
      if( sym::boolean( "missing" ) )
        continue;
    }
    K.push_back( simplexOf( m, w ) );
  }
  K.sort( filtrations::Data<Spx>() );
  checkAll( K, false );
}
