// C02: reduction algorithms, representations and dualisation agree; columns are sets under symmetric difference
#include "complexes.h"
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>
#include <limits>

using namespace aleph;
using namespace aleph::topology;
using namespace aleph::persistentHomology::algorithms;

typedef std::vector< std::pair<unsigned,unsigned> > Pairs;
typedef std::vector< PersistenceDiagram<double> >   Diagrams;
typedef representations::Vector<unsigned> V;
typedef representations::List<unsigned>   L;
typedef representations::Set<unsigned>    S;

template <class A, class R> Pairs pairs( const Complex& K, bool dualize, bool all )
{
  auto M = makeBoundaryMatrix<R>( K );
  auto P = calculatePersistencePairing<A>( dualize ? M.dualize() : M, all );
  return Pairs( P.begin(), P.end() );
}

static bool same( const Diagrams& a, const Diagrams& b )
{
  if( a.size() != b.size() )
    return false;
  for( std::size_t i = 0; i < a.size(); ++i )
  {
    if( a[i].dimension() != b[i].dimension() || a[i].size() != b[i].size() )
      return false;
    auto p = a[i].begin(); auto q = b[i].begin();
    for( ; p != a[i].end(); ++p, ++q )
      if( p->isUnpaired() != q->isUnpaired() || sym::neg( p->x() == q->x() ) || ( !p->isUnpaired() && sym::neg( p->y() == q->y() ) ) )
        return false;
  }
  return true;
}

template <class A, class R> void one( const Complex& K, const Pairs* P, const Diagrams* D )
{
  for( int all = 0; all < 2; ++all )
    for( int dual = 0; dual < 2; ++dual )
    {
      auto Q = pairs<A,R>( K, dual != 0, all != 0 );
      ASSERT( Q == P[all], "pairing does not depend on algorithm, representation and dualisation" );
      auto E = calculatePersistenceDiagrams<A,R>( K, dual != 0, all != 0 );
      ASSERT( same( E, D[all] ), "diagrams do not depend on algorithm, representation and dualisation" );
    }
}

static void agree( const Complex& K )
{
  Pairs    P[2] = { pairs<Standard,V>( K, false, false ), pairs<Standard,V>( K, false, true ) };
  Diagrams D[2] = { calculatePersistenceDiagrams<Standard,V>( K, false, false ), calculatePersistenceDiagrams<Standard,V>( K, false, true ) };
  // A baseline of its own: the rank formula
  auto oracle = pairsByRanks( boundaryColumns( orderOf( K ) ) );
  ASSERT( oracle.size() == P[1].size(), "number of pairs" );
  for( std::size_t i = 0; i < oracle.size() && i < P[1].size(); ++i )
    ASSERT( unsigned( oracle[i].first ) == P[1][i].first && unsigned( oracle[i].second ) == P[1][i].second, "pairs equal those of the rank formula" );
  for( int all = 0; all < 2; ++all )
    for( auto&& p : P[all] ) { sym::observe( p.first ); sym::observe( p.second ); REACH("pairs"); }
  one<Standard,V>( K, P, D ); one<Standard,L>( K, P, D ); one<Standard,S>( K, P, D );
  one<StandardRectangular,V>( K, P, D ); one<StandardRectangular,L>( K, P, D ); one<StandardRectangular,S>( K, P, D );
  one<Twist,V>( K, P, D ); one<Twist,L>( K, P, D ); one<Twist,S>( K, P, D );
}

//@ simplex3: all subsets of three vertices with symbolic monotone weights between -2^19 and 2^19 in steps of 1/2
HARNESS(simplex3)
{
  symapi_linear();
  auto s = weightedSubsets( subsets(3,3), 1 << 20 );
  Complex K( s.begin(), s.end() );
  K.sort( filtrations::Data<Spx>() );
  agree( K );
}

//@ star4: all clique complexes on four vertices, lower- or upper-star order of symbolic vertex values between -2^18 and 2^18 in steps of 1/4
HARNESS(star4)
{
  symapi_linear();
  auto g = symbolicGraph( 4 );
  std::vector<double> f;
  for( int i = 0; i < 4; ++i )
    f.push_back( sym::fixed( "f", -( 1 << 20 ), 1 << 20, 2 ) );
  bool upper = sym::boolean( "upper" );
  Complex K;
  for( Mask m : cliques( g, 4 ) )
    K.push_back( simplexOf( m ) );
  if( upper )
  {
    filtrations::UpperStar<Spx> order( f.begin(), f.end() );
    K.sort( order );
  }
  else
  {
    filtrations::LowerStar<Spx> order( f.begin(), f.end() );
    K.sort( order );
  }
  agree( K );
}

//@ flag5: clique complexes of all graphs on five vertices, ordered by dimension
HARNESS(flag5)
{
  auto g = symbolicGraph( 5 );
  Complex K;
  for( Mask m : cliques( g, 5 ) )
    K.push_back( simplexOf( m, popcount( m ) ) );
  agree( K );
}

//@ surfaces: minimal triangulations of the projective plane and the torus, three triangles with symbolic weights or missing
HARNESS(surfaces)
{
  symapi_linear();
  bool rp = sym::boolean( "plane" );
  auto top = rp ? projectivePlane() : torus();
  auto all = withFaces( top );
  Complex K;
  for( Mask m : all )
  {
    double w = 0;
    if( m == top[0] || m == top[4] || m == top[7] )
    {
      w = sym::fixed( "weight", 0, 1 << 20, 2 );
      if( sym::boolean( "missing" ) )
        continue;
    }
    K.push_back( simplexOf( m, w ) );
  }
  K.sort( filtrations::Data<Spx>() );
  agree( K );
}

template <class R> void columns( const bool (*c)[6], int n, int source, int target )
{
  BoundaryMatrix<R> M;
  M.setNumColumns( unsigned( n ) );
  for( int j = 0; j < n; ++j )
  {
    // given in descending order: columns may be set from any sequence
    std::vector<unsigned> v;
    for( int i = 5; i >= 0; --i )
      if( c[j][i] )
        v.push_back( unsigned( i ) );
    M.setColumn( unsigned( j ), v.begin(), v.end() );
    auto before = M.getColumn( unsigned( j ) );
    ASSERT( before == std::vector<unsigned>( v.rbegin(), v.rend() ), "a column reads back in ascending order" );
  }
  M.addColumns( unsigned( source ), unsigned( target ) );
  for( int j = 0; j < n; ++j )
  {
    std::vector<unsigned> v;
    for( int i = 0; i < 6; ++i )
      if( j == target ? c[source][i] != c[target][i] : c[j][i] )
        v.push_back( unsigned( i ) );
    ASSERT( M.getColumn( unsigned( j ) ) == v, "addition is symmetric difference and leaves other columns alone" );
    auto m = M.getMaximumIndex( unsigned( j ) );
    ASSERT( m.second == !v.empty(), "lowest index exists for nonempty columns" );
    if( !v.empty() )
    {
      ASSERT( m.first == v.back(), "lowest index is the largest one" );
      REACH("nonempty column");
    }
    else
      REACH("empty column");
  }
  M.clearColumn( unsigned( target ) );
  ASSERT( M.getColumn( unsigned( target ) ).empty() && !M.getMaximumIndex( unsigned( target ) ).second, "cleared column" );
}

//@ columns: two columns with symbolic subsets of six rows, addition in both directions, three representations
HARNESS(columns)
{
  bool c[2][6];
  for( int j = 0; j < 2; ++j )
    for( int i = 0; i < 6; ++i )
      c[j][i] = sym::flag( "entry" );
  for( int d = 0; d < 2; ++d )
  {
    columns<V>( c, 2, d, 1-d );
    columns<L>( c, 2, d, 1-d );
    columns<S>( c, 2, d, 1-d );
  }
}

//@ indices: addition of two columns of three and two symbolic indices in 0..4000, three representations
template <class R> void indices( const std::vector<unsigned>& a, const std::vector<unsigned>& b )
{
  BoundaryMatrix<R> M;
  M.setNumColumns( 2 );
  M.setColumn( 0u, a.begin(), a.end() );
  M.setColumn( 1u, b.begin(), b.end() );
  M.addColumns( 0u, 1u );
  auto c = M.getColumn( 1 );
  unsigned best = 0; bool any = false;
  for( std::size_t k = 0; k < a.size() + b.size(); ++k )
  {
    unsigned x = k < a.size() ? a[k] : b[k-a.size()];
    int n = 0, m = 0;
    for( unsigned y : a ) n += x == y;
    for( unsigned y : b ) n += x == y;
    for( unsigned y : c ) m += x == y;
    ASSERT( m == n % 2, "an index is in the sum if it is in exactly one column" );
    if( n == 1 ) { best = any ? std::max( best, x ) : x; any = true; }
  }
  for( std::size_t k = 1; k < c.size(); ++k )
    ASSERT( c[k-1] < c[k], "indices are ascending" );
  auto m = M.getMaximumIndex( 1 );
  ASSERT( m.second == any && ( !any || m.first == best ), "largest index" );
  REACH("sum");
}
HARNESS(indices)
{
  symapi_linear();
  std::vector<unsigned> a, b;
  for( int i = 0; i < 3; ++i )
    a.push_back( unsigned( sym::integer( "a", 0, 4000 ) ) );
  for( int i = 0; i < 2; ++i )
    b.push_back( unsigned( sym::integer( "b", 0, 4000 ) ) );
  ASSUME( a[0] != a[1] ); ASSUME( a[0] != a[2] ); ASSUME( a[1] != a[2] ); ASSUME( b[0] != b[1] );
  indices<V>( a, b ); indices<L>( a, b ); indices<S>( a, b );
}

//@ t_longer: addition of two columns of four ascending symbolic indices in 0..4000 each
HARNESS(t_longer)
{
  symapi_linear();
  std::vector<unsigned> a, b;
  for( int i = 0; i < 4; ++i )
    a.push_back( unsigned( sym::integer( "a", 0, 4000 ) ) );
  for( int i = 0; i < 4; ++i )
    b.push_back( unsigned( sym::integer( "b", 0, 4000 ) ) );
  for( std::size_t i = 1; i < 4; ++i )
  {
    ASSUME( a[i-1] < a[i] );
    ASSUME( b[i-1] < b[i] );
  }
  indices<V>( a, b ); indices<L>( a, b ); indices<S>( a, b );
}
