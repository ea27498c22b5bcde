// C11: Rips expansion contains exactly the cliques, with the right weights
#include "complexes.h"
#include <aleph/geometry/RipsExpander.hh>
#include <aleph/geometry/RipsExpanderTopDown.hh>
#include <map>
#include <set>

using namespace aleph::geometry;
using namespace aleph::topology;

static void sameSimplices( const Complex& K, const std::vector<Mask>& want )
{
  std::set<Mask> w( want.begin(), want.end() );
  auto order = orderOf( K );
  std::set<Mask> got( order.begin(), order.end() );
  ASSERT( got == w, "exactly the cliques are present" );
  ASSERT( order.size() == w.size(), "every clique is present once" );
}

static Mask spread( Mask m, int n )
{
  Mask wide = 0;
  for( int b = 0; b < n; ++b )
    if( m >> b & 1 )
      wide |= Mask(1) << ( 2*b + 1 );
  return wide;
}

//@ expand5: all graphs on five vertices (numbers with gaps), expanded to dimension 0 to 5 bottom-up and top-down
HARNESS(expand5)
{
  auto g = symbolicGraph( 5 );
  unsigned k = unsigned( sym::choice( "dimension", 0, 5 ) );
  Complex K;
  double w = 1;
  std::map<Mask,double> weight;
  for( Mask m : cliques( g, 2 ) )
  {
    weight[ spread( m, 5 ) ] = w;
    K.push_back( simplexOf( spread( m, 5 ), w++ ) );
  }
  std::vector<Mask> want;
  for( Mask m : cliques( g, int( k ) + 1 ) )
    want.push_back( spread( m, 5 ) );
  RipsExpander<Complex> expander;
  auto L = expander( K, k );
  sameSimplices( L, want );
  for( auto&& s : L )
    if( s.dimension() <= 1 )
      ASSERT( s.data() == weight.at( maskOf( s ) ), "weights of vertices and edges are kept" );
  RipsExpanderTopDown<Complex> topDown;
  sameSimplices( topDown( K, k ), want );
  unsigned low = unsigned( sym::choice( "minimum", 0, 2 ) );
  std::vector<Mask> atLeast;
  for( Mask m : want )
    if( popcount( m ) > int( low ) )
      atLeast.push_back( m );
  sameSimplices( topDown( K, k, low ), atLeast );
  REACH("expanded");
  if( L.dimension() >= 3 ) REACH("high dimension");
}

//@ complete6: complete graph on six vertices with any three disjoint edges and one more edge missing, expanded to any dimension
HARNESS(complete6)
{
  Graph g; g.n = 6;
  for( int i = 0; i < 6; ++i ) for( int j = 0; j < 6; ++j ) g.a[i][j] = i != j;
  const int e[4][2] = { {0,1}, {2,3}, {4,5}, {0,5} };
  for( int i = 0; i < 4; ++i )
    if( sym::flag( "missing" ) )
      g.a[e[i][0]][e[i][1]] = g.a[e[i][1]][e[i][0]] = false;
  unsigned k = unsigned( sym::choice( "dimension", 0, 6 ) );
  Complex K;
  for( Mask m : cliques( g, 2 ) )
    K.push_back( simplexOf( m ) );
  RipsExpander<Complex> expander;
  RipsExpanderTopDown<Complex> topDown;
  sameSimplices( expander( K, k ), cliques( g, int( k ) + 1 ) );
  sameSimplices( topDown( K, k ), cliques( g, int( k ) + 1 ) );
}

static double maxEdge( Mask m, const std::map<Mask,double>& w )
{
  double r = 0;
  for( int i = 0; i < 8; ++i )
    for( int j = i+1; j < 8; ++j )
      if( ( m >> i & 1 ) && ( m >> j & 1 ) )
        r = sym::max( r, w.at( Mask(1) << i | Mask(1) << j ) );
  return r;
}

static void weights( const Graph& g, int symbolicEdges )
{
  Complex K;
  std::map<Mask,double> w;
  int left = symbolicEdges;
  for( Mask m : cliques( g, 2 ) )
  {
    double x = 0;
    if( popcount( m ) == 2 )
      x = left-- > 0 ? sym::fixed( "weight", 0, 1000, 2 ) : 17.0;
    w[m] = x;
    K.push_back( simplexOf( m, x ) );
  }
  RipsExpander<Complex> expander;
  auto L = expander( K, 3 );
  auto M = expander.assignMaximumWeight( L );
  sameSimplices( M, orderOf( L ) );
  for( auto&& s : M )
    ASSERT( s.data() == maxEdge( maskOf( s ), w ), "weight is the maximum over the edges" );
  RipsExpanderTopDown<Complex> topDown;
  auto T = topDown.assignMaximumWeight( topDown( K, 3 ), K );
  sameSimplices( T, orderOf( L ) );
  for( auto&& s : T )
    ASSERT( s.data() == maxEdge( maskOf( s ), w ), "weight is the maximum over the edges" );
  REACH("weights");
}

//@ weights4: all graphs on four vertices, all edge weights symbolic in 0..250 in steps of 1/4, expanded to dimension 3
HARNESS(weights4)
{
  symapi_linear();
  weights( symbolicGraph( 4 ), 6 );
}

//@ given: weights of expanded simplices given beforehand, symbolic; maximum over own weight and faces; minimum dimension 0 to 2
HARNESS(given)
{
  symapi_linear();
  unsigned low = unsigned( sym::choice( "minimum", 0, 2 ) );
  Complex K;
  std::map<Mask,double> w, r;
  for( Mask m : subsets( 3, 3 ) )
  {
    w[m] = sym::fixed( "weight", -1000, 1000 );
    K.push_back( simplexOf( m, w[m] ) );
  }
  for( Mask m : subsets( 3, 3 ) )
  {
    double x = w[m];
    if( popcount( m ) - 1 > int( low ) )
      for( Mask f : subsets( 3, 3 ) )
        if( ( f & m ) == f && popcount( f ) + 1 == popcount( m ) )
          x = sym::max( x, r[f] );
    r[m] = x;
  }
  RipsExpander<Complex> expander;
  auto M = expander.assignMaximumWeight( K, low );
  sameSimplices( M, subsets( 3, 3 ) );
  for( auto&& s : M )
    ASSERT( s.data() == r.at( maskOf( s ) ), "weight is the maximum over own weight and faces" );
  REACH("given");
}

//@ data: clique complexes of all graphs on four vertices (numbers with gaps), symbolic vertex data -1000..1000, maximum and minimum
HARNESS(data)
{
  symapi_linear();
  auto g = symbolicGraph( 4 );
  Complex K;
  auto sets = cliques( g, 4 );
  for( std::size_t i = sets.size(); i-- > 0; )
    K.push_back( simplexOf( spread( sets[i], 4 ), 3 ) );
  std::vector<double> v;
  for( int i = 0; i < 4; ++i )
    v.push_back( sym::fixed( "value", -1000, 1000 ) );
  RipsExpander<Complex> expander;
  auto A = expander.assignMaximumData( K, v.begin(), v.end() );
  auto B = expander.assignData( K, v.begin(), v.end(), 5000.0, [] ( double a, double b ) { return sym::min( a, b ); } );
  ASSERT( orderOf( A ) == orderOf( K ) && orderOf( B ) == orderOf( K ), "simplices stay as they are" );
  for( std::size_t i = 0; i < K.size(); ++i )
  {
    double hi = -5000, lo = 5000;
    for( int b = 0; b < 4; ++b )
      if( maskOf( K[i] ) >> ( 2*b + 1 ) & 1 )
      {
        hi = sym::max( hi, v[ std::size_t(b) ] );
        lo = sym::min( lo, v[ std::size_t(b) ] );
      }
    ASSERT( A[i].data() == hi, "maximum over the vertices" );
    ASSERT( B[i].data() == lo, "minimum over the vertices" );
  }
  REACH("data");
}

//@ complete8: complete graph on seven or eight vertices with any of three edges missing, expanded to dimension 4 to 7, one edge of symbolic weight 0..250 in steps of 1/4
HARNESS(complete8)
{
  symapi_linear();
  Graph g; g.n = sym::choice( "vertices", 7, 8 );
  for( int i = 0; i < 8; ++i ) for( int j = 0; j < 8; ++j ) g.a[i][j] = i != j;
  const int e[3][2] = { {0,1}, {0,6}, {3,5} };
  for( int i = 0; i < 3; ++i )
    if( sym::flag( "missing" ) )
      g.a[e[i][0]][e[i][1]] = g.a[e[i][1]][e[i][0]] = false;
  unsigned k = unsigned( sym::choice( "dimension", 4, 7 ) );
  double x = sym::fixed( "weight", 0, 1000, 2 );
  std::map<Mask,double> w;
  Complex K;
  for( Mask m : cliques( g, 2 ) )
  {
    w[m] = popcount( m ) == 1 ? 0.0 : m == 0x24 ? x : double( m );
    K.push_back( simplexOf( m, w[m] ) );
  }
  RipsExpander<Complex> expander;
  RipsExpanderTopDown<Complex> topDown;
  auto want = cliques( g, int( k ) + 1 );
  auto L = expander.assignMaximumWeight( expander( K, k ) );
  auto T = topDown.assignMaximumWeight( topDown( K, k ), K );
  sameSimplices( L, want );
  sameSimplices( T, want );
  for( auto&& s : L )
    ASSERT( s.data() == maxEdge( maskOf( s ), w ), "weight is the maximum over the edges" );
  for( auto&& s : T )
    ASSERT( s.data() == maxEdge( maskOf( s ), w ), "weight is the maximum over the edges" );
  if( L.dimension() == 7 ) REACH("dimension seven");
}
