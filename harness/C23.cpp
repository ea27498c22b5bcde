// C23: all-pairs shortest paths and Dowker complexes
#include "complexes.h"
#include <aleph/geometry/DowkerComplex.hh>
#include <aleph/topology/FloydWarshall.hh>
#include <limits>
#include <map>
#include <set>

using namespace aleph;
static const double inf = std::numeric_limits<double>::infinity();

// Shortest paths by looking at all simple paths
template <class T> struct Paths
{
  std::vector< std::vector<T> > w;
  std::vector< std::vector<bool> > a;
  T best, unreachable;
  explicit Paths( int n, T u ) : w( n, std::vector<T>( n ) ), a( n, std::vector<bool>( n ) ), unreachable( u ) {}
  T distance( int from, int to ) { found = false; walk( from, to, T(), 1u << from ); return found ? best : unreachable; }
private:
  bool found;
  void walk( int at, int to, T length, unsigned visited )
  {
    if( at == to ) { best = found ? sym::min( best, length ) : length; found = true; return; }
    for( int k = 0; k < int( w.size() ); ++k )
      if( a[at][k] && !( visited >> k & 1 ) )
        walk( k, to, length + w[at][k], visited | 1u << k );
  }
};

static void shortest( int n, bool named )
{
  Graph g = symbolicGraph( n );
  Paths<double> P( n, inf );
  Complex K;
  auto name = [&] ( int i ) { return Vertex( named ? 10 - 3 * i : i ); };
  for( int i = 0; i < n; ++i )
    K.push_back( Spx( name( i ) ) );
  for( int i = 0; i < n; ++i )
    for( int j = i+1; j < n; ++j )
      if( g.a[i][j] )
      {
        double w = sym::fixed( "w", 1, 100, 2 );
        K.push_back( Spx( { name( i ), name( j ) }, w ) );
        P.w[i][j] = P.w[j][i] = w;
        P.a[i][j] = P.a[j][i] = true;
      }
  auto M = topology::floydWarshall( K );
  ASSERT( M.numRows() == n, "one row per vertex" );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
    {
      ASSERT( M( i, j ) == P.distance( i, j ), "shortest path" );
      ASSERT( M( i, j ) == M( j, i ), "symmetric" );
    }
}

//@ graphs: all graphs with one to three vertices with names in descending order, symbolic weights 0.25..25 in steps of 1/4
HARNESS(graphs)
{
  symapi_linear();
  shortest( sym::choice( "n", 1, 3 ), true );
  REACH("graphs");
}

//@ complete4: graphs with four vertices, symbolic weights 0.25..25 in steps of 1/4
HARNESS(complete4)
{
  symapi_linear();
  shortest( 4, false );
  REACH("complete4");
}

//@ path5: path and cycle with five vertices visited in different orders, symbolic weights 0.25..25 in steps of 1/4
HARNESS(path5)
{
  symapi_linear();
  static const int orders[4][5] = { {0,1,2,3,4}, {4,0,3,1,2}, {2,4,1,0,3}, {3,1,4,2,0} };
  const int* o = orders[ sym::choice( "order", 0, 3 ) ];
  bool closed = sym::flag( "closed" );
  Paths<double> P( 5, inf );
  Complex K;
  for( int i = 0; i < 5; ++i )
    K.push_back( Spx( Vertex(i) ) );
  for( int i = 0; i < ( closed ? 5 : 4 ); ++i )
  {
    double w = sym::fixed( "w", 1, 100, 2 );
    int a = o[i], b = o[( i + 1 ) % 5];
    K.push_back( Spx( { Vertex(a), Vertex(b) }, w ) );
    P.w[a][b] = P.w[b][a] = w;
    P.a[a][b] = P.a[b][a] = true;
  }
  auto M = topology::floydWarshall( K );
  for( int i = 0; i < 5; ++i )
    for( int j = i; j < 5; ++j )
      ASSERT( M( i, j ) == P.distance( i, j ), "shortest path with five vertices" );
  REACH("path5");
}

//@ unweighted: weight for edges without weight, all graphs with three vertices
HARNESS(unweighted)
{
  Graph g = symbolicGraph( 3 );
  double w = sym::fixed( "default", 1, 10 );
  Paths<double> P( 3, inf );
  Complex K;
  for( int i = 0; i < 3; ++i )
    K.push_back( Spx( Vertex(i) ) );
  for( int i = 0; i < 3; ++i )
    for( int j = i+1; j < 3; ++j )
      if( g.a[i][j] )
      {
        K.push_back( Spx( { Vertex(i), Vertex(j) } ) );
        P.w[i][j] = P.w[j][i] = w;
        P.a[i][j] = P.a[j][i] = true;
      }
  auto M = topology::floydWarshall( K, w ), N = topology::floydWarshall( K );
  for( int i = 0; i < 3; ++i )
    for( int j = 0; j < 3; ++j )
    {
      double d = P.distance( i, j );
      ASSERT( M( i, j ) == d, "default weight" );
      ASSERT( N( i, j ) == ( d == inf ? inf : 0 ), "weight zero" );
    }
  REACH("unweighted");
}

//@ integers: integer weights 1..100, all graphs with three vertices; the largest number stands for infinity
HARNESS(integers)
{
  using S = topology::Simplex<int, Vertex>;
  Graph g = symbolicGraph( 3 );
  Paths<int> P( 3, std::numeric_limits<int>::max() );
  topology::SimplicialComplex<S> K;
  for( int i = 0; i < 3; ++i )
    K.push_back( S( Vertex(i) ) );
  for( int i = 0; i < 3; ++i )
    for( int j = i+1; j < 3; ++j )
      if( g.a[i][j] )
      {
        int w = sym::integer( "w", 1, 100 );
        K.push_back( S( { Vertex(i), Vertex(j) }, w ) );
        P.w[i][j] = P.w[j][i] = w;
        P.a[i][j] = P.a[j][i] = true;
      }
  auto M = topology::floydWarshall( K );
  for( int i = 0; i < 3; ++i )
    for( int j = 0; j < 3; ++j )
      ASSERT( M( i, j ) == P.distance( i, j ), "shortest path with integer weights" );
  REACH("integers");
}

// Pairs and complexes of given weights and radius
static void dowkerOf( const std::vector< std::vector<double> >& W, double R, unsigned dimension )
{
  int n = int( W.size() );
  Paths<double> P( n, inf );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
      if( i != j )
      {
        P.a[i][j] = W[i][j] > 0; // zero stands for no edge
        P.w[i][j] = W[i][j];
      }
  auto pairs = geometry::admissiblePairs( W, R );
  std::map< std::pair<int,int>, double > D;
  for( auto&& p : pairs )
    ASSERT( D.insert( { { int( p.p ), int( p.q ) }, p.w } ).second, "every pair once" );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
    {
      double d = P.distance( i, j );
      auto it = D.find( { i, j } );
      ASSERT( ( it != D.end() ) == ( d <= R ), "pairs within the radius" );
      if( it != D.end() )
        ASSERT( it->second == d, "distance of a pair" );
    }
  auto complexes = geometry::buildDowkerSinkSourceComplexes<Vertex, double>( pairs, dimension );
  int largest = dimension ? int( dimension ) + 1 : n;
  for( int sink = 0; sink < 2; ++sink )
  {
    const Complex& K = sink ? complexes.second : complexes.first;
    std::size_t size = 0;
    for( Mask m : subsets( n, largest ) )
    {
      bool present = false;
      double weight = 0;
      for( int k = 0; k < n; ++k ) // witness
      {
        bool all = true;
        double largest = 0;
        for( int i = 0; i < n; ++i )
          if( m >> i & 1 )
          {
            auto it = D.find( sink ? std::make_pair( i, k ) : std::make_pair( k, i ) );
            all = all && it != D.end();
            if( it != D.end() )
              largest = sym::max( largest, it->second );
          }
        if( all )
        {
          weight = present ? sym::min( weight, largest ) : largest;
          present = true;
        }
      }
      auto it = K.find( simplexOf( m ) );
      ASSERT( ( it != K.end() ) == present, "simplices with a common witness" );
      if( present )
      {
        ASSERT( it->data() == weight, "weight is the smallest radius with a common witness" );
        ++size;
      }
    }
    ASSERT( K.size() == size, "no other simplices" );
  }
}

static void dowker( int n, long hi, unsigned dimension )
{
  std::vector< std::vector<double> > W( n, std::vector<double>( n, 0.0 ) );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
      if( i != j )
        W[i][j] = sym::fixed( "w", 0, hi, 1 );
  double R = sym::fixed( "R", 0, 2 * hi, 1 );
  dowkerOf( W, R, dimension );
}

//@ dowker2: directed weights 0..4 in steps of 1/2 between two points, where zero means no edge, symbolic radius
HARNESS(dowker2)
{
  symapi_linear();
  dowker( 2, 8, 0 );
  REACH("dowker2");
}

//@ dowker3: directed weights 0..0.5 in steps of 1/2 between three points, symbolic radius, dimension unlimited or one
HARNESS(dowker3)
{
  symapi_linear();
  dowker( 3, 1, sym::choice( "dimension", 0, 1 ) );
  REACH("dowker3");
}

//@ t_dowker3: directed weights 0..1 in steps of 1/2 between three points, symbolic radius, dimension unlimited or one
HARNESS(t_dowker3)
{
  symapi_linear();
  dowker( 3, 2, sym::choice( "dimension", 0, 1 ) );
  REACH("T:t_dowker3");
}

//@ large: seven to nine vertices on a cycle or path visited in one of two orders with a chord, two symbolic weights 1..100
HARNESS(large)
{
  symapi_linear();
  int n = sym::choice( "n", 7, 9 ), step = sym::choice( "step", 1, 2 );
  bool closed = sym::flag( "closed" );
  ASSUME( step == 1 || n % 2 == 1 );
  Paths<double> P( n, inf );
  Complex K;
  for( int i = 0; i < n; ++i )
    K.push_back( Spx( Vertex( 2 * i + 1 ) ) );
  auto edge = [&] ( int a, int b, double w )
  {
    K.push_back( Spx( { Vertex( 2 * a + 1 ), Vertex( 2 * b + 1 ) }, w ) );
    P.w[a][b] = P.w[b][a] = w;
    P.a[a][b] = P.a[b][a] = true;
  };
  double v = sym::fixed( "v", 1, 100 ), w = sym::fixed( "w", 1, 100 );
  for( int i = 0; i < n - ( closed ? 0 : 1 ); ++i )
    edge( i * step % n, ( i + 1 ) * step % n, i == 1 ? v : 10 + i * 5 % 7 );
  edge( 0, n / 2, w );
  auto M = topology::floydWarshall( K );
  ASSERT( M.numRows() == std::size_t( n ), "one row per vertex" );
  for( int i = 0; i < n; ++i )
    for( int j = i; j < n; ++j )
      ASSERT( M( i, j ) == P.distance( i, j ), "shortest path" );
  REACH("large");
}

//@ dowker6: a directed cycle of four to six points with one more edge, one symbolic weight 1..9 and symbolic radius, dimension unlimited or one to three
HARNESS(dowker6)
{
  symapi_linear();
  int n = sym::choice( "n", 4, 6 ), dimension = sym::choice( "dimension", 0, 3 );
  std::vector< std::vector<double> > W( static_cast<std::size_t>( n ), std::vector<double>( static_cast<std::size_t>( n ), 0.0 ) );
  for( int i = 0; i < n; ++i )
    W[ std::size_t( i ) ][ std::size_t( ( i + 1 ) % n ) ] = 2 + i * 3 % 4;
  W[3][1] = 3;
  W[1][2] = sym::fixed( "w", 1, 9 );
  double R = sym::fixed( "R", 0, 20 );
  dowkerOf( W, R, unsigned( dimension ) );
  REACH("dowker6");
}
