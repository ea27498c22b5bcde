// C45: topology of matrices through the Python module
// flags: -I/usr/include/python3.12 -DALEPH_WITH_FLANN
// libs: -lpython3.12 -llz4
#include "python.h"
#include "complexes.h"
#include <string>

typedef std::vector<PersistenceDiagram> Diagrams;
typedef std::vector< std::pair<unsigned, unsigned> > Edges;
typedef std::vector< std::tuple<unsigned, unsigned, unsigned, unsigned> > Quads;

// Symmetric matrix of symbolic distances
static std::vector< std::vector<double> > symbolicDistances( int n, long hi )
{
  std::vector< std::vector<double> > w( n, std::vector<double>( n, 0.0 ) );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < i; ++j )
      w[i][j] = w[j][i] = sym::fixed( "w", 0, hi, 1 );
  return w;
}
static py::array_t<double> arrayOf( const std::vector< std::vector<double> >& w, int layout )
{
  Layout l( int( w.size() ), int( w.front().size() ), layout );
  for( int i = 0; i < l.rows; ++i )
    for( int j = 0; j < l.cols; ++j )
      l.at(i,j) = w[i][j];
  return l.array();
}

struct Bar { int dimension; double x, y; bool infinite; };

// Bars of a set of simplices, from the ranks of its boundary matrix; simplices enter by weight, then by dimension
static std::vector<Bar> bars( std::vector<Mask> sets, const std::vector<double>& weightByMask, bool descending = false )
{
  std::stable_sort( sets.begin(), sets.end(), [&] ( Mask a, Mask b )
  {
    double x = weightByMask[a], y = weightByMask[b];
    if( x != y )
      return descending ? x > y : x < y;
    return popcount( a ) < popcount( b );
  } );
  std::vector<Bar> r;
  for( auto&& p : pairsByRanks( boundaryColumns( sets ) ) )
  {
    Bar b;
    b.dimension = popcount( sets[ p.first ] ) - 1;
    b.x = weightByMask[ sets[ p.first ] ];
    b.infinite = p.second < 0;
    b.y = b.infinite ? 0.0 : weightByMask[ sets[ p.second ] ];
    r.push_back( b );
  }
  return r;
}
// Weights of vertex sets: the largest distance
static std::vector<double> diameters( const std::vector< std::vector<double> >& w )
{
  const int n = int( w.size() );
  std::vector<double> r( std::size_t(1) << n, 0.0 );
  for( Mask m = 1; m < ( Mask(1) << n ); ++m )
    for( int i = 0; i < n; ++i )
      for( int j = 0; j < i; ++j )
        if( ( m >> i & 1 ) && ( m >> j & 1 ) )
          r[m] = sym::max( r[m], w[i][j] );
  return r;
}
// Removes each expected bar from the diagrams
static void compare( const Diagrams& D, const std::vector<Bar>& B, int maxDimension, bool diagonal = true )
{
  std::vector<Bar> left;
  for( auto&& d : D )
    for( auto&& p : d )
    {
      Bar b;
      b.dimension = int( d.dimension() );
      b.x = p.x();
      b.infinite = p.isUnpaired();
      b.y = b.infinite ? 0.0 : p.y();
      left.push_back( b );
    }
  for( auto&& b : B )
  {
    if( b.dimension > maxDimension )
      continue;
    if( !diagonal && !b.infinite && b.x == b.y )
      continue;
    bool found = false;
    for( std::size_t i = 0; i < left.size() && !found; ++i )
      if( left[i].dimension == b.dimension && left[i].infinite == b.infinite && left[i].x == b.x && left[i].y == b.y )
      {
        left.erase( left.begin() + std::ptrdiff_t(i) );
        found = true;
      }
    ASSERT( found, "each bar of the matrix is a point of the diagrams" );
  }
  for( auto&& l : left )
    ASSERT( l.dimension > maxDimension, "each point of the diagrams is a bar of the matrix" );
}

static void rips( int n, int dimension, bool all )
{
  py::object m = startPython();
  auto w = symbolicDistances( n, all ? 100 : 7 );
  if( !all )
  {
    ASSUME( w[0][1] <= w[0][2] );
    ASSUME( w[0][1] <= w[1][2] );
    ASSUME( w[0][3] <= w[2][3] );
    ASSUME( w[0][3] <= w[1][3] );
  }
  int layout = int( sym::choice( "layout", 0, all ? 5 : 0 ) );
  auto a = arrayOf( w, layout );
  py::object r = dimension ? m.attr( "vietoris_rips_from_matrix" )( a, dimension ) : m.attr( "vietoris_rips_from_matrix" )( a );
  compare( r.cast<Diagrams>(), bars( subsets( n, dimension ? dimension+1 : 2 ), diameters( w ) ), dimension ? std::min( dimension, n-1 ) - 1 : 0 );
}
//@ rips: distance matrices of three points, distances 0..50 in steps of 1/2, six memory layouts, complexes of dimensions one to three
HARNESS(rips)
{
  int d = int( sym::choice( "dimension", 1, 3 ) );
  rips( 3, d, true );
  REACH("rips");
}
//@ components: distance matrices of three points, distances 0..50 in steps of 1/2, six memory layouts, no dimension given
HARNESS(components)
{
  rips( 3, 0, true );
  REACH("components");
}
//@ four: distance matrices of four points, distances 0..3.5 in steps of 1/2, two distances at least as small as two others each, dimension two
HARNESS(four)
{
  rips( 4, 2, false );
  REACH("four");
}

// Selected edges form a spanning tree of smallest total weight
static void spanningTree( const Edges& e, const std::vector< std::vector<double> >& w )
{
  const int n = int( w.size() );
  ASSERT( int( e.size() ) == n-1, "one edge less than points" );
  std::vector<int> c( n );
  for( int i = 0; i < n; ++i )
    c[i] = i;
  for( auto&& x : e )
  {
    ASSERT( int( x.first ) < n && int( x.second ) < n, "endpoints are points" );
    int a = c[ x.first ], b = c[ x.second ];
    ASSERT( a != b, "edges do not close a cycle" );
    for( int i = 0; i < n; ++i )
      if( c[i] == b )
        c[i] = a;
  }
  // removing any edge of the tree leaves two parts, and no other edge between them is lighter
  for( std::size_t k = 0; k < e.size(); ++k )
  {
    std::vector<int> d( n );
    for( int i = 0; i < n; ++i )
      d[i] = i;
    for( std::size_t l = 0; l < e.size(); ++l )
      if( l != k )
      {
        int a = d[ e[l].first ], b = d[ e[l].second ];
        for( int i = 0; i < n; ++i )
          if( d[i] == b )
            d[i] = a;
      }
    bool lightest = true;
    for( int i = 0; i < n; ++i )
      for( int j = 0; j < i; ++j )
        if( d[i] != d[j] )
          lightest = sym::both( lightest, w[ e[k].first ][ e[k].second ] <= w[i][j] );
    ASSERT( lightest, "no spanning tree is lighter" );
  }
}
static void edges( int n, int layout, bool all )
{
  py::object m = startPython();
  auto w = symbolicDistances( n, 100 );
  if( !all )
  {
    ASSUME( w[0][1] <= w[2][3] );
    ASSUME( w[0][2] <= w[1][3] );
    ASSUME( w[0][3] <= w[1][2] );
  }
  auto a = arrayOf( w, layout );
  auto e = m.attr( "vietoris_rips_from_matrix_1d" )( a ).cast<Edges>();
  spanningTree( e, w );
}
//@ tree: distance matrices of two and three points, distances 0..50 in steps of 1/2, six memory layouts
HARNESS(tree)
{
  int layout = int( sym::choice( "layout", 0, 5 ) );
  int n = int( sym::choice( "n", 2, 3 ) );
  edges( n, layout, true );
  REACH("tree");
}
//@ tree4: distance matrices of four points, distances 0..50 in steps of 1/2, three distances at most as large as the opposite ones
HARNESS(tree4)
{
  edges( 4, 0, false );
  REACH("tree4");
}
//@ t_tree4: distance matrices of four points, distances 0..50 in steps of 1/2
HARNESS(t_tree4)
{
  edges( 4, 0, true );
  REACH("T:tree4");
}

static void cycles( int n, int layout, bool all )
{
  py::object m = startPython();
  auto w = symbolicDistances( n, all ? 100 : 7 );
  if( !all )
  {
    // sides of the square 0, 1, 2, 3 are at most as long as its diagonals
    for( int i = 0; i < 4; ++i )
      ASSUME( sym::both( w[i][(i+1)%4] <= w[0][2], w[i][(i+1)%4] <= w[1][3] ) );
  }
  auto a = arrayOf( w, layout );
  auto r = m.attr( "vietoris_rips_from_matrix_2d" )( a ).cast< std::pair<Edges, Quads> >();
  spanningTree( r.first, w );
  std::vector<Bar> B;
  for( auto&& b : bars( subsets( n, 3 ), diameters( w ) ) )
    if( b.dimension == 1 )
      B.push_back( b );
  ASSERT( r.second.size() == B.size(), "one pair of edges for each cycle" );
  std::vector< std::vector<int> > used( n, std::vector<int>( n, 0 ) );
  for( auto&& e : r.first )
    used[e.first][e.second] = used[e.second][e.first] = 1;
  for( auto&& q : r.second )
  {
    unsigned i = std::get<0>( q ), j = std::get<1>( q ), k = std::get<2>( q ), l = std::get<3>( q );
    ASSERT( int(i) < n && int(j) < n && int(k) < n && int(l) < n && i != j && k != l, "pairs consist of edges" );
    ASSERT( !used[i][j], "the edge that creates a cycle is not an edge of the tree and creates no other cycle" );
    used[i][j] = used[j][i] = 1;
    bool found = false;
    for( std::size_t b = 0; b < B.size() && !found; ++b )
      if( B[b].x == w[i][j] && B[b].y == w[k][l] )
      {
        B.erase( B.begin() + std::ptrdiff_t(b) );
        found = true;
      }
    ASSERT( found, "edges create and destroy a cycle" );
  }
}
//@ cycles: distance matrices of three points, distances 0..50 in steps of 1/2, six memory layouts
HARNESS(cycles)
{
  int layout = int( sym::choice( "layout", 0, 5 ) );
  cycles( 3, layout, true );
  REACH("cycles");
}
//@ square: distance matrices of four points, distances 0..3.5 in steps of 1/2, diagonals at least as long as sides
HARNESS(square)
{
  cycles( 4, 0, false );
  REACH("square");
}
//@ t_cycles4: distance matrices of four points, distances 0..50 in steps of 1/2
HARNESS(t_cycles4)
{
  cycles( 4, 1, true );
  REACH("T:cycles4");
}

// Bipartite graph of a matrix of weights
static void bipartite( int n, int k, bool parameters )
{
  py::object m = startPython();
  std::vector< std::vector<double> > w( n, std::vector<double>( k, 0.0 ) );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < k; ++j )
      w[i][j] = sym::fixed( "w", -100, 100, 1 );
  int layout = parameters ? int( sym::choice( "layout", 0, 5 ) ) : 0;
  bool ascending = sym::boolean( "ascending" );
  bool finite = parameters && sym::boolean( "finite" );
  double vertex = parameters ? sym::fixed( "vertex", -100, 100, 1 ) : 1.0;
  if( ascending )
    for( auto&& row : w )
      for( auto&& x : row )
        ASSUME( x >= vertex );
  if( !ascending )
    for( auto&& row : w )
      for( auto&& x : row )
        ASSUME( x <= vertex );
  auto a = arrayOf( w, layout );
  py::object f = m.attr( "calculateZeroDimensionalPersistenceDiagramOfMatrix" );
  py::object r = !parameters && !ascending ? f( a )
               : !parameters ? f( a, false )
               : finite ? f( a, !ascending, vertex, 200.0 ) : f( a, !ascending, vertex );
  auto D = r.cast<PersistenceDiagram>();

  std::vector<Mask> sets;
  std::vector<double> weight( std::size_t(1) << (n+k), 0.0 );
  for( int i = 0; i < n+k; ++i )
  {
    sets.push_back( Mask(1) << i );
    weight[ sets.back() ] = vertex;
  }
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < k; ++j )
    {
      sets.push_back( Mask(1) << i | Mask(1) << (n+j) );
      weight[ sets.back() ] = w[i][j];
    }
  auto B = bars( sets, weight, !ascending );
  if( finite )
    for( auto&& b : B )
      if( b.dimension == 0 && b.infinite )
      {
        b.infinite = false;
        b.y = 200.0;
      }
  compare( Diagrams( 1, D ), B, 0, false );
}
//@ weights: matrices of size 2 by 2, 1 by 3 or 3 by 1, weights between -50 and 50 in steps of 1/2 at most or at least as large as those of vertices, default values
HARNESS(weights)
{
  int s = int( sym::choice( "size", 0, 2 ) );
  bipartite( s == 2 ? 3 : 2-s, s == 1 ? 3 : s == 0 ? 2 : 1, false );
  REACH("weights");
}
//@ parameters: matrices of size 1 by 2 or 2 by 1, weights between -50 and 50 in steps of 1/2, six memory layouts, both orders, weights of vertices, values of unpaired points
HARNESS(parameters)
{
  bool s = sym::boolean( "wide" );
  bipartite( s ? 1 : 2, s ? 2 : 1, true );
  REACH("parameters");
}

//@ points: three points of a line, coordinates 0..3, radii of one half to two and a half, rows in order or reversed
HARNESS(points)
{
  py::object m = startPython();
  const int n = 3;
  std::vector< std::vector<double> > p( n, std::vector<double>( 1, 0.0 ) );
  for( auto&& x : p )
    x[0] = double( sym::choice( "x", 0, 3 ) );
  double epsilon = double( sym::choice( "epsilon", 0, 2 ) ) + 0.5;
  int layout = int( sym::choice( "layout", 0, 1 ) );
  auto a = arrayOf( p, layout ? 4 : 0 );
  auto D = m.attr( "calculatePersistenceDiagrams" )( a, epsilon, 2 ).cast<Diagrams>();
  std::vector< std::vector<double> > w( n, std::vector<double>( n, 0.0 ) );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
      w[i][j] = p[i][0] < p[j][0] ? p[j][0] - p[i][0] : p[i][0] - p[j][0];
  auto weight = diameters( w );
  std::vector<Mask> sets;
  for( Mask s : subsets( n, 3 ) )
    if( weight[s] <= epsilon )
      sets.push_back( s );
  int dimension = 0;
  for( Mask s : sets )
    dimension = std::max( dimension, popcount( s ) - 1 );
  if( dimension > 0 )
    compare( D, bars( sets, weight ), dimension-1 );
  REACH("points");
}
//@ plane: two points of the plane, coordinates 0..2, two radii, three memory layouts, default dimension
HARNESS(plane)
{
  py::object m = startPython();
  std::vector< std::vector<double> > p( 2, std::vector<double>( 2, 0.0 ) );
  for( auto&& x : p )
    for( auto&& y : x )
      y = double( sym::choice( "x", 0, 2 ) );
  double epsilon = double( sym::choice( "epsilon", 1, 2 ) ) + 0.5;
  int layout = int( sym::choice( "layout", 1, 3 ) );
  auto a = arrayOf( p, layout );
  auto D = m.attr( "calculatePersistenceDiagrams" )( a, epsilon ).cast<Diagrams>();
  double s = ( p[0][0] - p[1][0] ) * ( p[0][0] - p[1][0] ) + ( p[0][1] - p[1][1] ) * ( p[0][1] - p[1][1] );
  if( s > epsilon * epsilon )
    return; // a complex of dimension zero has no diagrams
  ASSERT( D.size() >= 1 && D[0].size() == 2, "one point for each component" );
  int unpaired = 0;
  for( auto&& q : D[0] )
  {
    ASSERT( q.x() == 0.0, "components are created at zero" );
    if( q.isUnpaired() )
      ++unpaired;
    else
      ASSERT( sym::close( q.y() * q.y(), s ), "components are destroyed at the distance of the points" );
  }
  ASSERT( unpaired == 1, "one component remains" );
  REACH("plane");
}

static bool fails( py::object f, py::object a )
{
  try
  {
    f( a );
  }
  catch( py::error_already_set& e )
  {
    return e.matches( PyExc_RuntimeError );
  }
  return false;
}
//@ shapes: matrices of one to three rows and columns, arrays of one or three dimensions, all functions
HARNESS(shapes)
{
  py::object m = startPython();
  int n = int( sym::choice( "n", 1, 3 ) );
  int k = int( sym::choice( "k", 1, 3 ) );
  int kind = int( sym::choice( "kind", 0, 2 ) );
  int function = int( sym::choice( "function", 0, 4 ) );
  const char* names[] = { "vietoris_rips_from_matrix", "vietoris_rips_from_matrix_1d", "vietoris_rips_from_matrix_2d", "calculateZeroDimensionalPersistenceDiagramOfMatrix", "calculatePersistenceDiagrams" };
  std::vector<py::ssize_t> shape;
  if( kind != 0 )
    shape.push_back( n );
  if( kind == 2 )
    shape.push_back( 1 );
  shape.push_back( k );
  py::array_t<double> a( shape );
  double* data = a.mutable_data();
  for( int i = 0; i < ( kind ? n*k : k ); ++i )
    data[i] = 1.0;
  bool expected = kind != 1 || ( function < 3 && n != k );
  ASSERT( fails( m.attr( names[function] ), a ) == expected, "arrays of other shapes, and only those, are refused" );
  REACH("shapes");
}
