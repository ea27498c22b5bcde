// C46: objects of the Python module
// flags: -I/usr/include/python3.12 -DALEPH_WITH_FLANN
// libs: -lpython3.12 -llz4
#include "python.h"
#include "files.h"
#include <algorithm>
#include <string>

static double number( py::object o ) { return o.cast<double>(); }
static double number( py::object o, const char* attribute ) { return o.attr( attribute ).cast<double>(); }
static long count( py::object o, const char* attribute ) { return o.attr( attribute ).cast<long>(); }
static bool truth( py::object o ) { int r = PyObject_IsTrue( o.ptr() ); return r == 1; }
static bool compare( py::object a, py::object b, int op )
{
  int r = PyObject_RichCompareBool( a.ptr(), b.ptr(), op );
  if( r < 0 )
    throw py::error_already_set();
  return r == 1;
}
static bool contains( py::object a, py::object b )
{
  int r = PySequence_Contains( a.ptr(), b.ptr() );
  if( r < 0 )
    throw py::error_already_set();
  return r == 1;
}
static std::vector<unsigned> vertices( py::object simplex )
{
  std::vector<unsigned> r;
  for( auto h : simplex )
    r.push_back( h.cast<unsigned>() );
  return r;
}
static py::list listOf( const std::vector<unsigned>& v )
{
  py::list l;
  for( unsigned x : v )
    l.append( x );
  return l;
}
static std::vector<unsigned> descending( std::vector<unsigned> v )
{
  std::sort( v.begin(), v.end() );
  std::reverse( v.begin(), v.end() );
  return v;
}

//@ simplex: simplices of none to three of four vertices in all orders, weights between -50 and 50 in steps of 1/2
HARNESS(simplex)
{
  py::object m = startPython();
  int n = int( sym::choice( "n", 0, 3 ) );
  std::vector<unsigned> v;
  for( int i = 0; i < n; ++i )
  {
    unsigned x = unsigned( sym::choice( "v", 0, 3 ) );
    ASSUME( std::find( v.begin(), v.end(), x ) == v.end() );
    v.push_back( x );
  }
  bool weighted = sym::boolean( "weighted" );
  double w = sym::fixed( "w", -100, 100, 1 ), w2 = sym::fixed( "w", -100, 100, 1 );
  py::object s = weighted ? m.attr( "Simplex" )( listOf( v ), w ) : m.attr( "Simplex" )( listOf( v ) );
  auto d = descending( v );
  ASSERT( vertices( s ) == d, "iteration visits vertices" );
  ASSERT( py::len( s ) == std::size_t( n ), "length" );
  ASSERT( truth( s ) == ( n != 0 ), "truth" );
  ASSERT( s.attr( "empty" ).cast<bool>() == ( n == 0 ), "empty" );
  if( n )
    ASSERT( count( s, "dimension" ) == n-1, "dimension" );
  for( unsigned x = 0; x < 5; ++x )
    ASSERT( contains( s, py::int_( x ) ) == ( std::find( v.begin(), v.end(), x ) != v.end() ), "membership of vertices" );
  for( int i = 0; i < n; ++i )
    ASSERT( s[ py::int_( i ) ].cast<unsigned>() == d[ std::size_t( i ) ], "access by index" );
  auto r = vertices( s.attr( "__reversed__" )() );
  std::reverse( r.begin(), r.end() );
  ASSERT( r == d, "reversed iteration" );
  double expected = weighted ? w : 0.0;
  ASSERT( number( s, "data" ) == expected && number( s, "weight" ) == expected, "weight" );
  std::vector< std::vector<unsigned> > faces;
  for( auto h : s.attr( "boundary" ) )
    faces.push_back( vertices( py::reinterpret_borrow<py::object>( h ) ) );
  ASSERT( int( faces.size() ) == ( n > 1 ? n : 0 ), "number of faces" );
  for( std::size_t i = 0; i < faces.size(); ++i )
  {
    ASSERT( int( faces[i].size() ) == n-1, "faces omit one vertex" );
    for( unsigned x : faces[i] )
      ASSERT( std::find( v.begin(), v.end(), x ) != v.end(), "faces consist of vertices" );
    for( std::size_t j = 0; j < i; ++j )
      ASSERT( faces[i] != faces[j], "faces differ" );
  }
  if( sym::boolean( "data" ) )
    s.attr( "data" ) = w2;
  else
    s.attr( "weight" ) = w2;
  ASSERT( number( s, "data" ) == w2 && number( s, "weight" ) == w2, "assigned weight" );
  REACH("simplex");
}
//@ order: two simplices of one or two of three vertices, weights between -50 and 50 in steps of 1/2, copies with another weight
HARNESS(order)
{
  py::object m = startPython();
  std::vector<unsigned> v[2];
  py::object s[2];
  double w[2];
  for( int k = 0; k < 2; ++k )
  {
    int n = int( sym::choice( "n", 1, 2 ) );
    for( int i = 0; i < n; ++i )
    {
      unsigned x = unsigned( sym::choice( "v", 0, 2 ) );
      ASSUME( std::find( v[k].begin(), v[k].end(), x ) == v[k].end() );
      v[k].push_back( x );
    }
    w[k] = sym::fixed( "w", -100, 100, 1 );
    if( n == 1 )
      s[k] = m.attr( "Simplex" )( v[k][0], w[k] );
    else
      s[k] = m.attr( "Simplex" )( m.attr( "Simplex" )( listOf( v[k] ) ), w[k] );
    ASSERT( number( s[k], "data" ) == w[k], "weight" );
  }
  auto a = descending( v[0] ), b = descending( v[1] );
  ASSERT( vertices( s[0] ) == a && vertices( s[1] ) == b, "vertices" );
  ASSERT( compare( s[0], s[1], Py_EQ ) == ( a == b ), "equality" );
  ASSERT( compare( s[0], s[1], Py_NE ) == ( a != b ), "inequality" );
  bool less = compare( s[0], s[1], Py_LT ), greater = compare( s[1], s[0], Py_LT );
  ASSERT( a == b ? !less && !greater : less != greater, "order of different simplices" );
  REACH("order");
}

// Complex on three vertices; simplices are given as objects, lists or tuples
static py::object complexOf( py::object m, int n, const std::vector< std::vector<unsigned> >& sets, const double* w, int kind )
{
  py::list l;
  for( int i = 0; i < n; ++i )
  {
    int k = kind == 3 ? i % 3 : kind;
    py::list v = listOf( sets[ std::size_t( i ) ] );
    if( k == 0 )
      l.append( m.attr( "Simplex" )( v, w[i] ) );
    else if( k == 1 )
      l.append( py::make_tuple( v, w[i] ) );
    else
      l.append( v );
  }
  return m.attr( "SimplicialComplex" )( l );
}
static std::vector< std::vector<unsigned> > simplicesOfTriangle() { return { {0}, {1}, {2}, {1,0}, {2,0}, {2,1}, {2,1,0} }; }

//@ complex: complexes with up to seven simplices of a triangle, given as simplices, tuples, lists or a mixture, weights between -50 and 50 in steps of 1/2
HARNESS(complex)
{
  py::object m = startPython();
  const auto triangle = simplicesOfTriangle();
  int n = int( sym::choice( "n", 0, 7 ) );
  int kind = int( sym::choice( "kind", 0, 3 ) );
  double w[8];
  for( int i = 0; i < 7; ++i )
    w[i] = sym::fixed( "w", -100, 100, 1 );
  py::object K = complexOf( m, n, triangle, w, kind );
  int extra = 0;
  if( n < 7 && sym::boolean( "append" ) )
  {
    if( sym::boolean( "asList" ) )
    {
      K.attr( "append" )( listOf( triangle[ std::size_t( n ) ] ) );
      w[n] = 0.0;
    }
    else
      K.attr( "append" )( m.attr( "Simplex" )( listOf( triangle[ std::size_t( n ) ] ), w[n] ) );
    extra = 1;
  }
  for( int i = 0; i < n; ++i )
    if( kind == 2 || ( kind == 3 && i % 3 == 2 ) )
      w[i] = 0.0;
  n += extra;
  ASSERT( py::len( K ) == std::size_t( n ), "length" );
  ASSERT( truth( K ) == ( n != 0 ), "truth" );
  int i = 0;
  for( auto h : K )
  {
    py::object s = py::reinterpret_borrow<py::object>( h );
    ASSERT( i < n && vertices( s ) == triangle[ std::size_t( i ) ], "iteration visits simplices" );
    ASSERT( number( s, "data" ) == w[i], "weight" );
    ++i;
  }
  ASSERT( i == n, "iteration visits all simplices" );
  for( int j = 0; j < 7; ++j )
    ASSERT( contains( K, m.attr( "Simplex" )( listOf( triangle[ std::size_t( j ) ] ) ) ) == ( j < n ), "membership" );
  for( int j = 0; j < n; ++j )
    ASSERT( vertices( K[ py::int_( j ) ] ) == triangle[ std::size_t( j ) ], "access by index" );
  if( n )
    ASSERT( count( K, "dimension" ) == ( n > 6 ? 2 : n > 3 ? 1 : 0 ), "dimension" );
  REACH("complex");
}

static std::vector<double> weights( py::object K )
{
  std::vector<double> r;
  for( auto h : K )
    r.push_back( h.attr( "data" ).cast<double>() );
  return r;
}
//@ sorting: three vertices with weights between -50 and 50 in steps of 1/2, sorted by a function in Python, or in the default order
HARNESS(sorting)
{
  py::object m = startPython();
  double w[3];
  for( auto&& x : w )
    x = sym::fixed( "w", -100, 100, 1 );
  bool byFunction = sym::boolean( "function" );
  std::vector< std::vector<unsigned> > sets = { {2}, {0}, {1} };
  py::object K = complexOf( m, 3, sets, w, 0 );
  if( byFunction )
  {
    py::cpp_function f( [] ( py::object s, py::object t ) { return number( s, "data" ) > number( t, "data" ); } );
    py::object L = K.attr( "sort" )( f );
    auto a = weights( K ), b = weights( L );
    ASSERT( a.size() == 3 && b.size() == 3, "size" );
    for( std::size_t i = 0; i < 3; ++i )
      ASSERT( a[i] == b[i], "the sorted complex is returned" );
    ASSERT( a[0] >= a[1] && a[1] >= a[2], "sorted by the function" );
    double s = a[0] + a[1] + a[2];
    ASSERT( s == w[0] + w[1] + w[2], "weights are kept" );
    for( auto h : K )
    {
      auto v = h[ py::int_( 0 ) ].cast<unsigned>();
      ASSERT( h.attr( "data" ).cast<double>() == w[ v == 2 ? 0 : v == 0 ? 1 : 2 ], "vertices keep their weights" );
    }
  }
  else
  {
    py::object L = K.attr( "sort" )();
    py::object prev = py::none();
    for( auto h : L )
    {
      py::object s = py::reinterpret_borrow<py::object>( h );
      if( !prev.is_none() )
        ASSERT( compare( prev, s, Py_LT ), "sorted by the order of simplices" );
      prev = s;
    }
  }
  REACH("sorting");
}

//@ diagram: diagrams of three vertices and none to three edges, weights between -7.5 and 7.5 in steps of 1/2: points, arrays, removal of points
HARNESS(diagram)
{
  py::object m = startPython();
  int n = int( sym::choice( "n", 4, 6 ) );
  double w[6];
  double level = 0;
  for( int i = 0; i < n; ++i )
  {
    w[i] = i < 3 ? 0.0 : sym::fixed( "w", -15, 15, 1 );
    ASSUME( level <= w[i] );
    level = w[i];
  }
  py::object K = complexOf( m, n, simplicesOfTriangle(), w, 0 );
  py::list D = m.attr( "calculatePersistenceDiagrams" )( K );
  ASSERT( D.size() >= 1, "number of diagrams" );
  py::object d = D[0];
  ASSERT( py::len( d ) == 3, "one point for each vertex" );
  ASSERT( truth( d ), "truth" );
  ASSERT( count( d, "dimension" ) == 0, "dimension" );
  ASSERT( count( d, "betti" ) == ( n == 4 ? 2 : 1 ), "number of unpaired points" );
  double deaths = 0.0;
  int unpaired = 0, zero = 0;
  std::vector<double> y;
  for( auto p : d )
  {
    ASSERT( p.attr( "x" ).cast<double>() == 0.0, "creation" );
    y.push_back( p.attr( "y" ).cast<double>() );
    if( p.attr( "unpaired" ).cast<bool>() )
      ++unpaired;
    else
    {
      deaths += p.attr( "y" ).cast<double>();
      ASSERT( p.attr( "persistence" ).cast<double>() == p.attr( "y" ).cast<double>(), "persistence" );
      if( p.attr( "y" ).cast<double>() == 0.0 )
        ++zero;
    }
  }
  ASSERT( unpaired == ( n == 4 ? 2 : 1 ), "unpaired points" );
  ASSERT( deaths == w[3] + ( n > 4 ? w[4] : 0.0 ), "destruction" );
  auto a = d.attr( "__array__" )().cast< py::array_t<double> >();
  ASSERT( a.ndim() == 2 && a.shape( 0 ) == 3 && a.shape( 1 ) == 2, "shape of the array" );
  for( int i = 0; i < 3; ++i )
    ASSERT( a.at( i, 0 ) == 0.0 && a.at( i, 1 ) == y[ std::size_t( i ) ], "array" );
  py::object copy = py::list( m.attr( "calculatePersistenceDiagrams" )( K ) )[0];
  ASSERT( compare( d, copy, Py_EQ ) && !compare( d, copy, Py_NE ), "equality" );
  d.attr( "dimension" ) = 7;
  ASSERT( count( d, "dimension" ) == 7, "assigned dimension" );
  d.attr( "removeDiagonal" )();
  ASSERT( py::len( d ) == std::size_t( 3 - zero ), "points of the diagonal are removed" );
  ASSERT( compare( d, copy, Py_EQ ) == ( zero == 0 ), "equality after removal" );
  d.attr( "removeUnpaired" )();
  ASSERT( py::len( d ) == std::size_t( 3 - zero - unpaired ), "unpaired points are removed" );
  for( auto p : d )
    ASSERT( !p.attr( "unpaired" ).cast<bool>() && p.attr( "y" ).cast<double>() != 0.0, "remaining points" );
  py::object e = m.attr( "PersistenceDiagram" )();
  ASSERT( py::len( e ) == 0 && !truth( e ), "empty diagram" );
  REACH("diagram");
}
//@ arrays: paths of three vertices in a given order with weights -15..15, ascending or descending or neither: points, removal and array agree
HARNESS(arrays)
{
  py::object m = startPython();
  double w[5];
  std::vector< std::vector<unsigned> > sets = { {0}, {1}, {2}, {2,0}, {2,1} };
  for( auto&& x : w )
    x = sym::fixed( "w", -15, 15 );
  bool remove = sym::boolean( "remove" );
  py::object K = complexOf( m, 5, sets, w, 0 );
  py::list D = m.attr( "calculatePersistenceDiagrams" )( K );
  py::object d = D[0];
  if( remove )
    d.attr( "removeDiagonal" )();
  std::vector< std::pair<double, double> > points;
  for( auto p : d )
    points.push_back( std::make_pair( p.attr( "x" ).cast<double>(), p.attr( "y" ).cast<double>() ) );
  std::size_t expected = 3 - ( remove && w[1] == w[4] ) - ( remove && w[2] == w[3] );
  ASSERT( points.size() == expected, "number of points" );
  auto found = [&] ( double x, double y )
  {
    int k = 0;
    for( auto&& p : points )
      k += sym::ite( sym::both( p.first == x, p.second == y ), 1, 0 );
    return k > 0;
  };
  if( !remove || w[2] != w[3] )
    ASSERT( found( w[2], w[3] ), "last vertex and first edge" );
  if( !remove || w[1] != w[4] )
    ASSERT( found( w[1], w[4] ), "second vertex and second edge" );
  ASSERT( found( w[0], HUGE_VAL ), "first vertex" );
  auto a = d.attr( "__array__" )().cast< py::array_t<double> >();
  ASSERT( a.ndim() == 2 && a.shape( 0 ) == py::ssize_t( points.size() ) && a.shape( 1 ) == 2, "shape of the array" );
  for( std::size_t i = 0; i < points.size(); ++i )
    ASSERT( a.at( i, 0 ) == points[i].first && a.at( i, 1 ) == points[i].second, "array" );
  REACH("arrays");
}

//@ point: points with coordinates 0..100, with and without a destruction
HARNESS(point)
{
  py::object m = startPython();
  py::object P = m.attr( "PersistenceDiagram.Point" );
  double x = sym::fixed( "x", 0, 100 ), y = sym::fixed( "y", 0, 100 ), z = sym::fixed( "z", 0, 100 );
  py::object p = P( x, y ), q = P( x ), r = P( z, y );
  ASSERT( number( p, "x" ) == x && number( p, "y" ) == y && !p.attr( "unpaired" ).cast<bool>(), "coordinates" );
  ASSERT( number( p, "persistence" ) == y - x, "persistence" );
  ASSERT( number( q, "x" ) == x && q.attr( "unpaired" ).cast<bool>(), "unpaired point" );
  ASSERT( !compare( p, q, Py_EQ ) && compare( p, q, Py_NE ), "different points" );
  ASSERT( compare( p, r, Py_EQ ) == ( x == z ), "equality" );
  ASSERT( compare( p, r, Py_NE ) == ( x != z ), "inequality" );
  REACH("point");
}

//@ pairing: paths of three vertices with weights between -7.5 and 7.5 in steps of 1/2, values of unpaired points
HARNESS(pairing)
{
  py::object m = startPython();
  // vertices 0, 1, 2 by ascending weight, edges {0,2} and {1,2} thereafter
  double w[5], level = -100.0;
  std::vector< std::vector<unsigned> > sets = { {0}, {1}, {2}, {2,0}, {2,1} };
  for( int i = 0; i < 5; ++i )
  {
    w[i] = sym::fixed( "w", -15, 15, 1 );
    ASSUME( level <= w[i] );
    level = w[i];
  }
  bool finite = sym::boolean( "finite" );
  py::object K = complexOf( m, 5, sets, w, 0 );
  py::object f = m.attr( "calculateZeroDimensionalPersistenceDiagramAndPairing" );
  py::tuple t = finite ? f( K, 99.0 ) : f( K );
  py::object d = t[0], p = t[1];
  std::vector< std::pair<unsigned, unsigned> > expected;
  std::vector< std::pair<double, double> > points;
  if( w[2] != w[3] )
  {
    expected.push_back( std::make_pair( 2u, 3u ) );
    points.push_back( std::make_pair( w[2], w[3] ) );
  }
  if( w[1] != w[4] )
  {
    expected.push_back( std::make_pair( 1u, 4u ) );
    points.push_back( std::make_pair( w[1], w[4] ) );
  }
  ASSERT( py::len( p ) == expected.size() + 1, "one pair for each component" );
  ASSERT( py::len( d ) == expected.size() + 1, "one point for each component" );
  ASSERT( truth( p ), "truth" );
  std::vector< std::pair<unsigned, unsigned> > pairs;
  for( auto h : p )
    pairs.push_back( h.cast< std::pair<unsigned, unsigned> >() );
  for( auto&& e : expected )
    ASSERT( std::find( pairs.begin(), pairs.end(), e ) != pairs.end(), "edges are paired with the younger component" );
  int unpaired = 0;
  for( auto&& e : pairs )
    if( e.first == 0 )
      ++unpaired;
  ASSERT( unpaired == 1, "the oldest component is unpaired" );
  auto a = p.attr( "__array__" )().cast< py::array_t<double> >();
  ASSERT( a.ndim() == 2 && a.shape( 0 ) == py::ssize_t( pairs.size() ) && a.shape( 1 ) == 2, "shape of the array" );
  for( std::size_t i = 0; i < pairs.size(); ++i )
    ASSERT( a.at( i, 0 ) == pairs[i].first && a.at( i, 1 ) == pairs[i].second, "array" );
  bool seen = false;
  for( auto h : d )
  {
    double x = h.attr( "x" ).cast<double>(), y = h.attr( "y" ).cast<double>();
    bool u = h.attr( "unpaired" ).cast<bool>();
    if( u || y == 99.0 )
    {
      ASSERT( !seen && x == w[0] && u == !finite, "unpaired point" );
      seen = true;
    }
    else
    {
      bool found = false;
      for( auto&& q : points )
        found = found || ( q.first == x && q.second == y );
      ASSERT( found, "paired point" );
    }
  }
  ASSERT( seen, "unpaired point is present" );
  py::tuple s = f( K );
  ASSERT( compare( py::object( s[1] ), p, Py_EQ ) && !compare( py::object( s[1] ), p, Py_NE ), "equality of pairings" );
  REACH("pairing");
}

static py::object diagramOf( py::object m, const std::vector<double>& deaths, std::vector<double> births = std::vector<double>() )
{
  // edges to the first vertex destroy one component each
  py::list l;
  births.resize( deaths.size(), 0.0 );
  l.append( m.attr( "Simplex" )( 0, 0.0 ) );
  for( unsigned i = 0; i < deaths.size(); ++i )
    l.append( m.attr( "Simplex" )( i+1, births[i] ) );
  for( unsigned i = 0; i < deaths.size(); ++i )
    l.append( m.attr( "Simplex" )( listOf( { 0, i+1 } ), deaths[i] ) );
  py::object D = py::list( m.attr( "calculatePersistenceDiagrams" )( m.attr( "SimplicialComplex" )( l ) ) )[0];
  D.attr( "removeUnpaired" )();
  return D;
}
//@ norms: diagrams of two points with coordinates 0..15, exponents one to three and the default, weighted or not
HARNESS(norms)
{
  py::object m = startPython();
  double x[2], y[2], p[2];
  for( int i = 0; i < 2; ++i )
  {
    x[i] = sym::fixed( "x", 0, 15 );
    y[i] = sym::fixed( "y", 0, 15 );
    ASSUME( x[i] <= y[i] );
    p[i] = y[i] - x[i];
  }
  int k = int( sym::choice( "k", 0, 3 ) );
  bool weighted = sym::boolean( "weighted" );
  py::object D = diagramOf( m, { y[0], y[1] }, { x[0], x[1] } ), N = m.attr( "norms" );
  double e = 0.0;
  for( int i = 0; i < 2; ++i )
    e += ( weighted ? x[i] : 1.0 ) * ( k == 1 ? p[i] : k == 3 ? p[i]*p[i]*p[i] : p[i]*p[i] );
  double t = k == 0 && !weighted ? number( N.attr( "totalPersistence" )( D ) ) : number( N.attr( "totalPersistence" )( D, k ? double( k ) : 2.0, weighted ) );
  ASSERT( t == e, "total persistence" );
  if( k == 1 )
    ASSERT( number( N.attr( "pNorm" )( D, 1.0, weighted ) ) == e, "norm" );
  ASSERT( number( N.attr( "infinityNorm" )( D ) ) == sym::max( p[0], p[1] ), "largest persistence" );
  REACH("norms");
}
//@ root: diagrams of two points with persistence 0..4, norm of default exponent
HARNESS(root)
{
  py::object m = startPython();
  double a = double( sym::choice( "a", 0, 4 ) ), b = double( sym::choice( "b", 0, 4 ) );
  ASSUME( a <= b );
  double r = number( m.attr( "norms" ).attr( "pNorm" )( diagramOf( m, { a, b } ) ) );
  ASSERT( r >= 0 && sym::close( r*r, a*a + b*b ), "norm" );
  REACH("root");
}

//@ functions: indicator functions of diagrams with two points each, persistence 1..8, arithmetic, values at half positions
HARNESS(functions)
{
  py::object m = startPython();
  double a[4];
  for( int i = 0; i < 4; ++i )
    a[i] = sym::fixed( "a", 1, 8 );
  ASSUME( a[0] < a[1] );
  ASSUME( a[2] < a[3] );
  int position = int( sym::choice( "x", 0, 8 ) );
  double x = position + 0.5;
  bool byConstructor = sym::boolean( "constructor" );
  py::object D = diagramOf( m, { a[0], a[1] } ), E = diagramOf( m, { a[2], a[3] } );
  py::object f = byConstructor ? m.attr( "StepFunction" )( D ) : m.attr( "make_persistence_indicator_function" )( D );
  py::object g = m.attr( "StepFunction" )( E );
  double u = ( x < a[0] ? 1.0 : 0.0 ) + ( x < a[1] ? 1.0 : 0.0 );
  double v = ( x < a[2] ? 1.0 : 0.0 ) + ( x < a[3] ? 1.0 : 0.0 );
  ASSERT( number( f( x ) ) == u && number( g( x ) ) == v, "number of intervals" );
  ASSERT( number( f, "max" ) == 2.0, "maximum" );
  ASSERT( number( ( f + g )( x ) ) == u + v, "sum" );
  ASSERT( number( ( f - g )( x ) ) == u - v, "difference" );
  ASSERT( number( ( -f )( x ) ) == -u, "negation" );
  ASSERT( number( f( x ) ) == u && number( g( x ) ) == v, "operands are kept" );
  f += g;
  ASSERT( number( f( x ) ) == u + v, "sum in place" );
  REACH("functions");
}
//@ functions2: indicator functions of one point each, persistence 1..8: difference in place, absolute value, power
HARNESS(functions2)
{
  py::object m = startPython();
  double a = sym::fixed( "a", 1, 8 ), b = sym::fixed( "b", 1, 8 );
  int position = int( sym::choice( "x", 0, 8 ) );
  double x = position + 0.5;
  py::object f = m.attr( "StepFunction" )( diagramOf( m, { a } ) );
  py::object g = m.attr( "StepFunction" )( diagramOf( m, { b } ) );
  ASSERT( number( f, "integral" ) == a, "integral" );
  ASSERT( number( f, "sup" ) == 1.0, "supremum" );
  f -= g;
  double d = ( x < a ? 1.0 : 0.0 ) - ( x < b ? 1.0 : 0.0 );
  ASSERT( number( f( x ) ) == d, "difference in place" );
  py::object h = -f;
  ASSERT( number( h( x ) ) == -d, "negation" );
  h = h.attr( "__abs__" )();
  ASSERT( number( h( x ) ) == sym::abs( d ), "absolute value" );
  py::object k = g + g;
  k = k.attr( "pow" )( 3.0 );
  ASSERT( number( k( x ) ) == ( x < b ? 8.0 : 0.0 ), "power" );
  REACH("functions2");
}

//@ expansion: graphs on four vertices with three fixed and three symbolic edges, weights 0..7.5 in steps of 1/2, dimensions one to three
HARNESS(expansion)
{
  py::object m = startPython();
  bool edge[4][4] = {};
  double w[4][4] = {};
  py::list l;
  for( unsigned i = 0; i < 4; ++i )
    l.append( m.attr( "Simplex" )( i, 0.0 ) );
  for( unsigned i = 0; i < 4; ++i )
    for( unsigned j = 0; j < i; ++j )
    {
      edge[i][j] = j == 0 || sym::boolean( "edge" );
      if( edge[i][j] )
      {
        w[i][j] = sym::fixed( "w", 0, 15, 1 );
        edge[j][i] = true;
        w[j][i] = w[i][j];
        l.append( m.attr( "Simplex" )( listOf( { j, i } ), w[i][j] ) );
      }
    }
  unsigned d = unsigned( sym::choice( "d", 1, 3 ) );
  py::object K = m.attr( "SimplicialComplex" )( l );
  py::object R = m.attr( "RipsExpander" )();
  py::object L = R.attr( "assignMaximumWeight" )( R( K, d ), 1 );
  std::size_t n = 0;
  for( int s = 1; s < 16; ++s )
  {
    std::vector<unsigned> v;
    bool clique = true;
    double weight = 0.0;
    for( unsigned i = 0; i < 4; ++i )
      if( s >> i & 1 )
      {
        for( unsigned j : v )
        {
          clique = clique && edge[i][j];
          weight = sym::max( weight, w[i][j] );
        }
        v.push_back( i );
      }
    if( !clique || v.size() > d+1 )
      continue;
    ++n;
    bool found = false;
    for( auto h : L )
      if( vertices( py::reinterpret_borrow<py::object>( h ) ) == descending( v ) )
      {
        ASSERT( h.attr( "data" ).cast<double>() == weight, "weight of a clique" );
        found = true;
      }
    ASSERT( found, "each clique is a simplex" );
  }
  ASSERT( py::len( L ) == n, "each simplex is a clique" );
  REACH("expansion");
}

//@ files: structured grids of two by two points with values 0..3 and functions in Python, edge lists, and persistence diagrams
HARNESS(files)
{
  py::object m = startPython();
  int kind = int( sym::choice( "kind", 0, 3 ) );
  int v[4];
  for( int i = 0; i < 4; ++i )
    v[i] = int( sym::choice( "v", 0, i < 3 ? 2 : 0 ) );
  Directory dir;
  if( kind < 2 )
  {
    std::ostringstream o;
    o << "# vtk DataFile Version 3.0\nName\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS 2 2 1\nPOINTS 4 float\n0 0 0\n1 0 0\n0 1 0\n1 1 0\nPOINT_DATA 4\nSCALARS f float 1\nLOOKUP_TABLE default\n";
    for( int x : v )
      o << x << "\n";
    std::string name = dir.write( "grid.vtk", o.str() );
    py::cpp_function minimum( [] ( double a, double b ) { return a < b ? a : b; } );
    py::object K = kind ? m.attr( "load" )( name, minimum ) : m.attr( "load" )( name );
    ASSERT( !K.is_none(), "complex is returned" );
    ASSERT( py::len( K ) == 8, "four points and four edges" );
    for( auto h : K )
    {
      auto s = vertices( py::reinterpret_borrow<py::object>( h ) );
      double e = v[ s[0] ];
      if( s.size() > 1 )
        e = kind ? std::min( v[ s[0] ], v[ s[1] ] ) : std::max( v[ s[0] ], v[ s[1] ] );
      ASSERT( h.attr( "data" ).cast<double>() == e, "weights of the grid" );
    }
  }
  else if( kind == 2 )
  {
    std::ostringstream o;
    for( int i = 0; i < 3; ++i )
      o << i << " " << i+1 << " " << v[i] << "\n";
    py::object K = m.attr( "load" )( dir.write( "graph.txt", o.str() ) );
    ASSERT( py::len( K ) == 7, "vertices and edges" );
    for( auto h : K )
    {
      auto s = vertices( py::reinterpret_borrow<py::object>( h ) );
      if( s.size() == 2 )
        ASSERT( s[0] == s[1] + 1 && h.attr( "data" ).cast<double>() == v[ s[1] ], "weights of edges" );
    }
  }
  else
  {
    std::ostringstream o;
    o << "# diagram\n";
    for( int i = 0; i < 3; ++i )
      o << i << " " << 3 + v[i] << "\n";
    py::object D = m.attr( "load_persistence_diagram" )( dir.write( "diagram.txt", o.str() ) );
    ASSERT( py::len( D ) == 3, "number of points" );
    int i = 0;
    for( auto p : D )
    {
      ASSERT( p.attr( "x" ).cast<double>() == i && p.attr( "y" ).cast<double>() == 3 + v[i], "points" );
      ++i;
    }
  }
  REACH("files");
}
