// C39: files of matrices, grids, meshes, functions and spectra
#include "files.h"
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/representations/Vector.hh>
#include <aleph/topology/io/AdjacencyMatrix.hh>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
#include <aleph/topology/io/Matrix.hh>
#include <aleph/topology/io/VTK.hh>
#include <aleph/topology/io/PLY.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/io/FlexSpectrum.hh>

namespace io = aleph::topology::io;

static std::string S( std::size_t i ) { return std::to_string( i ); }

// Text of a matrix with consecutive indices of values
static std::string matrix( int height, int width, int extra )
{
  std::string text;
  int k = 1;
  if( extra == 1 ) text += "# Comment\n";
  for( int y = 0; y < height; ++y )
  {
    if( extra == 3 ) text += " ";
    for( int x = 0; x < width; ++x )
      text += ( x ? ( extra == 4 ? "\t  " : " " ) : "" ) + S( std::size_t( k++ ) );
    if( extra == 3 ) text += " \r";
    if( y + 1 < height || extra != 5 ) text += "\n";
    if( extra == 2 ) text += "\n";
    if( extra == 6 && y == 0 ) text += "#\n";
  }
  return text;
}

// Is the complex in order of its filtration?
template <class C> static void ordered( const C& K )
{
  const typename C::ValueType* last = nullptr;
  for( auto&& s : K )
  {
    if( last )
    {
      ASSERT( double( last->data() ) <= double( s.data() ), "simplices in order of their weights" );
    }
    last = &s;
  }
}

static double extreme( int n, bool maximum )
{
  double x = table[1];
  for( int i = 2; i <= n; ++i )
    x = maximum ? sym::max( x, table[i] ) : sym::min( x, table[i] );
  return x;
}

static void adjacency( int n, int extras, bool few = false )
{
  symapi_linear();
  symbolicTable( n * n, -100, 100 );
  for( int i = 1; few && i <= n * n; ++i )
    if( i != 1 && i != 3 && i != 7 && i != n * n )
      table[i] = 4 - i;
  int extra = sym::choice( "extra", 0, extras ), strategy = sym::choice( "strategy", 0, 2 );
  bool zero = n <= 2 && sym::flag( "zero" ), functor = sym::flag( "functor" );
  std::istringstream in( matrix( n, n, extra ) );
  io::AdjacencyMatrixReader reader;
  typedef io::AdjacencyMatrixReader::VertexWeightAssignmentStrategy V;
  reader.setVertexWeightAssignmentStrategy( strategy == 0 ? V::AssignGlobalMaximum : strategy == 1 ? V::AssignGlobalMinimum : V::AssignZero );
  reader.setIgnoreZeroWeights( zero );
  double minimum = extreme( n * n, false ), maximum = extreme( n * n, true );
  VComplex K;
  auto f = [&] ( double x ) { return functor ? 2 * maximum - minimum - x : x; };
  if( functor )
    reader( in, K, [] ( Value M, Value m, Value x ) { return Value( 2 * M.x - m.x - x.x ); } );
  else
    reader( in, K );
  Expected E;
  for( int y = 0; y < n; ++y )
    for( int x = y + 1; x < n; ++x )
    {
      double w = table[ y * n + x + 1 ];
      if( zero && w == 0 )
        continue;
      E.add( { std::size_t( y ), std::size_t( x ) }, f( w ) );
    }
  for( int i = 0; i < n; ++i )
    E.add( { std::size_t( i ) }, strategy == 2 ? 0.0 : f( strategy == 0 ? maximum : minimum ) );
  E.compare( K );
  ASSERT( reader.dimension() == std::size_t( n ), "dimension" );
  ordered( K );
  REACH("adjacency");
}

//@ adjacency2: matrices with two rows, all weights, all strategies, zero weights, functors, all layouts
HARNESS(adjacency2) { adjacency( 2, 6 ); }
//@ adjacency1: matrices with one row, all layouts
HARNESS(adjacency1) { adjacency( 1, 6 ); }
//@ adjacency3: matrices with three rows, four entries with all weights, all strategies, functors
HARNESS(adjacency3) { adjacency( 3, 0, true ); }
//@ missing: matrices with two rows whose entries may be missing, and all other values
HARNESS(missing)
{
  symbolicTable( 4, -100, 100 );
  bool above = sym::flag( "above" ), below = sym::flag( "below" ), ignore = sym::flag( "ignore" ), zeros = sym::flag( "zeros" );
  if( above ) table[2] = std::numeric_limits<double>::quiet_NaN();
  if( below ) table[3] = std::numeric_limits<double>::quiet_NaN();
  std::istringstream in( matrix( 2, 2, 0 ) );
  io::AdjacencyMatrixReader reader;
  reader.setVertexWeightAssignmentStrategy( io::AdjacencyMatrixReader::VertexWeightAssignmentStrategy::AssignZero );
  reader.setIgnoreNaNs( ignore );
  reader.setIgnoreZeroWeights( zeros );
  VComplex K;
  reader( in, K );
  bool none = above ? ignore : zeros && table[2] == 0;
  ASSERT( K.size() == ( none ? 2u : 3u ), "only missing entries are left out" );
  for( auto&& s : K )
    if( s.dimension() == 1 )
    {
      ASSERT( above ? std::isnan( s.data().x ) : s.data().x == table[2], "weight of an edge" );
    }
    else
      ASSERT( s.data().x == 0, "weight of a vertex" );
  REACH("missing");
}
//@ narrow: matrices with 17 rows, so that there are more entries than vertices of the type; one entry, all values, ordinary and bipartite
HARNESS(narrow)
{
  symapi_linear();
  typedef aleph::topology::SimplicialComplex< aleph::topology::Simplex<Value, unsigned char> > Narrow;
  symbolicTable( 2, -100, 100 );
  double w = table[1];
  int y = sym::choice( "row", 12, 16 ), x = sym::choice( "column", 12, 16 );
  bool bipartite = sym::flag( "bipartite" );
  ASSUME( bipartite || y < x );
  table[2] = 0;
  std::string t;
  for( int i = 0; i < 17; ++i )
    for( int j = 0; j < 17; ++j )
      t += std::string( i == y && j == x ? "1" : "2" ) + ( j == 16 ? "\n" : " " );
  std::istringstream in( t );
  Narrow K;
  if( bipartite )
  {
    io::BipartiteAdjacencyMatrixReader reader;
    reader( in, K );
  }
  else
  {
    io::AdjacencyMatrixReader reader;
    reader( in, K );
  }
  for( auto&& s : K )
    if( s.dimension() == 1 )
    {
      // vertices of a simplex are in descending order
      int a = std::min( s[0], s[1] ), b = std::max( s[0], s[1] ) - ( bipartite ? 17 : 0 );
      ASSERT( s.data().x == ( a == y && b == x ? w : 0.0 ), "weight of an edge" );
    }
  REACH("narrow");
}
//@ t_adjacency3: matrices with three rows, all weights, all strategies, zero weights, functors
HARNESS(t_adjacency3) { adjacency( 3, 0 ); }

static void bipartite( int h, int w, int extras )
{
  symbolicTable( h * w, -100, 100 );
  int extra = sym::choice( "extra", 0, extras ), strategy = sym::choice( "strategy", 0, 2 );
  std::istringstream in( matrix( h, w, extra ) );
  io::BipartiteAdjacencyMatrixReader reader;
  reader.setAssignMinimumVertexWeight( strategy == 1 );
  reader.setAssignMinimumAbsoluteVertexWeight( strategy == 2 );
  VComplex K;
  reader( in, K );
  Expected E;
  double minimum = extreme( h * w, false );
  std::vector< std::vector<double> > incident( std::size_t( h + w ) );
  for( int y = 0; y < h; ++y )
    for( int x = 0; x < w; ++x )
    {
      double v = table[ y * w + x + 1 ];
      E.add( { std::size_t( y ), std::size_t( h + x ) }, v );
      incident[ std::size_t( y ) ].push_back( v );
      incident[ std::size_t( h + x ) ].push_back( v );
    }
  for( std::size_t i = 0; i < incident.size(); ++i )
  {
    double m = minimum;
    if( strategy )
    {
      m = incident[i][0];
      for( double v : incident[i] )
        m = strategy == 1 ? sym::min( m, v ) : sym::ite( sym::abs( v ) < sym::abs( m ), v, m );
    }
    E.add( { i }, m );
  }
  E.compare( K );
  ASSERT( reader.height() == std::size_t( h ) && reader.width() == std::size_t( w ), "height and width" );
  ordered( K );
  REACH("bipartite");
}

//@ bipartite12: matrices with one row and two columns, all weights and strategies, all layouts
HARNESS(bipartite12) { bipartite( 1, 2, 6 ); }
//@ bipartite21: matrices with two rows and one column, all weights and strategies, all layouts
HARNESS(bipartite21) { bipartite( 2, 1, 6 ); }
//@ bipartite22: matrices with two rows and two columns, all weights and strategies
HARNESS(bipartite22) { bipartite( 2, 2, 0 ); }

static void image( int h, int w, int extras )
{
  symbolicTable( h * w, -100, 100 );
  int extra = sym::choice( "extra", 0, extras );
  bool triangles = sym::flag( "triangles" ), minimum = sym::flag( "minimum" );
  std::istringstream in( matrix( h, w, extra ) );
  io::MatrixReader reader;
  reader.addTriangles( triangles );
  VComplex K;
  if( minimum )
    reader( in, K, [] ( Value a, Value b ) { return a.x < b.x ? a : b; } );
  else
    reader( in, K );
  Expected E;
  auto add = [&] ( std::vector<int> v )
  {
    double m = table[ v[0] + 1 ];
    for( int i : v )
      m = minimum ? sym::min( m, table[i+1] ) : sym::max( m, table[i+1] );
    E.add( Vertices( v.begin(), v.end() ), m );
  };
  for( int y = 0; y < h; ++y )
    for( int x = 0; x < w; ++x )
    {
      int i = y * w + x;
      add( { i } );
      if( x + 1 < w ) add( { i, i + 1 } );
      if( y + 1 < h ) add( { i, i + w } );
      if( x + 1 < w && y + 1 < h )
      {
        add( { i, i + w + 1 } );
        if( triangles )
        {
          add( { i, i + 1, i + w + 1 } );
          add( { i, i + w, i + w + 1 } );
        }
      }
    }
  E.compare( K );
  ASSERT( reader.height() == std::size_t( h ) && reader.width() == std::size_t( w ), "height and width" );
  REACH("image");
}

//@ image11: one pixel, all layouts
HARNESS(image11) { image( 1, 1, 6 ); }
//@ image12: one row and two columns, all values and layouts
HARNESS(image12) { image( 1, 2, 6 ); }
//@ image21: two rows and one column, all values and layouts
HARNESS(image21) { image( 2, 1, 6 ); }
//@ image22: two rows and two columns, all values and layouts
HARNESS(image22) { image( 2, 2, 6 ); }
//@ image23: two rows and three columns, all values
HARNESS(image23) { image( 2, 3, 0 ); }
//@ t_image32: three rows and two columns, all values and layouts
HARNESS(t_image32) { image( 3, 2, 6 ); }

//@ nothing: files without any numbers, and files with different numbers of columns
HARNESS(nothing)
{
  static const char* texts[] = { "", "\n", "# Comment\n", "1 1\n1\n", "1\n1 1\n", "1 1 1\n1\n" };
  int k = sym::choice( "text", 0, 5 ), reader = sym::choice( "reader", 0, 2 );
  std::istringstream in( texts[k] );
  VComplex K;
  bool thrown = false;
  try
  {
    if( reader == 0 ) io::MatrixReader()( in, K );
    if( reader == 1 ) io::AdjacencyMatrixReader()( in, K );
    if( reader == 2 ) io::BipartiteAdjacencyMatrixReader()( in, K );
  }
  catch( std::runtime_error& ) { thrown = true; }
  ASSERT( thrown == ( k >= 3 ), "varying numbers of columns are rejected" );
  ASSERT( K.empty(), "empty files result in empty complexes" );
  REACH("nothing");
}

static void grid( int nx, int ny, int nz, int extras )
{
  int n = nx * ny * nz;
  symbolicTable( n, -100, 100 );
  int extra = sym::choice( "extra", 0, extras );
  bool minimum = sym::flag( "minimum" );
  std::string eol = extra == 1 ? " \r\n" : "\n";
  std::string text = "# vtk DataFile Version 3.0" + eol + "Title" + eol + "ASCII" + eol + "DATASET STRUCTURED_GRID" + eol
    + "DIMENSIONS " + S( std::size_t( nx ) ) + " " + S( std::size_t( ny ) ) + " " + S( std::size_t( nz ) ) + eol
    + "POINTS " + S( std::size_t( n ) ) + ( extra == 3 ? " unsigned_char" : " float" ) + eol;
  for( int i = 0; i < n; ++i )
    text += S( std::size_t( i % 2 ) ) + " 1 0" + ( extra == 4 && i + 1 < n ? " " : eol );
  if( extra == 2 ) text += eol;
  text += "POINT_DATA " + S( std::size_t( n ) ) + eol + "SCALARS " + ( extra == 5 ? "my_data" : "scalars" ) + " float" + ( extra == 6 ? " 1" : "" ) + eol + "LOOKUP_TABLE default" + eol;
  for( int i = 0; i < n; ++i )
    text += S( std::size_t( i + 1 ) ) + ( extra == 4 && i + 1 < n ? " " : eol );
  if( extra == 2 ) text += eol;
  TextFile in( text );
  io::VTKStructuredGridReader reader;
  VComplex K;
  if( minimum )
    reader( in, K, [] ( Value a, Value b ) { return a.x < b.x ? a : b; } );
  else
    reader( in, K );
  Expected E;
  auto edge = [&] ( int i, int j ) { E.add( { std::size_t( i ), std::size_t( j ) }, minimum ? sym::min( table[i+1], table[j+1] ) : sym::max( table[i+1], table[j+1] ) ); };
  for( int z = 0; z < nz; ++z )
    for( int y = 0; y < ny; ++y )
      for( int x = 0; x < nx; ++x )
      {
        int i = ( z * ny + y ) * nx + x;
        E.add( { std::size_t( i ) }, table[i+1] );
        if( x + 1 < nx ) edge( i, i + 1 );
        if( y + 1 < ny ) edge( i, i + nx );
        if( z + 1 < nz ) edge( i, i + nx * ny );
      }
  E.compare( K );
  ASSERT( reader.dataTypeSize() == ( extra == 3 ? 1u : 4u ), "size of the data type" );
  ASSERT( reader.scalarsName() == ( extra == 5 ? "my_data" : "scalars" ) && reader.scalarsType() == "float", "name and type of the data" );
  REACH("grid");
}

//@ grid: grids of up to 2 x 2 x 1 or 1 x 1 x 2 points, all values, all layouts
HARNESS(grid)
{
  int k = sym::choice( "size", 0, 4 );
  static const int N[][3] = { { 1, 1, 1 }, { 2, 1, 1 }, { 1, 2, 1 }, { 1, 1, 2 }, { 2, 2, 1 } };
  grid( N[k][0], N[k][1], N[k][2], 6 );
}
//@ grid232: grids of 2 x 1 x 2 and 3 x 2 x 1 points, all values
HARNESS(grid232)
{
  if( sym::flag( "flat" ) ) grid( 3, 2, 1, 0 );
  else grid( 2, 1, 2, 0 );
}

//@ mesh: one or two triangles with all values in several layouts, weights from the last coordinate or another property
HARNESS(mesh)
{
  int triangles = sym::choice( "triangles", 1, 2 ), layout = sym::choice( "layout", 0, 3 ), property = sym::choice( "property", 0, 2 );
  int n = triangles + 2;
  symbolicTable( n, -100, 100 );
  std::string text = "ply\nformat ascii 1.0\n";
  if( layout == 1 ) text += "comment something\n";
  text += "element vertex " + S( std::size_t( n ) ) + "\nproperty float x\nproperty float y\n";
  text += layout == 2 ? "property uchar quality\nproperty double z\n" : "property float z\nproperty uchar quality\n";
  text += "element face " + S( std::size_t( triangles ) ) + "\nproperty list uchar int vertex_indices\nend_header\n";
  std::vector<double> w;
  for( int i = 0; i < n; ++i )
  {
    std::string value = S( std::size_t( i + 1 ) );
    std::string z = property == 0 ? value : "3", quality = property == 1 ? value : "4";
    text += "0.5 -1 " + ( layout == 2 ? quality + " " + z : z + " " + quality ) + ( layout == 3 ? " \n" : "\n" );
    w.push_back( property == 2 ? 0.0 : table[i+1] );
  }
  text += layout == 1 ? "3 2 1 0\n" : "3 0 1 2\n";
  if( triangles == 2 ) text += layout == 1 ? "3 1 3 2\n" : "3 1 2 3\n";
  TextFile in( text );
  io::PLYReader reader;
  reader.setDataProperty( property == 0 ? "z" : property == 1 ? "quality" : "missing" );
  VComplex K;
  reader( in, K );
  Expected E;
  auto add = [&] ( std::vector<std::size_t> v )
  {
    if( E.has( v ) ) return;
    double m = w[ v[0] ];
    for( auto i : v ) m = sym::max( m, w[i] );
    E.add( v, m );
  };
  for( int t = 0; t < triangles; ++t )
  {
    std::size_t a = std::size_t( t );
    add( { a, a+1, a+2 } );
    add( { a, a+1 } ); add( { a, a+2 } ); add( { a+1, a+2 } );
    add( { a } ); add( { a+1 } ); add( { a+2 } );
  }
  E.compare( K );
  ordered( K );
  REACH("mesh");
}

//@ values: functions with up to four values given by a range or by lines of a file
HARNESS(values)
{
  int n = sym::choice( "n", 0, 4 );
  bool minimum = sym::flag( "minimum" ), file = sym::flag( "file" );
  symbolicTable( n, -100, 100 );
  Expected E;
  std::string text;
  std::vector<Value> x;
  for( int i = 0; i < n; ++i )
  {
    x.push_back( table[i+1] );
    text += S( std::size_t( i + 1 ) ) + ( i % 2 ? " " : "\t" );
    E.add( { std::size_t( i ) }, table[i+1] );
    if( i )
      E.add( { std::size_t( i-1 ), std::size_t( i ) }, minimum ? sym::min( table[i], table[i+1] ) : sym::max( table[i], table[i+1] ) );
  }
  auto f = [&] ( Value a, Value b ) -> Value { return minimum ? ( a.x < b.x ? a : b ) : ( a.x < b.x ? b : a ); };
  if( file )
  {
    auto K = minimum ? io::loadFunctions<VComplex>( memoryFile( text + "\n1 1\n" ), f ) : io::loadFunctions<VComplex>( memoryFile( text + "\n1 1\n" ) );
    ASSERT( K.size() == 2, "one function per line" );
    E.compare( K[0] );
    ASSERT( K[1].size() == 3, "function of the second line" );
  }
  else
    E.compare( io::loadFunction<VComplex>( x.begin(), x.end(), f ) );
  REACH("values");
}

//@ boundary: boundary matrices of functions with up to three values
HARNESS(boundary)
{
  typedef aleph::topology::representations::Vector<unsigned> R;
  typedef aleph::topology::BoundaryMatrix<R> M;
  int n = sym::choice( "n", 1, 3 );
  symbolicTable( n, -100, 100 );
  std::string text;
  for( int i = 0; i < n; ++i )
    text += S( std::size_t( i + 1 ) ) + "\n";
  M m;
  std::vector<Value> values;
  io::loadFunction( memoryFile( text ), m, values );
  std::size_t N = std::size_t( 2*n - 1 );
  ASSERT( m.getNumColumns() == N && values.size() == N, "one column per vertex and edge" );
  // Assign vertices to columns; their order is given by their values, then by their position
  std::vector<std::size_t> points;
  int edges = 0;
  for( unsigned j = 0; j < N; ++j )
  {
    ASSERT( j == 0 || values[j-1].x <= values[j].x, "columns in order of the values" );
    auto c = m.getColumn( j );
    ASSERT( c.empty() || c.size() == 2, "vertices and edges" );
    if( c.empty() )
      points.push_back( j );
    else
    {
      ++edges;
      ASSERT( c[0] < j && c[1] < j && c[0] != c[1], "faces precede edges" );
      ASSERT( values[j].x == sym::max( values[c[0]].x, values[c[1]].x ), "value of an edge" );
    }
  }
  ASSERT( points.size() == std::size_t( n ) && edges == n - 1, "number of vertices and edges" );
  std::vector<int> order;
  for( int i = 0; i < n; ++i ) order.push_back( i );
  std::stable_sort( order.begin(), order.end(), [] ( int a, int b ) { return table[a+1] < table[b+1]; } );
  std::vector<unsigned> column( std::size_t( n ), 0u );
  for( std::size_t i = 0; i < points.size(); ++i )
  {
    ASSERT( values[ points[i] ].x == table[ order[i] + 1 ], "values of vertices" );
    column[ std::size_t( order[i] ) ] = unsigned( points[i] );
  }
  for( int i = 0; i + 1 < n; ++i )
  {
    bool found = false;
    for( unsigned j = 0; j < N; ++j )
    {
      auto c = m.getColumn( j );
      if( c.size() == 2 )
      {
        unsigned a = column[ std::size_t( i ) ], b = column[ std::size_t( i+1 ) ];
        found = found || ( c[0] == a && c[1] == b ) || ( c[0] == b && c[1] == a );
      }
    }
    ASSERT( found, "consecutive vertices are connected" );
  }
  REACH("boundary");
}

//@ spectrum: up to three peaks with positive intensities, comments, normalised or not, used twice
HARNESS(spectrum)
{
  int n = sym::choice( "n", 0, 3 ), extra = sym::choice( "extra", 0, 2 );
  bool normalise = sym::flag( "normalise" );
  symbolicTable( n, 1, 100 );
  for( int i = 1; i <= n; ++i )
    if( i > 1 || normalise ) table[i] = double( symapi_concretize_d( sym::fixed( "intensity", 1, 4 ) ) );
  std::string text = extra == 1 ? "# Comment\n\n" : "";
  for( int i = 0; i < n; ++i )
  {
    text += S( std::size_t( 10 * i + 5 ) ) + ".5" + ( extra == 2 ? "\t" : " " ) + S( std::size_t( i + 1 ) ) + "\n";
    if( extra == 1 ) text += "end\n";
  }
  io::FlexSpectrumReader reader;
  VComplex K;
  if( sym::flag( "before" ) )
    reader( memoryFile( "1 1\n2 1\n3 1\n4 1\n" ), K );
  reader.normalize( normalise );
  reader( memoryFile( text ), K );
  if( normalise && n > 1 )
  {
    double total = 0;
    for( int i = 1; i <= n; ++i ) total += table[i];
    for( int i = 1; i <= n; ++i ) table[i] = table[i] / total;
  }
  Expected E;
  for( int i = 0; i < n; ++i )
  {
    E.add( { std::size_t( i ) }, table[i+1] );
    if( i )
      E.add( { std::size_t( i-1 ), std::size_t( i ) }, sym::min( table[i], table[i+1] ) );
  }
  E.compare( K );
  auto V = reader.getIndexToValueMap(), I = reader.getIndexToIntensityMap();
  ASSERT( V.size() == std::size_t( n ) && I.size() == std::size_t( n ), "one entry per line" );
  for( int i = 0; i < n; ++i )
    ASSERT( V[ std::size_t( i ) ] == 10 * i + 5.5 && I[ std::size_t( i ) ] == table[i+1], "positions and intensities" );
  REACH("spectrum");
}
