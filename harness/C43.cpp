// C43: GraphML files, the generic reader and drawings
// flags: -DALEPH_WITH_TINYXML2
// libs: -ltinyxml2
#include "files.h"
#include <aleph/containers/PointCloud.hh>
#include <aleph/topology/io/GraphML.hh>
#include <aleph/topology/io/LinesAndPoints.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/TikZ.hh>

namespace io = aleph::topology::io;

static std::string S( std::size_t i ) { return std::to_string( i ); }

struct GraphML
{
  std::string text;
  Expected E;
};

// Graph with up to three nodes, identifiers not in lexicographical order
static GraphML graphML( bool nodeWeights, bool edgeWeights, bool readNodes, bool readEdges, bool minimum )
{
  static const char* names[] = { "n1", "a", "n0" };
  static const std::size_t index[] = { 2, 0, 1 };
  GraphML g;
  g.text = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<graphml>\n";
  if( nodeWeights ) g.text += "<key id=\"d0\" for=\"node\" attr.name=\"weight\" attr.type=\"double\"/>\n";
  if( edgeWeights ) g.text += "<key id=\"d1\" for=\"edge\" attr.name=\"weight\" attr.type=\"double\"/>\n";
  g.text += "<graph id=\"G\" edgedefault=\"undirected\">\n<desc>text</desc>\n";
  for( int i = 0; i < 3; ++i )
  {
    g.text += "<node id=\"" + std::string( names[i] ) + "\">";
    if( nodeWeights ) g.text += "<data key=\"d0\">" + S( std::size_t( i + 1 ) ) + "</data>";
    g.text += "</node>\n";
    g.E.add( { index[i] }, nodeWeights && readNodes ? table[i+1] : 0.0 );
  }
  static const int pairs[3][2] = { {0,1}, {2,0}, {1,2} };
  for( int e = 0; e < 3; ++e )
  {
    if( !sym::flag( "edge" ) )
      continue;
    int u = pairs[e][0], v = pairs[e][1];
    g.text += "<edge id=\"e" + S( std::size_t( e ) ) + "\" source=\"" + names[u] + "\" target=\"" + names[v] + "\">";
    if( edgeWeights ) g.text += "<data key=\"d1\">" + S( std::size_t( e + 4 ) ) + "</data>";
    g.text += "</edge>\n";
    double w = 0;
    if( readEdges )
      w = edgeWeights ? table[e+4] : 0.0;
    else if( readNodes && nodeWeights )
      w = minimum ? sym::min( table[u+1], table[v+1] ) : sym::max( table[u+1], table[v+1] );
    g.E.add( { index[u], index[v] }, w );
  }
  g.text += "</graph>\n</graphml>\n";
  return g;
}

//@ graphml: all graphs with three named nodes, all weights of nodes and edges, all combinations of stored and requested weights
HARNESS(graphml)
{
  symbolicTable( 6, -100, 100 );
  bool a = sym::flag( "nodeWeights" ), b = sym::flag( "edgeWeights" ), c = sym::flag( "readNodes" ), d = sym::flag( "readEdges" ), m = sym::flag( "minimum" );
  auto g = graphML( a, b, c, d, m );
  io::GraphMLReader reader;
  reader.setReadNodeWeights( c );
  reader.setReadEdgeWeights( d );
  ASSERT( reader.readNodeWeights() == c && reader.readEdgeWeights() == d, "settings" );
  VComplex K;
  if( m )
    reader( memoryFile( g.text ), K, [] ( Value x, Value y ) { return Value( sym::min( x, y ) ); } );
  else
    reader( memoryFile( g.text ), K );
  g.E.compare( K );
  auto ids = reader.id_to_index<std::size_t>();
  ASSERT( ids.size() == 3 && ids["a"] == 0 && ids["n0"] == 1 && ids["n1"] == 2, "indices follow the order of identifiers" );
  // read a second file with the same reader
  VComplex L;
  reader( memoryFile( "<?xml version=\"1.0\"?>\n<graphml><graph><node id=\"x\"/></graph></graphml>" ), L );
  ASSERT( L.size() == 1, "no elements of the previous file remain" );
  REACH("graphml");
}

//@ attributes: other names of weight attributes, all weights; missing weights of single edges or nodes are zero
HARNESS(attributes)
{
  symbolicTable( 4, -100, 100 );
  bool n = sym::flag( "node" ), e = sym::flag( "edge" ), custom = sym::flag( "custom" );
  std::string text = "<?xml version=\"1.0\"?>\n<graphml>\n"
    "<key id=\"a\" for=\"node\" attr.name=\"weight\"/><key id=\"b\" for=\"edge\" attr.name=\"weight\"/>\n"
    "<key id=\"c\" for=\"node\" attr.name=\"size\"/><key id=\"d\" for=\"edge\" attr.name=\"length\"/>\n<graph>\n"
    "<node id=\"0\">" + std::string( n ? "<data key=\"a\">1</data><data key=\"c\">2</data>" : "" ) + "</node><node id=\"1\"/>\n"
    "<edge id=\"0\" source=\"0\" target=\"1\">" + std::string( e ? "<data key=\"b\">3</data><data key=\"d\">4</data>" : "" ) + "</edge>\n"
    "</graph>\n</graphml>\n";
  io::GraphMLReader reader;
  if( custom )
  {
    reader.setNodeWeightAttribute( "size" );
    reader.setEdgeWeightAttribute( "length" );
    ASSERT( reader.nodeWeightAttribute() == "size" && reader.edgeWeightAttribute() == "length", "settings" );
  }
  VComplex K;
  reader( memoryFile( text ), K );
  Expected E;
  E.add( { 0 }, n ? table[ custom ? 2 : 1 ] : 0.0 );
  E.add( { 1 }, 0.0 );
  E.add( { 0, 1 }, e ? table[ custom ? 4 : 3 ] : 0.0 );
  E.compare( K );
  auto names = reader.getNodeAttributeNames();
  ASSERT( names.size() == ( n ? 2u : 0u ), "attributes of nodes" );
  names = reader.getEdgeAttributeNames();
  ASSERT( names.size() == ( e ? 2u : 0u ), "attributes of edges" );
  REACH("attributes");
}

//@ partial: edge weights from two nodes of which one or both have no weight, or an empty one
HARNESS(partial)
{
  symbolicTable( 2, 1, 100 );
  bool a = sym::flag( "first" ), b = sym::flag( "second" ), empty = sym::flag( "empty" );
  std::string none = empty ? "<data key=\"a\"/>" : "";
  std::string text = "<?xml version=\"1.0\"?>\n<graphml>\n<key id=\"a\" for=\"node\" attr.name=\"weight\"/>\n<graph>\n"
    "<node id=\"0\">" + ( a ? "<data key=\"a\">1</data>" : none ) + "</node><node id=\"1\">" + ( b ? "<data key=\"a\">2</data>" : none ) + "</node>\n"
    "<edge id=\"0\" source=\"0\" target=\"1\"/></graph>\n</graphml>\n";
  io::GraphMLReader reader;
  reader.setReadEdgeWeights( false );
  VComplex K;
  reader( memoryFile( text ), K );
  double x = a ? table[1] : 0.0, y = b ? table[2] : 0.0;
  Expected E;
  E.add( { 0 }, x );
  E.add( { 1 }, y );
  E.add( { 0, 1 }, sym::max( x, y ) );
  E.compare( K );
  REACH("partial");
}

//@ refused: files that do not exist, contain no graph, or contain incomplete nodes, edges, or keys of an unknown kind
HARNESS(refused)
{
  static const char* texts[] = {
    "", "text", "<?xml version=\"1.0\"?>\n<graph/>", "<?xml version=\"1.0\"?>\n<graphml></graphml>",
    "<?xml version=\"1.0\"?>\n<graphml><graph><node/></graph></graphml>",
    "<?xml version=\"1.0\"?>\n<graphml><graph><node id=\"0\"/><edge id=\"0\" source=\"0\"/></graph></graphml>",
    "<?xml version=\"1.0\"?>\n<graphml><graph><node id=\"0\"/><edge id=\"0\" target=\"0\"/></graph></graphml>",
    "<?xml version=\"1.0\"?>\n<graphml><key id=\"a\" for=\"other\" attr.name=\"weight\"/><graph/></graphml>",
    "<?xml version=\"1.0\"?>\n<graphml><key id=\"a\"/><graph/></graphml>",
    "<?xml version=\"1.0\"?>\n<graphml><graph><node id=\"0\"><data>1</data></node></graph></graphml>",
    "<?xml version=\"1.0\"?>\n<graphml><graph><node id=\"0\"/><edge source=\"0\" target=\"0\"/></graph></graphml>",
    "<?xml version=\"1.0\"?>\n<graphml><key id=\"a\" for=\"node\" attr.name=\"weight\"/><graph><node id=\"0\"><data key=\"a\">x</data></node></graph></graphml>",
  };
  int k = sym::choice( "text", -1, 11 );
  bool refused = false;
  io::GraphMLReader reader;
  VComplex K;
  try { reader( k < 0 ? std::string( "/nonexistent/file" ) : memoryFile( texts[k] ), K ); }
  catch( std::runtime_error& ) { refused = true; }
  ASSERT( refused, "invalid files are refused" );
  REACH("refused");
}

//@ header: files with and without an XML declaration and comments in front
HARNESS(header)
{
  symbolicTable( 1, -100, 100 );
  static const char* headers[] = { "<?xml version=\"1.0\"?>\n", "", "<!-- comment -->\n", "<?xml version=\"1.0\"?>\n<!-- comment -->\n" };
  std::string text = headers[ sym::choice( "header", 0, 3 ) ];
  text += "<graphml><key id=\"a\" for=\"node\" attr.name=\"weight\"/><graph><node id=\"0\"><data key=\"a\">1</data></node></graph></graphml>";
  io::GraphMLReader reader;
  VComplex K;
  reader( memoryFile( text ), K );
  Expected E;
  E.add( { 0 }, table[1] );
  E.compare( K );
  REACH("header");
}

static const char* const contents[] = {
  "graph\n[\nnode\n[\nid 1\nlabel \"b\"\n]\nnode\n[\nid 0\nlabel \"a\"\n]\nnode\n[\nid 2\n]\nedge\n[\nsource 0\ntarget 1\nweight 1\n]\n]\n",
  "*Vertices 3\n1 \"a\"\n2 \"b\"\n3 \"c\"\n*Edges\n1 2 1\n2 3 2\n",
  "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nproperty float quality\nelement face 1\nproperty list uchar int vertex_indices\nend_header\n0 0 1 4\n1 0 2 5\n0 1 3 6\n3 0 1 2\n",
  "# vtk DataFile Version 3.0\nx\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS 2 2 1\nPOINTS 4 float\n0 0 0\n1 0 0\n0 1 0\n1 1 0\nPOINT_DATA 4\nSCALARS s float\nLOOKUP_TABLE default\n1 2 3 4\n",
  "0 1 1\n1 2 2\n",
};

template <class C> bool equal( const C& K, const C& L )
{
  if( K.size() != L.size() )
    return false;
  for( std::size_t i = 0; i < K.size(); ++i )
    if( !( K[i] == L[i] ) || !( K[i].data() == L[i].data() ) )
      return false;
  return true;
}

//@ extensions: one file per format that is read by its extension, all values of VTK grids, functors and data attributes
HARNESS(extensions)
{
  typedef aleph::topology::SimplicialComplex< aleph::topology::Simplex<double, unsigned> > C;
  static const char* names[] = { "a.gml", "a.net", "a.ply", "a.vtk", "a.txt", "gml", "a.ply.net" };
  static const int kinds[] = { 0, 1, 2, 3, 4, 4, 1 };
  int k = sym::choice( "file", 0, 6 );
  bool minimum = sym::flag( "minimum" ), attribute = sym::flag( "attribute" ), before = sym::flag( "before" );
  Directory d;
  io::SimplicialComplexReader reader;
  C K, L;
  if( before )
  {
    reader( d.write( "b.net", contents[1] ), K );
    ASSERT( reader.labels().size() == 3, "labels of the first file" );
  }
  if( attribute )
    reader.setDataAttribute( "quality" );
  std::string file = d.write( names[k], contents[ kinds[k] ] );
  if( minimum )
    reader( file, K, [] ( double a, double b ) { return std::min( a, b ); } );
  else
    reader( file, K );
  std::vector<std::string> labels;
  switch( kinds[k] )
  {
  case 0: { io::GMLReader r; r( file, L ); labels = { "a", "b", "" }; break; }
  case 1: { io::PajekReader r; r( file, L ); labels = { "a", "b", "c" }; break; }
  case 2: { io::PLYReader r; if( attribute ) r.setDataProperty( "quality" ); r( file, L ); break; }
  case 3: { io::VTKStructuredGridReader r; if( minimum ) r( file, L, [] ( double a, double b ) { return std::min( a, b ); } ); else r( file, L ); break; }
  case 4: { io::EdgeListReader r; r.setReadWeights(); r( file, L ); break; }
  }
  ASSERT( !L.empty() && equal( K, L ), "complex of the format that the extension denotes" );
  ASSERT( reader.labels() == labels, "labels of the vertices" );
  REACH("extensions");
}

//@ labels: Pajek and GML files with nine to eleven vertices, labels follow the order of vertices
HARNESS(labels)
{
  typedef aleph::topology::SimplicialComplex< aleph::topology::Simplex<double, unsigned> > C;
  std::size_t n = std::size_t( sym::choice( "n", 1, 11 ) );
  bool pajek = sym::flag( "pajek" ), other = sym::flag( "attribute" );
  Directory d;
  std::string text = pajek ? "*Vertices " + S( n ) + "\n" : "graph\n[\n";
  for( std::size_t i = 0; i < n; ++i )
    if( pajek )
      text += S( i + 1 ) + " \"v" + S( i ) + "\"\n";
    else
      text += "node\n[\nid " + std::string( 1, char( 'a' + i ) ) + "\nlabel \"v" + S( i ) + "\"\nvalue w" + S( i ) + "\n]\n";
  if( !pajek )
    text += "]\n";
  io::SimplicialComplexReader reader;
  if( other )
    reader.setLabelAttribute( "value" );
  C K;
  reader( d.write( pajek ? "a.net" : "a.gml", text ), K );
  ASSERT( K.size() == n && reader.labels().size() == n, "number of labels" );
  for( std::size_t i = 0; i < n; ++i )
    ASSERT( reader.labels()[i] == ( !pajek && other ? "w" : "v" ) + S( i ), "labels follow the order of vertices" );
  REACH("labels");
}

struct Drawing
{
  typedef aleph::topology::Simplex<double, unsigned> Simplex;
  aleph::topology::SimplicialComplex<Simplex> K;
  std::vector< std::vector<int> > x;
  std::vector< std::vector<unsigned> > vertices, edges, triangles;
};

// Complexes on three vertices and points with small coordinates
static Drawing drawing( std::size_t dimension )
{
  Drawing d;
  for( unsigned v = 0; v < 3; ++v )
  {
    std::vector<int> p;
    for( std::size_t k = 0; k < dimension; ++k )
      p.push_back( v == 1 ? sym::choice( "x", -1, 1 ) : int( v + k ) );
    d.x.push_back( p );
    if( v < 2 || sym::flag( "vertex" ) )
      d.vertices.push_back( { v } );
  }
  unsigned n = unsigned( d.vertices.size() );
  for( unsigned v = 0; v < n; ++v )
    for( unsigned w = v + 1; w < n; ++w )
      if( sym::flag( "edge" ) )
        d.edges.push_back( { v, w } );
  if( d.edges.size() == 3 && sym::flag( "triangle" ) )
    d.triangles.push_back( { 0, 1, 2 } );
  std::vector<Drawing::Simplex> s;
  for( auto&& list : { d.triangles, d.vertices, d.edges } )
    for( auto&& v : list )
      s.push_back( Drawing::Simplex( v.begin(), v.end() ) );
  d.K = decltype( d.K )( s.begin(), s.end() );
  return d;
}

//@ lines: complexes with two or three vertices, points in two or three dimensions, with and without labels
HARNESS(lines)
{
  std::size_t dimension = std::size_t( sym::choice( "dimension", 2, 3 ) );
  bool labels = sym::flag( "labels" );
  auto d = drawing( dimension );
  io::LinesAndPoints writer;
  writer.addVertexLabels( labels );
  ASSERT( writer.addVertexLabels() == labels, "setting" );
  std::ostringstream out;
  writer( out, d.K, d.x );
  std::string name = memoryFile( "" );
  writer( name, d.K, d.x );
  std::ifstream written( name );
  std::stringstream text;
  text << written.rdbuf();
  ASSERT( text.str() == out.str(), "writing to a file gives the same text as writing to a stream" );
  std::istringstream in( out.str() );
  std::string line;
  auto point = [&] ( unsigned v, bool label )
  {
    ASSERT( bool( std::getline( in, line ) ), "line" );
    std::istringstream s( line );
    for( int x : d.x[v] )
    {
      int y = 99;
      s >> y;
      ASSERT( y == x, "coordinates" );
    }
    if( label )
    {
      unsigned w = 99;
      s >> w;
      ASSERT( w == v, "label" );
    }
    s >> std::ws;
    ASSERT( s.eof(), "nothing else" );
  };
  auto blank = [&] { ASSERT( bool( std::getline( in, line ) ) && line.empty(), "blank line" ); };
  for( auto&& v : d.vertices )
    point( v[0], labels );
  blank();
  blank();
  for( auto&& e : d.edges )
  {
    // either order of vertices
    std::string a;
    auto position = in.tellg();
    std::getline( in, a );
    in.seekg( position );
    std::istringstream s( a );
    bool first = true;
    for( int x : d.x[ e[0] ] )
    {
      int y = 99;
      s >> y;
      first = first && x == y;
    }
    point( first ? e[0] : e[1], false );
    point( first ? e[1] : e[0], false );
    blank();
  }
  ASSERT( !std::getline( in, line ), "nothing else" );
  REACH("lines");
}

static std::size_t count( const std::string& s, const std::string& t )
{
  std::size_t n = 0;
  for( std::size_t i = s.find( t ); i != std::string::npos; i = s.find( t, i + 1 ) )
    ++n;
  return n;
}

//@ tikz: complexes with two or three vertices, labels, balls and triangles shown or not
HARNESS(tikz)
{
  bool labels = sym::flag( "labels" ), balls = sym::flag( "balls" ), triangles = sym::flag( "triangles" );
  auto d = drawing( 2 );
  io::TikZ writer;
  writer.showVertexLabels( labels );
  writer.showBalls( balls );
  writer.showTriangles( triangles );
  writer.ballRadius( 2.5 );
  writer.pointColour( "red" );
  writer.lineColour( "green" );
  writer.triangleColour( "blue" );
  writer.pointSize( 3 );
  writer.triangleOpacity( 0.5 );
  ASSERT( writer.showVertexLabels() == labels && writer.showBalls() == balls && writer.showTriangles() == triangles && writer.ballRadius() == 2.5, "settings" );
  std::ostringstream out;
  writer( out, d.K, d.x );
  std::string s = out.str();
  ASSERT( s.find( "\\begin{tikzpicture}\n" ) == 0 && count( s, "\\begin{" ) == 1 && s.find( "\\end{tikzpicture}\n" ) + 18 == s.size(), "one picture" );
  ASSERT( count( s, "\\coordinate" ) == d.vertices.size() && count( s, "\\filldraw[red]" ) == d.vertices.size(), "one point per vertex" );
  for( auto&& v : d.vertices )
  {
    ASSERT( count( s, "(" + S( v[0] ) + ") at (" + std::to_string( d.x[ v[0] ][0] ) + "," + std::to_string( d.x[ v[0] ][1] ) + ");" ) == 1, "coordinates" );
    ASSERT( count( s, "(" + S( v[0] ) + ") circle (3pt)" ) == 1, "points" );
    ASSERT( count( s, "(" + S( v[0] ) + ") circle (2.5cm)" ) == ( balls ? 1 : 0 ), "balls" );
    ASSERT( count( s, "[label=above:" + S( v[0] ) + "]" ) == ( labels ? 1 : 0 ), "labels" );
  }
  ASSERT( count( s, "\\draw[green" ) == d.edges.size(), "one line per edge" );
  for( auto&& e : d.edges )
    ASSERT( count( s, "(" + S( e[0] ) + ") -- (" + S( e[1] ) + ");" ) + count( s, "(" + S( e[1] ) + ") -- (" + S( e[0] ) + ");" ) == 1, "lines" );
  ASSERT( count( s, "\\fill[blue, fill opacity=0.5]" ) == ( triangles ? d.triangles.size() : 0 ) && count( s, "cycle" ) == ( triangles ? d.triangles.size() : 0 ), "triangles" );
  for( auto&& t : d.triangles )
  {
    std::size_t n = 0;
    std::vector<unsigned> o = t;
    std::sort( o.begin(), o.end() );
    do
      n += count( s, "(" + S( o[0] ) + ") -- (" + S( o[1] ) + ") -- (" + S( o[2] ) + ") -- cycle;" );
    while( std::next_permutation( o.begin(), o.end() ) );
    ASSERT( n == ( triangles ? 1 : 0 ), "vertices of a triangle" );
  }
  std::string name = memoryFile( "" );
  writer( name, d.K, d.x );
  std::ifstream written( name );
  std::stringstream text;
  text << written.rdbuf();
  ASSERT( text.str() == s, "writing to a file gives the same text as writing to a stream" );
  bool thrown = false;
  try { writer( std::string( "/proc/self/fd/none/x" ), d.K, d.x ); } catch( std::runtime_error& ) { thrown = true; }
  ASSERT( thrown, "files that cannot be written are reported" );
  REACH("tikz");
}

//@ dimensions: points with fewer than two coordinates are refused
HARNESS(dimensions)
{
  auto d = drawing( std::size_t( sym::choice( "dimension", 0, 1 ) ) );
  std::ostringstream out;
  int refused = 0;
  try { io::TikZ()( out, d.K, d.x ); }
  catch( std::runtime_error& ) { ++refused; }
  try { io::LinesAndPoints()( out, d.K, d.x ); }
  catch( std::runtime_error& ) { ++refused; }
  ASSERT( refused == 2, "refused" );
  REACH("dimensions");
}
