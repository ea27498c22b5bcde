// C33: graph file formats
#include "files.h"
#include <aleph/topology/io/EdgeLists.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/Pajek.hh>
#include <aleph/topology/io/LexicographicTriangulation.hh>
#include <limits>
#include <aleph/topology/io/SparseAdjacencyMatrix.hh>

namespace io = aleph::topology::io;

static std::string S( std::size_t i ) { return std::to_string( i ); }

// A different pair of the vertices 0, 1 and 2 for every index
static std::pair<int, int> pairOf( int k )
{
  static const int P[6][2] = { {0,1}, {1,0}, {0,2}, {2,0}, {1,2}, {2,1} };
  return { P[k][0], P[k][1] };
}

// Text of an edge list for up to two symbolic edges. Numbers if `names` is null.
static std::string edgeList( int edges, const char* const* names, const std::string& separator, bool weights, int extra, Expected* E, int firstValue )
{
  std::string text;
  std::map<int, std::size_t> ids;
  auto id = [&] ( int v ) { return ids.insert( { v, names ? ids.size() : std::size_t( v ) } ).first->second; };
  if( extra == 1 ) text += "# Comment\n\n";
  if( extra == 2 ) text += "% Comment\n* x\n\"y\n";
  for( int i = 0; i < edges; ++i )
  {
    auto p = pairOf( sym::choice( "pair", 0, 5 ) );
    if( extra == 3 ) text += "  \t";
    text += ( names ? names[p.first] : S( std::size_t( p.first ) ) ) + separator + ( names ? names[p.second] : S( std::size_t( p.second ) ) );
    if( weights ) text += separator + S( std::size_t( firstValue + i ) );
    if( extra == 3 ) text += "  ";
    if( i + 1 < edges || extra != 4 ) text += "\n";
    if( i == 0 && extra == 5 ) text += "   \n\t# indented\n";
    std::size_t u = id( p.first ), v = id( p.second );
    E->add( { u, v }, weights ? table[ firstValue + i ] : 0.0 );
    E->vertex( u, 0 );
    E->vertex( v, 0 );
  }
  return text;
}

//@ edges: up to two edges on three vertices given by numbers or names, all weights, comments, blank lines, surrounding white space, missing final line break
HARNESS(edges)
{
  static const char* names[] = { "b", "a", "cc" };
  symbolicTable( 2, -100, 100 );
  bool named = sym::flag( "named" ), weights = sym::flag( "weights" ), read = sym::flag( "read" );
  Expected E;
  int edges = sym::choice( "edges", 0, 2 ), extra = sym::choice( "extra", 0, 5 );
  std::string text = edgeList( edges, named ? names : nullptr, " ", weights, extra, &E, 1 );
  if( !read )
    for( auto& p : E.simplices ) p.second = { 0.0 };
  TextFile in( text );
  io::EdgeListReader reader;
  reader.setReadWeights( read );
  VComplex K;
  reader( in, K );
  E.compare( K );
  REACH("edges");
}

//@ separators: two edges with all weights and different separators
HARNESS(separators)
{
  static const char* separators[] = { ",", ";", ":", "|" };
  symbolicTable( 2, -100, 100 );
  int k = sym::choice( "separator", 0, 3 );
  Expected E;
  std::string text = edgeList( 2, nullptr, separators[k], true, 0, &E, 1 );
  TextFile in( text );
  io::EdgeListReader reader;
  reader.setSeparator( separators[k] );
  VComplex K;
  reader( in, K );
  E.compare( K );
  REACH("separators");
}

//@ again: the same reader for two edge lists with one or two edges and numbers or names
HARNESS(again)
{
  static const char* names1[] = { "b", "a", "c" };
  static const char* names2[] = { "a", "d", "b" };
  symbolicTable( 2, -100, 100 );
  bool named = sym::flag( "named" );
  io::EdgeListReader reader;
  for( int k = 0; k < 2; ++k )
  {
    Expected E;
    int edges = sym::choice( "edges", 1, 2 - k );
    std::string text = edgeList( edges, named ? ( k ? names2 : names1 ) : nullptr, " ", true, 0, &E, 1 );
    TextFile in( text );
    VComplex K;
    reader( in, K );
    E.compare( K );
  }
  REACH("again");
}

//@ malformed: edge lists with a line of one token are rejected
HARNESS(malformed)
{
  bool bad = sym::flag( "bad" );
  TextFile in( bad ? "0 1\n2\n" : "0 1\n2 0\n" );
  io::EdgeListReader reader;
  VComplex K;
  bool thrown = false;
  try { reader( in, K ); } catch( std::runtime_error& ) { thrown = true; }
  ASSERT( thrown == bad, "lines without an edge are rejected" );
  REACH("malformed");
}

static void gml( int nodes, int edges )
{
  symbolicTable( 5, -100, 100 );
  int layout = sym::choice( "layout", 0, 4 ), attribute = sym::choice( "attribute", 0, 2 ), number = sym::choice( "number", 0, 3 );
  bool named = layout == 4;
  std::string open = layout == 1 ? "\n[\n" : " [\n", indent = layout == 2 ? "\t  " : "", blank = layout == 3 ? "\n  \n" : "";
  static const char* names[] = { "b", "c", "a" };
  // nodes with names are numbered in order of their names
  std::size_t order[] = { 0, 1, 0 };
  if( nodes == 3 ) { order[0] = 1; order[1] = 2; }
  const char* key = attribute == 1 ? "weight" : "value";
  auto weight = [&] ( int k )
  {
    return number == 0 ? S( std::size_t( k ) ) : number == 1 ? "-" + S( std::size_t( k ) ) : number == 2 ? S( std::size_t( k ) ) + ".0" : S( std::size_t( k ) ) + "e+0";
  };
  auto value = [&] ( int k ) { return number == 1 ? -table[k] : table[k]; };
  std::string text = blank + "Creator \"me\"\ngraph" + open + blank + indent + "directed 0\ncomment \"x\"\n";
  Expected E;
  std::vector<double> W;
  for( int i = 0; i < nodes; ++i )
  {
    std::size_t id = named ? order[i] : std::size_t( i );
    text += indent + "node" + open + indent + "id " + ( named ? names[i] : S( std::size_t( i ) ) ) + "\n" + indent + "label \"Node " + S( std::size_t( i ) ) + "\"\n" + blank;
    if( attribute != 0 )
      text += indent + key + " " + weight( i + 1 ) + "\n";
    text += indent + "]\n";
    W.push_back( attribute != 0 ? value( i + 1 ) : 0.0 );
    E.add( { id }, W.back() );
  }
  for( int i = 0; i < edges; ++i )
  {
    auto p = pairOf( sym::choice( "pair", 0, nodes == 2 ? 1 : 5 ) );
    bool weighted = sym::flag( "weighted" );
    text += indent + "edge" + open + indent + "source " + ( named ? names[p.first] : S( std::size_t( p.first ) ) ) + "\n" + indent + "target " + ( named ? names[p.second] : S( std::size_t( p.second ) ) ) + "\n";
    if( weighted )
      text += indent + ( attribute == 1 ? "weight " : "value " ) + weight( 4 + i ) + "\n";
    text += indent + "]\n";
    std::size_t u = std::size_t( p.first ), v = std::size_t( p.second );
    E.add( { named ? order[u] : u, named ? order[v] : v }, weighted ? value( 4 + i ) : sym::max( W[u], W[v] ) );
  }
  text += blank + "]\n";
  io::GMLReader reader;
  for( int round = 0; round < 2; ++round )
  {
    TextFile in( text );
    VComplex K;
    reader( in, K );
    E.compare( K );
  }
  auto labels = reader.getNodeAttribute( "label" );
  ASSERT( labels.size() == std::size_t( nodes ), "one label per node" );
  for( int i = 0; i < nodes; ++i )
    ASSERT( labels[ named ? names[i] : S( std::size_t( i ) ) ] == "Node " + S( std::size_t( i ) ), "label of a node" );
  auto attributes = reader.getNodeAttributeNames();
  ASSERT( attributes.size() == std::size_t( attribute == 0 || nodes == 0 ? nodes > 0 : 2 ), "attributes of nodes" );
  REACH("gml");
}

//@ gml: two nodes and one edge in all layouts, with numbers or names, with all weights
HARNESS(gml) { gml( 2, 1 ); }
//@ t_gml: three nodes and two edges in all layouts, with numbers or names, with all weights
HARNESS(t_gml) { gml( 3, 2 ); }
//@ bare: one or no node, no edge
HARNESS(bare) { gml( sym::choice( "nodes", 0, 1 ), 0 ); }

//@ duplicates: nodes with the same name are rejected, with and without attributes, in two formats
HARNESS(duplicates)
{
  int a = sym::choice( "first", 0, 2 ), b = sym::choice( "second", 0, 2 );
  bool attributes = sym::flag( "attributes" ), pajek = sym::flag( "pajek" );
  std::string label = attributes ? "\nlabel \"L\"\nweight 0" : "", A = S( std::size_t( a + 1 ) ), B = S( std::size_t( b + 1 ) );
  TextFile in( pajek ? "*Vertices 2\n" + A + " \"x\"\n" + B + " \"y\"\n*Edges\n" : "graph [\nnode [\nid " + A + label + "\n]\nnode [\nid " + B + label + "\n]\n]\n" );
  VComplex K;
  bool thrown = false;
  try
  {
    if( pajek ) { io::PajekReader reader; reader( in, K ); }
    else        { io::GMLReader reader; reader( in, K ); }
  }
  catch( std::runtime_error& ) { thrown = true; }
  ASSERT( thrown == ( a == b ), "duplicate nodes are rejected" );
  REACH("duplicates");
}

//@ columns: an edge that is given two or three times with all weights and a further column keeps its first weight, in each of the formats
HARNESS(columns)
{
  symbolicTable( 4, -100, 100 );
  int format = sym::choice( "format", 0, 2 ), times = sym::choice( "times", 2, 3 );
  bool swapped = sym::flag( "swapped" ), further = format == 0 && sym::flag( "further" ), last = sym::flag( "last" );
  std::string text = format == 1 ? "graph [\nnode [\nid 1\n]\nnode [\nid 2\n]\nnode [\nid 3\n]\n" : format == 2 ? "*Vertices 3\n*Edges\n" : "";
  for( int i = 0; i < times; ++i )
  {
    std::string u = swapped && i == 1 ? "2" : "1", v = swapped && i == 1 ? "1" : "2", w = S( std::size_t( i + 1 ) );
    if( i == 1 && !last ) text += format == 1 ? "edge [\nsource 3\ntarget 1\nweight 4\n]\n" : "3 1 4\n";
    text += format == 1 ? "edge [\nsource " + u + "\ntarget " + v + "\nweight " + w + "\n]\n" : u + " " + v + " " + w + ( further ? " 4 4\n" : "\n" );
  }
  if( last ) text += format == 1 ? "edge [\nsource 3\ntarget 1\nweight 4\n]\n" : "3 1 4\n";
  if( format == 1 ) text += "]\n";
  TextFile in( text );
  VComplex K;
  if( format == 0 ) { io::EdgeListReader reader; reader( in, K ); }
  if( format == 1 ) { io::GMLReader reader; reader( in, K ); }
  if( format == 2 ) { io::PajekReader reader; reader( in, K ); }
  Expected E;
  for( std::size_t i = 1; i <= 3; ++i ) E.add( { i }, 0 );
  E.add( { 1, 2 }, table[1] );
  E.add( { 1, 3 }, table[4] );
  E.compare( K );
  REACH("columns");
}

//@ attributes: three nodes with labels and up to two edges with and without weights, values and further attributes, all weights, the maximum, the minimum or the first of two weights
HARNESS(attributes)
{
  symbolicTable( 7, -100, 100 );
  static const char* labels[] = { "A-1 (x), y's; #2", "[", "b_3/4 = 5" };
  int functor = sym::choice( "functor", 0, 2 );
  std::string text = "graph [\nname G1\n";
  Expected E;
  for( std::size_t i = 0; i < 3; ++i )
  {
    text += "node [\nid " + S( i ) + "\nlabel \"" + labels[i] + "\"\n" + ( i == 2 ? "value 7\nweight 3\n" : "weight " + S( i + 1 ) + "\n" ) + ( i == 1 ? "color red\n" : "" ) + "]\n";
    E.add( { i }, table[ i + 1 ] );
  }
  static const int ends[2][2] = { { 1, 0 }, { 2, 0 } };
  int kind[2];
  for( int i = 0; i < 2; ++i )
  {
    kind[i] = sym::choice( "kind", 0, 3 );
    int u = ends[i][0], v = ends[i][1];
    text += "edge [\nsource " + S( std::size_t( u ) ) + "\ntarget " + S( std::size_t( v ) ) + "\n";
    if( kind[i] & 2 ) text += "value 6\n";
    if( kind[i] & 1 ) text += "weight " + S( std::size_t( 4 + i ) ) + "\nkind k" + S( std::size_t( i ) ) + "\n";
    text += "]\n";
    double a = table[ u + 1 ], b = table[ v + 1 ];
    E.add( { std::size_t( u ), std::size_t( v ) }, kind[i] & 1 ? table[ 4 + i ] : kind[i] & 2 ? table[6] : functor == 0 ? sym::max( a, b ) : functor == 1 ? sym::min( a, b ) : a );
  }
  TextFile in( text + "]\n" );
  io::GMLReader reader;
  VComplex K;
  if( functor == 0 )      reader( in, K );
  else if( functor == 1 ) reader( in, K, [] ( Value a, Value b ) { return a.x < b.x ? a : b; } );
  else                    reader( in, K, [] ( Value a, Value ) { return a; } );
  E.compare( K );
  auto L = reader.getNodeAttribute( "label" ), C = reader.getNodeAttribute( "color" );
  ASSERT( L.size() == 3 && C.size() == 3, "one label per node" );
  for( std::size_t i = 0; i < 3; ++i )
  {
    ASSERT( L[ S( i ) ] == labels[i], "label of a node" );
    ASSERT( C[ S( i ) ] == ( i == 1 ? "red" : "" ), "attribute of a node" );
  }
  for( int i = 0; i < 2; ++i )
  {
    std::string u = S( std::size_t( ends[i][0] ) ), v = S( std::size_t( ends[i][1] ) );
    ASSERT( reader.getEdgeAttribute( u, v, "weight" ) == ( kind[i] & 1 ? S( std::size_t( 4 + i ) ) : std::string() ), "weight of an edge as text" );
    ASSERT( reader.getEdgeAttribute( u, v, "value" ) == ( kind[i] & 2 ? "6" : "" ), "value of an edge as text" );
    ASSERT( reader.getEdgeAttribute( u, v, "kind" ) == ( kind[i] & 1 ? "k" + S( std::size_t( i ) ) : std::string() ), "attribute of an edge" );
  }
  ASSERT( reader.getEdgeAttribute( "1", "2", "weight" ).empty() && reader.getEdgeAttribute( "1", "1", "kind" ).empty(), "attributes of missing edges" );
  std::vector<std::string> names, all = { "kind", "value", "weight" };
  for( auto&& name : all )
    if( ( ( kind[0] | kind[1] ) & 1 && name != "value" ) || ( ( kind[0] | kind[1] ) & 2 && name == "value" ) )
      names.push_back( name );
  ASSERT( reader.getEdgeAttributeNames() == names, "names of the attributes of edges" );
  ASSERT( reader.getNodeAttributeNames() == std::vector<std::string>( { "color", "label", "value", "weight" } ), "names of the attributes of nodes" );
  REACH("attributes");
}

//@ specification: files with up to four of three announced vertices, keywords in several spellings; missing vertices are rejected
HARNESS(specification)
{
  static const char* vertices[] = { "*Vertices 3", "*Verts 3", "*VERTS  3", "*vertices\t3" };
  static const char* edges[] = { "*Edges", "*edges", "*Arcs", "*Edges :1" };
  symbolicTable( 1, -100, 100 );
  int n = sym::choice( "given", 0, 4 ), k = sym::choice( "spelling", 0, 3 );
  std::string text = std::string( vertices[k] ) + "\n";
  for( int i = 0; i < n; ++i )
    text += S( std::size_t( i + 1 ) ) + " \"v " + S( std::size_t( i ) ) + ", (x)\"\n";
  TextFile in( text + edges[k] + "\n1 2 1\n" );
  io::PajekReader reader;
  VComplex K;
  bool thrown = false;
  try { reader( in, K ); } catch( std::runtime_error& ) { thrown = true; }
  ASSERT( thrown == ( n == 1 || n == 2 ), "missing vertices are rejected" );
  if( !thrown )
  {
    Expected E;
    for( std::size_t i = 1; i <= ( n == 4 ? 4u : 3u ); ++i ) E.add( { i }, 0 );
    E.add( { 1, 2 }, table[1] );
    E.compare( K );
    auto map = reader.getLabelMap();
    ASSERT( map.size() == std::size_t( n ), "number of labels" );
    for( int i = 0; i < n; ++i )
      ASSERT( map[ S( std::size_t( i + 1 ) ) ] == "v " + S( std::size_t( i ) ) + ", (x)", "label of a vertex" );
    REACH("specification");
  }
}

//@ roundtrip: writing a graph on three vertices and reading it again, weights from a set with negative and small values
HARNESS(roundtrip)
{
  typedef aleph::topology::Simplex<double, std::size_t> T;
  typedef aleph::topology::SimplicialComplex<T> C;
  static const double weights[] = { 1, -2.5, 1e-07, 3e+20 };
  std::vector<T> simplices;
  Expected E;
  for( std::size_t i = 1; i <= 3; ++i )
  {
    simplices.push_back( T( i ) );
    E.add( { i }, 0 );
  }
  for( std::size_t i = 1; i <= 3; ++i )
    for( std::size_t j = i+1; j <= 3; ++j )
    {
      int w = sym::choice( "weight", -1, i == 1 && j == 2 ? 3 : 1 );
      if( w < 0 )
        continue;
      simplices.push_back( T( { i, j }, weights[w] ) );
      E.add( { i, j }, weights[w] );
    }
  if( sym::flag( "filled" ) )
    simplices.push_back( T( { std::size_t(1), std::size_t(2), std::size_t(3) }, 0.0 ) );
  C K( simplices.begin(), simplices.end() ), L;
  std::vector<std::string> labels = { "x", "y y", "z" };
  bool named = sym::flag( "labels" );
  io::GMLWriter writer;
  if( named )
    writer.setNodeLabels( labels.begin(), labels.end() );
  bool toFile = sym::flag( "file" );
  std::ostringstream out;
  writer( out, K );
  if( toFile )
  {
    std::string name = memoryFile( "" );
    writer( name, K );
    std::ifstream written( name );
    std::stringstream text;
    text << written.rdbuf();
    ASSERT( text.str() == out.str(), "writing to a file gives the same text as writing to a stream" );
  }
  TextFile in( out.str() );
  io::GMLReader reader;
  reader( in, L );
  E.compare( L );
  auto read = reader.getNodeAttribute( "label" );
  for( std::size_t i = 0; i < 3; ++i )
    ASSERT( read[ S( i+1 ) ] == ( named ? labels[i] : std::string() ), "labels are written" );
  REACH("roundtrip");
}

//@ pajek: three vertices with or without labels, up to two edges with or without weights, comments and blank lines
HARNESS(pajek)
{
  symbolicTable( 2, -100, 100 );
  bool labels = sym::flag( "labels" );
  int extra = sym::choice( "extra", 0, 4 ), edges = sym::choice( "edges", 0, 2 );
  std::string text, indent = extra == 1 ? " \t" : "";
  Expected E;
  if( extra == 2 ) text += "% Comment\n";
  text += extra == 3 ? "*vertices   3\n" : "*Vertices 3\n";
  if( labels )
    for( std::size_t i = 1; i <= 3; ++i )
      text += indent + S( i ) + " \"Label " + S( i ) + "\"\n";
  if( extra == 2 ) text += "   % Comment\n";
  if( extra == 4 ) text += "\n";
  text += extra == 3 ? "*ARCS\n" : "*Edges\n";
  for( int i = 0; i < edges; ++i )
  {
    auto p = pairOf( sym::choice( "pair", 0, 5 ) );
    std::size_t u = std::size_t( p.first + 1 ), v = std::size_t( p.second + 1 );
    int weighted = sym::choice( "weighted", 0, 2 );
    text += indent + S( u ) + " " + S( v );
    if( weighted ) text += ( weighted == 2 ? " -" : " " ) + S( std::size_t( i + 1 ) );
    text += "\n";
    if( extra == 4 ) text += "\n";
    E.add( { u, v }, weighted == 2 ? -table[i+1] : weighted ? table[i+1] : 0.0 );
  }
  for( std::size_t i = 1; i <= 3; ++i )
    E.vertex( i, 0 );
  io::PajekReader reader;
  for( int round = 0; round < 2; ++round )
  {
    TextFile in( text );
    VComplex K;
    reader( in, K );
    E.compare( K );
  }
  auto map = reader.getLabelMap();
  ASSERT( map.size() == ( labels ? 3u : 0u ), "number of labels" );
  for( std::size_t i = 1; i <= 3 && labels; ++i )
    ASSERT( map[ S( i ) ] == "Label " + S( i ), "label of a vertex" );
  REACH("pajek");
}

//@ triangulations: up to two blocks with up to two simplices in several layouts
HARNESS(triangulations)
{
  std::string text;
  std::vector<Expected> blocks;
  int count = sym::choice( "blocks", 0, 2 ), layout = sym::choice( "layout", 0, 4 );
  if( layout == 1 ) text += "# Comment\n\n";
  for( int b = 0; b < count; ++b )
  {
    Expected E;
    text += "manifold_lex_d2_n4_#" + S( std::size_t( b + 1 ) ) + "=" + ( layout == 4 ? "\n" : "" ) + "[";
    int n = sym::choice( "simplices", 1, 2 );
    for( int i = 0; i < n; ++i )
    {
      std::size_t first = std::size_t( sym::choice( "first", 1, 2 ) ), last = i + 3u;
      bool triangle = sym::flag( "triangle" );
      if( i ) text += layout == 2 ? ",\n  " : layout == 3 ? ", " : ",";
      text += "[" + S( first ) + ( layout == 3 ? ", " : "," ) + S( last ) + ( triangle ? ",10" : "" ) + "]";
      E.add( triangle ? Vertices( { first, last, 10 } ) : Vertices( { first, last } ), 0 );
    }
    text += "]\n";
    if( layout == 1 ) text += "\n";
    blocks.push_back( E );
  }
  std::istringstream in( text );
  std::vector<VComplex> K( 1 );
  io::LexicographicTriangulationReader reader;
  reader( in, K );
  ASSERT( K.size() == blocks.size(), "one complex per block" );
  for( std::size_t i = 0; i < K.size(); ++i )
    blocks[i].compare( K[i] );
  REACH("triangulations");
}

// One or two graphs given by sparse matrices. Nodes 1 to 4, the first nodes belong to the first graph.
static void sparseGraphs( int edges )
{
  typedef aleph::topology::Simplex<double, std::size_t> T;
  typedef aleph::topology::SimplicialComplex<T> C;
  int nodes = 4, first = sym::choice( "first", 2, 4 );
  int ids = sym::choice( "ids", 0, 1 );
  bool attributes = sym::flag( "attributes" ), labels = sym::flag( "labels" );
  std::string A, indicator, graphLabels = "g0\ng1\n", nodeLabels, nodeAttributes, edgeAttributes;
  Expected E[2];
  static const double values[] = { 0, 1.5, -2, 3, 4 };
  for( int v = 1; v <= nodes; ++v )
  {
    int g = v <= first ? 0 : 1;
    indicator += S( std::size_t( ids ? 3 + 2 * g : g + 1 ) ) + "\n";
    nodeLabels += " l" + S( std::size_t( v ) ) + "\n";
    nodeAttributes += "7," + ( values[v] < 0 ? "-" + S( std::size_t( -values[v] ) ) : v == 1 ? "1.5" : S( std::size_t( values[v] ) ) ) + "\n";
  }
  std::map< Vertices, double > weights;
  for( int i = 0; i < edges; ++i )
  {
    int u = sym::choice( "source", 1, 4 ), v = sym::choice( "target", 1, 4 );
    int g = u <= first ? 0 : 1;
    ASSUME( u != v && ( v <= first ? 0 : 1 ) == g );
    double w = i + 1;
    A += S( std::size_t( u ) ) + ", " + S( std::size_t( v ) ) + "\n";
    edgeAttributes += S( std::size_t( i + 1 ) ) + "\n";
    E[g].add( { std::size_t( u ), std::size_t( v ) }, attributes ? w : 0.0 );
    E[g].vertex( std::size_t( u ), attributes ? values[u] : 0.0 );
    E[g].vertex( std::size_t( v ), attributes ? values[v] : 0.0 );
  }
  Directory d;
  std::string name = d.write( "x_A.txt", A );
  d.write( "x_graph_indicator.txt", indicator );
  if( labels )
  {
    d.write( "x_graph_labels.txt", graphLabels );
    d.write( "x_node_labels.txt", nodeLabels );
  }
  if( attributes )
  {
    d.write( "x_node_attributes.txt", nodeAttributes );
    d.write( "x_edge_attributes.txt", edgeAttributes );
  }
  io::SparseAdjacencyMatrixReader reader;
  reader.setReadGraphLabels( labels );
  reader.setReadNodeLabels( labels );
  reader.setReadNodeAttributes( attributes );
  reader.setReadEdgeAttributes( attributes );
  if( attributes )
  {
    reader.setNodeAttributeIndex( 1 );
    reader.setEdgeAttributeIndex( 0 );
  }
  std::vector<C> K;
  reader( name, K );
  ASSERT( K.size() == ( first == 4 ? 1u : 2u ), "one complex per graph" );
  for( std::size_t g = 0; g < K.size(); ++g )
    E[g].compare( K[g] );
  std::vector<std::string> L, N;
  reader.graphLabels( std::back_inserter( L ) );
  reader.nodeLabels( std::back_inserter( N ) );
  ASSERT( N.size() == ( labels ? 4u : 0u ), "one label per node" );
  for( std::size_t i = 0; i < N.size(); ++i )
    ASSERT( N[i] == "l" + S( i + 1 ), "label of a node" );
  ASSERT( !labels || L.size() == 2 || L.size() == K.size(), "labels of graphs" );
  if( labels && L.size() == 2 && K.size() == 2 && K[0].size() && K[1].size() )
    ASSERT( L[0] == "g0" && L[1] == "g1", "label of a graph" );
  REACH("sparse");
}

//@ sparse: up to two graphs on four nodes with two edges, with and without labels and attributes
HARNESS(sparse) { sparseGraphs( 2 ); }

//@ large: a cycle with nine to fourteen nodes, numbers of one and two digits or names, all weights, in each of the formats
HARNESS(large)
{
  int format = sym::choice( "format", 0, 4 ), n = sym::choice( "n", 9, 14 );
  bool named = format < 2 && sym::flag( "named" );
  symbolicTable( 2 * n, -100, 100 );
  std::size_t N = std::size_t( n ), shift = format == 2 ? 1 : 0;
  Expected E;
  std::string text;
  auto name  = [&] ( std::size_t i ) { return named ? std::string( 1 + i % 3, char( 'a' + ( format == 0 ? i : N - 1 - i ) ) ) : S( i + shift ); };
  auto id    = [&] ( std::size_t i ) { return named && format == 1 ? N - 1 - i : i + shift; };
  auto nodes = [&] ( bool weights ) { for( std::size_t i = 0; i < N; ++i ) E.add( { id( i ) }, weights ? table[ 1 + N + i ] : 0.0 ); };
  auto edges = [&] { for( std::size_t i = 0; i < N; ++i ) E.add( { id( i ), id( ( i + 1 ) % N ) }, table[ 1 + i ] ); };
  VComplex K;
  if( format == 0 )
  {
    for( std::size_t i = 0; i < N; ++i )
      text += name( i ) + "  " + name( ( i + 1 ) % N ) + "\t" + S( i + 1 ) + "\n";
    nodes( false );
    edges();
    TextFile in( text );
    io::EdgeListReader reader;
    reader( in, K );
    REACH("large edge list");
  }
  else if( format == 1 )
  {
    text = "graph [\n";
    for( std::size_t i = 0; i < N; ++i )
      text += "  node [\n    id " + name( i ) + "\n    weight " + S( 1 + N + i ) + "\n    label \"L" + S( i ) + "\"\n  ]\n";
    for( std::size_t i = 0; i < N; ++i )
      text += "  edge [\n    source " + name( i ) + "\n    target " + name( ( i + 1 ) % N ) + "\n    weight " + S( i + 1 ) + "\n  ]\n";
    text += "]\n";
    nodes( true );
    edges();
    TextFile in( text );
    io::GMLReader reader;
    reader( in, K );
    auto labels = reader.getNodeAttribute( "label" );
    ASSERT( labels.size() == N, "one label per node" );
    for( std::size_t i = 0; i < N; ++i )
      ASSERT( labels[ name( i ) ] == "L" + S( i ), "label of a node" );
    REACH("large GML");
  }
  else if( format == 2 )
  {
    text = "*Vertices " + S( N ) + "\n";
    for( std::size_t i = 0; i < N; ++i )
      text += S( i + 1 ) + " \"L" + S( i ) + "\"\n";
    text += "*Edges\n";
    for( std::size_t i = 0; i < N; ++i )
      text += S( i + 1 ) + " " + S( ( i + 1 ) % N + 1 ) + " " + S( i + 1 ) + "\n";
    nodes( false );
    edges();
    TextFile in( text );
    io::PajekReader reader;
    reader( in, K );
    auto map = reader.getLabelMap();
    ASSERT( map.size() == N, "number of labels" );
    for( std::size_t i = 0; i < N; ++i )
      ASSERT( map[ S( i + 1 ) ] == "L" + S( i ), "label of a vertex" );
    REACH("large Pajek");
  }
  else if( format == 3 )
  {
    std::vector<VComplex> L;
    for( int block = 1; block <= 3; ++block )
    {
      text += "manifold_lex_d1_n" + S( N ) + "_#" + S( std::size_t( block ) ) + "=[";
      for( std::size_t i = 0; i < N; ++i )
        text += std::string( i == 0 ? "" : i % 4 == 0 ? ",\n  " : "," ) + "[" + S( i + std::size_t( block ) ) + "," + S( ( i + 1 ) % N + std::size_t( block ) ) + "," + S( 98 + std::size_t( block ) ) + "]";
      text += "]\n\n";
    }
    std::istringstream in( text );
    io::LexicographicTriangulationReader reader;
    reader( in, L );
    ASSERT( L.size() == 3, "one complex per block" );
    for( std::size_t block = 1; block <= L.size(); ++block )
    {
      Expected B;
      for( std::size_t i = 0; i < N; ++i )
        B.add( { i + block, ( i + 1 ) % N + block, 98 + block }, 0 );
      B.compare( L[block-1] );
    }
    REACH("large triangulations");
    return;
  }
  else
  {
    typedef aleph::topology::SimplicialComplex< aleph::topology::Simplex<double, std::size_t> > C;
    // graphs of three nodes each, the last one may be smaller; every edge is given in both directions
    std::string A, indicator, labels, graphLabels;
    std::size_t graphs = ( N + 2 ) / 3;
    std::vector<Expected> G( graphs );
    for( std::size_t i = 0; i < N; ++i )
    {
      indicator += S( 8 + i / 3 ) + "\n";
      labels += "l" + S( i ) + "\n";
      G[i/3].vertex( i + 1, 0 );
    }
    for( std::size_t g = 0; g < graphs; ++g )
      graphLabels += "g" + S( g ) + "\n";
    for( std::size_t i = 0; i < N; ++i )
      for( std::size_t j = 0; j < N; ++j )
        if( i != j && i / 3 == j / 3 )
        {
          A += S( i + 1 ) + ", " + S( j + 1 ) + "\n";
          if( i < j )
            G[i/3].add( { i + 1, j + 1 }, 0 );
        }
    if( N % 3 == 1 ) // a node without edges is not part of the matrix
      G.back() = Expected();
    Directory d;
    std::string file = d.write( "x_A.txt", A );
    d.write( "x_graph_indicator.txt", indicator );
    d.write( "x_graph_labels.txt", graphLabels );
    d.write( "x_node_labels.txt", labels );
    io::SparseAdjacencyMatrixReader reader;
    reader.setReadGraphLabels();
    reader.setReadNodeLabels();
    std::vector<C> L;
    reader( file, L );
    ASSERT( L.size() == graphs, "one complex per graph" );
    for( std::size_t g = 0; g < graphs; ++g )
      G[g].compare( L[g] );
    std::vector<std::string> gl, nl;
    reader.graphLabels( std::back_inserter( gl ) );
    reader.nodeLabels( std::back_inserter( nl ) );
    ASSERT( nl.size() == N && gl.size() == graphs, "number of labels" );
    for( std::size_t i = 0; i < N; ++i )
      ASSERT( nl[i] == "l" + S( i ), "label of a node" );
    for( std::size_t g = 0; g < graphs; ++g )
      ASSERT( gl[g] == "g" + S( g ), "label of a graph" );
    REACH("large sparse matrices");
    return;
  }
  E.compare( K );
}
