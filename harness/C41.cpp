// C41: files of persistence diagrams
// flags: -DALEPH_WITH_RAPID_JSON
#include "files.h"
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>

using aleph::PersistenceDiagram;

static std::string S( std::size_t i ) { return std::to_string( i ); }

//@ raw: up to three points with all coordinates, comments and blank lines, different separators, missing final line break
HARNESS(raw)
{
  static const char* separators[] = { " ", "\t", "   \t " };
  symbolicTable( 6, -100, 100 );
  std::size_t n = std::size_t( sym::choice( "n", 0, 3 ) );
  int separator = sym::choice( "separator", 0, 2 );
  int extra = sym::choice( "extra", 0, 4 );
  std::string text;
  if( extra == 1 ) text += "# Comment\n\n";
  for( std::size_t i = 0; i < n; ++i )
  {
    if( extra == 2 ) text += "  ";
    text += S( 2 * i + 1 ) + separators[ separator ] + S( 2 * i + 2 );
    if( extra == 2 ) text += " \t";
    if( i + 1 < n || extra != 3 ) text += "\n";
    if( extra == 4 ) text += "\n#1 2\n";
  }
  auto D = aleph::io::load<Value>( memoryFile( text ) );
  ASSERT( D.size() == n, "one point per line" );
  std::size_t i = 0;
  for( auto&& p : D )
  {
    ASSERT( double( p.x() ) == table[ 2 * i + 1 ] && double( p.y() ) == table[ 2 * i + 2 ], "coordinates in the order of the file" );
    ++i;
  }
  REACH("raw");
}

//@ errors: lines with a single number and files that do not exist are refused
HARNESS(errors)
{
  int kind = sym::choice( "kind", 0, 2 );
  bool refused = false;
  try
  {
    if( kind == 0 )      aleph::io::load<double>( memoryFile( "1 2\n3\n" ) );
    else if( kind == 1 ) aleph::io::load<double>( "/nonexistent/file" );
    else                 aleph::io::readJSON<double>( std::string( "/nonexistent/file" ) );
  }
  catch( std::runtime_error& ) { refused = true; }
  ASSERT( refused, "invalid files are refused" );
  REACH("errors");
}

static const char* const numbers[] = { "0", "-1.5", "0.25", "inf", "1e-05", "123456" };
static double number( int k )
{
  static const double v[] = { 0, -1.5, 0.25, std::numeric_limits<double>::infinity(), 1e-05, 123456 };
  return v[k];
}

static PersistenceDiagram<double> diagram( std::size_t n, int first )
{
  PersistenceDiagram<double> D;
  D.setDimension( std::size_t( sym::choice( "dimension", 0, 2 ) ) );
  for( std::size_t i = 0; i < n; ++i )
  {
    double x = number( sym::choice( "x", 0, first ) );
    double y = number( sym::choice( "y", 2, 5 ) );
    D.add( x, y );
  }
  return D;
}

static void same( const PersistenceDiagram<double>& D, const PersistenceDiagram<double>& E, bool dimension )
{
  ASSERT( D.size() == E.size() && ( !dimension || D.dimension() == E.dimension() ) && D.betti() == E.betti(), "size, dimension and number of unpaired points" );
  auto it = E.begin();
  for( auto&& p : D )
  {
    ASSERT( p.x() == it->x() && p.y() == it->y(), "points in the same order" );
    ++it;
  }
}

//@ text: up to two points with six coordinates, finite or not, written and read again
HARNESS(text)
{
  auto D = diagram( std::size_t( sym::choice( "n", 0, 2 ) ), 2 );
  std::ostringstream out;
  out << D;
  same( D, aleph::io::load<double>( memoryFile( out.str() ) ), false );
  REACH("text");
}

//@ json: one or two diagrams of up to two points, written and read again, with and without a name and further attributes
HARNESS(json)
{
  int n = sym::choice( "n", 0, 2 );
  int m = sym::choice( "m", 0, 1 );
  int kind = sym::choice( "attributes", 0, 2 );
  std::vector< PersistenceDiagram<double> > v;
  v.push_back( diagram( std::size_t( n ), 1 ) );
  if( m )
    v.push_back( diagram( 1, 0 ) );
  std::ostringstream out;
  out << "{ \"diagrams\": [\n";
  for( std::size_t i = 0; i < v.size(); ++i )
  {
    if( i )
      out << ",\n";
    if( kind == 0 )      aleph::io::writeJSON( out, v[i] );
    else if( kind == 1 ) aleph::io::writeJSON( out, v[i], "Some name" );
    else                 aleph::io::writeJSON( out, v[i], "n", { { "key", "value" }, { "other", "1" } } );
  }
  out << "\n]\n}\n";
  std::istringstream in( out.str() );
  auto w = aleph::io::readJSON<double>( in );
  ASSERT( w.size() == v.size(), "number of diagrams" );
  for( std::size_t i = 0; i < v.size(); ++i )
    same( v[i], w[i], true );
  REACH("json");
}

//@ values: JSON text with one or two points, all coordinates; stored sizes and numbers of unpaired points that do not fit are refused
HARNESS(values)
{
  symbolicTable( 4, -100, 100 );
  std::size_t n = std::size_t( sym::choice( "n", 0, 2 ) );
  int size = sym::choice( "size", 0, 3 ), betti = sym::choice( "betti", 0, 1 );
  std::string text = "{\"diagrams\":[{\"dimension\":1,\"betti\":" + S( std::size_t( betti ) ) + ",\"size\":" + S( std::size_t( size ) ) + ",\"diagram\":[";
  for( std::size_t i = 0; i < n; ++i )
    text += std::string( i ? "," : "" ) + "[\"" + S( 2 * i + 1 ) + "\",\"" + S( 2 * i + 2 ) + "\"]";
  text += "]}]}";
  std::istringstream in( text );
  bool refused = false;
  std::vector< PersistenceDiagram<Value> > v;
  try { v = aleph::io::readJSON<Value>( in ); }
  catch( std::runtime_error& ) { refused = true; }
  ASSERT( refused == ( std::size_t( size ) != n || betti != 0 ), "exactly the wrong counts are refused" );
  if( !refused )
  {
    ASSERT( v.size() == 1 && v[0].size() == n && v[0].dimension() == 1, "diagram" );
    std::size_t i = 0;
    for( auto&& p : v[0] )
    {
      ASSERT( double( p.x() ) == table[ 2 * i + 1 ] && double( p.y() ) == table[ 2 * i + 2 ], "coordinates in the order of the file" );
      ++i;
    }
    REACH("accepted");
  }
  else
    REACH("refused");
}

//@ missing: JSON text without diagrams is refused
HARNESS(missing)
{
  std::istringstream in( sym::flag( "empty" ) ? "{}" : "{\"diagram\":[]}" );
  bool refused = false;
  try { aleph::io::readJSON<double>( in ); }
  catch( std::runtime_error& ) { refused = true; }
  ASSERT( refused, "no diagrams" );
  REACH("missing");
}

//@ output: writing to a file gives the same text as writing to a stream
HARNESS(output)
{
  auto D = diagram( std::size_t( sym::choice( "n", 0, 1 ) ), 1 );
  Directory d; // after all choices: every path has its own directory
  std::string name = d.write( "a.json", "" );
  aleph::io::writeJSON( name, D, "x" );
  std::ifstream in( name );
  std::stringstream a, b;
  a << in.rdbuf();
  aleph::io::writeJSON( b, D, "x" );
  ASSERT( a.str() == b.str(), "same text" );
  REACH("output");
}
