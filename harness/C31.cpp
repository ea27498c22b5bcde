// C31: point clouds
#include "sym.h"
#include <vector>
#include <aleph/containers/PointCloud.hh>
#include <sstream>
#include <stdexcept>
#include <string>

typedef aleph::containers::PointCloud<double> Cloud;
typedef std::vector< std::vector<double> > Rows;

static std::vector<double> symbolicPoint( std::size_t d )
{
  std::vector<double> p;
  for( std::size_t k = 0; k < d; ++k )
    p.push_back( sym::fixed( "x", -1000, 1000 ) );
  return p;
}

static void compare( const Cloud& c, const Rows& rows, std::size_t d )
{
  ASSERT( c.size() == rows.size() && c.dimension() == d && c.empty() == rows.empty(), "size and dimension" );
  for( std::size_t i = 0; i < rows.size(); ++i )
  {
    std::vector<double> p;
    c.get( i, std::back_inserter( p ) );
    ASSERT( p.size() == d && c[i].size() == d, "coordinates per point" );
    for( std::size_t k = 0; k < d; ++k )
    {
      ASSERT( p[k] == rows[i][k] && c[i][k] == rows[i][k], "coordinates" );
      ASSERT( c.data()[ i * d + k ] == rows[i][k], "coordinates in memory" );
    }
  }
  for( std::size_t i = rows.size(); i < rows.size() + 2; ++i )
  {
    bool thrown = false;
    try { c[i]; } catch( std::runtime_error& ) { thrown = true; }
    ASSERT( thrown, "indices out of range are rejected" );
  }
}

template <class F> static bool rejected( F f )
{
  try { f(); } catch( std::runtime_error& ) { return true; }
  return false;
}

//@ access: up to three points of dimension up to three, three symbolic operations with any index and number of coordinates
HARNESS(access)
{
  std::size_t n = std::size_t( sym::choice( "n", 0, 3 ) ), d = std::size_t( sym::choice( "d", 1, 3 ) );
  Cloud c( n, d );
  Rows rows( n, std::vector<double>( d, 0.0 ) );
  compare( c, rows, d );
  for( int step = 0; step < 2; ++step )
  {
    std::size_t i = std::size_t( sym::choice( "index", 0, 3 ) ), k = std::size_t( sym::choice( "size", int( d ) - 1, int( d ) + 1 ) );
    auto p = symbolicPoint( k );
    bool thrown = rejected( [&] { c.set( i, p.begin(), p.end() ); } );
    ASSERT( thrown == ( i >= n || k != d ), "wrong indices and dimensions are rejected" );
    if( !thrown )
      rows[i] = p;
    compare( c, rows, d );
  }
  if( n > 0 && d == 2 )
  {
    double x = sym::fixed( "x", 0, 9 ), y = sym::fixed( "y", 0, 9 );
    c.set( n - 1, { x, y } );
    rows[n-1] = { x, y };
    compare( c, rows, d );
    REACH("list");
  }
  REACH("access");
}

//@ copies: clouds of two points, copying, moving, assigning and swapping, then changing one of both
HARNESS(copies)
{
  Rows rows = { symbolicPoint( 2 ), symbolicPoint( 2 ) };
  Cloud c( 2, 2 );
  for( std::size_t i = 0; i < 2; ++i )
    c.set( i, rows[i].begin(), rows[i].end() );
  int kind = sym::choice( "kind", 0, 5 );
  Cloud other( 3, 1 );
  auto p = symbolicPoint( 2 );
  Rows changed = rows;
  changed[1] = p;
  if( kind == 0 )
  {
    Cloud copy( c );
    copy.set( 1, p.begin(), p.end() );
    compare( c, rows, 2 );
    compare( copy, changed, 2 );
  }
  else if( kind == 1 )
  {
    other = c;
    c.set( 1, p.begin(), p.end() );
    compare( c, changed, 2 );
    compare( other, rows, 2 );
  }
  else if( kind == 2 )
  {
    Cloud moved( std::move( c ) );
    moved.set( 1, p.begin(), p.end() );
    compare( moved, changed, 2 );
    compare( c, Rows(), 0 );
  }
  else if( kind == 3 )
  {
    other = std::move( c );
    compare( other, rows, 2 );
  }
  else if( kind == 4 )
  {
    swap( other, c );
    compare( other, rows, 2 );
    compare( c, Rows( 3, std::vector<double>( 1, 0.0 ) ), 1 );
  }
  else
  {
    Cloud& self = c;
    c = self;
    compare( c, rows, 2 );
    Cloud empty, copy( empty );
    compare( copy, Rows(), 0 );
    copy = c;
    compare( copy, rows, 2 );
    ASSERT( copy == c, "copies are equal" );
  }
  REACH("copies");
}

//@ equality: two clouds of up to two points of dimension one or two
HARNESS(equality)
{
  Cloud C[2];
  Rows R[2];
  std::size_t D[2];
  for( int k = 0; k < 2; ++k )
  {
    std::size_t n = std::size_t( sym::choice( "n", 0, 2 ) );
    D[k] = std::size_t( sym::choice( "d", 1, 2 ) );
    C[k] = Cloud( n, D[k] );
    for( std::size_t i = 0; i < n; ++i )
    {
      R[k].push_back( symbolicPoint( D[k] ) );
      C[k].set( i, R[k][i].begin(), R[k][i].end() );
    }
  }
  bool equal = D[0] == D[1] && R[0].size() == R[1].size();
  if( equal )
    for( std::size_t i = 0; i < R[0].size(); ++i )
      for( std::size_t k = 0; k < D[0]; ++k )
        equal = sym::both( equal, R[0][i][k] == R[1][i][k] );
  ASSERT( ( C[0] == C[1] ) == equal, "equal size, dimension and coordinates" );
  REACH("equality");
}

//@ sums: two clouds of up to two points of dimension one or two
HARNESS(sums)
{
  Rows rows;
  std::size_t d[2], total = 0;
  Cloud C[2];
  for( int k = 0; k < 2; ++k )
  {
    std::size_t n = std::size_t( sym::choice( "n", 0, 2 ) );
    d[k] = std::size_t( sym::choice( "d", 1, 2 ) );
    C[k] = Cloud( n, d[k] );
    for( std::size_t i = 0; i < n; ++i )
    {
      rows.push_back( symbolicPoint( d[k] ) );
      C[k].set( i, rows.back().begin(), rows.back().end() );
    }
    total += n;
  }
  Cloud S;
  bool thrown = rejected( [&] { S = C[0] + C[1]; } );
  ASSERT( thrown == ( d[0] != d[1] ), "different dimensions are rejected" );
  if( !thrown )
    compare( S, rows, d[0] );
  REACH("sums");
}

// A number as text
static std::string number( double& value )
{
  static const char* texts[] = { "1", "-2.5", "0.75", "1e2" };
  static const double values[] = { 1, -2.5, 0.75, 100 };
  int i = sym::choice( "number", 0, 3 );
  value = values[i];
  return texts[i];
}

//@ text: one to three points of dimension one or two with all separators, comments, blank lines, surrounding white space, and with or without a final line break
HARNESS(text)
{
  static const char* separators[] = { " ", ",", ";", ":", "\t", "  ", ", " };
  std::size_t d = std::size_t( sym::choice( "d", 1, 2 ) );
  std::string separator = separators[ sym::choice( "separator", 0, d == 1 ? 0 : 6 ) ];
  int extra = sym::choice( "extra", 0, 5 );
  bool last = sym::flag( "last" );
  Rows rows;
  std::string text;
  if( extra == 1 ) text += "# Comment\n";
  if( extra == 2 ) text += "\n";
  double values[2];
  std::string first = number( values[0] ), second = "3";
  values[1] = 3;
  int n = sym::choice( "points", 1, 3 );
  for( int i = 0; i < n; ++i )
  {
    if( extra == 3 ) text += " \t";
    text += first;
    rows.push_back( { values[0] } );
    if( d == 2 )
    {
      text += separator + second;
      rows.back().push_back( values[1] );
    }
    if( extra == 3 ) text += "  ";
    if( i + 1 < n || last ) text += "\n";
    if( i == 0 && extra == 4 ) text += "   \n  # indented\n";
    std::swap( first, second );
    std::swap( values[0], values[1] );
  }
  if( extra == 5 && last ) text += "\n\n#end";
  std::istringstream in( text );
  Cloud c = aleph::containers::load<double>( in );
  compare( c, rows, d );
  REACH("text");
}

//@ nothing: texts without any point
HARNESS(nothing)
{
  static const char* texts[] = { "", "\n", "# Comment", "# Comment\n", "  \n\n#\n" };
  std::istringstream in( texts[ sym::choice( "text", 0, 4 ) ] );
  Cloud c = aleph::containers::load<double>( in );
  ASSERT( c.empty(), "no points" );
  REACH("nothing");
}

//@ ragged: lines with different numbers of coordinates are rejected
HARNESS(ragged)
{
  int a = sym::choice( "first", 1, 3 ), b = sym::choice( "second", 1, 3 );
  std::string text;
  for( int i = 0; i < a; ++i ) text += "1 ";
  text += "\n";
  for( int i = 0; i < b; ++i ) text += "2 ";
  text += "\n";
  std::istringstream in( text );
  Cloud c;
  bool thrown = rejected( [&] { c = aleph::containers::load<double>( in ); } );
  ASSERT( thrown == ( a != b ), "different numbers of coordinates are rejected" );
  REACH("ragged");
}

//@ large: four to nine points of dimension three to six, of which one has symbolic coordinates: copies, assignment, moves, sums, equality
HARNESS(large)
{
  std::size_t n = std::size_t( sym::choice( "n", 4, 9 ) ), d = std::size_t( sym::choice( "d", 3, 6 ) ), which = std::size_t( sym::choice( "which", 0, 2 ) );
  which = which == 0 ? 0 : which == 1 ? n / 2 : n - 1;
  Cloud c( n, d );
  Rows rows;
  for( std::size_t i = 0; i < n; ++i )
  {
    rows.push_back( std::vector<double>() );
    for( std::size_t k = 0; k < d; ++k )
      rows.back().push_back( double( 10 * i + k ) );
    if( i == which )
      rows.back() = symbolicPoint( d );
    c.set( i, rows.back().begin(), rows.back().end() );
  }
  compare( c, rows, d );
  Cloud copy( c ), assigned( 2, 1 );
  assigned = c;
  compare( copy, rows, d );
  compare( assigned, rows, d );
  ASSERT( copy == c, "copies are equal" );
  Rows twice = rows;
  twice.insert( twice.end(), rows.begin(), rows.end() );
  compare( c + copy, twice, d );
  std::vector<double> p( d, 5000.0 );
  Rows changed = rows;
  changed[n-1] = p;
  copy.set( n - 1, p.begin(), p.end() );
  compare( copy, changed, d );
  compare( c, rows, d );
  Cloud moved( std::move( copy ) );
  compare( moved, changed, d );
  Cloud almost( c );
  auto q = rows[n-1];
  q[d-1] += 1;
  almost.set( n - 1, q.begin(), q.end() );
  ASSERT( !( almost == c ), "a different last coordinate" );
  REACH("large");
}

//@ longtext: four to eight points of dimension three to five with three separators, a comment or blank line after any point
HARNESS(longtext)
{
  static const char* separators[] = { " ", ",", ";\t" };
  int n = sym::choice( "points", 4, 8 ), d = sym::choice( "d", 3, 5 ), after = sym::choice( "after", 0, n );
  std::string separator = separators[ sym::choice( "separator", 0, 2 ) ], extra = sym::flag( "comment" ) ? "# 1 2\n" : "\n", text;
  Rows rows;
  for( int i = 0; i < n; ++i )
  {
    if( i == after ) text += extra;
    rows.push_back( std::vector<double>() );
    for( int k = 0; k < d; ++k )
    {
      if( k ) text += separator;
      text += std::to_string( 10 * i + k ) + ".5";
      rows.back().push_back( 10 * i + k + 0.5 );
    }
    text += "\n";
  }
  if( after == n ) text += extra;
  std::istringstream in( text );
  Cloud c = aleph::containers::load<double>( in );
  compare( c, rows, std::size_t( d ) );
  REACH("longtext");
}
