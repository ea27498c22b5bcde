// C51: command line tool for connectivity matrices with positive and negative weights
// tools: ephemeral
// flags: -std=c++14
#include "tools.h"
#include "complexes.h"
#include "ephemeral.inc"

typedef std::vector<std::string> Words;
typedef std::vector< std::pair<double, double> > Points;
enum Mode { Ascending, Descending, Distances };

static const double infinity = std::numeric_limits<double>::infinity();

// Diagrams of one filtration of a graph with weights; zero is not an edge
static std::map<int, Points> diagrams( int n, const double (*w)[4], Mode mode, int dimension, bool keep )
{
  double vertex = 0;
  for( int i = 0; i < n && mode != Distances; ++i )
    for( int j = 0; j < n; ++j )
      vertex = i + j == 0 ? w[0][0] : mode == Ascending ? sym::min( vertex, w[i][j] ) : sym::max( vertex, w[i][j] );
  std::map<Mask, double> weight;
  std::vector<Mask> order;
  int top = 0;
  for( Mask m = 1; m < ( Mask(1) << n ); ++m )
  {
    int size = popcount( m );
    if( size > 2 && size > dimension + 1 )
      continue;
    double x = vertex;
    bool first = true, clique = true;
    for( int i = 0; i < n; ++i )
      for( int j = i + 1; j < n; ++j )
        if( ( m >> i & 1 ) && ( m >> j & 1 ) )
        {
          if( w[i][j] == 0 )
          {
            clique = false;
            continue;
          }
          double y = mode == Distances ? 1 - w[i][j] : w[i][j];
          x = first ? y : mode == Descending ? sym::min( x, y ) : sym::max( x, y );
          first = false;
        }
    if( !clique )
      continue;
    weight[m] = x;
    order.push_back( m );
    top = std::max( top, size - 1 );
  }
  std::stable_sort( order.begin(), order.end(), [&] ( Mask a, Mask b )
  {
    double x = weight[a], y = weight[b];
    if( x != y )
      return mode == Descending ? x > y : x < y;
    return popcount( a ) < popcount( b );
  } );
  std::map<int, Points> result;
  for( auto&& q : pairsByRanks( boundaryColumns( order ) ) )
  {
    Mask c = order[ std::size_t( q.first ) ];
    int d = popcount( c ) - 1;
    if( q.second < 0 && d == top && !keep )
      continue;
    result[d].push_back( std::make_pair( weight[c], q.second < 0 ? infinity : weight[ order[ std::size_t( q.second ) ] ] ) );
  }
  return result;
}

static Points pointsOf( const std::string& text )
{
  Points P;
  for( auto&& w : Output::split( text, " \t" ) )
    if( !w.empty() )
    {
      ASSERT( w.size() == 2, "two numbers per line" );
      double x = number( w[0] ), y = number( w[1] );
      P.push_back( std::make_pair( x, y ) );
    }
  return P;
}

static void compare( Points actual, Points expected )
{
  ASSERT( actual.size() == expected.size(), "number of points" );
  std::sort( actual.begin(), actual.end() );
  std::sort( expected.begin(), expected.end() );
  for( std::size_t i = 0; i < actual.size(); ++i )
  {
    ASSERT( same( actual[i].first, expected[i].first ), "creation" );
    ASSERT( actual[i].second == expected[i].second || same( actual[i].second, expected[i].second ), "destruction" );
  }
}

static void check( int n, const double (*w)[4], bool distances, int dimension, bool keep, bool finite, bool second )
{
  std::map<int, Points> E, F;
  for( Mode m : { Ascending, Descending, Distances } )
    if( ( m == Distances ) == distances )
      for( auto&& d : diagrams( n, w, m, dimension, keep ) )
        for( auto p : d.second )
        {
          if( finite && std::isinf( p.second ) )
            p.second = m == Descending ? -500 : 500;
          E[d.first].push_back( p );
        }
  std::string t;
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
      t += text( w[i][j] ) + ( j + 1 == n ? "\n" : " " );
  Inputs in;
  Words a;
  if( distances ) a.push_back( "-D" );
  if( dimension ) { a.push_back( "-d" ); a.push_back( std::to_string( dimension ) ); }
  if( keep ) a.push_back( "--keep-unpaired" );
  if( finite ) { a.push_back( "-i" ); a.push_back( "500" ); }
  a.push_back( in.write( "first.txt", t ) );
  if( second )
    a.push_back( in.write( "second.txt", "1 1\n1 1\n" ) );
  written().clear();
  auto out = run( ephemeral::tool, a );
  ASSERT( out.status == 0, "status" );
  ASSERT( written().size() == std::size_t( ( 1 + second ) * ( 1 + dimension + keep ) ), "one file for every dimension" );
  for( int d = 0; d < 1 + dimension + keep; ++d )
  {
    std::string name = "/tmp/first_d" + std::to_string( d ) + ".txt";
    ASSERT( written().count( name ), "name of a file" );
    compare( pointsOf( written()[name] ), E[d] );
    if( d == 1 && !E[d].empty() ) REACH("cycles");
  }
  if( second )
  {
    Points p;
    for( int i = 0; i < ( distances ? 1 : 2 ); ++i )
    {
      p.push_back( std::make_pair( distances ? 0 : 1, finite ? ( i ? -500 : 500 ) : infinity ) );
      p.push_back( std::make_pair( distances ? 0 : 1, distances ? 0 : 1 ) );
    }
    compare( pointsOf( written()["/tmp/second_d0.txt"] ), p );
    REACH("two files");
  }
  REACH("matrix");
}

static double weight( bool distances )
{
  return sym::fixed( "w", -100, distances ? 1 : 100, 1 );
}

//@ three: matrices with three rows, all weights in steps of 1/2 and diagonals zero or one, all options (two files with some of them)
HARNESS(three)
{
  symapi_linear();
  int how = sym::choice( "how", 0, 3 );
  bool distances = sym::flag( "distances" ), keep = how & 1, finite = how & 2, second = how == 2;
  int dimension = sym::choice( "dimension", 0, 2 ), diagonal = sym::choice( "diagonal", 0, 1 );
  double w[4][4] = {};
  for( int i = 0; i < 3; ++i )
  {
    w[i][i] = diagonal;
    for( int j = i + 1; j < 3; ++j )
      w[i][j] = w[j][i] = weight( distances );
  }
  check( 3, w, distances, dimension, keep, finite, second );
}

//@ cycle: matrices with four rows, all weights of two edges of a cycle, and up to two edges between opposite vertices, the others with given weights
HARNESS(cycle)
{
  symapi_linear();
  bool distances = sym::flag( "distances" ), keep = sym::flag( "keep" );
  int dimension = sym::choice( "dimension", 1, 3 ), further = sym::choice( "further", 0, 2 );
  double w[4][4] = {};
  for( int i = 0; i < 4; ++i )
  {
    w[i][i] = 1;
    int j = ( i + 1 ) % 4;
    w[i][j] = w[j][i] = i == 1 ? -1 : i == 3 ? -2 : weight( distances );
    ASSUME( w[i][j] != 0 );
  }
  if( further > 0 ) w[0][2] = w[2][0] = -3;
  if( further > 1 ) w[1][3] = w[3][1] = distances ? 0.5 : 7;
  check( 4, w, distances, dimension, keep, false, false );
}
