// C48: command line tools that process functions, graphs and matrices
// tools: function_analysis spectral_analysis clique_persistence_diagram betti_numbers graph_analysis relevant_edges connectivity_matrix_analysis sparse_adjacency_matrices
// flags: -DALEPH_WITH_RAPID_JSON
#include "tools.h"
#include "function_analysis.inc"
#include "spectral_analysis.inc"
#include "clique_persistence_diagram.inc"
#include "betti_numbers.inc"
#include "graph_analysis.inc"
#include "relevant_edges.inc"
#include "connectivity_matrix_analysis.inc"
#include "sparse_adjacency_matrices.inc"

typedef std::vector<int> Simplex;
typedef std::pair<double, double> Point;
typedef std::vector<std::string> Words;
typedef std::vector<Words> Lines;

// A graph with weights
struct Edge { int u, v; double w; };
struct Graph
{
  std::vector<double> vertices;
  std::vector<Edge> edges;
};

// Number of components of the subgraph with weights of at most b that contain a vertex with a weight of at most a
static int components( const Graph& G, double a, double b )
{
  const std::size_t n = G.vertices.size();
  std::vector< std::vector<bool> > r( n, std::vector<bool>( n, false ) );
  std::vector<char> flat( n*n, 0 );
  auto at = [&] ( std::size_t i, std::size_t j ) -> char& { return flat[i*n+j]; };
  for( std::size_t i = 0; i < n; ++i )
    at(i,i) = 1;
  for( auto&& e : G.edges )
  {
    bool in = e.w <= b;
    at( std::size_t(e.u), std::size_t(e.v) ) = sym::either( at( std::size_t(e.u), std::size_t(e.v) ), in );
    at( std::size_t(e.v), std::size_t(e.u) ) = sym::either( at( std::size_t(e.v), std::size_t(e.u) ), in );
  }
  for( std::size_t k = 0; k < n; ++k )
    for( std::size_t i = 0; i < n; ++i )
      for( std::size_t j = 0; j < n; ++j )
        at(i,j) = sym::either( at(i,j), sym::both( at(i,k), at(k,j) ) );
  // Counts the first vertex of every component among those with a weight of at most a
  int count = 0;
  for( std::size_t i = 0; i < n; ++i )
  {
    bool first = G.vertices[i] <= a;
    for( std::size_t j = 0; j < i; ++j )
      first = sym::both( first, sym::neg( sym::both( G.vertices[j] <= a, at(i,j) ) ) );
    count += sym::ite( first, 1, 0 );
  }
  return count;
}

static int counted( const std::vector<Point>& D, double a, double b )
{
  int count = 0;
  for( auto&& p : D )
    count += sym::ite( sym::both( p.first <= a, p.second > b ), 1, 0 );
  return count;
}

// Rank of a set of vectors with coefficients modulo two
static int rank( std::vector<unsigned long> m )
{
  int r = 0;
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    if( !m[i] )
      continue;
    ++r;
    unsigned long bit = m[i] & -m[i];
    for( std::size_t j = i+1; j < m.size(); ++j )
      if( m[j] & bit )
        m[j] ^= m[i];
  }
  return r;
}

// Number of classes of dimension d that exist at a and still at b, given concrete weights
typedef std::map<Simplex, double> Complex;
static int classes( const Complex& K, std::size_t d, double a, double b )
{
  auto columns = [&] ( std::size_t d, double t, double outside )
  {
    std::map<Simplex, int> row;
    for( auto&& p : K )
      if( p.first.size() == d )
      {
        int k = int( row.size() );
        row[p.first] = p.second <= outside ? -1 : k;
      }
    std::vector<unsigned long> m;
    for( auto&& p : K )
      if( p.first.size() == d+1 && p.second <= t )
      {
        unsigned long c = 0;
        if( d > 0 )
          for( std::size_t i = 0; i <= d; ++i )
          {
            Simplex f = p.first;
            f.erase( f.begin() + long( i ) );
            if( row.at( f ) >= 0 )
              c |= 1ul << row.at( f );
          }
        m.push_back( c );
      }
    return m;
  };
  const double none = -1e9;
  auto z = columns( d, a, none );
  int cycles = int( z.size() ) - rank( z );
  int boundaries = rank( columns( d+1, b, none ) ) - rank( columns( d+1, b, a ) );
  return cycles - boundaries;
}

static std::vector<Point> points( const Lines& l, double sign = 1 )
{
  std::vector<Point> D;
  for( auto&& w : l )
  {
    ASSERT( w.size() == 2, "two coordinates" );
    D.push_back( Point( sign * number( w[0] ), sign * number( w[1] ) ) );
  }
  return D;
}

// Blocks of lines that are separated by empty lines
static std::vector<Lines> blocks( const Lines& l )
{
  std::vector<Lines> r;
  bool open = false;
  for( auto&& w : l )
  {
    if( w.empty() || w[0][0] == '#' )
      open = open && !w.empty();
    else
    {
      if( !open )
        r.push_back( {} );
      open = true;
      r.back().push_back( w );
    }
  }
  return r;
}

static Graph path( const std::vector<double>& values, double sign )
{
  Graph G;
  for( std::size_t i = 0; i < values.size(); ++i )
  {
    G.vertices.push_back( sign * values[i] );
    if( i > 0 )
      G.edges.push_back( Edge{ int(i)-1, int(i), sym::max( sign * values[i-1], sign * values[i] ) } );
  }
  return G;
}

// Two functions with n values each
static void functions( int n, int mode, int style )
{
  static const char* separator[] = { " ", ",", "\t", "; ", ":" };
  static const char* option[] = { "-s", "-S", "", "--superlevels" };
  double sign = mode == 1 || mode == 3 ? -1 : 1;
  std::vector<double> f, g = { 2, 0, 1 };
  for( int i = 0; i < n; ++i )
    f.push_back( sym::fixed( "f", -7, 7, 1 ) );
  double a = sym::fixed( "a", -8, 8, 1 ), b = sym::fixed( "b", -8, 8, 1 );
  Inputs d;
  std::string t;
  for( int i = 0; i < n; ++i )
    t += ( i ? separator[style] : "" ) + text( f[ std::size_t( i ) ] );
  t += "\n2 0 1\n";
  Words arguments = { d.write( "f.txt", t ) };
  if( *option[mode] )
    arguments.insert( arguments.begin(), option[mode] );
  auto o = run( function_analysis::tool, arguments );
  auto l = blocks( o.lines() );
  ASSERT( o.status == 0 && l.size() == 2, "one diagram for every function" );
  ASSUME( a <= b );
  for( int k = 0; k < 2; ++k )
  {
    auto G = path( k ? g : f, sign );
    double hi = G.vertices[0], lo = G.vertices[0];
    for( auto&& v : G.vertices )
    {
      hi = sym::max( hi, v );
      lo = sym::min( lo, v );
    }
    auto D = points( l[ std::size_t( k ) ], sign );
    int whole = 0;
    for( auto&& p : D )
      whole += sym::ite( sym::both( p.first == lo, p.second == hi ), 1, 0 );
    ASSERT( whole >= 1, "the global extrema are paired" );
    ASSERT( D.size() <= G.vertices.size(), "at most one point for every value" );
    ASSERT( sym::either( b >= hi, counted( D, a, b ) == components( G, a, b ) ), "components of the level sets" );
  }
  REACH( "functions" );
}

//@ functions: two functions, one of them with two to four values (thorough: five) between -3.5 and 3.5 in steps of 1/2 on one line; sublevel and superlevel sets; five separators; all thresholds
HARNESS( functions )
{
  int n = sym::choice( "values", 2, sym::thorough() ? 5 : 4 ), m = sym::choice( "mode", 0, 3 );
  functions( n, m, ( n + 2*m ) % 5 );
}

//@ summaries: normalised and condensed diagrams of a function with two or three values 0..3
HARNESS( summaries )
{
  int n = sym::choice( "values", 2, 3 ), m = sym::choice( "mode", 0, 7 );
  bool normalize = m & 1, condense = m & 2, super = m & 4;
  std::vector<double> f;
  std::string t;
  double lo = 9, hi = -9;
  for( int i = 0; i < n; ++i )
  {
    f.push_back( sym::choice( "f", 0, 3 ) );
    t += text( f.back() ) + " ";
    lo = std::min( lo, f.back() );
    hi = std::max( hi, f.back() );
  }
  t.back() = '\n';
  Inputs d;
  Words plain = { d.write( "f.txt", t ) }, arguments = plain;
  if( super )
  {
    plain.insert( plain.begin(), "-S" );
    arguments = plain;
  }
  if( normalize )
    arguments.insert( arguments.begin(), "-n" );
  if( condense )
    arguments.insert( arguments.begin(), "-c" );
  auto D = points( blocks( run( function_analysis::tool, plain ).lines() ).at( 0 ) );
  auto o = run( function_analysis::tool, arguments );
  auto l = blocks( o.lines() );
  ASSERT( o.status == 0 && l.size() == 1, "one diagram" );
  if( normalize && lo != hi )
    for( auto&& p : D )
    {
      p.first  = ( p.first  - lo ) / ( hi - lo );
      p.second = ( p.second - lo ) / ( hi - lo );
    }
  if( condense )
  {
    double least = 9, most = -9, sum = 0, squares = 0;
    for( auto&& p : D )
    {
      double e = p.second - p.first;
      least = std::min( least, e );
      most  = std::max( most, e );
      sum += e;
      squares += e*e;
    }
    ASSERT( l[0].size() == 1 && l[0][0].size() == 4, "four values" );
    auto&& w = l[0][0];
    ASSERT( same( number( w[0] ), least ), "least persistence" );
    ASSERT( same( number( w[1] ), most ), "largest persistence" );
    ASSERT( same( number( w[2] ) * double( D.size() ), sum ), "average persistence" );
    ASSERT( same( number( w[3] ) * number( w[3] ), squares ), "norm" );
    REACH( "condensed" );
  }
  else
  {
    auto E = points( l[0] );
    ASSERT( E.size() == D.size(), "number of points" );
    for( std::size_t i = 0; i < D.size(); ++i )
      ASSERT( same( D[i].first, E[i].first ) && same( D[i].second, E[i].second ), "normalised points" );
    REACH( "points" );
  }
}

//@ spectra: spectra with two to four positions (thorough: five) and intensities 0..3.5 in steps of 1/2, all thresholds; diagram, transformation and identity
HARNESS( spectra )
{
  int n = sym::choice( "values", 2, sym::thorough() ? 5 : 4 ), mode = sym::choice( "mode", 0, 2 );
  std::vector<double> x, y;
  for( int i = 0; i < n; ++i )
  {
    x.push_back( 2*i + 1 );
    y.push_back( sym::fixed( "y", 0, 7, 1 ) );
  }
  double a = sym::fixed( "a", 0, 8, 1 ), b = sym::fixed( "b", 0, 8, 1 );
  Inputs d;
  std::string t;
  for( int i = 0; i < n; ++i )
    t += text( x[ std::size_t( i ) ] ) + "\t" + text( y[ std::size_t( i ) ] ) + "\n";
  Words arguments = { d.write( "s.txt", t ) };
  static const char* name[] = { "", "transformation", "identity" };
  if( mode )
    arguments.insert( arguments.begin(), { "-m", name[mode] } );
  auto o = run( spectral_analysis::tool, arguments );
  Lines l;
  for( auto&& w : o.lines() )
    if( !w.empty() && w[0][0] != '#' )
      l.push_back( w );
  ASSERT( o.status == 0, "succeeds" );
  ASSUME( b <= a );
  if( mode == 2 )
  {
    ASSERT( int( l.size() ) == n, "one line for every position" );
    for( int i = 0; i < n; ++i )
    {
      auto&& w = l[ std::size_t( i ) ];
      ASSERT( w.size() == 2, "two values" );
      ASSERT( same( number( w[0] ), x[ std::size_t( i ) ] ), "position" );
      ASSERT( same( number( w[1] ), y[ std::size_t( i ) ] ), "intensity" );
    }
    REACH( "identity" );
    return;
  }
  auto G = path( y, -1 );
  std::vector<Point> D;
  if( mode == 0 )
    D = points( l, -1 );
  else
  {
    // Every position is a peak with the persistence of the transformation
    ASSERT( int( l.size() ) == n, "one line for every position" );
    for( int i = 0; i < n; ++i )
    {
      auto&& w = l[ std::size_t( i ) ];
      ASSERT( w.size() == 2, "two values" );
      ASSERT( same( number( w[0] ), x[ std::size_t( i ) ] ), "position" );
      D.push_back( Point( -y[ std::size_t( i ) ], -y[ std::size_t( i ) ] + number( w[1] ) ) );
    }
  }
  ASSERT( sym::either( b <= 0, counted( D, -a, -b ) == components( G, -a, -b ) ), "peaks of the spectrum" );
  double most = -9;
  int whole = 0;
  for( auto&& v : y )
    most = sym::max( most, v );
  for( auto&& p : D )
    whole += sym::ite( sym::both( p.first == -most, p.second == 0 ), 1, 0 );
  ASSERT( whole >= 1, "the largest peak persists down to zero" );
  REACH( mode == 0 ? "diagram" : "transformation" );
}

// Edges of graphs with four vertices
static const std::pair<int,int> pairs[] = { {0,1}, {1,2}, {0,2}, {2,3}, {1,3}, {0,3} };

static std::string edges( const std::vector<Edge>& E, int offset = 0, const std::string& separator = " " )
{
  std::string t;
  for( auto&& e : E )
    t += std::to_string( e.u + offset ) + separator + std::to_string( e.v + offset ) + separator + text( e.w ) + "\n";
  return t;
}

//@ relevance: graphs with three to five edges (thorough: six) between four vertices and weights 0..3.5 in steps of 1/2, all thresholds
HARNESS( relevance )
{
  int n = sym::choice( "edges", 3, sym::thorough() ? 6 : 5 );
  Graph G;
  G.vertices.assign( std::size_t( n == 3 ? 3 : 4 ), 0 );
  for( int i = 0; i < n; ++i )
    G.edges.push_back( Edge{ pairs[i].first, pairs[i].second, double( sym::fixed( "w", 0, 7, 1 ) ) } );
  double b = sym::fixed( "b", 0, 8, 1 );
  Inputs d;
  auto o = run( relevant_edges::tool, { d.write( "g.txt", edges( G.edges ) ) } );
  ASSERT( o.status == 0, "succeeds" );
  Lines l;
  for( auto&& w : o.lines() )
    if( !w.empty() && w[0][0] != '#' )
      l.push_back( w );
  auto D = points( l );
  ASSERT( counted( D, 0, b ) == components( G, 0, b ), "components of the graph" );
  // Every edge that merges two components is reported, together with the ratio of their sizes
  int merges = 0, size = 0;
  for( auto&& w : Output::split( o.err, " ():,[]\t" ) )
  {
    if( w.size() < 2 || w[1] != "Edge" )
      continue;
    ASSERT( w.size() == 7, "edge, relevance, interval" );
    ++merges;
    double r = number( w[4] );
    int u = std::stoi( w[2] ), v = std::stoi( w[3] );
    bool known = false;
    for( auto&& e : G.edges )
      if( std::min( e.u, e.v ) == u && std::max( e.u, e.v ) == v )
        known = known || same( number( w[6] ), e.w );
    ASSERT( known, "edge of the graph with its weight" );
    ASSERT( same( number( w[5] ), 0 ), "components are created at zero" );
    ASSERT( r > 0 && r <= 1, "relevance is a ratio" );
    size = merges;
    if( merges == 1 )
      ASSERT( same( r, 1 ), "the first edge merges two vertices" );
    if( merges == 2 )
      ASSERT( same( r, 0.5 ) || ( G.vertices.size() == 4 && same( r, 1 ) ), "the second edge merges a vertex or another pair" );
    if( merges == 3 )
      ASSERT( same( r * 3, 1 ) || same( r, 1 ), "the third edge merges a vertex or two pairs" );
  }
  ASSERT( size == int( G.vertices.size() ) - 1, "the graph is connected" );
  REACH( "relevance" );
}

//@ betti: two graphs, one of them with four vertices and every subset of the six edges; file names with numbers
HARNESS( betti )
{
  int m = sym::choice( "edges", 0, 63 ), order = sym::choice( "order", 0, 1 );
  std::string t = "graph [\n", u = t;
  int parent[4] = { 0, 1, 2, 3 }, expected = 0;
  auto find = [&] ( int i ) { while( parent[i] != i ) i = parent[i]; return i; };
  for( int i = 0; i < 4; ++i )
    t += "  node [\n    id " + std::to_string( i ) + "\n  ]\n";
  for( int i = 0; i < 6; ++i )
    if( m >> i & 1 )
    {
      t += "  edge [\n    source " + std::to_string( pairs[i].first ) + "\n    target " + std::to_string( pairs[i].second ) + "\n  ]\n";
      int a = find( pairs[i].first ), b = find( pairs[i].second );
      if( a == b )
        ++expected;
      parent[a] = b;
    }
  t += "]\n";
  for( int i = 0; i < 3; ++i )
    u += "  node [\n    id " + std::to_string( i ) + "\n  ]\n";
  for( int i = 0; i < 3; ++i )
    u += "  edge [\n    source " + std::to_string( i ) + "\n    target " + std::to_string( ( i+1 ) % 3 ) + "\n  ]\n";
  u += "]\n";
  Inputs d;
  std::string f = d.write( "graph12.gml", t ), g = d.write( "graph_007_b.gml", u );
  auto o = run( betti_numbers::tool, order ? Words{ f, g } : Words{ g, f } );
  auto l = o.lines();
  ASSERT( o.status == 0 && l.size() >= 2 && l[0].size() == 2 && l[1].size() == 2, "one line for every file" );
  ASSERT( l[0][0] == "7" && l[0][1] == "1", "number and cycles of the first graph" );
  ASSERT( l[1][0] == "12" && l[1][1] == std::to_string( expected ), "number and cycles of the second graph" );
  REACH( "betti" );
}

static Lines file( const std::string& suffix )
{
  const std::string* text = nullptr;
  for( auto&& p : written() )
    if( p.first.size() >= suffix.size() && p.first.compare( p.first.size() - suffix.size(), suffix.size(), suffix ) == 0 )
      text = &p.second;
  ASSERT( text != nullptr, "file is written" );
  Lines l;
  for( auto&& w : Output::split( *text, " \t" ) )
    if( !w.empty() && w[0][0] != '#' )
      l.push_back( w );
  return l;
}

static bool exists( const std::string& suffix )
{
  for( auto&& p : written() )
    if( p.first.size() >= suffix.size() && p.first.compare( p.first.size() - suffix.size(), suffix.size(), suffix ) == 0 )
      return true;
  return false;
}

// All cliques with at most d+1 vertices, with the largest weight of their vertices
static Complex cliques( int n, const std::vector<Edge>& E, std::size_t d )
{
  Complex K;
  for( int m = 1; m < 1<<n; ++m )
  {
    Simplex s;
    for( int i = 0; i < n; ++i )
      if( m >> i & 1 )
        s.push_back( i );
    bool all = s.size() <= d+1;
    for( int i : s )
      for( int j : s )
      {
        bool some = i >= j;
        for( auto&& e : E )
          some = some || ( std::min( e.u, e.v ) == i && std::max( e.u, e.v ) == j ) || ( std::min( e.u, e.v ) == j && std::max( e.u, e.v ) == i );
        all = all && some;
      }
    if( all )
      K[s] = 0;
  }
  return K;
}

static std::vector<int> degrees( int n, const std::vector<Edge>& E )
{
  std::vector<int> r( static_cast<std::size_t>( n ), 0 );
  for( auto&& e : E )
  {
    ++r[ std::size_t( e.u ) ];
    ++r[ std::size_t( e.v ) ];
  }
  return r;
}

// Compares points with the classes of a complex for all thresholds below the largest weight
static void compare( const std::vector<Point>& D, const Complex& K, std::size_t d, double lo, double hi )
{
  for( double a = lo; a <= hi; a += 0.5 )
    for( double b = a; b <= hi; b += 0.5 )
      ASSERT( counted( D, a, b ) == classes( K, d, a, b ), "classes of the filtration" );
}

//@ degrees: degree filtration of graphs with four vertices, every set of edges that covers all of them; expansion to triangles; loops; zero weights; factor of infinity
HARNESS( degrees )
{
  int m = sym::choice( "edges", 1, 63 ), loops = sym::choice( "loops", 0, 1 ), zero = sym::choice( "zero", 0, 1 ), expand = sym::choice( "dimension", 0, 2 ), inf = sym::choice( "infinity", 1, 3 );
  std::vector<Edge> E;
  std::string t = "# graph\n";
  for( int i = 0; i < 6; ++i )
    if( m >> i & 1 )
    {
      E.push_back( Edge{ pairs[i].first, pairs[i].second, 0 } );
      t += std::to_string( pairs[i].first ) + " " + std::to_string( pairs[i].second ) + "\n";
    }
  auto D = degrees( 4, E );
  for( int i = 0; i < 4; ++i )
    if( !D[ std::size_t( i ) ] )
      return;
  auto K = cliques( 4, E, expand > 1 ? 2 : 1 );
  int most = *std::max_element( D.begin(), D.end() );
  for( auto&& p : K )
  {
    for( int v : p.first )
      p.second = std::max( p.second, double( D[ std::size_t( v ) ] ) );
    if( zero && p.first.size() == 1 )
      p.second = 0;
  }
  Inputs d;
  Words arguments = { "-o", d.path };
  if( loops )
    arguments.push_back( "-l" );
  if( zero )
    arguments.push_back( "-z" );
  if( inf != 2 )
    arguments.insert( arguments.end(), { "-f", std::to_string( inf ) } );
  arguments.push_back( d.write( "g.txt", t ) );
  if( expand )
    arguments.push_back( std::to_string( expand ) );
  auto o = run( graph_analysis::tool, arguments );
  ASSERT( o.status == 0, "succeeds" );
  const double top = inf * most;
  for( std::size_t k = 0; k < 2; ++k )
  {
    std::string name = "/g_d" + std::to_string( k ) + ".txt";
    bool any = k == 0 || ( loops && classes( K, 1, most, most ) > 0 );
    if( !exists( name ) )
    {
      ASSERT( !any, "diagram is written" );
      continue;
    }
    auto P = points( file( name ) );
    if( !loops && k == 1 )
      continue;
    // Essential classes are placed at the factor of infinity
    int essential = 0;
    for( auto&& p : P )
      essential += p.second == top;
    ASSERT( essential >= classes( K, k, most, most ), "essential classes" );
    if( inf == 1 )
      compare( P, K, k, 0, most - 0.5 );
    else
      compare( P, K, k, 0, most );
    REACH( k == 0 ? "components" : "loops" );
  }
}

//@ sparse: two graphs in one file, one of them with four vertices and every set of edges that covers them; degrees and sums of degrees; sublevel and superlevel sets; normalised or not; expansion to triangles
HARNESS( sparse )
{
  int m = sym::choice( "edges", 1, 63 ), mode = sym::choice( "mode", 0, 2 ), expand = sym::choice( "dimension", 0, 2 ), normalise = sym::choice( "normalise", 0, 1 );
  std::vector<Edge> E, F = { {0,1,0}, {1,2,0}, {0,2,0} };
  for( int i = 0; i < 6; ++i )
    if( m >> i & 1 )
      E.push_back( Edge{ pairs[i].first, pairs[i].second, 0 } );
  for( int k : degrees( 4, E ) )
    if( !k )
      return;
  Inputs d;
  std::string t, u, v = "1\n-1\n";
  for( auto&& e : F )
    t += std::to_string( e.u+1 ) + ", " + std::to_string( e.v+1 ) + "\n" + std::to_string( e.v+1 ) + ", " + std::to_string( e.u+1 ) + "\n";
  for( auto&& e : E )
    t += std::to_string( e.u+4 ) + ", " + std::to_string( e.v+4 ) + "\n" + std::to_string( e.v+4 ) + ", " + std::to_string( e.u+4 ) + "\n";
  u = "1\n1\n1\n2\n2\n2\n2\n";
  Words arguments = { "-o", d.path };
  if( mode == 1 )
    arguments.push_back( "--sum" );
  if( mode == 2 )
    arguments.push_back( "--superlevel" );
  if( normalise )
    arguments.push_back( "--normalise" );
  if( expand )
    arguments.insert( arguments.end(), { "--dimension", std::to_string( expand ) } );
  d.write( "DS_graph_indicator.txt", u );
  d.write( "DS_graph_labels.txt", v );
  arguments.push_back( d.write( "DS_A.txt", t ) );
  auto o = run( sparse_adjacency_matrices::tool, arguments );
  ASSERT( o.status == 0, "succeeds" );
  auto labels = file( "/Labels.txt" );
  ASSERT( labels.size() == 2 && labels[0][0] == "1" && labels[1][0] == "-1", "labels" );
  double sign = mode == 2 ? -1 : 1;
  // The degree of a vertex is the number of its cofaces in the complex
  auto cofaces = [] ( int n, const Complex& K )
  {
    std::vector<int> r( static_cast<std::size_t>( n ), 0 );
    for( auto&& p : K )
      if( p.first.size() > 1 )
        for( int v : p.first )
          ++r[ std::size_t( v ) ];
    return r;
  };
  const std::size_t dimension = expand > 1 ? 2 : 1;
  int most = 0;
  for( int g = 0; g < 2; ++g )
    for( int k : cofaces( g ? 4 : 3, cliques( g ? 4 : 3, g ? E : F, dimension ) ) )
      most = std::max( most, k );
  for( int g = 0; g < 2; ++g )
  {
    int n = g ? 4 : 3;
    auto&& S = g ? E : F;
    auto K = cliques( n, S, dimension );
    auto D = cofaces( n, K );
    double scale = normalise ? *std::max_element( D.begin(), D.end() ) : 1;
    if( scale == 0 )
      continue;
    double hi = -1e9;
    for( auto&& p : K )
    {
      double w = mode == 1 ? 0 : -1e9;
      for( int x : p.first )
      {
        double y = D[ std::size_t( x ) ];
        if( mode == 1 )
          w += y;
        else
          w = std::max( w, sign * y );
      }
      p.second = w;
      hi = std::max( hi, w );
    }
    for( std::size_t k = 0; k < ( expand > 1 ? 3u : 2u ); ++k )
    {
      std::string name = "/" + std::to_string( g ) + "_d" + std::to_string( k ) + ".txt";
      if( !exists( name ) )
      {
        ASSERT( classes( K, k, hi, hi ) == 0, "diagram is written" );
        continue;
      }
      std::vector<Point> P;
      for( auto&& p : points( file( name ) ) )
      {
        // Essential classes are placed at twice the largest degree
        bool essential = same( p.second, normalise ? 2 : 2*most );
        Point q( sign * p.first * scale, essential ? 1e6 : sign * p.second * scale );
        P.push_back( q );
      }
      for( double a = mode == 2 ? -7 : 0; a <= hi; a += 0.5 )
        for( double b = a; b <= hi; b += 0.5 )
        {
          int count = 0;
          for( auto&& p : P )
            count += p.first <= a + 0.01 && p.second > b + 0.01;
          // Sums of degrees may reach the value of essential classes
          if( mode == 1 )
            ASSERT( count >= classes( K, k, a, b ), "classes of the filtration" );
          else
            ASSERT( count == classes( K, k, a, b ), "classes of the filtration" );
        }
      REACH( k == 0 ? "components" : k == 1 ? "loops" : "voids" );
    }
  }
}

//@ matrices: connectivity matrices of three or four vertices with weights 0..2; with and without unpaired points and a value for infinity; one or two files
HARNESS( matrices )
{
  int n = sym::choice( "vertices", 3, 4 ), keep = sym::choice( "unpaired", 0, 1 ), infinity = sym::choice( "infinity", 0, 1 ), two = n == 3 ? sym::choice( "files", 0, 1 ) : 0;
  double w[4][4] = {}, most = 0;
  for( int i = 0; i < n; ++i )
    for( int j = i+1; j < n; ++j )
    {
      w[i][j] = w[j][i] = sym::choice( "w", 0, 2 );
      most = std::max( most, w[i][j] );
    }
  if( !keep && most == 0 )
    return; // only vertices
  Complex K;
  std::string t;
  for( int i = 0; i < n; ++i )
  {
    K[ Simplex{i} ] = 0;
    for( int j = 0; j < n; ++j )
    {
      t += ( j ? " " : "" ) + text( w[i][j] );
      if( i < j && w[i][j] != 0 )
        K[ Simplex{i,j} ] = most - w[i][j];
    }
    t += "\n";
  }
  Inputs d;
  Words arguments;
  if( keep )
    arguments.push_back( "-k" );
  if( infinity )
    arguments.insert( arguments.end(), { "-i", "9" } );
  arguments.push_back( d.write( "first.txt", t ) );
  if( two )
    arguments.push_back( d.write( "second.txt", "0 1\n1 0\n" ) );
  auto o = run( connectivity_matrix_analysis::tool, arguments );
  ASSERT( o.status == 0, "succeeds" );
  // The output is a file with diagrams
  std::string f = d.write( "output.json", o.out );
  auto diagrams = aleph::io::readJSON<double>( f );
  REACH( "diagrams" );
  bool loops = keep && classes( K, 1, most, most ) > 0;
  ASSERT( diagrams.size() == std::size_t( 1 + loops + two ), "one diagram for every dimension and file" );
  for( std::size_t k = 0; k < std::size_t( 1 + loops ); ++k )
  {
    ASSERT( diagrams[k].dimension() == k, "dimension" );
    std::vector<Point> P;
    for( auto&& p : diagrams[k] )
      P.push_back( Point( p.x(), p.y() ) );
    compare( P, K, k, 0, 3 );
    REACH( k == 0 ? "components" : "loops" );
  }
}

// Clique communities
static void communities( int n, int k, int mode )
{
  std::vector<Edge> E;
  for( int i = 0; i < n; ++i )
    E.push_back( Edge{ pairs[i].first, pairs[i].second, double( sym::fixed( "w", 1, 7, 1 ) ) } );
  double a = sym::fixed( "a", 0, 8, 1 ), b = sym::fixed( "b", 0, 8, 1 );
  double most = 0;
  for( auto&& e : E )
    most = sym::max( most, e.w );
  Inputs d;
  Words arguments = { d.write( "g.txt", edges( E ) ), std::to_string( k ) };
  if( mode & 1 )
  {
    arguments.insert( arguments.begin(), "--invert-weights" );
    for( auto&& e : E )
      e.w = most - e.w;
  }
  if( mode & 2 )
    arguments.insert( arguments.begin(), "--reverse" );
  arguments.insert( arguments.begin(), "--ignore-empty" );
  auto o = run( clique_persistence_diagram::tool, arguments );
  ASSERT( o.status == 0, "succeeds" );
  ASSUME( a <= b );
  std::size_t total = 0;
  for( std::size_t q = 1; q <= std::size_t( k ); ++q )
  {
    // Cliques with q+1 vertices, connected if they share q of them
    std::vector<Simplex> C;
    Graph G;
    for( auto&& p : cliques( 4, E, q ) )
      if( p.first.size() == q+1 )
      {
        double w = -9;
        for( auto&& e : E )
          if( std::count( p.first.begin(), p.first.end(), e.u ) && std::count( p.first.begin(), p.first.end(), e.v ) )
            w = sym::max( w, e.w );
        C.push_back( p.first );
        G.vertices.push_back( w );
      }
    for( std::size_t i = 0; i < C.size(); ++i )
      for( std::size_t j = i+1; j < C.size(); ++j )
      {
        std::size_t shared = 0;
        for( int v : C[i] )
          shared += std::size_t( std::count( C[j].begin(), C[j].end(), v ) );
        if( shared == q )
          G.edges.push_back( Edge{ int(i), int(j), sym::max( G.vertices[i], G.vertices[j] ) } );
      }
    std::string name = "/g_k" + std::to_string( q ) + ".txt";
    if( C.empty() )
    {
      ASSERT( !exists( name ), "no cliques, no communities" );
      continue;
    }
    std::vector<Point> D;
    for( auto&& w : file( name ) )
    {
      ASSERT( w.size() == 3, "interval and size" );
      D.push_back( Point( number( w[0] ), number( w[1] ) ) );
      int size = std::stoi( w[2] );
      ASSERT( size >= 1 && size <= int( C.size() ), "size of a community" );
    }
    total += D.size();
    ASSERT( sym::either( b >= 2*most, counted( D, a, b ) == components( G, a, b ) ), "communities of cliques" );
    REACH( q == 1 ? "edges" : q == 2 ? "triangles" : "tetrahedra" );
  }
  int participations = 0;
  auto l = file( "/g.txt" );
  ASSERT( l.size() == ( n < 4 ? 3u : 4u ), "one line for every vertex" );
  for( std::size_t i = 0; i < l.size(); ++i )
  {
    ASSERT( l[i].size() == 3 && l[i][0] == std::to_string( i ), "vertex, persistence and number of communities" );
    participations += std::stoi( l[i][2] );
    ASSERT( ( std::stoi( l[i][2] ) > 0 ) == ( number( l[i][1] ) > 0 ), "communities have positive persistence" );
  }
  ASSERT( participations >= 2 * int( total ), "every community has at least two vertices" );
}

//@ weights: normalised and inverted weights of a triangle with weights 1..4, and labels of vertices in other formats
HARNESS( weights )
{
  int invert = sym::choice( "invert", 0, 1 ), normalize = sym::choice( "normalize", 0, 1 ), reverse = sym::choice( "reverse", 0, 1 ), format = sym::choice( "format", 0, 2 );
  double w[3], most = 0;
  for( auto&& x : w )
  {
    x = sym::choice( "w", 1, 4 );
    most = std::max( most, x );
  }
  // Vertices have a weight of zero, which is the least one
  std::string t;
  if( format == 0 )
    for( int i = 0; i < 3; ++i )
      t += std::to_string( i ) + " " + std::to_string( ( i+1 ) % 3 ) + " " + text( w[i] ) + "\n";
  else if( format == 1 )
  {
    t = "*Vertices 3\n1 \"one\"\n2 \"and two\"\n3 \"three\"\n*Edges\n";
    for( int i = 0; i < 3; ++i )
      t += std::to_string( i+1 ) + " " + std::to_string( ( i+1 ) % 3 + 1 ) + " " + text( w[i] ) + "\n";
  }
  else
  {
    t = "graph [\n";
    static const char* label[] = { "one", "and two", "three" };
    for( int i = 0; i < 3; ++i )
      t += "  node [\n    id " + std::to_string( i ) + "\n    label \"" + label[i] + "\"\n  ]\n";
    for( int i = 0; i < 3; ++i )
      t += "  edge [\n    source " + std::to_string( i ) + "\n    target " + std::to_string( ( i+1 ) % 3 ) + "\n    weight " + text( w[i] ) + "\n  ]\n";
    t += "]\n";
  }
  static const char* extension[] = { ".txt", ".net", ".gml" };
  Inputs d;
  Words arguments = { d.write( std::string( "g" ) + extension[format], t ), "2" };
  if( invert )
    arguments.insert( arguments.begin(), "-i" );
  if( normalize )
    arguments.insert( arguments.begin(), "-n" );
  if( reverse )
    arguments.insert( arguments.begin(), "-r" );
  auto o = run( clique_persistence_diagram::tool, arguments );
  ASSERT( o.status == 0, "succeeds" );
  double top = most;
  if( normalize )
  {
    for( auto&& x : w )
      x /= most;
    top = 1;
  }
  if( invert )
    for( auto&& x : w )
      x = top - x;
  std::sort( w, w+3 );
  auto triangles = file( "/g_k2.txt" );
  ASSERT( triangles.size() == 1 && triangles[0].size() == 3, "one triangle" );
  ASSERT( same( number( triangles[0][0] ), w[2] ) && same( number( triangles[0][1] ), 2*top ) && triangles[0][2] == "1", "community of the triangle" );
  auto edges = file( "/g_k1.txt" );
  ASSERT( edges.size() == 1 && edges[0].size() == 3, "one community of edges" );
  ASSERT( same( number( edges[0][0] ), w[0] ) && same( number( edges[0][1] ), 2*top ) && edges[0][2] == "3", "community of the edges" );
  auto l = file( "/g.txt" );
  ASSERT( l.size() == 3, "one line for every vertex" );
  double sum = ( 2*top - w[2] ) * ( 2*top - w[2] ) + ( 2*top - w[0] ) * ( 2*top - w[0] );
  for( auto&& v : l )
  {
    ASSERT( v.size() >= 3, "vertex, persistence and number of communities" );
    ASSERT( same( number( v[1] ), sum ), "accumulated persistence" );
    ASSERT( v[2] == "2", "number of communities" );
  }
  if( format )
    ASSERT( l[0].size() == 4 && l[0][3] == "one" && l[1].size() == 5 && l[1][3] == "\"and" && l[1][4] == "two\"" && l[2].size() == 4 && l[2][3] == "three", "labels" );
  REACH( "weights" );
}

//@ communities: graphs with three to five edges (thorough: six) between four vertices and weights 0.5..3.5 in steps of 1/2, cliques with up to four vertices, inverted weights, both orders of enumeration, all thresholds
HARNESS( communities )
{
  int n = sym::choice( "edges", 3, sym::thorough() ? 6 : 5 ), k = n == 6 ? 3 : 2, m = sym::choice( "mode", 0, 3 );
  communities( n, k, m );
}
