// C50: command line tools for hierarchies of pairs, triangulations and intersection homology
// tools: interlevel_set_persistence_hierarchy wicked_triangulations persistent_intersection_homology
// flags: -std=c++14
#include "tools.h"
#include "complexes.h"
#include "hierarchy.h"
#include "interlevel_set_persistence_hierarchy.inc"
#include "wicked_triangulations.inc"
#include "persistent_intersection_homology.inc"

typedef std::vector<std::string> Words;

static std::string S( std::size_t i ) { return std::to_string( i ); }

// The hierarchy of a function without ties on a path
struct Hierarchy
{
  std::vector<Vertex> nodes;
  std::vector<double> birth, death;
  std::vector< std::pair<Vertex, Vertex> > edges;
};

static Hierarchy hierarchy( const std::vector<double>& f, bool up )
{
  int n = int( f.size() );
  std::vector<int> byValue, rank( f.size(), 0 );
  for( int i = 0; i < n; ++i )
    byValue.push_back( i );
  std::sort( byValue.begin(), byValue.end(), [&] ( int a, int b ) { return up ? f[ std::size_t( a ) ] < f[ std::size_t( b ) ] : f[ std::size_t( a ) ] > f[ std::size_t( b ) ]; } );
  for( int i = 0; i < n; ++i )
    rank[ std::size_t( byValue[ std::size_t( i ) ] ) ] = i;
  // edges of the path in order of the filtration
  std::vector<Mask> order;
  for( int v : byValue )
  {
    if( v > 0 && rank[ std::size_t( v - 1 ) ] < rank[ std::size_t( v ) ] ) order.push_back( Mask(3) << ( v - 1 ) );
    if( v + 1 < n && rank[ std::size_t( v + 1 ) ] < rank[ std::size_t( v ) ] ) order.push_back( Mask(3) << v );
  }
  Hierarchy H;
  H.edges = onPath( rank, order );
  std::set<Vertex> nodes;
  for( auto&& e : H.edges )
  {
    nodes.insert( e.first );
    nodes.insert( e.second );
  }
  // the first value at which a smaller value becomes reachable
  for( Vertex v : nodes )
  {
    int best = n;
    for( int direction = -1; direction <= 1; direction += 2 )
    {
      int highest = rank[v];
      for( int u = int( v ) + direction; u >= 0 && u < n; u += direction )
      {
        highest = std::max( highest, rank[ std::size_t( u ) ] );
        if( rank[ std::size_t( u ) ] < rank[v] )
        {
          best = std::min( best, highest );
          break;
        }
      }
    }
    H.nodes.push_back( v );
    H.birth.push_back( f[v] );
    H.death.push_back( best == n ? std::numeric_limits<double>::infinity() : f[ std::size_t( byValue[ std::size_t( best ) ] ) ] );
  }
  return H;
}

static std::vector<double> function( int n )
{
  std::vector<double> f;
  for( int i = 0; i < n; ++i )
  {
    f.push_back( sym::fixed( "f", -200, 200, 1 ) );
    for( int j = 0; j < i; ++j )
      ASSUME( f[ std::size_t( j ) ] != f[ std::size_t( i ) ] );
  }
  return f;
}

// Compares the part of the output that starts at a line
static std::size_t compare( const std::vector<Words>& L, std::size_t k, const Hierarchy& H )
{
  auto line = [&] { ASSERT( k < L.size(), "there are further lines" ); return L[k++]; };
  if( H.nodes.empty() && k < L.size() && !L[k].empty() )
    ++k; // a hierarchy without edges may list its only pair
  for( std::size_t i = 0; i < H.nodes.size(); ++i )
  {
    Words w = line();
    ASSERT( w.size() == 3 && w[0] == S( i ) + ":", "nodes are numbered" );
    ASSERT( same( number( w[1] ), H.birth[i] ), "value of a creator" );
    double d = number( w[2] );
    if( std::isinf( H.death[i] ) )
      ASSERT( d == H.death[i], "essential pair" );
    else
      ASSERT( same( d, H.death[i] ), "value of a destroyer" );
  }
  ASSERT( line().empty(), "blank line" );
  auto index = [&] ( Vertex v ) { return S( std::size_t( std::find( H.nodes.begin(), H.nodes.end(), v ) - H.nodes.begin() ) ); };
  std::set< std::pair<std::string, std::string> > expected, actual;
  for( auto&& e : H.edges )
    expected.insert( std::make_pair( index( e.first ), index( e.second ) ) );
  for( std::size_t i = 0; i < H.edges.size(); ++i )
  {
    Words w = line();
    ASSERT( w.size() == 3 && w[1] == "--", "edges" );
    actual.insert( std::make_pair( w[0], w[2] ) );
  }
  ASSERT( actual == expected, "edges of the hierarchy" );
  ASSERT( line().empty() && line().empty(), "blank lines" );
  if( H.edges.size() == 1 ) REACH("one edge");
  return k;
}

static Words options( bool up, int how )
{
  if( how == 0 && up ) return {};
  if( how == 0 ) return { "-S" };
  if( up ) return { how == 1 ? "-s" : "--sublevels" };
  return { how == 1 ? "-S" : "--superlevels" };
}

static void hierarchies( int n, bool grids )
{
  symapi_linear();
  bool up = sym::flag( "up" );
  int how = sym::choice( "how", 0, 2 );
  bool grid = grids && sym::flag( "grid" );
  auto f = function( n );
  auto H = hierarchy( f, up );
  std::string t, name = "f.txt";
  if( grid )
  {
    name = "f.vtk";
    t = "# vtk DataFile Version 3.0\nTitle\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS " + S( f.size() ) + " 1 1\nPOINTS " + S( f.size() ) + " float\n";
    for( std::size_t i = 0; i < f.size(); ++i )
      t += S( i ) + " 0 0\n";
    t += "POINT_DATA " + S( f.size() ) + "\nSCALARS scalars float\nLOOKUP_TABLE default\n";
    REACH("grid");
  }
  for( double x : f )
    t += text( x ) + ( grid ? "\n" : " " );
  Inputs in;
  Words a = options( up, how );
  a.push_back( in.write( name, t + ( grid ? "" : "\n" ) ) );
  auto out = run( interlevel_set_persistence_hierarchy::tool, a );
  ASSERT( out.status == 0, "status" );
  auto L = out.lines();
  ASSERT( compare( L, 0, H ) == L.size(), "one hierarchy" );
  ASSERT( out.err.find( "Out of 1 persistence diagrams, there are 1 unique ones" ) != std::string::npos, "number of diagrams" );
  REACH("hierarchies");
  if( H.edges.size() > 1 ) REACH("deep");
}

//@ hierarchies4: functions without ties with four values, sublevel and superlevel sets, text files and grids
HARNESS(hierarchies4) { hierarchies( 4, true ); }
//@ hierarchies5: functions without ties with five values, sublevel and superlevel sets
HARNESS(hierarchies5) { hierarchies( 5, false ); }
//@ hierarchies6: functions without ties with six values, sublevel and superlevel sets
HARNESS(hierarchies6) { hierarchies( 6, false ); }

//@ classes: three functions with three values in one or two files, equal diagrams are reported
HARNESS(classes)
{
  symapi_linear();
  bool up = sym::flag( "up" ), files = sym::flag( "files" );
  std::vector< std::vector<double> > F;
  F.push_back( function( 3 ) );
  F.push_back( function( 3 ) );
  bool reversed = sym::flag( "reversed" );
  F.push_back( F[0] );
  if( reversed )
    std::reverse( F[2].begin(), F[2].end() );
  std::vector< std::vector< std::pair<double, double> > > D;
  std::vector<Hierarchy> H;
  std::vector<double> root;
  std::string t[2];
  for( std::size_t i = 0; i < 3; ++i )
  {
    H.push_back( hierarchy( F[i], up ) );
    for( double x : F[i] )
      t[ files && i ? 1 : 0 ] += text( x ) + " ";
    t[ files && i ? 1 : 0 ] += "\n";
    double m = F[i][0];
    for( double x : F[i] )
      m = up ? sym::min( m, x ) : sym::max( m, x );
    root.push_back( m );
  }
  auto equal = [&] ( std::size_t i, std::size_t j )
  {
    if( H[i].edges.size() != H[j].edges.size() || root[i] != root[j] )
      return false;
    if( H[i].edges.empty() )
      return true;
    auto child = [&] ( std::size_t k ) { return std::isinf( H[k].death[0] ) ? 1 : 0; };
    return H[i].birth[ std::size_t( child( i ) ) ] == H[j].birth[ std::size_t( child( j ) ) ] && H[i].death[ std::size_t( child( i ) ) ] == H[j].death[ std::size_t( child( j ) ) ];
  };
  Inputs in;
  Words a = options( up, 1 );
  a.push_back( in.write( "a.txt", t[0] ) );
  if( files )
    a.push_back( in.write( "b.txt", t[1] ) );
  written().clear();
  auto out = run( interlevel_set_persistence_hierarchy::tool, a );
  auto L = out.lines();
  std::size_t k = 0;
  for( std::size_t i = 0; i < 3; ++i )
    k = compare( L, k, H[i] );
  ASSERT( k == L.size(), "three hierarchies" );
  bool all = equal( 0, 1 );
  ASSERT( out.err.find( std::string( "Out of 3 persistence diagrams, there are " ) + ( all ? "1" : "2" ) + " unique ones" ) != std::string::npos, "number of different diagrams" );
  ASSERT( written().size() == 1, "one file is written" );
  auto C = Output::split( written().begin()->second, " " );
  ASSERT( C.size() == 1, "one class of equal diagrams" );
  std::sort( C[0].begin(), C[0].end() );
  ASSERT( C[0] == ( all ? Words( { "0", "1", "2" } ) : Words( { "0", "2" } ) ), "members of the class" );
  REACH("classes");
  if( all ) REACH("all equal");
}

//@ ties: two functions with three equal minima or maxima and values in between, in both orders
HARNESS(ties)
{
  symapi_linear();
  bool up = sym::flag( "up" ), other = sym::flag( "other" );
  double x = sym::fixed( "x", -200, 200, 1 ), p = sym::fixed( "p", 1, 200, 1 ), q = sym::fixed( "q", 1, 200, 1 );
  if( !up )
  {
    p = -p;
    q = -q;
  }
  double r = other ? p : q;
  std::string t = text( x ) + " " + text( x + p ) + " " + text( x ) + " " + text( x + q ) + " " + text( x ) + "\n" +
                  text( x ) + " " + text( x + r ) + " " + text( x ) + " " + text( x + p ) + " " + text( x ) + "\n";
  bool equal = r == q;
  Inputs in;
  Words a = options( up, 2 );
  a.push_back( in.write( "a.txt", t ) );
  written().clear();
  auto out = run( interlevel_set_persistence_hierarchy::tool, a );
  ASSERT( out.status == 0, "status" );
  ASSERT( out.err.find( std::string( "Out of 2 persistence diagrams, there are " ) + ( equal ? "1" : "2" ) + " unique ones" ) != std::string::npos, "number of different diagrams" );
  ASSERT( written().size() == 1 && ( written().begin()->second == "" ) == !equal, "classes are written" );
  REACH("ties");
}

// The text of a list of numbers in brackets
template <class T> static std::string brackets( const std::vector<T>& v )
{
  std::string s = "[";
  for( std::size_t i = 0; i < v.size(); ++i )
    s += ( i ? "," : "" ) + std::to_string( v[i] );
  return s + "]";
}

// Betti numbers of intersection homology of the subdivision, calculated by the library
static std::vector<std::size_t> intersection( const std::vector<Mask>& all, std::size_t dimension, const std::vector<int>& values )
{
  std::vector<Spx> s;
  for( Mask m : all )
    s.push_back( simplexOf( m << 1 ) );
  Complex K( s.begin(), s.end() );
  K.sort();
  std::vector<Complex> X;
  for( std::size_t d = 0; d <= dimension; ++d )
    X.push_back( aleph::topology::Skeleton()( d, K ) );
  auto L = aleph::topology::BarycentricSubdivision()( K );
  std::vector<std::size_t> b( dimension + 1, 0 );
  for( auto&& D : aleph::calculateIntersectionHomology( L, X, aleph::Perversity( values.begin(), values.end() ) ) )
    b.at( D.dimension() ) = D.betti();
  return b;
}

static void triangulation( const std::vector<Mask>& top, bool two )
{
  std::vector< std::vector<Mask> > tops( 1, top );
  if( two )
    tops.push_back( { 3, 6, 5 } );
  std::string t;
  for( std::size_t k = 0; k < tops.size(); ++k )
  {
    t += "manifold_lex_d2_n5_#" + S( k + 1 ) + "=[";
    for( std::size_t i = 0; i < tops[k].size(); ++i )
    {
      t += i ? ",[" : "[";
      bool first = true;
      for( int v = 0; v < 8; ++v )
        if( tops[k][i] >> v & 1 )
        {
          t += ( first ? "" : "," ) + S( std::size_t( v + 1 ) );
          first = false;
        }
      t += "]";
    }
    t += "]\n\n";
  }
  Inputs in;
  auto out = run( wicked_triangulations::tool, { in.write( "t.txt", t ) } );
  ASSERT( out.status == 0, "status" );
  std::string s;
  for( char c : out.out )
    if( c != ' ' && c != '\n' )
      s += c;
  // reads an expected piece of the output
  std::size_t p = 0;
  auto expect = [&] ( const std::string& piece )
  {
    ASSERT( s.compare( p, piece.size(), piece ) == 0, "output has the documented form and values" );
    p += piece.size();
  };
  auto list = [&]
  {
    auto e = s.find( ']', p );
    ASSERT( e != std::string::npos && s[p] == '[', "list of numbers" );
    std::string l = s.substr( p, e + 1 - p );
    p = e + 1;
    return l;
  };
  expect( "{\"homology\":{" );
  for( std::size_t k = 0; k < tops.size(); ++k )
  {
    auto b = bettiByDimension( withFaces( tops[k] ) );
    int euler = 0;
    for( std::size_t d = 0; d < b.size(); ++d )
      euler += d % 2 ? -b[d] : b[d];
    expect( ( k ? ",\"" : "\"" ) + S( k ) + "\":{\"betti\":" + brackets( b ) + ",\"euler\":" + std::to_string( euler ) + "}" );
  }
  expect( "},\"intersection_homology\":{" );
  for( std::size_t k = 0; k < tops.size(); ++k )
  {
    auto all = withFaces( tops[k] );
    std::size_t dimension = std::size_t( popcount( all.back() ) ) - 1;
    std::map<std::string, std::string> expected, actual;
    std::vector<int> v( dimension, -1 );
    for( ;; )
    {
      expected[ brackets( v ) ] = brackets( intersection( all, dimension, v ) );
      std::size_t i = 0;
      while( i < dimension && v[i] == int( i ) )
        v[i++] = -1;
      if( i == dimension )
        break;
      ++v[i];
    }
    expect( ( k ? ",\"" : "\"" ) + S( k ) + "\":{" );
    for( std::size_t i = 0; i < expected.size(); ++i )
    {
      expect( ( i ? ",\"" : "\"" ) + S( i ) + "\":{\"perversity\":" );
      std::string perversity = list();
      expect( ",\"betti\":" );
      actual[perversity] = list();
      expect( "}" );
    }
    ASSERT( actual == expected, "Betti numbers for all perversities" );
    expect( "}" );
  }
  expect( "}}" );
  ASSERT( p == s.size(), "nothing else" );
  REACH("triangulation");
}

//@ triangulations: complexes of up to four triangles and up to three further edges on five vertices, alone or followed by a circle
HARNESS(triangulations)
{
  std::vector<Mask> top;
  for( Mask m : { tri( 0, 1, 2 ), tri( 0, 1, 3 ), tri( 0, 2, 3 ), tri( 1, 2, 3 ) } )
    if( sym::flag( "triangle" ) )
      top.push_back( m );
  ASSUME( !top.empty() );
  int further = sym::choice( "further", 0, 3 );
  if( further & 1 ) top.push_back( 17 );
  if( further & 2 ) top.push_back( 18 );
  bool two = sym::flag( "two" );
  triangulation( top, two );
}

//@ solids: one or two tetrahedra with a common triangle, edge or vertex, or the boundary of a tetrahedron and an edge
HARNESS(solids)
{
  static const Mask T[][2] = { { 15, 0 }, { 15, 30 }, { 15, 60 }, { 15, 120 } };
  int k = sym::choice( "k", 0, 3 );
  std::vector<Mask> top( 1, T[k][0] );
  if( T[k][1] ) top.push_back( T[k][1] );
  triangulation( top, false );
}

typedef std::vector< std::pair<double, double> > Points;

// Diagrams of allowable chains by ranks; all simplices are allowable without strata
static std::map<int, Points> diagrams( const std::vector<Mask>& order, const std::map<Mask, double>& weight, const std::set<Mask>* points, int dimension )
{
  std::vector<Mask> sequence, rest;
  for( Mask m : order )
  {
    bool ok = true;
    if( points )
    {
      // vertices and, in dimension three, edges belong to the strata
      int common = 0;
      for( Mask t : *points )
        common += ( t & m ) != 0;
      ok = common == 0 || std::min( common, dimension - 1 ) - 1 <= popcount( m ) - 3;
    }
    ( ok ? sequence : rest ).push_back( m );
  }
  std::size_t n = sequence.size();
  sequence.insert( sequence.end(), rest.begin(), rest.end() );
  auto columns = boundaryColumns( sequence );
  for( std::size_t i = n; i < columns.size(); ++i )
    columns[i] = 0;
  std::map<int, Points> result;
  for( auto&& q : pairsByRanks( columns ) )
    if( q.first < int( n ) )
    {
      Mask c = sequence[ std::size_t( q.first ) ];
      double x = weight.at( c ), y = q.second < 0 ? std::numeric_limits<double>::infinity() : weight.at( sequence[ std::size_t( q.second ) ] );
      if( x != y )
        result[ popcount( c ) - 1 ].push_back( std::make_pair( x, y ) );
    }
  for( auto&& p : result )
    std::sort( p.second.begin(), p.second.end() );
  return result;
}

static Points pointsOf( const std::string& text )
{
  Points P;
  for( auto&& w : Output::split( text, " \t" ) )
    if( !w.empty() )
    {
      ASSERT( w.size() == 2, "two numbers per line" );
      double x = number( w[0] ), y = number( w[1] );
      P.push_back( std::make_pair( x, y ) );
    }
  std::sort( P.begin(), P.end() );
  return P;
}

static void compare( const Points& actual, const Points& expected )
{
  ASSERT( actual.size() == expected.size(), "number of points" );
  for( std::size_t i = 0; i < actual.size(); ++i )
  {
    ASSERT( same( actual[i].first, expected[i].first ), "creation" );
    ASSERT( actual[i].second == expected[i].second || same( actual[i].second, expected[i].second ), "destruction" );
  }
}

static void strata( int n, const int (*P)[2], const char* scale, int threshold, bool columns, const double* given = nullptr, int dimension = 2 )
{
  static const double thresholds[] = { 0, 2.5, -1 };
  bool invert = sym::flag( "invert" );
  std::string cloud, values;
  std::set<Mask> singular;
  double epsilon = std::atof( scale );
  double limit = thresholds[threshold];
  std::vector<double> sum;
  for( int i = 0; i < n; ++i )
  {
    cloud += std::to_string( P[i][0] ) + " " + std::to_string( P[i][1] ) + "\n";
    double a = given ? given[i] : double( sym::fixed( "a", -100, 100, 1 ) ), b = columns && i < 2 ? double( sym::fixed( "b", -100, 100, 1 ) ) : 1.0;
    values += text( a ) + ( columns ? " " + text( b ) : "" ) + "\n";
    double s = columns ? a + b : a;
    if( given )
    {
      // standardised values
      double mean = 0, variance = 0;
      for( int j = 0; j < n; ++j ) mean += given[j] / n;
      for( int j = 0; j < n; ++j ) variance += ( given[j] - mean ) * ( given[j] - mean ) / ( n - 1 );
      s = ( s - mean ) / std::sqrt( variance );
    }
    if( invert ? s > limit : s < limit )
      singular.insert( Mask(1) << i );
  }
  // the complex
  std::map<Mask, double> weight;
  std::vector<Mask> order;
  for( Mask m = 1; m < ( Mask(1) << n ); ++m )
  {
    double w = 0;
    for( int i = 0; i < n; ++i )
      for( int j = 0; j < i; ++j )
        if( ( m >> i & 1 ) && ( m >> j & 1 ) )
        {
          double x = P[i][0] - P[j][0], y = P[i][1] - P[j][1];
          w = std::max( w, std::sqrt( x*x + y*y ) );
        }
    if( popcount( m ) <= dimension + 1 && w <= epsilon )
    {
      weight[m] = w;
      order.push_back( m );
    }
  }
  std::stable_sort( order.begin(), order.end(), [&] ( Mask a, Mask b ) { return weight[a] != weight[b] ? weight[a] < weight[b] : popcount( a ) < popcount( b ); } );
  auto E1 = diagrams( order, weight, nullptr, dimension ), E2 = diagrams( order, weight, &singular, dimension );
  Inputs in;
  Words a = { "-f", threshold == 0 ? "0" : threshold == 1 ? "2.5" : "-1" };
  if( invert ) a.push_back( "-i" );
  if( given ) a.push_back( "--standardize" );
  a.push_back( in.write( "cloud.txt", cloud ) );
  a.push_back( scale );
  a.push_back( in.write( "values.txt", values ) );
  if( dimension != 2 ) a.push_back( std::to_string( dimension ) );
  written().clear();
  auto out = run( persistent_intersection_homology::tool, a );
  ASSERT( out.status == 0, "status" );
  for( int d = 0; d <= 2; ++d )
  {
    std::string ph = "/tmp/D_" + std::to_string( d ) + "_PH.txt", ih = "/tmp/D_" + std::to_string( d ) + "_IH.txt";
    ASSERT( written().count( ph ) == written().count( ih ), "diagrams are written in pairs" );
    ASSERT( d > 0 || written().count( ph ), "diagrams of dimension zero are written" );
    if( !written().count( ph ) )
      continue;
    // unpaired simplices of the highest dimension are not part of the first diagram
    Points e = E1[d];
    if( d == dimension ) e.clear();
    compare( pointsOf( written()[ph] ), e );
    compare( pointsOf( written()[ih] ), E2[d] );
    if( d == 1 ) REACH("one-dimensional");
    if( d == 1 && !E2[d].empty() && E2[d] != e ) REACH("different");
  }
  ASSERT( written().size() % 2 == 0, "no other files" );
  REACH("strata");
  if( singular.size() == 2 ) REACH("two singular points");
}

//@ strata: four points in two arrangements and two scales, all singularity values of each point given by one or two columns, thresholds, both directions
HARNESS(strata)
{
  static const int P[][4][2] = { { { 0, 0 }, { 12, 0 }, { 0, 5 }, { 13, 7 } }, { { 0, 0 }, { 3, 4 }, { 9, 12 }, { -8, 15 } } };
  int k = sym::choice( "arrangement", 0, 1 ), scale = sym::choice( "scale", 0, 1 ), threshold = sym::choice( "threshold", 0, 2 );
  bool columns = sym::flag( "columns" );
  strata( 4, P[k], scale ? "100" : k ? "17.5" : "13.5", threshold, columns );
}

//@ squares: seven points that form two squares and a triangle, all singularity values of each point, both directions
HARNESS(squares)
{
  static const int P[][2] = { { 0, 0 }, { 10, 0 }, { 10, 10 }, { 0, 10 }, { 20, 0 }, { 20, 10 }, { 5, -5 } };
  strata( 7, P, "11", 1, false );
}

//@ solid: three-dimensional complexes of four points, or of a cone over a square and a tetrahedron, all singularity values of each point, both directions
HARNESS(solid)
{
  static const int P[][8][2] = { { { 0, 0 }, { 12, 0 }, { 0, 5 }, { 13, 7 } }, { { 0, 0 }, { 10, 0 }, { 0, 10 }, { -10, 0 }, { 0, -10 }, { 18, 0 }, { 17, 1 }, { 17, -1 } } };
  int k = sym::choice( "arrangement", 0, 1 );
  strata( k ? 8 : 4, P[k], k ? "15" : "100", 1, false, nullptr, 3 );
  REACH("solid");
}

//@ standardised: seven points with one of four lists of singularity values that are standardised, thresholds, both directions
HARNESS(standardised)
{
  static const int P[][2] = { { 0, 0 }, { 10, 0 }, { 10, 10 }, { 0, 10 }, { 20, 0 }, { 20, 10 }, { 5, -5 } };
  static const double V[][7] = { { 1, 2, 3, 40, 5, 6, 7 }, { -9, 4, 4, 4, -9, 4, 4.5 }, { 100, 101, 102, 103, 104, 150, 90 }, { 0, 0.5, 0, 0, 0, 4, -20 } };
  int k = sym::choice( "values", 0, 3 ), threshold = sym::choice( "threshold", 0, 1 );
  strata( 7, P, "11", threshold == 0 ? 0 : 2, false, V[k] );
}
