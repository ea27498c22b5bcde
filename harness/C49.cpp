// C49: command line tools that process point clouds, communities and entropies
// tools: rips_distributions clique_communities_to_json persistence_diagram_entropies point_cloud_data_descriptors
// flags: -DALEPH_WITH_RAPID_JSON
#include "tools.h"
#include "rips_distributions.inc"
#include "clique_communities_to_json.inc"
#include "persistence_diagram_entropies.inc"
#include "point_cloud_data_descriptors.inc"
#include <rapidjson/document.h>

typedef std::vector<std::string> Words;
typedef std::vector< std::vector<double> > Cloud;

static Cloud cloud( int n, int d, bool symbolic, int hi )
{
  Cloud P;
  for( int i = 0; i < n; ++i )
  {
    P.push_back( {} );
    for( int j = 0; j < d; ++j )
    {
      double x = symbolic ? double( sym::fixed( "x", -hi, hi, 1 ) ) : double( sym::choice( "x", 0, hi ) );
      P.back().push_back( x );
    }
  }
  return P;
}

static std::string file( const Cloud& P, const std::string& separator = " " )
{
  std::string t;
  for( auto&& p : P )
  {
    for( std::size_t j = 0; j < p.size(); ++j )
      t += ( j ? separator : "" ) + text( p[j] );
    t += "\n";
  }
  return t;
}

// Values of an array in the output of a tool
static std::vector<double> array( const rapidjson::Document& document, const char* name )
{
  ASSERT( document.HasMember( name ), "array is present" );
  std::vector<double> r;
  for( auto&& x : document[name].GetArray() )
    r.push_back( x.IsInt() ? number( std::to_string( x.GetInt() ) ) : x.GetDouble() );
  return r;
}

//@ manhattan: two or three points with one or two coordinates between -3.5 and 3.5 (three points: -1.5 and 1.5) in steps of 0.5, radii 1.25, 2.75 and none
HARNESS( manhattan )
{
  int n = sym::choice( "points", 2, 3 ), d = sym::choice( "dimension", 1, 2 ), e = sym::choice( "epsilon", 0, 2 );
  auto P = cloud( n, d, true, n == 3 ? 3 : 7 );
  Inputs in;
  Words arguments = { "-d", "manhattan", in.write( "p.txt", file( P ) ) };
  double epsilon = e == 0 ? 0 : e == 1 ? 1.25 : 2.75;
  if( e )
    arguments.insert( arguments.begin(), { "--epsilon", e == 1 ? "1.25" : "2.75" } );
  auto o = run( rips_distributions::tool, arguments );
  ASSERT( o.status == 0, "succeeds" );
  rapidjson::Document document;
  document.Parse( o.out.c_str() );
  ASSERT( !document.HasParseError(), "output is valid" );
  auto distances = array( document, "distances" );
  ASSERT( int( distances.size() ) == n*(n-1)/2, "one distance for every pair" );
  auto distance = [&] ( int i, int j )
  {
    double s = 0;
    for( int k = 0; k < d; ++k )
      s += sym::abs( P[ std::size_t(i) ][ std::size_t(k) ] - P[ std::size_t(j) ][ std::size_t(k) ] );
    return s;
  };
  std::size_t index = 0;
  for( int i = 0; i < n; ++i )
    for( int j = i+1; j < n; ++j )
      ASSERT( same( distances[index++], distance( i, j ) * distance( i, j ) ), "squared distance" );
  ASSERT( document.HasMember( "unweighted_degrees" ) == ( e != 0 ) && document.HasMember( "weighted_degrees" ) == ( e != 0 ), "degrees if there is a radius" );
  if( e )
  {
    auto degrees = array( document, "unweighted_degrees" ), weights = array( document, "weighted_degrees" );
    ASSERT( int( degrees.size() ) == n && int( weights.size() ) == n, "one degree for every point" );
    for( int i = 0; i < n; ++i )
    {
      int count = 0;
      double sum = 0;
      for( int j = 0; j < n; ++j )
        if( distance( i, j ) < epsilon )
        {
          ++count;
          sum += distance( i, j );
        }
      ASSERT( int( degrees[ std::size_t(i) ] ) == count, "number of neighbours" );
      ASSERT( same( weights[ std::size_t(i) ], sum ), "distances of neighbours" );
    }
    REACH( "degrees" );
  }
  REACH( "distances" );
}

//@ euclidean: two or three points with two coordinates 0..2, radius 1.5 or none
HARNESS( euclidean )
{
  int n = sym::choice( "points", 2, 3 ), e = sym::choice( "epsilon", 0, 1 );
  auto P = cloud( n, 2, false, n == 2 ? 2 : 1 );
  Inputs in;
  Words arguments = { in.write( "p.txt", file( P ) ) };
  if( e )
    arguments.insert( arguments.begin(), { "-e", "1.5" } );
  auto o = run( rips_distributions::tool, arguments );
  ASSERT( o.status == 0, "succeeds" );
  rapidjson::Document document;
  document.Parse( o.out.c_str() );
  ASSERT( !document.HasParseError(), "output is valid" );
  auto distances = array( document, "distances" );
  ASSERT( int( distances.size() ) == n*(n-1)/2, "one distance for every pair" );
  auto square = [&] ( int i, int j )
  {
    double s = 0;
    for( std::size_t k = 0; k < 2; ++k )
    {
      double x = P[ std::size_t(i) ][k] - P[ std::size_t(j) ][k];
      s += x*x;
    }
    return s;
  };
  std::size_t index = 0;
  for( int i = 0; i < n; ++i )
    for( int j = i+1; j < n; ++j )
      ASSERT( same( distances[index++], square( i, j ) ), "squared distance" );
  if( e )
  {
    auto degrees = array( document, "unweighted_degrees" ), weights = array( document, "weighted_degrees" );
    ASSERT( int( degrees.size() ) == n && int( weights.size() ) == n, "one degree for every point" );
    for( int i = 0; i < n; ++i )
    {
      int count = 0;
      double sum = 0;
      for( int j = 0; j < n; ++j )
        if( square( i, j ) < 1.5*1.5 )
        {
          ++count;
          sum += std::sqrt( square( i, j ) );
        }
      ASSERT( int( degrees[ std::size_t(i) ] ) == count, "number of neighbours" );
      ASSERT( same( weights[ std::size_t(i) ], sum ), "distances of neighbours" );
    }
  }
  REACH( "distances" );
}

static const std::pair<int,int> pairs[] = { {0,1}, {1,2}, {0,2}, {2,3}, {1,3}, {0,3} };
typedef std::set< std::set<int> > Community;

// Communities of cliques with q+1 vertices: components of cliques that share q vertices
static std::set<Community> expected( const std::vector< std::pair<int,int> >& edges, std::size_t q )
{
  std::vector< std::set<int> > cliques;
  for( int m = 1; m < 16; ++m )
  {
    std::set<int> s;
    for( int i = 0; i < 4; ++i )
      if( m >> i & 1 )
        s.insert( i );
    bool all = s.size() == q+1;
    for( int i : s )
      for( int j : s )
        all = all && ( i >= j || std::count( edges.begin(), edges.end(), std::make_pair( i, j ) ) );
    if( all )
      cliques.push_back( s );
  }
  std::vector<int> component;
  for( std::size_t i = 0; i < cliques.size(); ++i )
    component.push_back( int(i) );
  for( std::size_t i = 0; i < cliques.size(); ++i )
    for( std::size_t j = 0; j < cliques.size(); ++j )
    {
      std::size_t shared = 0;
      for( int v : cliques[i] )
        shared += cliques[j].count( v );
      if( shared >= q && component[i] != component[j] )
      {
        int from = component[j], to = component[i];
        for( auto&& c : component )
          if( c == from )
            c = to;
      }
    }
  std::map<int, Community> m;
  for( std::size_t i = 0; i < cliques.size(); ++i )
    m[ component[i] ].insert( cliques[i] );
  std::set<Community> r;
  for( auto&& p : m )
    r.insert( p.second );
  return r;
}

static void communities( int n, int k, bool invert, bool normalize, bool labels )
{
  static const char* label[] = { "zero", "one", "two and more", "three" };
  double w[6], most = 0;
  for( int i = 0; i < n; ++i )
  {
    if( normalize )
      w[i] = sym::choice( "w", 1, 4 );
    else
      w[i] = sym::fixed( "w", 1, 15, 1 );
    most = sym::max( most, w[i] );
  }
  std::string t;
  if( labels )
  {
    t = "graph [\n";
    for( int i = 0; i < 4; ++i )
      t += "  node [\n    id " + std::to_string( i ) + "\n    label \"" + label[i] + "\"\n  ]\n";
    for( int i = 0; i < n; ++i )
      t += "  edge [\n    source " + std::to_string( pairs[i].first ) + "\n    target " + std::to_string( pairs[i].second ) + "\n    weight " + text( w[i] ) + "\n  ]\n";
    t += "]\n";
  }
  else
    for( int i = 0; i < n; ++i )
      t += std::to_string( pairs[i].first ) + " " + std::to_string( pairs[i].second ) + " " + text( w[i] ) + "\n";
  Inputs d;
  Words arguments = { d.write( labels ? "g.gml" : "g.txt", t ), normalize ? "0.5" : "3.5", std::to_string( k ) };
  if( invert )
    arguments.insert( arguments.begin(), "--invert-weights" );
  if( normalize )
    arguments.insert( arguments.begin(), "--normalize" );
  if( labels )
    arguments.insert( arguments.begin(), "--labels" );
  std::vector< std::pair<int,int> > edges;
  double top = normalize ? 1 : most, threshold = normalize ? 0.5 : 3.5;
  for( int i = 0; i < n; ++i )
  {
    double v = normalize ? w[i] / most : w[i];
    if( invert )
      v = top - v;
    if( v <= threshold )
      edges.push_back( pairs[i] );
  }
  auto o = run( clique_communities_to_json::tool, arguments );
  ASSERT( o.status == 0, "succeeds" );
  rapidjson::Document document;
  document.Parse( o.out.c_str() );
  ASSERT( !document.HasParseError() && document.MemberCount() == 1, "output is valid" );
  auto&& levels = document.MemberBegin()->value;
  ASSERT( same( number( document.MemberBegin()->name.GetString() ), threshold ), "threshold" );
  ASSERT( int( levels.MemberCount() ) == k, "one list for every size of cliques" );
  for( int q = 1; q <= k; ++q )
  {
    std::string name = std::to_string( q+1 );
    ASSERT( levels.HasMember( name.c_str() ), "size of the cliques" );
    std::set<Community> result;
    for( auto&& c : levels[ name.c_str() ].GetArray() )
    {
      Community community;
      for( auto&& s : c.GetArray() )
      {
        std::set<int> clique;
        for( auto&& v : s.GetArray() )
        {
          int index = -1;
          if( labels )
          {
            for( int i = 0; i < 4; ++i )
              if( std::string( label[i] ) == v.GetString() )
                index = i;
          }
          else
            index = v.GetInt();
          clique.insert( index );
        }
        ASSERT( community.insert( clique ).second, "clique is reported once" );
      }
      ASSERT( result.insert( community ).second, "community is reported once" );
    }
    ASSERT( result == expected( edges, std::size_t( q ) ), "communities of cliques" );
    if( !result.empty() && q == 1 )
      REACH( "edges" );
    if( !result.empty() && q == 2 )
      REACH( "triangles" );
    if( !result.empty() && q == 3 )
      REACH( "tetrahedra" );
  }
}

//@ communities: graphs with three to six edges between four vertices and weights 0.5..7.5 in steps of 0.5, edge lists and graphs with labels, cliques with up to four vertices
HARNESS( communities )
{
  int n = sym::choice( "edges", 3, 6 ), k = sym::choice( "cliques", 1, 3 );
  communities( n, n < 6 && !sym::thorough() ? ( k == 1 ? 1 : 2 ) : k, false, false, n < 5 && k == 2 );
}

//@ inverted: graphs with two or three edges and weights 0.5..7.5 subtracted from the largest one
HARNESS( inverted )
{
  int n = sym::choice( "edges", 2, 3 );
  bool labels = sym::flag( "labels" );
  communities( n, 2, true, false, labels );
}

//@ normalized: graphs with three or four edges and weights 1..4 divided by the largest one
HARNESS( normalized )
{
  int n = sym::choice( "edges", 3, 4 ), m = sym::choice( "mode", 0, 3 );
  communities( n, 2, m & 1, true, m & 2 );
}

//@ entropies: two files, one of them with two or three points with coordinates 0..2 above the diagonal
HARNESS( entropies )
{
  int n = sym::choice( "points", 2, 3 );
  std::vector< std::pair<double, double> > P;
  double total = 0;
  for( int i = 0; i < n; ++i )
  {
    double x = sym::choice( "x", 0, 2 ), y = sym::choice( "y", 1, 3 );
    if( y <= x )
      return;
    P.push_back( std::make_pair( x, y ) );
    total += y - x;
  }
  std::string t;
  for( auto&& p : P )
    t += text( p.first ) + " " + text( p.second ) + "\n";
  Inputs d;
  std::string f = d.write( "a.txt", t ), g = d.write( "b.txt", "0 1\n5 6\n2 3\n7 8\n" );
  auto o = run( persistence_diagram_entropies::tool, { f, g } );
  auto l = o.lines();
  ASSERT( o.status == 0 && l.size() == 2 && l[0].size() == 3 && l[1].size() == 3, "three values for every file" );
  double e = 0;
  for( auto&& p : P )
  {
    double q = ( p.second - p.first ) / total;
    e -= q * std::log2( q );
  }
  ASSERT( same( number( l[0][2] ), e ), "persistent entropy" );
  ASSERT( same( number( l[1][2] ), 2 ), "persistent entropy of equal points" );
  // Entropy of the numbers of points in a grid with 20 cells in each direction
  std::map< std::pair<double,double>, int > cells;
  for( auto&& p : P )
    ++cells[p];
  double grid = 0;
  for( auto&& s : cells )
    grid -= double( s.second ) / n * std::log2( double( s.second ) / n );
  // Different points with integral coordinates are in different cells
  ASSERT( same( number( l[0][1] ), grid ), "entropy of the grid" );
  // Squared distance of every point to its nearest neighbour
  std::vector<double> areas;
  double area = 0;
  for( int i = 0; i < n; ++i )
  {
    double nearest = 1000;
    for( int j = 0; j < n; ++j )
      if( i != j )
      {
        double x = P[ std::size_t(i) ].first - P[ std::size_t(j) ].first, y = P[ std::size_t(i) ].second - P[ std::size_t(j) ].second;
        nearest = std::min( nearest, x*x + y*y );
      }
    areas.push_back( nearest );
    area += nearest;
  }
  if( area == 0 )
    return;
  double spatial = 0;
  for( double x : areas )
    if( x > 0 )
      spatial -= x / area * std::log2( x / area );
  ASSERT( same( number( l[0][0] ), spatial ), "entropy of areas" );
  REACH( "entropies" );
}

//@ descriptors: two or three points on a line with coordinates 0..4, largest distances as values, optionally inverted and normalised, with and without unpaired points
HARNESS( descriptors )
{
  int n = sym::choice( "points", 2, 3 ), m = sym::choice( "mode", 0, 7 ), e = sym::choice( "epsilon", 1, 2 ), p = sym::choice( "power", 0, 1 );
  bool invert = m & 1, normalize = m & 2, remove = m & 4;
  auto P = cloud( n, 1, false, 4 );
  Inputs in;
  Words arguments = { "-d", "eccentricity", "-p", std::to_string( p ), "-e", e == 1 ? "1.5" : "2.5", "-D", "1", in.write( "p.txt", file( P ) ) };
  if( invert )
    arguments.insert( arguments.begin(), "--invert" );
  if( normalize )
    arguments.insert( arguments.begin(), "--normalize" );
  if( remove )
    arguments.insert( arguments.begin(), "--remove-unpaired" );
  auto o = run( point_cloud_data_descriptors::tool, arguments );
  ASSERT( o.status == 0, "succeeds" );
  auto diagrams = aleph::io::readJSON<double>( in.write( "output" + std::to_string( m ) + ".json", o.out ) );
  double epsilon = e + 0.5;
  std::vector<double> f;
  for( int i = 0; i < n; ++i )
  {
    double r = 0, s = 0;
    for( int j = 0; j < n; ++j )
    {
      double x = std::abs( P[ std::size_t(i) ][0] - P[ std::size_t(j) ][0] );
      r = std::max( r, x );
      s += x;
    }
    f.push_back( p == 0 ? r : s / n );
  }
  double hi = *std::max_element( f.begin(), f.end() );
  if( invert )
    for( auto&& x : f )
      x = hi - x;
  double lo = *std::min_element( f.begin(), f.end() );
  hi = *std::max_element( f.begin(), f.end() );
  if( normalize && lo != hi )
    for( auto&& x : f )
      x = ( x - lo ) / ( hi - lo );
  int edges = 0;
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < i; ++j )
      edges += std::abs( P[ std::size_t(i) ][0] - P[ std::size_t(j) ][0] ) < epsilon;
  if( edges == 0 )
    return; // only vertices
  ASSERT( diagrams.size() >= 1 && diagrams[0].dimension() == 0, "components" );
  // Number of components of points with values of at most b that are close to each other and contain one with a value of at most a
  std::set<double> thresholds( f.begin(), f.end() );
  for( double a : thresholds )
    for( double b : thresholds )
    {
      if( a > b )
        continue;
      std::vector<int> component( static_cast<std::size_t>( n ) );
      for( int i = 0; i < n; ++i )
        component[ std::size_t(i) ] = i;
      for( int k = 0; k < n; ++k )
        for( int i = 0; i < n; ++i )
          for( int j = 0; j < n; ++j )
            if( f[ std::size_t(i) ] <= b && f[ std::size_t(j) ] <= b && std::abs( P[ std::size_t(i) ][0] - P[ std::size_t(j) ][0] ) < epsilon )
              component[ std::size_t(i) ] = component[ std::size_t(j) ] = std::min( component[ std::size_t(i) ], component[ std::size_t(j) ] );
      std::set<int> all, essential;
      for( int i = 0; i < n; ++i )
        if( f[ std::size_t(i) ] <= a )
          all.insert( component[ std::size_t(i) ] );
      int count = 0, unpaired = 0;
      for( auto&& q : diagrams[0] )
      {
        count += q.x() <= a + 1e-4 && q.y() > b + 1e-4;
        unpaired += q.isUnpaired();
      }
      if( remove )
        ASSERT( unpaired == 0 && count <= int( all.size() ), "unpaired points are removed" );
      else
        ASSERT( count == int( all.size() ), "components of the values" );
    }
  REACH( "descriptors" );
}
