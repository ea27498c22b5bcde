// C06: completing faces and recalculating weights gives a valid filtered complex
#include "complexes.h"
#include <aleph/topology/filtrations/Data.hh>
#include <functional>
#include <map>

using namespace aleph::topology;

static void completed( const std::vector<Mask>& given )
{
  Complex K;
  std::vector<Mask> input;
  double d = 1;
  for( Mask m : given )
  {
    K.push_back( simplexOf( m, d++ ) );
    input.push_back( m );
  }
  K.createMissingFaces();
  auto order = orderOf( K );
  for( std::size_t i = 0; i < input.size(); ++i )
    ASSERT( i < order.size() && order[i] == input[i] && K[i].data() == double( i+1 ), "existing simplices stay as they are" );
  std::size_t expected = 0;
  for( Mask m = 1; m < 256; ++m )
  {
    bool face = false, found = false;
    for( Mask t : input ) face = face || ( t & m ) == m;
    for( Mask t : order ) found = found || t == m;
    ASSERT( face == found, "exactly the faces are present" );
    expected += face;
    if( found )
      ASSERT( K.contains( simplexOf( m ) ), "every face is found" );
  }
  ASSERT( order.size() == expected, "every face is present once" );
  REACH("completed");
}

//@ faces3: every set of nonempty subsets of three vertices, two insertion orders
HARNESS(faces3)
{
  bool reverse = sym::flag( "reverse" );
  std::vector<Mask> v;
  for( Mask i = 1; i < 8; ++i )
    if( sym::flag( "present" ) )
      v.push_back( reverse ? 8-i : i );
  completed( v );
}

//@ faces4: every set of edges, triangles and the tetrahedron of four vertices, all vertices optional together
HARNESS(faces4)
{
  std::vector<Mask> v;
  bool vertices = sym::flag( "vertices" );
  for( Mask m : subsets( 4, 4 ) )
    if( popcount( m ) == 1 ? vertices : sym::flag( "present" ) )
      v.insert( v.begin(), m );
  completed( v );
}

//@ faces6: any one or two simplices of up to five vertices out of six, without any faces
HARNESS(faces6)
{
  std::vector<Mask> v;
  Mask m = Mask( sym::choice( "first", 1, 63 ) );
  v.push_back( m );
  Mask k = Mask( sym::choice( "second", 0, 15 ) ) * 4;
  if( k && k != m )
    v.push_back( k );
  completed( v );
}

typedef std::map<Mask,double> Weights;

template <class Compare> void sorted( Complex& K, bool monotone )
{
  if( !monotone )
    return;
  K.sort( filtrations::Data<Spx,Compare>() );
  auto order = orderOf( K );
  for( std::size_t i = 0; i < order.size(); ++i )
    for( std::size_t j = 0; j < i; ++j )
      ASSERT( order[j] == order[i] || ( order[j] & order[i] ) != order[i], "sorting lists every face before its cofaces" );
  REACH("sorted");
}

// expected weights: vertices (and edges, if skipped) keep theirs, others get the extremum over their facets
static Weights expected( const std::vector<Mask>& order, const Weights& w, bool maximum, bool skip )
{
  Weights r;
  for( int k = 1; k <= 5; ++k )
    for( Mask m : order )
      if( popcount( m ) == k )
      {
        if( k == 1 || ( k == 2 && skip ) )
        {
          r[m] = w.at( m );
          continue;
        }
        bool first = true;
        double x = 0;
        for( int b = 0; b < 8; ++b )
          if( m >> b & 1 )
          {
            double y = r.at( m & ~( Mask(1) << b ) );
            x = first ? y : maximum ? sym::max( x, y ) : sym::min( x, y );
            first = false;
          }
        r[m] = x;
      }
  return r;
}

static void recalculated( const std::vector<Mask>& sets, bool maximum, bool skip, bool sortIt )
{
  Complex K;
  Weights w;
  for( Mask m : sets )
  {
    double x = 1000;
    if( popcount( m ) == 1 || ( popcount( m ) == 2 && skip ) )
      x = sym::fixed( "weight", -1000, 1000, 1 );
    w[m] = x;
    K.push_back( simplexOf( m, x ) );
  }
  Weights r = expected( sets, w, maximum, skip );
  K.recalculateWeights( maximum, skip );
  ASSERT( orderOf( K ) == sets, "order and simplices stay as they are" );
  for( std::size_t i = 0; i < K.size(); ++i )
    ASSERT( K[i].data() == r.at( maskOf( K[i] ) ), "weight is the extremum over the faces" );
  REACH("recalculated");
  if( sortIt )
  {
    if( maximum ) sorted< std::less<double> >( K, !skip );
    else          sorted< std::greater<double> >( K, !skip );
  }
}

//@ weights: clique complexes of all graphs on four vertices, symbolic vertex weights in -500..500 in steps of 1/2, maximum or minimum
HARNESS(weights)
{
  symapi_linear();
  auto g = symbolicGraph( 4 );
  bool maximum = sym::flag( "maximum" );
  recalculated( cliques( g, 4 ), maximum, false, false );
}

//@ edges: full tetrahedron, symbolic vertex and edge weights, edges keep their weights
HARNESS(edges)
{
  symapi_linear();
  bool maximum = sym::flag( "maximum" );
  recalculated( subsets( 4, 4 ), maximum, true, false );
}

//@ triangle: triangle stored in any of two orders, symbolic weights, sorted afterwards
HARNESS(triangle)
{
  symapi_linear();
  bool maximum = sym::flag( "maximum" ), reverse = sym::flag( "reverse" );
  auto s = subsets( 3, 3 );
  if( reverse )
    std::reverse( s.begin(), s.end() );
  recalculated( s, maximum, false, true );
}

//@ values: clique complexes of all graphs on four vertices, vertex weights given as a sequence of symbolic values
HARNESS(values)
{
  symapi_linear();
  auto g = symbolicGraph( 4 );
  auto sets = cliques( g, 4 );
  std::vector<double> v;
  for( int i = 0; i < 4; ++i )
    v.push_back( sym::fixed( "value", -1000, 1000, 1 ) );
  Complex K;
  for( Mask m : sets )
    K.push_back( simplexOf( m, 5 ) );
  K.recalculateWeights( v.begin(), v.end() );
  for( std::size_t i = 0; i < K.size(); ++i )
  {
    Mask m = maskOf( K[i] );
    double x = -1e6;
    for( int b = 0; b < 4; ++b )
      if( m >> b & 1 )
        x = sym::max( x, v[ std::size_t( b ) ] );
    ASSERT( K[i].data() == x, "weight is the maximum over the vertices" );
  }
  ASSERT( orderOf( K ) == sets, "order and simplices stay as they are" );
  REACH("values");
}

//@ combined: one simplex of up to four vertices and one edge, completed, weighted by symbolic values, sorted
HARNESS(combined)
{
  symapi_linear();
  Complex K;
  K.push_back( simplexOf( Mask( sym::choice( "simplex", 1, 7 ) ) * 2 ) );
  K.push_back( simplexOf( sym::flag( "edge" ) ? 3 : 10 ) );
  K.createMissingFaces();
  std::vector<double> v;
  for( int i = 0; i < 4; ++i )
    v.push_back( sym::fixed( "value", 0, 1000 ) );
  K.recalculateWeights( v.begin(), v.end() );
  sorted< std::less<double> >( K, true );
}
