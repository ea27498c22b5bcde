// C28: the Euler characteristic is the alternating sum over all dimensions
#include "complexes.h"
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/EulerCharacteristic.hh>

using namespace aleph;
using namespace aleph::topology;

static void check( const Complex& K )
{
  auto order = orderOf( K );
  long chi = 0, byBetti = 0;
  for( Mask m : order )
    chi += popcount( m ) % 2 ? 1 : -1;
  auto b = bettiNumbers( order );
  for( std::size_t d = 0; d < b.size(); ++d )
    byBetti += d % 2 ? -b[d] : b[d];
  ASSERT( eulerCharacteristic( K ) == chi, "alternating sum of numbers of simplices" );
  ASSERT( chi == byBetti, "oracles agree" );
  auto D = calculatePersistenceDiagrams( K, true, true );
  ASSERT( eulerCharacteristic( D.begin(), D.end() ) == chi, "alternating sum of Betti numbers of the diagrams" );
  sym::observe( chi );
  if( chi < 0 ) REACH("negative");
  if( chi > 1 ) REACH("positive");
}

//@ flag5: clique complexes of all graphs on five vertices, truncated at any dimension
HARNESS(flag5)
{
  auto g = symbolicGraph( 5 );
  int k = sym::choice( "size", 1, 5 );
  Complex K;
  for( Mask m : cliques( g, k ) )
    K.push_back( simplexOf( m ) );
  check( K );
}

//@ surfaces: projective plane and torus with any of five triangles missing; the empty complex
HARNESS(surfaces)
{
  bool rp = sym::flag( "plane" );
  auto top = rp ? projectivePlane() : torus();
  Complex K;
  for( Mask m : withFaces( top ) )
  {
    bool optional = m == top[0] || m == top[2] || m == top[4] || m == top[6] || m == top[7];
    if( !optional || sym::flag( "present" ) )
      K.push_back( simplexOf( m ) );
  }
  check( K );
  ASSERT( eulerCharacteristic( Complex() ) == 0, "empty complex" );
}

//@ persistent: three diagrams of dimensions in 0..3 with two points each, symbolic coordinates
HARNESS(persistent)
{
  std::vector< PersistenceDiagram<double> > D( 3 );
  double expected = 0;
  for( std::size_t i = 0; i < 3; ++i )
  {
    int d = sym::choice( "dimension", 0, 3 );
    D[i].setDimension( std::size_t( d ) );
    for( int j = 0; j < 2; ++j )
    {
      double x = sym::fixed( "x", -100, 100, 1 ), y = sym::fixed( "y", -100, 100, 1 );
      D[i].add( x, y );
      expected += d % 2 ? x - y : y - x;
    }
  }
  ASSERT( persistentEulerCharacteristic( D.begin(), D.end() ) == expected, "alternating sum of total persistence" );
  ASSERT( persistentEulerCharacteristic( D.begin(), D.begin() ) == 0, "no diagrams" );
  REACH("persistent");
}

//@ sparse: one to three diagrams of different dimensions 0..6 in any order with zero to two unpaired points each
HARNESS(sparse)
{
  int n = sym::choice( "n", 1, 3 );
  std::vector< PersistenceDiagram<double> > D;
  long chi = 0;
  Mask used = 0;
  for( int i = 0; i < n; ++i )
  {
    int d = sym::choice( "dimension", 0, 6 ), b = sym::choice( "betti", 0, 2 );
    ASSUME( !( used >> d & 1 ) );
    used |= Mask(1) << d;
    PersistenceDiagram<double> E;
    E.setDimension( std::size_t( d ) );
    E.add( 1.0, 2.0 );
    for( int j = 0; j < b; ++j )
      E.add( double( j ) );
    D.push_back( E );
    chi += d % 2 ? -b : b;
  }
  ASSERT( eulerCharacteristic( D.begin(), D.end() ) == chi, "alternating sum of Betti numbers of the diagrams" );
  REACH("sparse");
}
