// C18: persistence indicator functions
#include "sym.h"
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>
#include <cmath>
#include <limits>
#include <vector>

using namespace aleph;
static const int unit = 8; // leaves room for the smallest increment between two positions

struct P { int x, y; };

static std::vector<P> points( int n, int lo, int hi, bool inverted, bool byValue )
{
  std::vector<P> r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::integer( "x", lo, hi );
    p.y = sym::integer( "y", lo, hi );
    if( inverted ) ASSUME( p.x >= p.y ); else ASSUME( p.x <= p.y );
    if( byValue ) { p.x = symapi_concretize( p.x ); p.y = symapi_concretize( p.y ); }
    p.x *= unit;
    p.y *= unit;
    r.push_back( p );
  }
  return r;
}

static int alive( const std::vector<P>& points, int x )
{
  int c = 0;
  for( auto&& p : points )
    c += sym::ite( sym::either( sym::both( p.x < x, x < p.y ), sym::both( p.y < x, x < p.x ) ), 1, 0 );
  return c;
}

static void counts( int n, int lo, int hi, bool inverted )
{
  auto A = points( n, lo, hi, inverted, false );
  PersistenceDiagram<int> D;
  for( auto&& p : A )
    D.add( p.x, p.y );
  auto f = persistenceIndicatorFunction( D );
  int x = unit * sym::integer( "position", lo - 1, hi ) + unit / 2; // never a breakpoint
  ASSERT( f( x ) == alive( A, x ), "number of points alive" );
  if( n > 2 )
    return;
  int m = 0;
  for( int k = lo; k < hi; ++k )
    m = sym::max( m, alive( A, unit * k + unit / 2 ) );
  ASSERT( f.max() == m, "largest number of points alive" );
}

//@ ascending: one to three points with births and deaths -3..3, diagonal points and ties included
HARNESS(ascending)
{
  counts( sym::choice( "n", 1, 3 ), -3, 3, false );
  REACH("ascending");
}

//@ descending: one or two points with births and deaths -3..3, births not below deaths
HARNESS(descending)
{
  counts( sym::choice( "n", 1, 2 ), -3, 3, true );
  REACH("descending");
}

//@ t_four: four points with births and deaths 0..4
HARNESS(t_four)
{
  counts( 4, 0, 4, false );
  REACH("T:four");
}

//@ real: zero to three points with real coordinates -1..2, value by value: integral, number of points alive
HARNESS(real)
{
  int n = sym::choice( "n", 0, 3 );
  auto A = points( n, -1, 2, sym::flag( "descending" ), true );
  PersistenceDiagram<double> D;
  double total = 0;
  for( auto&& p : A )
  {
    D.add( double( p.x ) / unit, double( p.y ) / unit );
    total += std::abs( double( p.x - p.y ) ) / unit;
  }
  auto f = persistenceIndicatorFunction( D );
  ASSERT( std::fabs( f.integral() - total ) < 1e-9, "the integral is the total persistence" );
  for( int k = -4; k <= 4; ++k )
    ASSERT( f( k + 0.5 ) == alive( A, unit * k + unit / 2 ), "number of points alive for real coordinates" );
  REACH("real");
}

//@ unpaired: a paired and an unpaired point with symbolic coordinates -5..5
HARNESS(unpaired)
{
  double x = double( sym::choice( "x", -3, 3 ) ), a = double( sym::choice( "a", -3, 3 ) ), b = double( sym::choice( "b", -3, 3 ) );
  ASSUME( a < b );
  PersistenceDiagram<double> D;
  D.add( a, b );
  D.add( x );
  auto f = persistenceIndicatorFunction( D );
  for( int k = -4; k <= 6; ++k )
  {
    double t = k + 0.5;
    ASSERT( f( t ) == double( a < t && t < b ) + double( x < t ), "unpaired points stay alive" );
  }
  REACH("unpaired");
}

//@ several: six or eight points of which one has symbolic coordinates, in either order
HARNESS(several)
{
  int n = sym::flag( "long" ) ? 8 : 6;
  bool inverted = sym::flag( "inverted" );
  std::vector<P> A;
  PersistenceDiagram<int> D;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = unit * ( i * 5 % 4 );
    p.y = p.x + unit * ( i * 3 % 7 );
    if( i == 4 )
    {
      p.x = unit * sym::integer( "x", -2, 7 );
      p.y = unit * sym::integer( "y", -2, 7 );
      ASSUME( p.x <= p.y );
    }
    if( inverted )
      std::swap( p.x, p.y );
    A.push_back( p );
    D.add( p.x, p.y );
  }
  auto f = persistenceIndicatorFunction( D );
  int x = unit * sym::integer( "position", -3, 10 ) + unit / 2;
  ASSERT( f( x ) == alive( A, x ), "number of points alive" );
  REACH("several");
}
