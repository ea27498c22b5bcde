// C16: persistence diagrams as containers, and their summary values
#include "sym.h"
#include <aleph/persistenceDiagrams/Entropy.hh>
#include <aleph/persistenceDiagrams/Envelope.hh>
#include <aleph/persistenceDiagrams/Extraction.hh>
#include <aleph/persistenceDiagrams/Norms.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <vector>

using namespace aleph;
using Diagram = PersistenceDiagram<double>;
static const double inf = std::numeric_limits<double>::infinity();

struct P { double x, y; bool unpaired; };
using Points = std::vector<P>;

// Points with symbolic coordinates, unpaired ones at any position
static Points points( int n, long lo, long hi, bool unpaired )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.unpaired = unpaired && sym::flag( "unpaired" );
    p.x = sym::fixed( "x", lo, hi );
    p.y = p.unpaired ? inf : sym::fixed( "y", lo, hi );
    r.push_back( p );
  }
  return r;
}

static Diagram diagram( const Points& points )
{
  Diagram D;
  for( auto&& p : points )
    if( p.unpaired )
      D.add( p.x );
    else
      D.add( p.x, p.y );
  return D;
}

// the diagram stores exactly these points, in this order
static void holds( const Diagram& D, const Points& points, const char* what )
{
  ASSERT( D.size() == points.size() && D.empty() == points.empty(), what );
  std::size_t i = 0, unpaired = 0;
  for( auto&& p : D )
  {
    ASSERT( i < points.size(), what );
    ASSERT( p.x() == points[i].x && p.y() == points[i].y, what );
    ASSERT( p.isUnpaired() == points[i].unpaired, "unpaired points are recognised" );
    unpaired += points[i].unpaired;
    ++i;
  }
  ASSERT( D.betti() == unpaired, "Betti number" );
}

//@ adding: up to four points with coordinates -100..100, any of them unpaired; equality against a second list of the same length
HARNESS(adding)
{
  symapi_linear();
  int n = sym::choice( "n", 0, 4 );
  auto A = points( n, -100, 100, true );
  auto D = diagram( A );
  holds( D, A, "all points in the order in which they were added" );
  ASSERT( D.dimension() == 0, "initial dimension" );
  D.setDimension( 3 );
  ASSERT( D.dimension() == 3, "dimension" );
  Diagram E = D;
  ASSERT( E == D && !( E != D ), "a copy is equal" );
  E.add( 1, 2 );
  ASSERT( E != D && D.size() == A.size(), "a copy is independent" );
  REACH("adding");
}

//@ removal: three or four points with coordinates -100..100, any of them unpaired
HARNESS(removal)
{
  symapi_linear();
  auto A = points( sym::choice( "n", 3, 4 ), -100, 100, true );
  Points offDiagonal, paired;
  auto D = diagram( A ), E = D;
  D.removeUnpaired();
  E.removeDiagonal();
  for( auto&& p : A )
  {
    if( !p.unpaired ) paired.push_back( p );
    if( p.x != p.y ) offDiagonal.push_back( p ); else REACH("diagonal");
  }
  holds( D, paired, "exactly the unpaired points are removed" );
  holds( E, offDiagonal, "exactly the diagonal points are removed" );
}

//@ duplicates: three points with coordinates -100..100, any of them unpaired
HARNESS(duplicates)
{
  symapi_linear();
  auto A = points( 3, -100, 100, true );
  auto D = diagram( A );
  D.removeDuplicates();
  std::vector<Diagram::Point> kept( D.begin(), D.end() );
  for( std::size_t i = 0; i < kept.size(); ++i )
    for( std::size_t j = i + 1; j < kept.size(); ++j )
      ASSERT( kept[i] != kept[j], "no duplicates are left" );
  std::size_t found = 0;
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    bool first = true, present = false;
    for( std::size_t j = 0; j < i; ++j )
      first = first && !( A[j].x == A[i].x && A[j].y == A[i].y );
    for( auto&& p : kept )
      present = present || ( p.x() == A[i].x && p.y() == A[i].y );
    ASSERT( present, "every point is kept once" );
    found += first;
  }
  ASSERT( found == kept.size(), "nothing else is stored" );
  if( found < 3 ) REACH("removed");
}

//@ merging: zero to two points and zero to two points with coordinates -100..100; erasing and inserting
HARNESS(merging)
{
  symapi_linear();
  auto A = points( sym::choice( "n", 0, 2 ), -100, 100, true );
  auto B = points( sym::choice( "m", 0, 2 ), -100, 100, true );
  auto D = diagram( A );
  auto E = diagram( B );
  bool same = A.size() == B.size();
  for( std::size_t i = 0; same && i < A.size(); ++i )
    same = A[i].x == B[i].x && A[i].y == B[i].y;
  ASSERT( ( D == E ) == same && ( D != E ) == !same, "equality compares the stored points" );
  D.merge( E );
  Points C = A;
  C.insert( C.end(), B.begin(), B.end() );
  holds( D, C, "merging appends all points" );
  holds( E, B, "merging does not change the other diagram" );
  if( !C.empty() )
  {
    int k = sym::choice( "position", 0, int( C.size() ) - 1 );
    D.erase( D.begin() + k );
    C.erase( C.begin() + k );
    holds( D, C, "erasing removes the point at the position" );
    D.insert( D.begin() + k, E.begin(), E.end() );
    C.insert( C.begin() + k, B.begin(), B.end() );
    holds( D, C, "inserting puts the points at the position" );
    D.erase( D.begin(), D.begin() + k );
    C.erase( C.begin(), C.begin() + k );
    holds( D, C, "erasing a range" );
    REACH("erased");
  }
}

//@ point: ordering and persistence of two points with coordinates -100..100, any of them unpaired
HARNESS(point)
{
  symapi_linear();
  auto A = points( 2, -100, 100, true );
  auto D = diagram( A );
  auto p = *D.begin(), q = *( D.begin() + 1 );
  bool less = A[0].x < A[1].x || ( A[0].x == A[1].x && A[0].y < A[1].y );
  ASSERT( ( p < q ) == less, "points are ordered lexicographically" );
  ASSERT( ( p == q ) == ( A[0].x == A[1].x && A[0].y == A[1].y ) && ( p != q ) == !( p == q ), "equality of points" );
  ASSERT( p.persistence() == A[0].y - A[0].x, "persistence" );
  REACH("point");
}

//@ integers: points of a type without infinity
HARNESS(integers)
{
  int x = sym::integer( "x", -1000, 1000 ), y = sym::integer( "y", -1000000000, 2147482000 );
  PersistenceDiagram<int> D;
  D.add( x, y );
  D.add( y );
  ASSERT( D.betti() == 1 && !D.begin()->isUnpaired() && ( D.begin() + 1 )->isUnpaired(), "unpaired points of integers" );
  ASSERT( D.begin()->persistence() == y - x, "persistence of integers" );
  D.removeUnpaired();
  ASSERT( D.size() == 1 && D.begin()->x() == x && D.begin()->y() == y, "removal for integers" );
  REACH("integers");
}

//@ norms: zero to three points with coordinates -20..20; powers one and two
HARNESS(norms)
{
  symapi_linear();
  auto A = points( sym::choice( "n", 0, 3 ), -20, 20, false );
  auto D = diagram( A );
  double t1 = 0, t2 = 0, m = 0;
  for( auto&& p : A )
  {
    double d = std::fabs( p.y - p.x );
    t1 += d;
    t2 += d * d;
    m   = sym::max( m, d );
  }
  ASSERT( totalPersistence( D, 1.0 ) == t1, "total persistence" );
  ASSERT( totalPersistence( D ) == t2, "total squared persistence" );
  ASSERT( pNorm( D, 1.0 ) == t1, "1-norm" );
  ASSERT( sym::close( pNorm( D ), std::sqrt( t2 ) ), "2-norm" );
  ASSERT( infinityNorm( D ) == m, "infinity norm" );
  sym::observe( t2 );
  bool thrown = false;
  try { pNorm( D, 0.0 ); } catch( std::runtime_error& ) { thrown = true; }
  ASSERT( thrown, "power zero is refused" );
  REACH("norms");
}

//@ weightednorms: zero to two points with coordinates -4..4; powers one and two weighted by the birth
HARNESS(weightednorms)
{
  symapi_linear();
  auto A = points( sym::choice( "n", 0, 2 ), -4, 4, false );
  auto D = diagram( A );
  double w1 = 0, w2 = 0;
  for( auto&& p : A )
  {
    double d = std::fabs( p.y - p.x );
    w1 += std::fabs( p.x ) * d;
    w2 += std::fabs( p.x ) * ( d * d );
  }
  ASSERT( totalPersistence( D, 1.0, true ) == w1, "weighted total persistence" );
  ASSERT( totalPersistence( D, 2.0, true ) == w2, "weighted total squared persistence" );
  ASSERT( pNorm( D, 1.0, true ) == w1, "weighted 1-norm" );
  REACH("weightednorms");
}

//@ extraction: zero, one, two or four points with coordinates -20..20
HARNESS(extraction)
{
  symapi_linear();
  int k = sym::choice( "k", 0, 3 );
  auto A = points( k == 3 ? 4 : k, -20, 20, false );
  auto D = diagram( A );
  std::vector<double> s, a, w;
  persistence( D, std::back_inserter( s ) );
  persistence( D, std::back_inserter( a ), true );
  ASSERT( s.size() == A.size() && a.size() == A.size(), "one value per point" );
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    ASSERT( s[i] == A[i].y - A[i].x, "signed persistence" );
    ASSERT( a[i] == sym::abs( A[i].y - A[i].x ), "absolute persistence" );
  }
  REACH("extraction");
}

//@ weighted: zero, one, two or four points with coordinates 0..3
HARNESS(weighted)
{
  symapi_linear();
  int k = sym::choice( "k", 0, 3 );
  auto A = points( k == 3 ? 4 : k, 0, k == 3 ? 1 : 3, false );
  auto D = diagram( A );
  std::vector<double> w;
  weightedPersistence( D, std::back_inserter( w ) );
  std::size_t distinct = 0;
  double total = 0, sum = 0;
  for( std::size_t i = 0; i < A.size(); ++i )
  {
    bool first = true;
    for( std::size_t j = 0; j < i; ++j )
      first = first && !( A[j].x == A[i].x && A[j].y == A[i].y );
    distinct += first;
    total += A[i].y - A[i].x;
  }
  for( double x : w )
    sum += x;
  ASSERT( w.size() == distinct, "one value per distinct point" );
  ASSERT( A.empty() || sum * double( A.size() ) == total, "values are weighted by the relative multiplicity" );
  REACH("weighted");
}

//@ envelope: one to three points on or above the diagonal with coordinates 0..15
HARNESS(envelope)
{
  symapi_linear();
  auto A = points( sym::choice( "n", 1, 3 ), 0, 15, false );
  for( auto&& p : A )
    ASSUME( p.x <= p.y );
  Envelope envelope;
  auto f = envelope( diagram( A ) );
  for( auto&& p : A )
  {
    double m = p.y - p.x;
    for( auto&& q : A )
      if( q.x + q.y == p.x + p.y )
        m = sym::max( m, q.y - q.x );
    ASSERT( f( p.x + p.y ) == m, "value of the envelope at the transformed points" );
  }
  REACH("envelope");
}

//@ entropy: one to three points with birth zero and persistence 1..5
HARNESS(entropy)
{
  int n = sym::choice( "n", 1, 3 );
  Diagram D;
  double total = 0, e = 0;
  std::vector<double> d;
  for( int i = 0; i < n; ++i )
  {
    d.push_back( double( sym::choice( "persistence", 1, 5 ) ) );
    D.add( 0, d.back() );
    total += d.back();
  }
  for( double x : d )
    e -= x / total * std::log2( x / total );
  ASSERT( sym::close( persistentEntropy( D ), e ), "persistent entropy" );
  REACH("entropy");
}

//@ many: eight to ten points of which two have symbolic coordinates -20..20, one of any position unpaired
HARNESS(many)
{
  symapi_linear();
  int n = sym::choice( "n", 8, 10 ), which = sym::choice( "unpaired", -1, 9 );
  ASSUME( which < n );
  Points A;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.unpaired = i == which;
    p.x = i == 6 ? sym::fixed( "x", -20, 20 ) : double( i * 5 % 4 );
    p.y = p.unpaired ? inf : i == 1 ? sym::fixed( "y", -20, 20 ) : double( i % 3 + 2 );
    A.push_back( p );
  }
  auto D = diagram( A ), E = D, F = D;
  holds( D, A, "all points in the order in which they were added" );
  D.removeUnpaired();
  E.removeDiagonal();
  Points offDiagonal, paired, distinct;
  for( auto&& p : A )
  {
    if( !p.unpaired ) paired.push_back( p );
    if( p.x != p.y ) offDiagonal.push_back( p );
    bool known = false;
    for( auto&& q : distinct )
      known = known || ( q.x == p.x && q.y == p.y );
    if( !known ) distinct.push_back( p );
  }
  holds( D, paired, "exactly the unpaired points are removed" );
  holds( E, offDiagonal, "exactly the diagonal points are removed" );
  F.removeDuplicates();
  ASSERT( F.size() == distinct.size(), "every point is kept once" );
  for( auto&& p : distinct )
  {
    bool present = false;
    for( auto&& q : F )
      present = present || ( q.x() == p.x && q.y() == p.y );
    ASSERT( present, "every point is kept" );
  }
  double t1 = 0, m = 0;
  for( auto&& p : paired )
  {
    t1 += std::fabs( p.y - p.x );
    m   = sym::max( m, std::fabs( p.y - p.x ) );
  }
  ASSERT( totalPersistence( D, 1.0 ) == t1 && pNorm( D, 1.0 ) == t1, "total persistence" );
  ASSERT( infinityNorm( D ) == m, "infinity norm" );
  std::vector<double> s;
  persistence( D, std::back_inserter( s ) );
  ASSERT( s.size() == paired.size(), "one value per point" );
  for( std::size_t i = 0; i < s.size(); ++i )
    ASSERT( s[i] == paired[i].y - paired[i].x, "signed persistence" );
  REACH("many");
}
