// C19: piecewise linear functions
#include "sym.h"
#include <aleph/math/PiecewiseLinearFunction.hh>
#include <cmath>
#include <iterator>
#include <stdexcept>
#include <utility>
#include <vector>

using F = aleph::math::PiecewiseLinearFunction<double>;
using Knots = std::vector< std::pair<double, double> >;

// Positions with distances that are powers of two, in any of the stated combinations
static Knots positions( int n )
{
  Knots r;
  double x = sym::choice( "start", -1, 0 );
  for( int i = 0; i < n; ++i )
  {
    r.push_back( { x, 0 } );
    x += 1 << sym::choice( "distance", 0, 1 );
  }
  return r;
}

// Value of the interpolant
static double valueAt( const Knots& knots, double x )
{
  for( std::size_t i = 0; i < knots.size(); ++i )
  {
    if( x == knots[i].first )
      return knots[i].second;
    if( i + 1 < knots.size() && knots[i].first < x && x < knots[i+1].first )
      return knots[i].second + ( knots[i+1].second - knots[i].second ) * ( x - knots[i].first ) / ( knots[i+1].first - knots[i].first );
  }
  return 0;
}

// Exact integral of the p-th power of the absolute value of the interpolant, for p one or two
static double integral( const Knots& knots, int p )
{
  double s = 0;
  for( std::size_t i = 0; i + 1 < knots.size(); ++i )
  {
    double h = knots[i+1].first - knots[i].first, a = knots[i].second, b = knots[i+1].second;
    if( p == 2 )
      s += h * ( a * a + a * b + b * b ) / 3;
    else if( a * b >= 0 )
      s += h * std::fabs( a + b ) / 2;
    else
      s += h * ( a * a + b * b ) / ( 2 * std::fabs( a - b ) );
  }
  return s;
}

//@ evaluation: one to three points at distances 1 or 2, given in any order, values 0..100 or -100..0, evaluated at multiples of 1/4
HARNESS(evaluation)
{
  symapi_linear();
  auto K = positions( sym::choice( "n", 1, 3 ) );
  bool negative = sym::flag( "negative" );
  for( auto&& k : K )
    k.second = negative ? sym::fixed( "y", -100, 0 ) : sym::fixed( "y", 0, 100 );
  auto given = K;
  if( K.size() > 1 && sym::flag( "reversed" ) )
    given = Knots( K.rbegin(), K.rend() );
  F f( given.begin(), given.end() );
  double x = sym::choice( "x", -6, 14 ) * 0.25;
  double y = valueAt( K, x );
  ASSERT( f( x ) == y, "value of the interpolant" );
  ASSERT( ( -f )( x ) == -y, "negation" );
  double k = -2;
  ASSERT( ( f * k )( x ) == k * y && ( k * f )( x ) == k * y, "product with a scalar" );
  ASSERT( ( f / 2.0 )( x ) == y / 2, "quotient with a scalar" );
  auto g = f;
  g.abs();
  ASSERT( g( x ) == std::fabs( y ), "absolute value" );
  double m = K[0].second;
  for( auto&& p : K )
    m = sym::max( m, p.second );
  ASSERT( f.max() == m && f.sup() == m, "maximum and supremum" );
  auto h = f;
  ASSERT( h == f && !( h != f ), "a copy is equal" );
  std::vector<double> D, I;
  f.domain( std::back_inserter( D ) );
  f.image( std::back_inserter( I ) );
  ASSERT( D.size() == K.size() && I.size() == K.size(), "size of domain and image" );
  for( std::size_t i = 0; i < K.size(); ++i )
    ASSERT( D[i] == K[i].first && I[i] == K[i].second, "domain and image" );
  if( !D.empty() && x > D.front() && x < D.back() ) REACH("inside");
}

//@ duplicate: two values for the same position are refused
HARNESS(duplicate)
{
  Knots K = { { 0, sym::fixed( "y", 0, 5 ) }, { 1, sym::fixed( "y", 0, 5 ) }, { double( sym::choice( "position", 0, 2 ) ), sym::fixed( "y", 0, 5 ) } };
  bool thrown = false;
  try { F f( K.begin(), K.end() ); } catch( std::runtime_error& ) { thrown = true; }
  ASSERT( thrown == ( K[2].first < 2 ), "two values for the same position are refused" );
  if( thrown ) REACH("duplicate");
}

static void fill( Knots& K, int lo, int hi )
{
  for( auto&& k : K )
    k.second = sym::choice( "y", lo, hi );
}

// The function is the interpolant of the points with new zeros inserted; integrals are exact
static void matches( const F& f, const Knots& K, const char* what )
{
  double lo = K.front().first, hi = K.back().first;
  for( double x = lo - 0.5; x <= hi + 0.5; x += 0.5 )
    ASSERT( std::fabs( f( x ) - valueAt( K, x ) ) < 1e-9, what );
  ASSERT( std::fabs( f.integral() - integral( K, 1 ) ) < 1e-9, "integral of the absolute value" );
  ASSERT( std::fabs( f.integral( 2.0 ) - std::sqrt( integral( K, 2 ) ) ) < 1e-9, "2-norm" );
  auto g = f;
  g.abs();
  for( double x = lo - 0.5; x <= hi + 0.5; x += 0.5 )
    ASSERT( std::fabs( g( x ) - std::fabs( valueAt( K, x ) ) ) < 1e-9, "absolute value at every point" );
}

//@ signs: two or three points at distances 1 or 2, values -3..3 value by value: evaluation, absolute value, integrals, adding a scalar -2..2
HARNESS(signs)
{
  auto K = positions( sym::choice( "n", 2, 3 ) );
  fill( K, -3, 3 );
  F f( K.begin(), K.end() );
  matches( f, K, "value of a function with sign changes" );
  double k = sym::choice( "summand", -1, 1 );
  auto L = K, M = K;
  for( std::size_t i = 0; i < K.size(); ++i ) { L[i].second += k; M[i].second -= k; }
  matches( f + k, L, "adding a scalar" );
  matches( f - k, M, "subtracting a scalar" );
  auto g = f;
  g += k;
  matches( g, L, "adding a scalar in place" );
  g = f;
  g -= k;
  matches( g, M, "subtracting a scalar in place" );
  REACH("signs");
}

//@ sums: two functions on the same domain 0..2 with two or three points each, values -2..2 value by value
HARNESS(sums)
{
  Knots K, L;
  K.push_back( { 0, 0 } ); L.push_back( { 0, 0 } );
  if( sym::flag( "middle1" ) ) K.push_back( { 1, 0 } );
  if( sym::flag( "middle2" ) ) L.push_back( { 1, 0 } );
  K.push_back( { 2, 0 } ); L.push_back( { 2, 0 } );
  fill( K, -2, 2 );
  fill( L, -1, 2 );
  F f( K.begin(), K.end() ), g( L.begin(), L.end() );
  Knots S, D;
  for( double x : { 0.0, 1.0, 2.0 } )
  {
    S.push_back( { x, valueAt( K, x ) + valueAt( L, x ) } );
    D.push_back( { x, valueAt( K, x ) - valueAt( L, x ) } );
  }
  matches( f + g, S, "sum" );
  matches( f - g, D, "difference" );
  ASSERT( ( f == g ) == ( K == L ) || K.size() != L.size(), "equality" );
  REACH("sums");
}

//@ overlap: two triangles with value zero at the ends, on domains that overlap, touch or are nested, heights -2..2 value by value
HARNESS(overlap)
{
  double a = sym::choice( "start", 0, 4 ), b = sym::choice( "width", 1, 2 );
  Knots K = { { 0, 0 }, { 2, double( sym::choice( "y", -2, 2 ) ) }, { 4, 0 } };
  Knots L = { { a, 0 }, { a + b, double( sym::choice( "y", -2, 2 ) ) }, { a + 2 * b, 0 } };
  F f( K.begin(), K.end() ), g( L.begin(), L.end() );
  auto s = f + g, d = f - g;
  for( double x = -0.5; x <= 9; x += 0.5 )
  {
    ASSERT( std::fabs( s( x ) - valueAt( K, x ) - valueAt( L, x ) ) < 1e-9, "sum on different domains" );
    ASSERT( std::fabs( d( x ) - valueAt( K, x ) + valueAt( L, x ) ) < 1e-9, "difference on different domains" );
  }
  F empty;
  ASSERT( ( empty + g )( a + b ) == L[1].second && ( g + empty )( a + b ) == L[1].second, "sum with the zero function" );
  REACH("overlap");
}

//@ several: six to eight points at distances 1 and 2 with two values -3..3 value by value: evaluation, integrals, sums with a function of four points
HARNESS(several)
{
  int n = sym::choice( "n", 6, 8 );
  Knots K;
  double x = -2;
  for( int i = 0; i < n; ++i )
  {
    K.push_back( { x, double( i * 4 % 5 ) - 1 } );
    x += 1 + i % 2;
  }
  K[2].second = sym::choice( "y", -3, 3 );
  K[5].second = sym::choice( "y", -3, 3 );
  F f( K.begin(), K.end() );
  matches( f, K, "value of a function with sign changes" );
  double m = K[0].second;
  for( auto&& k : K )
    m = std::max( m, k.second );
  ASSERT( f.max() == m && f.sup() == m, "maximum and supremum" );
  Knots L = { { K.front().first, 1 }, { K[1].first, -2 }, { K[4].first, 3 }, { K.back().first, 0 } }, S, D;
  F g( L.begin(), L.end() );
  for( auto&& k : K )
  {
    S.push_back( { k.first, k.second + valueAt( L, k.first ) } );
    D.push_back( { k.first, valueAt( L, k.first ) - k.second } );
  }
  matches( f + g, S, "sum" );
  matches( g - f, D, "difference" );
  REACH("several");
}
