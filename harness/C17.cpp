// C17: arithmetic on step functions
#include "sym.h"
#include <aleph/math/StepFunction.hh>
#include <cmath>
#include <iterator>
#include <limits>
#include <set>
#include <sstream>
#include <vector>

using aleph::math::StepFunction;

struct Step { int a, b, y; };
using Steps = std::vector<Step>;
static const int unit = 8; // leaves room for the smallest increment between two positions

// Intervals in ascending order, which may touch, with positions 0..range (in units)
static Steps steps( int n, int range, int values )
{
  Steps r;
  for( int i = 0; i < n; ++i )
  {
    Step s;
    s.a = unit * sym::integer( "a", 0, range );
    s.b = unit * sym::integer( "b", 0, range );
    s.y = sym::integer( "y", -values, values );
    ASSUME( s.a < s.b );
    if( i ) ASSUME( r.back().b <= s.a );
    r.push_back( s );
  }
  return r;
}

template <class D, class I> static StepFunction<D, I> function( const Steps& steps, D scale )
{
  StepFunction<D, I> f;
  for( auto&& s : steps )
    f.add( D( s.a ) / scale, D( s.b ) / scale, I( s.y ) );
  return f;
}

// The two intervals leave no gap between equal values; see the harness `gap` for that case
static void withoutGap( const Steps& S )
{
  ASSUME( sym::either( S[0].y != S[1].y, S[0].b == S[1].a ) );
}

// Value according to the definition: the value of largest magnitude of all intervals that contain the point
static int valueAt( const Steps& steps, int x )
{
  int y = 0;
  for( auto&& s : steps )
    y = sym::ite( sym::both( sym::both( s.a <= x, x <= s.b ), sym::abs( s.y ) > sym::abs( y ) ), s.y, y );
  return y;
}

static int anywhere( int range )
{
  return unit / 2 * sym::integer( "x", -1, 2 * range + 1 ); // at, between and outside of all positions
}

using F = StepFunction<int, int>;

//@ evaluation: one to three intervals with positions 0..5 that may touch, values -4..4, evaluated at, between and outside of the positions
HARNESS(evaluation)
{
  int n = sym::choice( "n", 0, 3 );
  auto S = steps( n, 5, 4 );
  auto f = function<int, int>( S, 1 );
  int x = anywhere( 5 );
  int y = valueAt( S, x );
  ASSERT( f( x ) == y, "value" );
  ASSERT( ( -f )( x ) == -y, "negation" );
  int k = sym::integer( "factor", -3, 3 );
  ASSERT( ( f * k )( x ) == k * y, "product with a scalar" );
  ASSERT( ( k * f )( x ) == k * y, "scalar product from the left" );
  auto g = f;
  g.abs();
  ASSERT( g( x ) == sym::abs( y ), "absolute value" );
  std::vector<long> positions, image;
  f.domain( std::back_inserter( positions ) );
  f.image( std::back_inserter( image ) );
  ASSERT( positions.size() == 2 * S.size() && image.size() == S.size(), "size of domain and image" );
  int integral = 0, max = 0, power = 0;
  for( std::size_t i = 0; i < S.size(); ++i )
  {
    ASSERT( positions[2*i] == S[i].a && positions[2*i+1] == S[i].b && image[i] == S[i].y, "domain and image" );
    integral += ( S[i].b - S[i].a ) * S[i].y;
    max = i ? sym::max( max, S[i].y ) : S[i].y;
  }
  ASSERT( f.integral() == integral, "integral" );
  ASSERT( f.max() == max && f.sup() == max, "maximum" );
  REACH("evaluation");
}

//@ scalars: two intervals with positions 0..4, values -4..4; adding and subtracting a scalar from 1..3 inside of the intervals
HARNESS(scalars)
{
  auto S = steps( 2, 4, 4 );
  auto f = function<int, int>( S, 1 );
  int x = anywhere( 4 ), k = sym::integer( "summand", 1, 3 );
  Steps plus = S, minus = S;
  for( int i = 0; i < 2; ++i ) { plus[i].y += k; minus[i].y -= k; }
  ASSERT( ( f + k )( x ) == valueAt( plus, x ), "adding a scalar" );
  ASSERT( ( f - k )( x ) == valueAt( minus, x ), "subtracting a scalar" );
  REACH("scalars");
}

// Sums and differences agree pointwise
static void sums( const Steps& S, const Steps& T, int range )
{
  auto f = function<int, int>( S, 1 );
  auto g = function<int, int>( T, 1 );
  int x = anywhere( range );
  int y = valueAt( S, x ), z = valueAt( T, x );
  ASSERT( ( f + g )( x ) == y + z, "sum" );
  ASSERT( ( f - g )( x ) == y - z, "difference" );
  auto h = f;
  h += g;
  ASSERT( h( x ) == y + z, "sum in place" );
  ASSERT( f( x ) == y && g( x ) == z, "the operands do not change" );
}

//@ sum11: one interval and one interval with positions 0..4 and values -2..2
HARNESS(sum11)
{
  auto S = steps( 1, 4, 2 );
  auto T = steps( 1, 4, 2 );
  sums( S, T, 4 );
  REACH("sum11");
}

//@ sum20: two intervals with positions 0..4 and values -2..2 without a gap between equal values, plus the zero function
HARNESS(sum20)
{
  auto S = steps( 2, 4, 2 );
  withoutGap( S );
  sums( S, Steps(), 4 );
  sums( Steps(), S, 4 );
  sums( Steps(), Steps(), 4 );
  REACH("sum20");
}

// Sum of two intervals and one interval, values taken one by one
static void sum21( int range, int low, int high )
{
  auto S = steps( 2, range, 2 );
  withoutGap( S );
  auto T = steps( 1, range, 2 );
  for( auto* steps : { &S, &T } )
    for( auto& s : *steps )
    {
      ASSUME( s.y >= low && s.y <= high && s.y != 0 );
      s.y = symapi_concretize( s.y );
    }
  int x = anywhere( range );
  auto h = function<int, int>( S, 1 ) + function<int, int>( T, 1 );
  ASSERT( h( x ) == valueAt( S, x ) + valueAt( T, x ), "sum" );
}

//@ sum21: two intervals and one interval with positions 0..4 and values 1..2, without a gap between equal values
HARNESS(sum21)
{
  sum21( 4, 1, 2 );
  REACH("sum21");
}

//@ t_sum21: two intervals and one interval with positions 0..5 and values -2..2 except for zero, without a gap between equal values
HARNESS(t_sum21)
{
  sum21( 5, -2, 2 );
  REACH("T:sum21");
}

//@ gap: sum of the zero function and the function that is y on [0,1] and [2,3], for y from 1..3
HARNESS(gap)
{
  int y = sym::integer( "y", 1, 3 );
  StepFunction<int, int> f, zero;
  f.add( 0, 10, y );
  f.add( 20, 30, y );
  auto h = f + zero;
  REACH("gap");
  ASSERT( h( 10 ) == y && h( 20 ) == y, "values at the ends of the gap" );
  ASSERT( h( 15 ) == 0, "the sum of a function and zero fills the gap between [0,10] and [20,30]" );
}

//@ chain: sums of three functions with one interval each, positions 0..3
HARNESS(chain)
{
  auto S = steps( 1, 3, 1 );
  auto T = steps( 1, 3, 1 );
  auto U = steps( 1, 3, 1 );
  for( auto* s : { &S, &T, &U } ) ASSUME( s->front().y == 1 );
  auto f = function<int, int>( S, 1 ) + function<int, int>( T, 1 ) + function<int, int>( U, 1 );
  int x = anywhere( 3 );
  ASSERT( f( x ) == valueAt( S, x ) + valueAt( T, x ) + valueAt( U, x ), "sum of three functions" );
  REACH("chain");
}

//@ real: functions of real numbers with two and one intervals, positions 0..4 and values -1..2 value by value: sum, integral of the sum, division and powers
HARNESS(real)
{
  auto S = steps( sym::choice( "n", 1, 2 ), 4, 2 );
  if( S.size() == 2 )
    withoutGap( S );
  auto T = steps( 1, 4, 2 );
  for( auto* steps : { &S, &T } )
    for( auto& s : *steps )
    {
      ASSUME( s.y != 0 && s.y >= -1 );
      s.a = symapi_concretize( s.a ); s.b = symapi_concretize( s.b ); s.y = symapi_concretize( s.y );
    }
  auto f = function<double, double>( S, unit );
  auto g = function<double, double>( T, unit );
  auto h = f + g;
  for( int x = -1; x <= 9; ++x )
  {
    double y = valueAt( S, unit / 2 * x ), z = valueAt( T, unit / 2 * x );
    ASSERT( h( x / 2.0 ) == y + z, "sum of real functions" );
    ASSERT( ( f / 2.0 )( x / 2.0 ) == y / 2, "quotient with a scalar" );
    auto p = f;
    p.pow( 2.0 );
    ASSERT( p( x / 2.0 ) == y * y, "square" );
  }
  ASSERT( std::fabs( h.integral() - f.integral() - g.integral() ) < 1e-9, "integral of the sum" );
  ASSERT( std::fabs( ( f - g ).integral() - f.integral() + g.integral() ) < 1e-9, "integral of the difference" );
  double absolute = 0;
  for( auto&& s : S )
    absolute += std::abs( double( s.y * ( s.b - s.a ) ) / unit );
  ASSERT( std::fabs( f.integral_p( 1.0 ) - absolute ) < 1e-9, "unsigned integral" );
  for( auto&& i : f.indicatorFunctions() )
    ASSERT( ( i / 2.0 ).y() == i.y() / 2, "quotient of an indicator function" );
  REACH("real");
}

//@ stream: up to three intervals with ends and values taken value by value, written and read again; broken lines are left out
HARNESS(stream)
{
  auto S = steps( sym::choice( "n", 0, 3 ), 3, 2 );
  for( auto& s : S )
  {
    s.a = symapi_concretize( s.a ); s.b = symapi_concretize( s.b ); s.y = symapi_concretize( s.y );
  }
  int broken = sym::choice( "broken", 0, 3 );
  auto f = function<int, int>( S, 1 );
  std::stringstream text;
  if( broken == 1 ) text << "something\n";
  text << f;
  if( broken == 2 ) text << "100\t1\n";
  if( broken == 3 ) text << "100\t1\n200\t2\n";
  StepFunction<int, int> g;
  text >> g;
  for( int x = -1; x <= 60; ++x )
    ASSERT( g( 4 * x ) == f( 4 * x ), "a function that is written and read again" );
  REACH("stream");
}

//@ normalised: two or three intervals of real functions with values 1..4 value by value, image restricted to [0,1] and [1,3]
HARNESS(normalised)
{
  auto S = steps( sym::choice( "n", 1, 3 ), 3, 4 );
  std::set<int> values;
  for( auto& s : S )
  {
    ASSUME( s.y >= 1 );
    s.a = symapi_concretize( s.a ); s.b = symapi_concretize( s.b ); s.y = symapi_concretize( s.y );
    values.insert( s.y );
  }
  auto f = function<double, double>( S, unit );
  auto g = normalize( f );
  auto h = normalize( f, 1.0, 3.0 );
  bool constant = values.size() == 1;
  for( int x = 0; x <= 6; ++x )
  {
    double y = valueAt( S, unit / 2 * x ), m = *values.rbegin();
    ASSERT( std::fabs( g( x / 2.0 ) - ( constant ? y : y / m ) ) < 1e-12, "values relative to the largest one" );
    if( y != 0 )
      ASSERT( std::fabs( h( x / 2.0 ) - ( constant ? y : 1 + 2 * y / m ) ) < 1e-12, "values relative to the largest one in a given range" );
  }
  if( !constant ) REACH("normalised");
}

//@ several: four intervals and three intervals at fixed positions with two symbolic values -2..2 and 1..3, a symbolic end and any position
HARNESS(several)
{
  Steps S = { { 0, 2, 1 }, { 3, 5, -2 }, { 5, 7, 3 }, { 9, 10, 2 } }, T = { { 1, 4, 2 }, { 6, 8, 1 }, { 8, 11, -1 } };
  S[1].y = sym::integer( "y", -2, 2 );
  ASSUME( S[1].y != 0 && S[1].y != 1 );
  S[1].y = symapi_concretize( S[1].y );
  T[1].b = sym::choice( "b", 7, 8 );
  for( auto* steps : { &S, &T } )
    for( auto& s : *steps ) { s.a *= unit; s.b *= unit; }
  auto g = function<int, int>( S, 1 ), h = function<int, int>( T, 1 ), f = g + h + g;
  int x = anywhere( 11 );
  ASSERT( ( g + h )( x ) == valueAt( S, x ) + valueAt( T, x ), "sum" );
  ASSERT( ( h - g )( x ) == valueAt( T, x ) - valueAt( S, x ), "difference" );
  ASSERT( f( x ) == 2 * valueAt( S, x ) + valueAt( T, x ), "sum of three functions" );
  REACH("several");
}
