// C24: enumeration of combinations and permutations
#include "sym.h"
#include <type_traits>
#include <aleph/math/Combinations.hh>
#include <algorithm>
#include <list>
#include <set>
#include <stdexcept>
#include <vector>

namespace m = aleph::math;
using V = std::vector<int>;
enum Kind { Combination, Permutation, Circular, Reversible, ReversibleCircular };

// Representative of all sequences that count as the same selection
static V canonical( V v, Kind kind )
{
  if( v.empty() )
    return v;
  if( kind == Combination )
    std::sort( v.begin(), v.end() );
  if( kind == Circular || kind == ReversibleCircular )
    std::rotate( v.begin(), std::min_element( v.begin(), v.end() ), v.end() );
  if( kind == Reversible || kind == ReversibleCircular )
  {
    V w( v.rbegin(), v.rend() );
    if( kind == ReversibleCircular )
      std::rotate( w.begin(), std::min_element( w.begin(), w.end() ), w.end() );
    v = std::min( v, w );
  }
  return v;
}

struct Visitor
{
  Kind kind;
  std::set<V>* seen;
  int* visits;
  int stop;
  int n, r;
  template <class It> bool operator()( It first, It last )
  {
    V v( first, last );
    ASSERT( int( v.size() ) == r, "a visit gets the right number of elements" );
    V w = v;
    std::sort( w.begin(), w.end() );
    for( int i = 0; i < r; ++i )
      ASSERT( w[i] >= 0 && w[i] < n && ( i == 0 || w[i-1] < w[i] ), "a visit gets different elements of the range" );
    ASSERT( seen->insert( canonical( v, kind ) ).second, "no selection is visited twice" );
    ++*visits;
    return *visits == stop;
  }
};

static long factorial( int n ) { return n < 2 ? 1 : n * factorial( n - 1 ); }

static long count( Kind kind, int n, int r )
{
  long p = factorial( n ) / factorial( n - r );
  switch( kind )
  {
  case Combination: return p / factorial( r );
  case Permutation: return p;
  case Circular: return r ? p / r : 1;
  case Reversible: return r > 1 ? p / 2 : p;
  default: return r == 0 ? 1 : r <= 2 ? p / r : p / ( 2 * r );
  }
}

template <class C> static void visit( C& c, Kind kind, int r, Visitor f )
{
  auto a = c.begin(), b = std::next( c.begin(), r ), e = c.end();
  switch( kind )
  {
  case Combination: m::for_each_combination( a, b, e, f ); break;
  case Permutation: m::for_each_permutation( a, b, e, f ); break;
  case Circular: m::for_each_circular_permutation( a, b, e, f ); break;
  case Reversible: m::for_each_reversible_permutation( a, b, e, f ); break;
  default: m::for_each_reversible_circular_permutation( a, b, e, f ); break;
  }
}

template <class C> static std::uintmax_t counted( C& c, Kind kind, int r )
{
  auto a = c.begin(), b = std::next( c.begin(), r ), e = c.end();
  switch( kind )
  {
  case Combination: return m::count_each_combination( a, b, e );
  case Permutation: return m::count_each_permutation( a, b, e );
  case Circular: return m::count_each_circular_permutation( a, b, e );
  case Reversible: return m::count_each_reversible_permutation( a, b, e );
  default: return m::count_each_reversible_circular_permutation( a, b, e );
  }
}

template <class C> static void all( int low, int high )
{
  Kind kind = Kind( sym::choice( "kind", 0, 4 ) );
  int n = sym::choice( "n", low, high );
  if( kind == ReversibleCircular && n == 0 )
    return;
  int r = sym::choice( "r", kind == ReversibleCircular ? 1 : 0, n );
  C c;
  for( int i = 0; i < n; ++i )
    c.push_back( i );
  C before = c;
  std::set<V> seen;
  int visits = 0;
  long expected = count( kind, n, r );
  visit( c, kind, r, { kind, &seen, &visits, -1, n, r } );
  ASSERT( visits == expected, "every selection is visited" );
  ASSERT( c == before, "the range is restored" );
  ASSERT( counted( c, kind, r ) == std::uintmax_t( expected ), "number of selections" );

  // stops at any visit
  if( expected <= 400 )
  {
    int stop = sym::choice( "stop", 1, int( expected ) );
    seen.clear();
    visits = 0;
    visit( c, kind, r, { kind, &seen, &visits, stop, n, r } );
    ASSERT( visits == stop, "enumeration ends as soon as requested" );
    std::multiset<int> a( c.begin(), c.end() ), b( before.begin(), before.end() );
    ASSERT( a == b, "no element is lost" );
  }
}

//@ vectors: all five kinds of selections, 0..5 elements, all sizes of selections, early termination at every visit if there are at most 400
HARNESS(vectors)
{
  all<V>( 0, 5 );
  REACH("vectors");
}

//@ lists: all five kinds of selections for ranges without random access, 0..4 elements
HARNESS(lists)
{
  all< std::list<int> >( 0, 4 );
  REACH("lists");
}

//@ six: all five kinds of selections of six or seven elements
HARNESS(six)
{
  all<V>( 6, 7 );
  REACH("six");
}

struct Counter
{
  int* visits;
  int stop;
  template <class It> bool operator()( It, It ) { return ++*visits == stop; }
};

//@ stops: early termination at every visit of the reversible permutations of seven elements
HARNESS(stops)
{
  int tens = sym::choice( "tens", 0, 251 );
  int stop = 10 * tens + sym::choice( "ones", 1, 10 );
  V c = { 0, 1, 2, 3, 4, 5, 6 };
  int visits = 0;
  m::for_each_reversible_permutation( c.begin(), c.end(), c.end(), Counter{ &visits, stop } );
  ASSERT( visits == stop, "enumeration ends as soon as requested" );
  REACH("stops");
}

//@ counts: numbers of selections for symbolic sizes of 0..12 elements, in 16 bits: exact or refused as an overflow
HARNESS(counts)
{
  int d1 = sym::choice( "d1", 0, 12 ), d2 = sym::choice( "d2", 0, 12 );
  if( d1 + d2 > 20 ) return;
  Kind kind = Kind( sym::choice( "kind", 0, 4 ) );
  long expected = count( kind, d1 + d2, d1 );
  std::uint16_t a = d1, b = d2, result = 0;
  bool thrown = false;
  try
  {
    switch( kind )
    {
    case Combination: result = m::count_each_combination( a, b ); break;
    case Permutation: result = m::count_each_permutation( a, b ); break;
    case Circular: result = m::count_each_circular_permutation( a, b ); break;
    case Reversible: result = m::count_each_reversible_permutation( a, b ); break;
    default: result = m::count_each_reversible_circular_permutation( a, b );
    }
  }
  catch( std::overflow_error& ) { thrown = true; }
  ASSERT( thrown == ( expected > 65535 ), "refused exactly if the number is too large" );
  ASSERT( thrown || result == expected, "number of selections in 16 bits" );
  if( thrown ) REACH("overflow");
  thrown = false;
  try { m::count_each_combination( -1, d2 ); } catch( std::invalid_argument& ) { thrown = true; }
  ASSERT( thrown, "negative sizes are refused" );
}

//@ nine: one to three, or all but one or two, of eight or nine elements in vectors and lists
HARNESS(nine)
{
  Kind kind = Kind( sym::choice( "kind", 0, 4 ) );
  int n = sym::choice( "n", 8, 9 ), r = sym::choice( "r", 1, 3 );
  if( kind == Combination && sym::flag( "most" ) )
    r = n - r;
  bool list = sym::flag( "list" );
  std::set<V> seen;
  int visits = 0;
  V v;
  for( int i = 0; i < n; ++i )
    v.push_back( i );
  std::list<int> l( v.begin(), v.end() );
  V before = v;
  if( list )
    visit( l, kind, r, { kind, &seen, &visits, -1, n, r } );
  else
    visit( v, kind, r, { kind, &seen, &visits, -1, n, r } );
  ASSERT( visits == count( kind, n, r ), "every selection is visited" );
  ASSERT( v == before && V( l.begin(), l.end() ) == before, "the range is restored" );
  REACH("nine");
}
