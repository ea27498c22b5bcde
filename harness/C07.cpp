// C07: every filtration order is a strict weak order listing faces before cofaces
#include "complexes.h"
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/Degree.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>
#include <functional>
#include <iterator>

using namespace aleph::topology;

template <class C> void axioms( const C& c, const Spx& r, const Spx& s, const Spx& t )
{
  bool rs = c( r, s ), sr = c( s, r ), st = c( s, t ), ts = c( t, s ), rt = c( r, t ), tr = c( t, r );
  ASSERT( !c( r, r ) && !c( s, s ) && !c( t, t ), "irreflexive" );
  ASSERT( !( rs && sr ) && !( st && ts ) && !( rt && tr ), "asymmetric" );
  ASSERT( !( rs && st ) || rt, "transitive" );
  bool u = !rs && !sr, v = !st && !ts, w = !rt && !tr;
  ASSERT( !( u && v ) || w, "incomparability is transitive" );
  ASSERT( !u || r == s, "only equal simplices are tied" );
  if( rs && st ) REACH("chain");
  if( u ) REACH("tie");
}

//@ data: any three subsets of three vertices with symbolic data -1000..1000, ascending and descending
HARNESS(data)
{
  symapi_linear();
  Mask a = Mask( sym::choice( "a", 1, 7 ) ), b = Mask( sym::choice( "b", 1, 7 ) ), c = Mask( sym::choice( "c", 1, 7 ) );
  double x = sym::fixed( "x", -1000, 1000 ), y = sym::fixed( "y", -1000, 1000 ), z = sym::fixed( "z", -1000, 1000 );
  // a vertex set carries one data value
  if( a == b ) y = x;
  if( a == c ) z = x;
  if( b == c ) z = y;
  Spx r = simplexOf( a, x ), s = simplexOf( b, y ), t = simplexOf( c, z );
  filtrations::Data<Spx> up;
  filtrations::Data<Spx, std::greater<double> > down;
  axioms( up, r, s, t );
  axioms( down, r, s, t );
  if( x < y )
  {
    ASSERT( up( r, s ) && !up( s, r ), "smaller data first" );
    ASSERT( down( s, r ) && !down( r, s ), "larger data first" );
    REACH("different data");
  }
  if( x == y && a != b && ( a & b ) == a )
  {
    ASSERT( up( r, s ) && down( r, s ), "faces come first for equal data" );
    REACH("face");
  }
}

static void starPairs( int n )
{
  Mask full = ( Mask(1) << n ) - 1;
  Mask a = Mask( sym::choice( "a", 1, int( full ) ) ), b = Mask( sym::choice( "b", 1, int( full ) ) ), c = Mask( sym::choice( "c", 1, int( full ) ) );
  std::vector<double> f;
  for( int i = 0; i < n; ++i )
    f.push_back( sym::fixed( "f", -1000, 1000 ) );
  Spx r = simplexOf( a ), s = simplexOf( b ), t = simplexOf( c );
  filtrations::LowerStar<Spx> lower( f.begin(), f.end() );
  filtrations::UpperStar<Spx> upper( f.begin(), f.end() );
  axioms( lower, r, s, t );
  axioms( upper, r, s, t );
  double ma = -1e6, mb = -1e6, na = 1e6, nb = 1e6;
  for( int i = 0; i < n; ++i )
  {
    double v = f[ std::size_t( i ) ];
    if( a >> i & 1 ) { ma = sym::max( ma, v ); na = sym::min( na, v ); }
    if( b >> i & 1 ) { mb = sym::max( mb, v ); nb = sym::min( nb, v ); }
  }
  ASSERT( sym::implies( ma < mb, lower( r, s ) ), "smaller maximum first" );
  ASSERT( sym::implies( mb < ma, !lower( r, s ) ), "smaller maximum first" );
  ASSERT( sym::implies( na > nb, upper( r, s ) ), "larger minimum first" );
  ASSERT( sym::implies( nb > na, !upper( r, s ) ), "larger minimum first" );
  if( a != b && ( a & b ) == a )
  {
    ASSERT( lower( r, s ) && upper( r, s ), "faces come first" );
    REACH("face");
  }
}
//@ star: any three subsets of two or three vertices, symbolic values -1000..1000
HARNESS(star2) { symapi_linear(); starPairs( 2 ); }
HARNESS(star3) { symapi_linear(); starPairs( 3 ); }

//@ sort4: clique complexes of all graphs on four vertices, symbolic values, sorted by lower or upper star
HARNESS(sort4)
{
  symapi_linear();
  auto g = symbolicGraph( 4 );
  bool low = sym::flag( "lower" );
  std::vector<double> f;
  for( int i = 0; i < 4; ++i )
    f.push_back( sym::fixed( "f", -1000, 1000 ) );
  auto sets = cliques( g, 4 );
  std::reverse( sets.begin(), sets.end() );
  Complex K;
  for( Mask m : sets )
    K.push_back( simplexOf( m ) );
  if( low )
  {
    filtrations::LowerStar<Spx> c( f.begin(), f.end() );
    K.sort( c );
  }
  else
  {
    filtrations::UpperStar<Spx> c( f.begin(), f.end() );
    K.sort( c );
  }
  auto order = orderOf( K );
  ASSERT( order.size() == sets.size(), "sorting loses nothing" );
  double last = 0;
  for( std::size_t i = 0; i < order.size(); ++i )
  {
    for( std::size_t j = 0; j < i; ++j )
      ASSERT( order[j] != order[i] && ( order[j] & order[i] ) != order[i], "faces come first" );
    double v = low ? -1e6 : 1e6;
    for( int b = 0; b < 4; ++b )
      if( order[i] >> b & 1 )
        v = low ? sym::max( v, f[ std::size_t(b) ] ) : sym::min( v, f[ std::size_t(b) ] );
    if( i )
      ASSERT( low ? last <= v : last >= v, "values are monotone along the filtration" );
    last = v;
  }
  REACH("sorted");
}

//@ sort3: all subsets of three vertices with symbolic monotone data, ascending or descending
HARNESS(sort3)
{
  symapi_linear();
  bool up = sym::flag( "ascending" );
  auto s = weightedSubsets( subsets(3,3), 1000 );
  if( !up )
    for( auto&& t : s )
      t.setData( -t.data() );
  std::reverse( s.begin(), s.end() );
  Complex K( s.begin(), s.end() );
  if( up )
    K.sort( filtrations::Data<Spx>() );
  else
    K.sort( filtrations::Data<Spx, std::greater<double> >() );
  auto order = orderOf( K );
  ASSERT( order.size() == 7, "sorting loses nothing" );
  for( std::size_t i = 1; i < order.size(); ++i )
  {
    ASSERT( up ? K[i-1].data() <= K[i].data() : K[i-1].data() >= K[i].data(), "data is monotone along the filtration" );
    for( std::size_t j = 0; j < i; ++j )
      ASSERT( order[j] != order[i] && ( order[j] & order[i] ) != order[i], "faces come first" );
  }
  REACH("sorted");
}

//@ degrees: clique complexes of all graphs on five vertices of dimension up to 1, 2 or 3
HARNESS(degrees)
{
  auto g = symbolicGraph( 5 );
  int k = sym::choice( "dimension", 2, 4 );
  auto sets = cliques( g, k );
  Complex K;
  for( std::size_t i = sets.size(); i-- > 0; )
    K.push_back( simplexOf( sets[i] ) );
  std::vector<unsigned> d;
  filtrations::degrees( K, std::back_inserter( d ) );
  ASSERT( d.size() == 5, "one degree per vertex" );
  for( int v = 0; v < 5; ++v )
  {
    unsigned n = 0;
    for( Mask m : sets )
      n += ( m >> v & 1 ) && popcount( m ) > 1;
    ASSERT( d[ std::size_t( v ) ] == n, "degree is the number of cofaces" );
    if( n == 0 ) REACH("isolated");
  }
  int top = 0;
  for( Mask m : sets )
    top = std::max( top, popcount( m ) );
  for( Mask m : sets )
  {
    unsigned n = 0;
    for( Mask t : sets )
      n += popcount( t ) == top && ( t & m ) == m;
    ASSERT( filtrations::n_degree( K, simplexOf( m ) ) == n, "n-degree counts simplices of the highest dimension" );
  }
}
