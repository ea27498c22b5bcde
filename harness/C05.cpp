// C05: a simplicial complex keeps one entry per simplex and consistent lookups
#include "complexes.h"
#include <set>
#include <stdexcept>

struct Entry { Mask m; double d; };
typedef std::vector<Entry> Model;

static int position( const Model& M, Mask m )
{
  for( std::size_t i = 0; i < M.size(); ++i )
    if( M[i].m == m )
      return int( i );
  return -1;
}

static void verify( const Complex& K, const Model& M, int n )
{
  ASSERT( K.size() == M.size(), "size" );
  ASSERT( K.empty() == M.empty(), "emptiness" );
  sym::observe( K.size() );
  std::size_t i = 0;
  for( auto it = K.begin(); it != K.end() && i < M.size(); ++it, ++i )
  {
    ASSERT( maskOf( *it ) == M[i].m, "iteration order" );
    ASSERT( it->data() == M[i].d, "data" );
    ASSERT( maskOf( K[i] ) == M[i].m && maskOf( K.at(i) ) == M[i].m, "access by position" );
    sym::observe( long( M[i].m ) );
  }
  ASSERT( i == M.size(), "iteration covers all simplices" );
  Complex& mutableK = const_cast<Complex&>( K );
  i = 0;
  for( auto it = mutableK.begin(); it != mutableK.end(); ++it )
    ++i;
  ASSERT( i == M.size(), "iteration covers all simplices" );
  bool thrown = false;
  try { (void) K.at( M.size() ); } catch( std::out_of_range& ) { thrown = true; }
  ASSERT( thrown, "positions behind the end are rejected" );

  int top = -1;
  for( auto&& e : M )
    top = std::max( top, popcount( e.m ) - 1 );
  thrown = false;
  try { ASSERT( int( K.dimension() ) == top, "dimension" ); } catch( std::exception& ) { thrown = true; }
  ASSERT( thrown == M.empty(), "only an empty complex has no dimension" );

  for( Mask m = 1; m < ( Mask(1) << n ); ++m )
  {
    Spx s = simplexOf( m, 77.0 );
    int p = position( M, m );
    ASSERT( K.contains( s ) == ( p >= 0 ), "membership" );
    auto it = K.find( s );
    ASSERT( ( it != K.end() ) == ( p >= 0 ), "lookup" );
    auto it2 = mutableK.find( s );
    ASSERT( ( it2 != mutableK.end() ) == ( p >= 0 ), "lookup" );
    if( p >= 0 && it != K.end() )
    {
      ASSERT( maskOf( *it ) == m && it->data() == M[std::size_t(p)].d, "lookup gives the stored simplex" );
      ASSERT( it - K.begin() == p, "lookup gives the position" );
    }
    thrown = false;
    std::size_t index = 0;
    try { index = K.index( s ); } catch( std::runtime_error& ) { thrown = true; }
    ASSERT( thrown == ( p < 0 ), "position of a missing simplex is rejected" );
    if( p >= 0 )
      ASSERT( index == std::size_t( p ), "position" );
  }

  std::vector<Mask> lex;
  Spx previous;
  for( auto it = K.begin_lexicographical(); it != K.end_lexicographical(); ++it )
  {
    if( !lex.empty() )
      ASSERT( previous < *it, "lexicographical iteration is ordered" );
    previous = *it;
    lex.push_back( maskOf( *it ) );
    ASSERT( position( M, lex.back() ) >= 0, "lexicographical iteration" );
  }
  ASSERT( lex.size() == M.size(), "lexicographical iteration is complete" );
  std::size_t count = 0, last = 0;
  for( auto it = K.begin_dimension(); it != K.end_dimension(); ++it, ++count )
  {
    ASSERT( it->dimension() >= last, "iteration by dimension is ordered" );
    last = it->dimension();
    ASSERT( position( M, maskOf( *it ) ) >= 0, "iteration by dimension" );
  }
  ASSERT( count == M.size(), "iteration by dimension is complete" );
  for( int d = 0; d <= n; ++d )
  {
    std::set<Mask> want, got;
    for( auto&& e : M )
      if( popcount( e.m ) == d+1 )
        want.insert( e.m );
    auto r = K.range( std::size_t( d ) );
    std::size_t k = 0;
    for( auto it = r.first; it != r.second; ++it, ++k )
      got.insert( maskOf( *it ) );
    ASSERT( got == want && k == want.size(), "range of a dimension" );
  }
  std::vector<Vertex> v;
  K.vertices( std::back_inserter( v ) );
  std::set<Vertex> want;
  for( auto&& e : M )
    if( popcount( e.m ) == 1 )
      for( int b = 0; b < n; ++b )
        if( e.m >> b & 1 )
          want.insert( Vertex( b ) );
  ASSERT( v == std::vector<Vertex>( want.begin(), want.end() ), "vertices" );

  Complex C( K );
  ASSERT( C == K && !( C != K ), "a copy is equal" );
  if( !M.empty() )
  {
    Complex D( K ), E( K ), F;
    D.remove_without_validation( simplexOf( M.back().m ) );
    ASSERT( D != K && !( D == K ), "equality notices a missing simplex" );
    ASSERT( K.size() == M.size(), "copies are independent" );
    E.replace( E.begin(), simplexOf( Mask(1) << (n+1) ) );
    ASSERT( E != K, "equality notices another simplex" );
    for( std::size_t p = 0; p < M.size(); ++p )
    {
      Mask m = M[p].m, lowest = m & ~( m - 1 ), highest = lowest;
      for( Mask b = lowest; b <= m; b <<= 1 )
        if( m & b )
          highest = b;
      Complex G( K ), H( K );
      G.replace( G.begin() + long( p ), simplexOf( ( m & ~lowest ) | Mask(1) << (n+1) ) );
      ASSERT( G != K && K != G, "equality notices another smallest vertex" );
      H.replace( H.begin() + long( p ), simplexOf( ( m & ~highest ) | Mask(1) << (n+1) ) );
      ASSERT( H != K && K != H, "equality notices another largest vertex" );
      G.replace( G.begin() + long( p ), simplexOf( m, 123.0 ) );
      ASSERT( G == K, "equality ignores data" );
    }
    ASSERT( F != K, "equality with the empty complex" );
    REACH("nonempty");
  }
  else
    REACH("empty");
}

static double fresh = 1;

static void push( Complex& K, Model& M, Mask m )
{
  double d = fresh++;
  K.push_back( simplexOf( m, d ) );
  if( position( M, m ) < 0 )
    M.push_back( Entry{ m, d } );
}

static void dropInvalid( Model& M )
{
  bool again = true;
  while( again )
  {
    again = false;
    for( std::size_t i = 0; i < M.size(); ++i )
    {
      bool valid = true;
      for( int b = 0; b < 10 && popcount( M[i].m ) > 1; ++b )
        if( ( M[i].m >> b & 1 ) && position( M, M[i].m & ~( Mask(1) << b ) ) < 0 )
          valid = false;
      if( !valid )
      {
        M.erase( M.begin() + long( i ) );
        again = true;
        break;
      }
    }
  }
}

struct Reverse { bool operator()( const Spx& a, const Spx& b ) const { return maskOf( b ) < maskOf( a ); } };

static void operation( Complex& K, Model& M, int n )
{
  int kind = sym::choice( "kind", 0, 9 );
  int full = ( 1 << n ) - 1;
  if( kind == 0 )
    push( K, M, Mask( sym::choice( "simplex", 1, full ) ) );
  else if( kind == 1 )
  {
    Mask m = Mask( sym::choice( "simplex", 1, full ) );
    double d = fresh; fresh += 2;
    std::vector<Spx> v; v.push_back( simplexOf( m, d ) ); v.push_back( simplexOf( Mask( full ), d+1 ) );
    K.insert( v.begin(), v.end() );
    if( position( M, m ) < 0 ) M.push_back( Entry{ m, d } );
    if( position( M, Mask( full ) ) < 0 ) M.push_back( Entry{ Mask( full ), d+1 } );
  }
  else if( kind == 2 )
  {
    Mask m = Mask( sym::choice( "simplex", 1, full ) );
    bool had = position( M, m ) >= 0;
    K.remove( simplexOf( m ) );
    if( had )
      M.erase( M.begin() + position( M, m ) );
    dropInvalid( M );
    for( auto&& s : K )
      ASSERT( ( maskOf( s ) & m ) != m, "no coface of a removed simplex remains" );
    REACH("remove");
  }
  else if( kind == 3 )
  {
    Mask m = Mask( sym::choice( "simplex", 1, full ) );
    K.remove_without_validation( simplexOf( m ) );
    if( position( M, m ) >= 0 )
      M.erase( M.begin() + position( M, m ) );
  }
  else if( kind == 4 && !M.empty() )
  {
    int p  = sym::choice( "position", 0, int( M.size() ) - 1 );
    Mask m = Mask( sym::choice( "simplex", 1, full ) );
    double d = fresh++;
    bool ok = K.replace( K.begin() + p, simplexOf( m, d ) );
    int at = position( M, m );
    ASSERT( ok == ( at < 0 || at == p ), "replacing fails for another existing simplex" );
    if( at < 0 || at == p )
      M[ std::size_t( p ) ] = Entry{ m, d };
    else
      REACH("replace refused");
  }
  else if( kind == 5 )
  {
    Reverse r;
    K.sort( r );
    std::sort( M.begin(), M.end(), [] ( const Entry& a, const Entry& b ) { return b.m < a.m; } );
  }
  else if( kind == 6 )
  {
    K.sort();
    std::sort( M.begin(), M.end(), [] ( const Entry& a, const Entry& b ) { return simplexOf( a.m ) < simplexOf( b.m ); } );
  }
  else if( kind == 7 )
  {
    K.clear();
    M.clear();
  }
  else if( kind == 8 )
  {
    std::vector< std::reference_wrapper<const Spx> > v;
    for( std::size_t i = M.size(); i-- > 0; )
      v.push_back( std::cref( K[i] ) );
    K.rearrange( v.begin() );
    std::reverse( M.begin(), M.end() );
  }
  else if( kind == 9 )
  {
    Complex L( K.begin(), K.end() );
    K = L;
  }
}

//@ single: every set of nonempty subsets of three vertices (closed or not), in two insertion orders, then one operation with any argument
HARNESS(single)
{
  Complex K; Model M;
  bool reverse = sym::flag( "reverse" );
  for( Mask i = 1; i < 8; ++i )
    if( sym::flag( "present" ) )
      push( K, M, reverse ? 8-i : i );
  operation( K, M, 3 );
  verify( K, M, 3 );
}

//@ sequence: two operations with any arguments on the full triangle
HARNESS(sequence)
{
  Complex K; Model M;
  for( Mask m : subsets( 3, 3 ) )
    push( K, M, m );
  operation( K, M, 3 );
  operation( K, M, 3 );
  verify( K, M, 3 );
}

//@ closed: any operation on a clique complex of any graph on four vertices
HARNESS(closed)
{
  Complex K; Model M;
  auto g = symbolicGraph( 4 );
  for( Mask m : cliques( g, 4 ) )
    push( K, M, m );
  operation( K, M, 4 );
  verify( K, M, 4 );
}

//@ skeleton6: skeletons of dimension 1 to 3 of the full simplex on six vertices stored in three orders, then one of five operations on any simplex of up to two vertices or one of two triangles
HARNESS(skeleton6)
{
  int top = sym::choice( "dimension", 1, 3 ), stored = sym::choice( "order", 0, 2 );
  Complex K; Model M;
  auto S = subsets( 6, top + 1 );
  for( std::size_t i = 0; i < S.size(); ++i )
    push( K, M, stored == 0 ? S[i] : stored == 1 ? S[ S.size() - 1 - i ] : S[ i * 5 % S.size() ] );
  for( Mask m : S )
    push( K, M, m );
  int kind = sym::choice( "kind", 0, 4 );
  int which = sym::choice( "which", 0, 22 );
  Mask m = which == 21 ? Mask( 7 ) : which == 22 ? Mask( 42 ) : subsets( 6, 2 )[ std::size_t( which ) ];
  if( kind == 0 )
  {
    K.remove( simplexOf( m ) );
    if( position( M, m ) >= 0 )
      M.erase( M.begin() + position( M, m ) );
    dropInvalid( M );
  }
  else if( kind == 1 )
  {
    K.remove_without_validation( simplexOf( m ) );
    if( position( M, m ) >= 0 )
      M.erase( M.begin() + position( M, m ) );
  }
  else if( kind == 2 )
    push( K, M, m | Mask(64) );
  else if( kind == 3 )
  {
    double d = fresh++;
    int at = position( M, m ), p = std::min( which, int( M.size() ) - 1 );
    bool ok = K.replace( K.begin() + p, simplexOf( m, d ) );
    ASSERT( ok == ( at < 0 || at == p ), "replacing fails for another existing simplex" );
    if( ok )
      M[ std::size_t( p ) ] = Entry{ m, d };
  }
  else
  {
    K.sort();
    std::sort( M.begin(), M.end(), [] ( const Entry& a, const Entry& b ) { return simplexOf( a.m ) < simplexOf( b.m ); } );
  }
  verify( K, M, 7 );
}

//@ t_sequence: three operations with any arguments on an edge
HARNESS(t_sequence)
{
  Complex K; Model M;
  for( Mask m : subsets( 2, 2 ) )
    push( K, M, m );
  operation( K, M, 3 );
  operation( K, M, 3 );
  operation( K, M, 3 );
  verify( K, M, 3 );
}
