// C03: boundary matrices store, dualise, load and convert without losing entries
#include "complexes.h"
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>
#include <sstream>
#include <string>

using namespace aleph;
using namespace aleph::topology;
typedef representations::Vector<unsigned> V;
typedef representations::List<unsigned>   L;
typedef representations::Set<unsigned>    S;

template <class R> void check( const Complex& K, bool limits )
{
  auto order = orderOf( K );
  auto cols  = boundaryColumns( order );
  unsigned n = unsigned( K.size() );
  int top = 0;
  for( Mask m : order )
    top = std::max( top, popcount( m ) - 1 );
  auto M = makeBoundaryMatrix<R>( K );
  ASSERT( M.getNumColumns() == n, "number of columns" );
  ASSERT( !M.isDualized(), "not dualised" );
  ASSERT( int( M.getDimension() ) == top, "dimension of the matrix" );
  for( unsigned j = 0; j < n; ++j )
  {
    std::vector<unsigned> v;
    for( unsigned i = 0; i < n; ++i )
      if( cols[j] >> i & 1 )
        v.push_back( i );
    ASSERT( M.getColumn( j ) == v, "column holds the positions of the faces" );
    ASSERT( int( M.getDimension( j ) ) == popcount( order[j] ) - 1, "dimension of a column" );
    for( unsigned i : v ) sym::observe( i );
  }
  auto D = M.dualize();
  ASSERT( D.isDualized(), "dualised" );
  ASSERT( D.getNumColumns() == n, "number of columns of the dual" );
  ASSERT( int( D.getDimension() ) == top, "dimension of the dual" );
  for( unsigned j = 0; j < n; ++j )
  {
    std::vector<unsigned> v;
    for( unsigned i = 0; i < n; ++i )
      if( cols[n-1-i] >> (n-1-j) & 1 )
        v.push_back( i );
    if( !v.empty() )
      REACH("dual entries");
    ASSERT( D.getColumn( j ) == v, "entry (i,j) becomes (n-1-j,n-1-i)" );
    ASSERT( int( D.getDimension( j ) ) == top - ( popcount( order[n-1-j] ) - 1 ), "dimension of a dual column" );
  }
  auto E = D.dualize();
  ASSERT( E == M && !( E != M ), "dualising twice is the identity" );
  ASSERT( D != M && !( D == M ), "a dual differs from the original" );
  BoundaryMatrix<R> C( M );
  ASSERT( C == M, "a copy is equal" );
  if( n > 1 )
  {
    C.clearColumn( n-1 );
    ASSERT( ( C == M ) == ( cols[n-1] == 0 ), "equality compares columns" );
    ASSERT( M.getColumn( n-1 ).empty() == ( cols[n-1] == 0 ), "a copy is independent" );
    BoundaryMatrix<R> F( M );
    F.setDimension( 0, 7 );
    ASSERT( F != M, "equality compares dimensions" );
  }
  if( limits )
    for( unsigned max = 1; max <= n; ++max )
    {
      auto P = makeBoundaryMatrix<R>( K, max );
      ASSERT( P.getNumColumns() == n, "number of columns of a truncated matrix" );
      for( unsigned j = 0; j < n; ++j )
      {
        if( j < max )
          ASSERT( P.getColumn( j ) == M.getColumn( j ), "columns up to the limit" );
        else
          ASSERT( P.getColumn( j ).empty(), "columns behind the limit" );
        ASSERT( P.getDimension( j ) == M.getDimension( j ), "dimensions of a truncated matrix" );
      }
    }
}
static void checkAll( const Complex& K, bool limits )
{
  check<V>( K, limits ); check<L>( K, limits ); check<S>( K, limits );
}

//@ simplex3: all subsets of three vertices with symbolic monotone weights between -2^19 and 2^19 in steps of 1/2
HARNESS(simplex3)
{
  symapi_linear();
  auto s = weightedSubsets( subsets(3,3), 1 << 20 );
  Complex K( s.begin(), s.end() );
  K.sort( filtrations::Data<Spx>() );
  checkAll( K, true );
}

//@ star4: all clique complexes on four vertices, lower-star order of symbolic vertex values between -2^18 and 2^18 in steps of 1/4
HARNESS(star4)
{
  symapi_linear();
  auto g = symbolicGraph( 4 );
  std::vector<double> f;
  for( int i = 0; i < 4; ++i )
    f.push_back( sym::fixed( "f", -( 1 << 20 ), 1 << 20, 2 ) );
  Complex K;
  for( Mask m : cliques( g, 4 ) )
    K.push_back( simplexOf( m ) );
  filtrations::LowerStar<Spx> order( f.begin(), f.end() );
  K.sort( order );
  checkAll( K, true );
}

//@ flag5: clique complexes of all graphs on five vertices, ordered by dimension
HARNESS(flag5)
{
  auto g = symbolicGraph( 5 );
  Complex K;
  for( Mask m : cliques( g, 5 ) )
    K.push_back( simplexOf( m ) );
  checkAll( K, false );
}

template <class R> void loaded( const std::string& text, const BoundaryMatrix<R>& M )
{
  std::istringstream in( text );
  auto N = BoundaryMatrix<R>::load( in );
  ASSERT( N.getNumColumns() == M.getNumColumns(), "number of loaded columns" );
  for( unsigned j = 0; j < M.getNumColumns(); ++j )
  {
    ASSERT( N.getColumn( j ) == M.getColumn( j ), "loaded column" );
    ASSERT( N.getDimension( j ) == M.getDimension( j ), "loaded dimension" );
  }
  ASSERT( N == M, "loaded matrix is equal" );
  REACH("loaded");
}

//@ text: matrices of all clique complexes on four vertices in text form; comments, empty and blank lines, order of indices, final newline symbolic
HARNESS(text)
{
  auto g = symbolicGraph( 4 );
  bool comment  = sym::flag( "comment" ), empty = sym::flag( "empty" ), blank = sym::flag( "blank" );
  bool reversed = sym::flag( "reversed" ), newline = sym::flag( "newline" ), tabs = sym::flag( "tabs" );
  Complex K;
  for( Mask m : cliques( g, 4 ) )
    K.push_back( simplexOf( m ) );
  auto cols = boundaryColumns( orderOf( K ) );
  std::string text;
  if( comment )
    text += "# a comment 1 2 3\n";
  for( std::size_t j = 0; j < cols.size(); ++j )
  {
    std::string sep = tabs ? "\t " : " ";
    std::string line = std::to_string( popcount( orderOf( K )[j] ) - 1 );
    for( std::size_t i = 0; i < cols.size(); ++i )
    {
      std::size_t k = reversed ? cols.size() - 1 - i : i;
      if( cols[j] >> k & 1 )
        line += sep + std::to_string( k );
    }
    if( j == 2 && comment ) text += "#0\n";
    if( j == 1 && empty )   text += "\n";
    if( j == 3 && blank )   text += "  \t\n";
    text += line;
    if( newline || j + 1 != cols.size() )
      text += "\n";
  }
  if( empty && newline ) text += "\n";
  loaded<V>( text, makeBoundaryMatrix<V>( K ) );
  loaded<L>( text, makeBoundaryMatrix<L>( K ) );
  loaded<S>( text, makeBoundaryMatrix<S>( K ) );
}
