// C20: matrix containers
#include "sym.h"
#include <aleph/math/SparseMatrix.hh>
#include <aleph/math/SymmetricMatrix.hh>
#include <aleph/persistenceDiagrams/distances/detail/Matrix.hh>
#include <iterator>
#include <set>
#include <sstream>
#include <stdexcept>
#include <utility>
#include <vector>

using aleph::math::SymmetricMatrix;
using aleph::math::SparseBinaryMatrix;
using Dense = aleph::distances::detail::Matrix<double>;

struct Write { int i, j; double v; };

static std::vector<Write> writes( int count, int n, bool byValue )
{
  std::vector<Write> r;
  for( int k = 0; k < count; ++k )
  {
    Write w;
    w.i = sym::integer( "i", 0, n - 1 );
    w.j = sym::integer( "j", 0, n - 1 );
    if( byValue ) { w.i = symapi_concretize( w.i ); w.j = symapi_concretize( w.j ); }
    w.v = sym::fixed( "v", -1000, 1000 );
    r.push_back( w );
  }
  return r;
}

// Last value written to a position
static double last( const std::vector<Write>& writes, int i, int j, bool symmetric )
{
  double v = 0;
  for( auto&& w : writes )
    v = sym::ite( sym::either( sym::both( w.i == i, w.j == j ), sym::both( symmetric, sym::both( w.i == j, w.j == i ) ) ), w.v, v );
  return v;
}

//@ symmetric: one to five rows, two or three writes of symbolic values at all positions, every position read; copies, assignment and swapping
HARNESS(symmetric)
{
  int n = sym::choice( "n", 1, 5 );
  auto W = writes( n < 4 ? 3 : 2, n, true );
  SymmetricMatrix<double> M( n );
  for( auto&& w : W )
    M( w.i, w.j ) = w.v;
  ASSERT( M.numRows() == std::size_t( n ) && M.size() == std::size_t( n * ( n + 1 ) / 2 ) && !M.empty(), "size" );
  const auto& C = M;
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
    {
      ASSERT( C( i, j ) == last( W, i, j, true ), "last value written" );
      ASSERT( M( j, i ) == M( i, j ), "symmetry" );
    }
  SymmetricMatrix<double> A = M, B( 1 );
  B = M;
  M( 0, n - 1 ) = 5000;
  ASSERT( A( n - 1, 0 ) == last( W, 0, n - 1, true ) && B( 0, n - 1 ) == A( 0, n - 1 ), "copies are independent" );
  B.swap( M );
  ASSERT( B( 0, n - 1 ) == 5000 && M( 0, n - 1 ) == A( 0, n - 1 ), "swapping" );
  REACH("symmetric");
}

//@ symmetricrange: a position -1..5 in a matrix with three rows: refused if out of range, without changing other entries
HARNESS(symmetricrange)
{
  SymmetricMatrix<int, unsigned> M( 3 );
  for( unsigned i = 0; i < 3; ++i )
    for( unsigned j = i; j < 3; ++j )
      M( i, j ) = int( 10 * i + j );
  int i = sym::integer( "i", -1, 5 ), j = sym::integer( "j", -1, 5 );
  bool thrown = false;
  try { M( i, j ) = 99; } catch( std::out_of_range& ) { thrown = true; }
  ASSERT( thrown == ( i < 0 || j < 0 || i > 2 || j > 2 ), "positions out of range are refused" );
  for( int a = 0; a < 3; ++a )
    for( int b = a; b < 3; ++b )
      ASSERT( M( a, b ) == sym::ite( sym::either( sym::both( i == a, j == b ), sym::both( i == b, j == a ) ), 99, 10 * a + b ), "other entries are kept" );
  if( thrown ) REACH("refused");
}

//@ symmetricempty: matrices without rows
HARNESS(symmetricempty)
{
  SymmetricMatrix<double> M, N( 0 ), C = M;
  ASSERT( M.empty() && M.numRows() == 0 && M.size() == 0, "default matrix is empty" );
  ASSERT( N.empty() && C.empty(), "every matrix without rows is empty" );
  int n = sym::choice( "n", 1, 2 );
  SymmetricMatrix<double> D( n );
  D = C;
  ASSERT( D.numRows() == 0, "assigning an empty matrix" );
  bool thrown = false;
  try { M( 0, 0 ); } catch( std::out_of_range& ) { thrown = true; }
  ASSERT( thrown, "an empty matrix has no entries" );
  REACH("empty");
}

//@ symmetrictext: two rows, writing to a stream
HARNESS(symmetrictext)
{
  SymmetricMatrix<int> M( 2 );
  M( 0, 0 ) = 1; M( 1, 0 ) = sym::choice( "v", -1, 2 ); M( 1, 1 ) = 3;
  std::ostringstream s;
  s << M;
  int a, b, c, d;
  std::istringstream i( s.str() );
  i >> a >> b >> c >> d;
  ASSERT( bool( i ) && a == 1 && b == c && b == M( 0, 1 ) && d == 3, "rows in order" );
  REACH("text");
}

//@ dense: one to four rows, two or three writes at symbolic positions, every position read; copies, moves and assignment
HARNESS(dense)
{
  int n = sym::choice( "n", 1, 4 );
  auto W = writes( n < 4 ? 3 : 2, n, false );
  Dense M( n );
  for( auto&& w : W )
    M( w.i, w.j ) = w.v;
  ASSERT( M.n() == std::size_t( n ), "size" );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
      ASSERT( M( i, j ) == last( W, i, j, false ), "last value written" );
  Dense A = M, B( 1 );
  B = M;
  M( 0, n - 1 ) = 5000;
  ASSERT( A( 0, n - 1 ) == last( W, 0, n - 1, false ) && B( 0, n - 1 ) == A( 0, n - 1 ), "copies are independent" );
  Dense C = std::move( M );
  ASSERT( C.n() == std::size_t( n ) && C( 0, n - 1 ) == 5000, "moving" );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
      ASSERT( A( i, j ) == B( i, j ), "copies are equal" );
  REACH("dense");
}

//@ sparse: four columns, three entries at symbolic positions with rows 0..20, one symbolic position read; column enumeration and counts
HARNESS(sparse)
{
  const unsigned n = 4;
  SparseBinaryMatrix<unsigned> M( n );
  ASSERT( M.numColumns() == n, "number of columns" );
  std::vector< std::pair<unsigned, unsigned> > W;
  for( int k = 0; k < 3; ++k )
  {
    unsigned i = sym::integer( "i", 0, 20 );
    unsigned j = sym::integer( "j", 0, n - 1 );
    M.set( i, j );
    W.push_back( { i, j } );
  }
  unsigned x = sym::integer( "x", 0, 20 ), y = sym::integer( "y", 0, n - 1 );
  bool present = false;
  for( auto&& w : W )
    present = sym::either( present, sym::both( w.first == x, w.second == y ) );
  ASSERT( M.get( x, y ) == present, "entry" );
  std::vector<unsigned> column;
  M.get( y, std::back_inserter( column ) );
  std::set<unsigned> expected;
  for( auto&& w : W )
    if( w.second == y )
      expected.insert( w.first );
  ASSERT( M.numEntries( y ) == expected.size() && column == std::vector<unsigned>( expected.begin(), expected.end() ), "entries of a column" );
  if( present ) REACH("present");
}

//@ sparseindex: index maps of two to four columns, with a map of 0..5 indices
HARNESS(sparseindex)
{
  unsigned n = sym::choice( "n", 2, 4 ), m = sym::choice( "m", 0, 5 );
  SparseBinaryMatrix<unsigned> M( n );
  for( unsigned j = 0; j < n; ++j )
    ASSERT( M.getIndex( j ) == j, "the default index is the column" );
  std::vector<unsigned> map;
  for( unsigned j = 0; j < m; ++j )
    map.push_back( sym::integer( "index", 0, 100 ) );
  bool thrown = false;
  try { M.setIndices( map.begin(), map.end() ); } catch( std::length_error& ) { thrown = true; }
  ASSERT( thrown == ( n != m ), "the number of indices has to match" );
  if( !thrown )
    for( unsigned j = 0; j < n; ++j )
    {
      ASSERT( M.getIndex( j ) == map[j], "index of a column" );
      REACH("mapped");
    }
  thrown = false;
  unsigned c = sym::integer( "column", 0, 6 );
  try { M.set( 0, c ); } catch( std::out_of_range& ) { thrown = true; }
  ASSERT( thrown == ( c >= n ), "columns out of range are refused" );
}

//@ large: eight to twelve rows or columns, every position written, a symbolic value at one of three positions; rows of sparse columns in descending order
HARNESS(large)
{
  int n = sym::choice( "n", 8, 12 ), k = sym::choice( "where", 0, 2 );
  int r = k == 0 ? n - 1 : k == 1 ? 3 : n - 2, c = k == 0 ? 0 : k == 1 ? n - 1 : n - 2;
  double v = sym::fixed( "v", -1000, 1000 );
  SymmetricMatrix<double> S( n );
  Dense M( n );
  SparseBinaryMatrix<unsigned> B( static_cast<unsigned>( n ) );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
    {
      M( i, j ) = 20 * i + j;
      if( j >= i )
        S( i, j ) = 20 * i + j;
      if( ( n - i ) * j % 3 )
        B.set( unsigned( n - i ), unsigned( j ) );
    }
  S( r, c ) = v;
  M( r, c ) = v;
  auto T = S;
  auto N = M;
  ASSERT( S.numRows() == std::size_t( n ) && T.numRows() == S.numRows() && M.n() == std::size_t( n ) && N.n() == M.n(), "size" );
  for( int i = 0; i < n; ++i )
  {
    std::vector<unsigned> column, expected;
    B.get( unsigned( i ), std::back_inserter( column ) );
    for( int j = 0; j < n; ++j )
    {
      double s = ( i == r && j == c ) || ( i == c && j == r ) ? v : 20 * std::min( i, j ) + std::max( i, j ), m = i == r && j == c ? v : 20 * i + j;
      ASSERT( S( i, j ) == s && T( i, j ) == s, "last value written" );
      ASSERT( M( i, j ) == m && N( i, j ) == m, "last value written" );
      bool present = ( j + 1 ) * i % 3 != 0;
      ASSERT( B.get( unsigned( j + 1 ), unsigned( i ) ) == present, "entry" );
      if( present )
        expected.push_back( unsigned( j + 1 ) );
    }
    ASSERT( column == expected && B.numEntries( unsigned( i ) ) == expected.size(), "entries of a column" );
  }
  REACH("large");
}
