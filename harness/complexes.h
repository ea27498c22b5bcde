// Families of filtered complexes shared by harnesses, and oracles that work on plain vertex sets.
#pragma once
#include "sym.h"
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <algorithm>
#include <cstdint>
#include <utility>
#include <vector>

typedef unsigned short Vertex;
typedef aleph::topology::Simplex<double, Vertex>    Spx;
typedef aleph::topology::SimplicialComplex<Spx> Complex;
typedef std::uint64_t Mask;

inline int popcount( Mask m ) { int n = 0; while( m ) { m &= m-1; ++n; } return n; }

inline Spx simplexOf( Mask m, double data = 0.0 )
{
  std::vector<Vertex> v;
  for( Vertex i = 0; i < 64; ++i )
    if( m >> i & 1 )
      v.push_back( i );
  return Spx( v.begin(), v.end(), data );
}

inline Mask maskOf( const Spx& s )
{
  Mask m = 0;
  for( std::size_t i = 0; i < s.size(); ++i )
    m |= Mask(1) << s[i];
  return m;
}

// All nonempty vertex sets of at most `maxSize` of the given `n` vertices, by size, then by value
inline std::vector<Mask> subsets( int n, int maxSize )
{
  std::vector<Mask> r;
  for( int k = 1; k <= maxSize; ++k )
    for( Mask m = 1; m < ( Mask(1) << n ); ++m )
      if( popcount( m ) == k )
        r.push_back( m );
  return r;
}

// Graph on n vertices whose edges are symbolic; the result is its adjacency matrix
struct Graph { int n; bool a[12][12]; };
inline Graph symbolicGraph( int n )
{
  Graph g; g.n = n;
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
      g.a[i][j] = false;
  for( int i = 0; i < n; ++i )
    for( int j = i+1; j < n; ++j )
      if( sym::boolean( "edge" ) )
        g.a[i][j] = g.a[j][i] = true;
  return g;
}
inline bool isClique( const Graph& g, Mask m )
{
  for( int i = 0; i < g.n; ++i )
    for( int j = i+1; j < g.n; ++j )
      if( ( m >> i & 1 ) && ( m >> j & 1 ) && !g.a[i][j] )
        return false;
  return true;
}
inline std::vector<Mask> cliques( const Graph& g, int maxSize )
{
  std::vector<Mask> r;
  for( Mask m : subsets( g.n, maxSize ) )
    if( isClique( g, m ) )
      r.push_back( m );
  return r;
}

// Boundary columns as sets of positions, in the order of the given masks
inline std::vector<Mask> boundaryColumns( const std::vector<Mask>& order )
{
  std::vector<Mask> c( order.size(), 0 );
  for( std::size_t j = 0; j < order.size(); ++j )
    for( std::size_t i = 0; i < order.size(); ++i )
      if( ( order[i] & order[j] ) == order[i] && popcount( order[i] ) + 1 == popcount( order[j] ) )
        c[j] |= Mask(1) << i;
  return c;
}
inline std::vector<Mask> orderOf( const Complex& K )
{
  std::vector<Mask> r;
  for( std::size_t i = 0; i < K.size(); ++i )
    r.push_back( maskOf( K[i] ) );
  return r;
}

// Rank over Z/2 of the submatrix of rows >= i and columns <= j
inline int rankLowerLeft( const std::vector<Mask>& c, int i, int j )
{
  std::vector<Mask> v;
  for( int k = 0; k <= j; ++k )
    v.push_back( i >= 64 ? 0 : ( c[ std::size_t(k) ] >> i ) << i );
  int r = 0;
  for( int bit = 0; bit < 64; ++bit )
  {
    int p = -1;
    for( std::size_t k = std::size_t(r); k < v.size(); ++k )
      if( v[k] >> bit & 1 ) { p = int(k); break; }
    if( p < 0 )
      continue;
    std::swap( v[std::size_t(r)], v[std::size_t(p)] );
    for( std::size_t k = 0; k < v.size(); ++k )
      if( int(k) != r && ( v[k] >> bit & 1 ) )
        v[k] ^= v[std::size_t(r)];
    ++r;
  }
  return r;
}

// Persistence pairs by the rank formula; -1 for unpaired creators
inline std::vector< std::pair<int,int> > pairsByRanks( const std::vector<Mask>& c )
{
  const int n = int( c.size() );
  // ranks[i][j+1]: rows >= i, columns <= j
  std::vector< std::vector<int> > rk( std::size_t(n+1), std::vector<int>( std::size_t(n+1), 0 ) );
  for( int i = 0; i < n; ++i )
  {
    // incremental elimination over columns, keyed by lowest set bit of the remaining rows
    std::vector<Mask> basis( 64, 0 );
    int r = 0;
    for( int j = 0; j < n; ++j )
    {
      Mask v = ( c[std::size_t(j)] >> i ) << i;
      for( int b = 0; b < n && v; ++b )
        if( v >> b & 1 )
        {
          if( basis[std::size_t(b)] )
            v ^= basis[std::size_t(b)];
          else
          {
            basis[std::size_t(b)] = v;
            ++r;
            break;
          }
        }
      rk[std::size_t(i)][std::size_t(j+1)] = r;
    }
  }
  std::vector< std::pair<int,int> > result;
  std::vector<bool> used( std::size_t(n), false );
  for( int i = 0; i < n; ++i )
    for( int j = 0; j < n; ++j )
    {
      std::size_t I = std::size_t(i), J = std::size_t(j+1);
      if( rk[I][J] - rk[I+1][J] + rk[I+1][J-1] - rk[I][J-1] == 1 )
      {
        result.push_back( std::make_pair( i, j ) );
        used[I] = used[std::size_t(j)] = true;
      }
    }
  for( int i = 0; i < n; ++i )
    if( !used[std::size_t(i)] )
      result.push_back( std::make_pair( i, -1 ) );
  std::sort( result.begin(), result.end() );
  return result;
}

// Betti numbers from ranks of boundary operators
inline std::vector<int> bettiNumbers( const std::vector<Mask>& order )
{
  int maxDim = -1;
  for( Mask m : order )
    maxDim = std::max( maxDim, popcount( m ) - 1 );
  std::vector<int> count( std::size_t( maxDim+2 ), 0 ), rank( std::size_t( maxDim+3 ), 0 );
  std::vector<Mask> c = boundaryColumns( order );
  for( Mask m : order )
    ++count[std::size_t( popcount(m)-1 )];
  for( int d = 1; d <= maxDim; ++d )
  {
    std::vector<Mask> v;
    for( std::size_t j = 0; j < order.size(); ++j )
      if( popcount( order[j] ) == d+1 )
        v.push_back( c[j] );
    if( !v.empty() )
      rank[std::size_t(d)] = rankLowerLeft( v, 0, int( v.size() )-1 );
  }
  std::vector<int> b;
  for( int d = 0; d <= maxDim; ++d )
    b.push_back( count[std::size_t(d)] - rank[std::size_t(d)] - rank[std::size_t(d+1)] );
  return b;
}

// The full simplex on n vertices whose weights are all symbolic and never decrease along cofaces
inline std::vector<Spx> weightedSubsets( const std::vector<Mask>& sets, long hi )
{
  std::vector<Spx> r;
  std::vector<double> w;
  for( std::size_t i = 0; i < sets.size(); ++i )
  {
    double x = sym::fixed( "weight", -hi, hi, 1 );
    for( std::size_t j = 0; j < i; ++j )
      if( ( sets[j] & sets[i] ) == sets[j] && popcount( sets[j] ) + 1 == popcount( sets[i] ) )
        ASSUME( w[j] <= x );
    w.push_back( x );
    r.push_back( simplexOf( sets[i], x ) );
  }
  return r;
}

// Triangulations of closed surfaces, as vertex sets of their triangles
inline std::vector<Mask> withFaces( const std::vector<Mask>& top )
{
  std::vector<Mask> all;
  for( int k = 1; k <= 5; ++k )
    for( Mask m = 1; m < ( Mask(1) << 8 ); ++m )
      if( popcount( m ) == k )
        for( Mask t : top )
          if( ( t & m ) == m ) { all.push_back( m ); break; }
  return all;
}
inline Mask tri( int a, int b, int c ) { return Mask(1) << a | Mask(1) << b | Mask(1) << c; }
inline std::vector<Mask> projectivePlane()
{
  std::vector<Mask> t;
  const int T[10][3] = { {0,1,4},{0,1,5},{0,2,3},{0,2,5},{0,3,4},{1,2,3},{1,2,4},{1,3,5},{2,4,5},{3,4,5} };
  for( int i = 0; i < 10; ++i )
    t.push_back( tri( T[i][0], T[i][1], T[i][2] ) );
  return t;
}
inline std::vector<Mask> torus()
{
  std::vector<Mask> t;
  for( int i = 0; i < 7; ++i )
  {
    t.push_back( tri( i, (i+1)%7, (i+3)%7 ) );
    t.push_back( tri( i, (i+2)%7, (i+3)%7 ) );
  }
  return t;
}

// Any simplicial complex on n vertices (not all of them need to occur) with simplices of at most
// `maxSize` vertices; the result is sorted by size
inline std::vector<Mask> symbolicComplex( int n, int maxSize )
{
  std::vector<Mask> sets = subsets( n, maxSize ), result;
  std::vector<Mask> top;
  for( std::size_t i = sets.size(); i-- > 0; )
  {
    bool covered = false;
    for( Mask t : top )
      covered = covered || ( t & sets[i] ) == sets[i];
    if( !covered && sym::boolean( "facet" ) )
    {
      top.push_back( sets[i] );
      covered = true;
    }
    if( covered )
      result.push_back( sets[i] );
  }
  std::reverse( result.begin(), result.end() );
  return result;
}

// Betti numbers of complexes with at most 64 simplices per dimension
inline std::vector<int> bettiByDimension( const std::vector<Mask>& all )
{
  std::vector< std::vector<Mask> > byDimension;
  for( Mask m : all )
  {
    std::size_t d = std::size_t( popcount( m ) ) - 1;
    if( byDimension.size() <= d )
      byDimension.resize( d + 1 );
    byDimension[d].push_back( m );
  }
  std::vector<int> rank( byDimension.size() + 1, 0 ), b;
  for( std::size_t d = 1; d < byDimension.size(); ++d )
  {
    std::vector<Mask> c;
    for( Mask m : byDimension[d] )
    {
      Mask column = 0;
      for( std::size_t i = 0; i < byDimension[d-1].size(); ++i )
        if( ( byDimension[d-1][i] & m ) == byDimension[d-1][i] )
          column |= Mask(1) << i;
      c.push_back( column );
    }
    if( !c.empty() )
      rank[d] = rankLowerLeft( c, 0, int( c.size() ) - 1 );
  }
  for( std::size_t d = 0; d < byDimension.size(); ++d )
    b.push_back( int( byDimension[d].size() ) - rank[d] - rank[d+1] );
  return b;
}
