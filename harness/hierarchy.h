// The hierarchy of persistence pairs of a function on a path.
#pragma once
#include "complexes.h"
#include <set>

// Hierarchy of a function without ties on a path by its definition
inline std::vector< std::pair<Vertex, Vertex> > onPath( const std::vector<int>& rank, const std::vector<Mask>& order )
{
  int n = int( rank.size() );
  auto minimum = [&] ( int v ) // where the descent from a vertex ends, on the given side
  {
    for( bool moved = true; moved; )
    {
      moved = false;
      if( v > 0 && rank[ std::size_t( v - 1 ) ] < rank[ std::size_t( v ) ] ) { --v; moved = true; }
      else if( v + 1 < n && rank[ std::size_t( v + 1 ) ] < rank[ std::size_t( v ) ] ) { ++v; moved = true; }
    }
    return v;
  };
  std::vector<int> component( std::size_t( n ), 0 );
  for( int v = 0; v < n; ++v )
    component[ std::size_t( v ) ] = v;
  std::vector<int> latest = component;
  std::vector< std::pair<Vertex, Vertex> > result;
  for( Mask m : order )
  {
    if( popcount( m ) != 2 )
      continue;
    int u = 0;
    while( !( m >> u & 1 ) ) ++u;
    int level = std::max( rank[ std::size_t( u ) ], rank[ std::size_t( u + 1 ) ] );
    int a = component[ std::size_t( u ) ], b = component[ std::size_t( u + 1 ) ];
    int older = rank[ std::size_t( a ) ] < rank[ std::size_t( b ) ] ? a : b, younger = older == a ? b : a;
    for( auto&& c : component )
      if( c == younger )
        c = older;
    if( rank[ std::size_t( younger ) ] == level )
      continue;
    int x = latest[ std::size_t( younger ) ], y = latest[ std::size_t( older ) ];
    int low = std::min( rank[ std::size_t( x ) ], rank[ std::size_t( y ) ] );
    bool connected = true;
    std::set<int> basins;
    for( int v = std::min( x, y ); v <= std::max( x, y ); ++v )
    {
      connected = connected && rank[ std::size_t( v ) ] >= low && rank[ std::size_t( v ) ] <= level;
      if( v < std::max( x, y ) )
        basins.insert( minimum( rank[ std::size_t( v ) ] < rank[ std::size_t( v + 1 ) ] ? v : v + 1 ) );
    }
    int p = connected && basins.size() == 2 ? latest[ std::size_t( older ) ] : older;
    result.push_back( std::make_pair( Vertex( p ), Vertex( younger ) ) );
    latest[ std::size_t( older ) ] = younger;
  }
  return result;
}
