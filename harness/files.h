// Text files with symbolic numbers: the text contains the index of a number, and reading an index gives the number.
#pragma once
#include "sym.h"
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <cmath>
#include <fstream>
#include <istream>
#include <limits>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/mman.h>

static double table[32];

struct Value
{
  double x;
  Value( double y = 0 ) : x( y ) {}
  operator double() const { return x; }
};

namespace std { template <> struct numeric_limits<Value> : numeric_limits<double> {}; }

inline std::istream& operator>>( std::istream& in, Value& v )
{
  double k = 0;
  if( in >> k )
    v.x = k < 0 ? -table[ int( -k ) ] : table[ int( k ) ];
  return in;
}

inline std::ostream& operator<<( std::ostream& out, const Value& ) { return out << "value"; }

inline void symbolicTable( int n, long lo, long hi )
{
  for( int i = 1; i <= n; ++i )
    table[i] = sym::fixed( "value", lo, hi );
}

typedef aleph::topology::Simplex<Value, std::size_t> VSimplex;
typedef aleph::topology::SimplicialComplex<VSimplex> VComplex;

// A stream of files that is backed by a text
struct TextFile : std::ifstream
{
  std::stringbuf buffer;
  explicit TextFile( const std::string& text ) : buffer( text ) { this->std::ios::rdbuf( &buffer ); }
};

// The name of a file in memory with the given text
inline std::string memoryFile( const std::string& text )
{
  int fd = memfd_create( "text", 0 );
  std::string name = "/proc/self/fd/" + std::to_string( fd );
  if( fd < 0 || write( fd, text.data(), text.size() ) != long( text.size() ) )
    throw std::string( "unable to create a file in memory" );
  return name;
}

typedef std::vector<std::size_t> Vertices;

// Simplices with their weights
struct Expected
{
  std::map< Vertices, std::vector<double> > simplices;
  void add( Vertices v, double weight )
  {
    std::sort( v.begin(), v.end() );
    simplices[v].push_back( weight );
  }
  // adds the weight unless the simplex is present
  void vertex( std::size_t v, double weight )
  {
    if( !simplices.count( { v } ) )
      add( { v }, weight );
  }
  bool has( Vertices v ) const
  {
    std::sort( v.begin(), v.end() );
    return simplices.count( v ) != 0;
  }
  template <class C> void compare( const C& K ) const
  {
    ASSERT( K.size() == simplices.size(), "number of simplices" );
    std::set<Vertices> found;
    for( auto&& s : K )
    {
      Vertices v( s.begin(), s.end() );
      std::sort( v.begin(), v.end() );
      auto it = simplices.find( v );
      ASSERT( it != simplices.end(), "simplex is given by the file" );
      ASSERT( found.insert( v ).second, "no simplex occurs twice" );
      bool equal = false;
      for( double w : it->second )
        equal = sym::either( equal, double( s.data() ) == w );
      ASSERT( equal, "weight of a simplex" );
    }
  }
};

#include <cstdlib>
#include <sys/stat.h>

// A directory that is removed at the end together with its files
struct Directory
{
  std::string path;
  std::vector<std::string> files;
  Directory()
  {
    const char* s = getenv( "SCRATCH" );
    path = std::string( s ? s : "." ) + "/dXXXXXX";
    if( !mkdtemp( &path[0] ) )
      throw std::string( "unable to create a directory" );
  }
  ~Directory()
  {
    for( auto&& f : files )
      unlink( f.c_str() );
    rmdir( path.c_str() );
  }
  std::string write( const std::string& name, const std::string& text )
  {
    files.push_back( path + "/" + name );
    std::ofstream( files.back() ) << text;
    return files.back();
  }
};
