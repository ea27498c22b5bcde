// Command line tools as functions. Numbers in the text that a tool reads and writes stay symbolic: the text contains a token, and reading
// or writing a floating point number translates between tokens and numbers. The replay reads and writes ordinary decimal numbers.
#pragma once
#include "files.h"
#include <algorithm>
#include <iostream>
#include <iterator>
#include <getopt.h>

// Files that a tool writes are kept in memory
inline std::map<std::string, std::string>& written()
{
  static std::map<std::string, std::string>* m = new std::map<std::string, std::string>;
  return *m;
}

namespace std
{
struct captured_ofstream : ostringstream
{
  string name;
  captured_ofstream() {}
  explicit captured_ofstream( const string& n ) { open( n ); }
  captured_ofstream( const string& n, ios_base::openmode ) { open( n ); }
  void open( const string& n ) { name = n; written()[n] = ""; }
  bool is_open() const { return !name.empty(); }
  void close() { if( is_open() ) written()[name] = str(); name.clear(); }
  ~captured_ofstream() { close(); }
};
}

// Files that a tool reads stay until the end because other paths read them as well
struct Inputs
{
  std::string path;
  Inputs()
  {
    const char* s = getenv( "SCRATCH" );
    path = std::string( s ? s : "." ) + "/dXXXXXX";
    if( !mkdtemp( &path[0] ) )
      throw std::string( "unable to create a directory" );
  }
  std::string write( const std::string& name, const std::string& text ) const
  {
    std::ofstream( path + "/" + name ) << text;
    return path + "/" + name;
  }
};

#ifdef __clang__

static std::vector<double>& numbers()
{
  static std::vector<double>* v = new std::vector<double>;
  return *v;
}

static const long firstToken = 5000000;

extern "C" __attribute__(( used, noinline )) std::istream& extractDouble( std::istream& in, double& x ) __asm__( "_ZNSi10_M_extractIdEERSiRT_" );
extern "C" std::istream& extractDouble( std::istream& in, double& x )
{
  long double y = 0;
  in >> y;
  const long k = y >= firstToken && y < 2*firstToken ? long( y ) - firstToken : -1;
  if( in.fail() || k < 0 || k >= long( numbers().size() ) )
    x = double( y );
  else
    x = numbers()[ std::size_t( k ) ];
  return in;
}

extern "C" __attribute__(( used, noinline )) std::ostream& insertDouble( std::ostream& out, double x ) __asm__( "_ZNSo9_M_insertIdEERSoT_" );
extern "C" std::ostream& insertDouble( std::ostream& out, double x )
{
  numbers().push_back( x );
  return out << long( firstToken + long( numbers().size() ) - 1 );
}

inline std::string text( double x )
{
  numbers().push_back( x );
  return std::to_string( firstToken + long( numbers().size() ) - 1 );
}

inline bool same( double x, double y ) { return sym::close( x, y ); }

#else

inline std::string text( double x )
{
  std::ostringstream s;
  s.precision( 17 );
  s << x;
  return s.str();
}

inline bool same( double x, double y ) { return x == y || std::abs( x - y ) <= 1e-4 * std::max( 1.0, std::abs( y ) ); }

#endif

// A number in the output of a tool
inline double number( const std::string& token )
{
  std::istringstream in( token );
  double x = 0;
  std::string rest;
  if( !( in >> x ) )
  {
    ASSERT( token == "inf" || token == "-inf" || token == "nan" || token == "-nan", "output contains numbers" );
    return token == "inf" ? HUGE_VAL : token == "-inf" ? -HUGE_VAL : std::nan( "" );
  }
  ASSERT( !( in >> rest ), "number is followed by a separator" );
  return x;
}

// What a tool printed
struct Output
{
  int status;
  std::string out, err;
  std::vector< std::vector<std::string> > lines( const std::string& separators = " \t" ) const { return split( out, separators ); }
  static std::vector< std::vector<std::string> > split( const std::string& text, const std::string& separators )
  {
    std::vector< std::vector<std::string> > result;
    std::istringstream in( text );
    std::string line;
    while( std::getline( in, line ) )
    {
      result.push_back( {} );
      std::string token;
      for( char c : line )
        if( separators.find( c ) == std::string::npos )
          token += c;
        else if( !token.empty() )
        {
          result.back().push_back( token );
          token.clear();
        }
      if( !token.empty() )
        result.back().push_back( token );
    }
    return result;
  }
};

// Runs a tool
inline Output run( int (*tool)( int, char** ), const std::vector<std::string>& arguments )
{
  std::vector<std::string> copies( arguments );
  copies.insert( copies.begin(), "tool" );
  std::vector<char*> argv;
  for( auto&& a : copies )
    argv.push_back( &a[0] );
  argv.push_back( nullptr );
  std::stringbuf out, err;
  auto cout = std::cout.rdbuf( &out );
  auto cerr = std::cerr.rdbuf( &err );
  optind = 0;
  Output result;
  result.status = tool( int( copies.size() ), argv.data() );
  std::cout.rdbuf( cout );
  std::cerr.rdbuf( cerr );
  result.out = out.str();
  result.err = err.str();
  return result;
}
