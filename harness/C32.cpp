// C32: string, path and number helpers
#include "noextern.h"
#include "files.h"
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <string>
#include <aleph/utilities/String.hh>
#include <aleph/utilities/Filesystem.hh>
#include <aleph/utilities/Format.hh>
#include <cmath>
#include <limits>
#include <vector>

namespace u = aleph::utilities;

static bool space( char c )
{
  return c == ' ' || ( c >= '\t' && c <= '\r' );
}

static bool same( const std::string& a, const std::string& b )
{
  if( a.size() != b.size() )
    return false;
  bool equal = true;
  for( std::size_t i = 0; i < a.size(); ++i )
    equal = sym::both( equal, a[i] == b[i] );
  return equal;
}

// A text over an alphabet
static std::string text( const std::string& alphabet, int length )
{
  std::string s;
  int n = sym::choice( "length", 0, length );
  for( int i = 0; i < n; ++i )
    s += alphabet[ std::size_t( sym::choice( "char", 0, int( alphabet.size() ) - 1 ) ) ];
  return s;
}

//@ trimming: texts of up to four arbitrary characters
HARNESS(trimming)
{
  std::string s;
  int n = sym::choice( "length", 0, 4 );
  for( int i = 0; i < n; ++i )
    s.push_back( char( sym::integer( "char", -128, 127 ) ) );
  std::string l = u::ltrim( s ), r = u::rtrim( s ), t = u::trim( s );
  std::size_t b = 0, e = s.size();
  while( b < s.size() && space( s[b] ) ) ++b;
  while( e > 0 && space( s[e-1] ) ) --e;
  ASSERT( same( l, s.substr( b ) ), "white space on the left" );
  ASSERT( same( r, s.substr( 0, e ) ), "white space on the right" );
  ASSERT( same( t, b < e ? s.substr( b, e - b ) : std::string() ), "white space on both sides" );
  if( b > 0 && b < e && e < s.size() )
    REACH("both");
  REACH("trimming");
}

static void pieces( int length )
{
  std::string s = text( "ab \t\n,", length );
  std::vector<std::string> expected;
  bool inside = false;
  for( char c : s )
  {
    if( space( c ) )
      inside = false;
    else if( inside )
      expected.back() += c;
    else
    {
      expected.push_back( std::string( 1, c ) );
      inside = true;
    }
  }
  ASSERT( u::splitByWhitespace( s ) == expected, "words in order" );
  ASSERT( u::countTokens( s ) == expected.size(), "number of words" );
  REACH("words");
}

//@ words: texts of up to three of six characters
HARNESS(words) { pieces( 3 ); }
//@ t_words: texts of up to five of six characters
HARNESS(t_words) { pieces( 5 ); }

static void splitting( int length )
{
  std::string s = text( "a ,", length );
  int kind = sym::choice( "separators", 0, 2 );
  auto separates = [&] ( char c ) { return kind == 0 ? c == ' ' : kind == 1 ? c == ',' : c == ' ' || c == ','; };
  std::vector<std::string> expected( 1 );
  bool run = false;
  for( char c : s )
  {
    if( separates( c ) )
    {
      if( !run || kind == 1 )
        expected.push_back( std::string() );
      run = true;
    }
    else
    {
      expected.back() += c;
      run = false;
    }
  }
  if( expected.size() > 1 && expected.back().empty() )
    expected.pop_back();
  std::vector<std::string> tokens = kind == 0 ? u::split( s, std::string( "[[:space:]]+" ) )
                                  : kind == 1 ? u::split( s, std::string( "," ) )
                                  : u::split( s, std::string( "[[:space:],]+" ) );
  ASSERT( tokens == expected, "pieces between separators" );
  REACH("splitting");
}

//@ separators: texts of up to four of three characters, three kinds of separators
HARNESS(separators) { splitting( 4 ); }
//@ t_separators: texts of up to six of three characters, three kinds of separators
HARNESS(t_separators) { splitting( 6 ); }

//@ integers: texts of up to three of eight characters
HARNESS(integers)
{
  std::string s = text( "059-+ a.", 3 );
  std::size_t i = 0;
  int sign = 1, value = 0;
  bool valid = false;
  while( i < s.size() && space( s[i] ) ) ++i;
  if( i < s.size() && ( s[i] == '-' || s[i] == '+' ) )
    sign = s[i++] == '-' ? -1 : 1;
  for( ; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i )
  {
    valid = true;
    value = 10 * value + ( s[i] - '0' );
  }
  bool success = !valid;
  int result = u::convert<int>( s, success );
  ASSERT( success == valid, "texts without a number are not converted" );
  ASSERT( result == ( valid ? sign * value : 0 ), "value of an integer" );
  ASSERT( u::convert<int>( s ) == result, "value without flag" );
  if( valid && value == 0 ) REACH("zero");
  REACH("integers");
}

//@ fractions: numbers with sign, up to two digits, fraction and exponent
HARNESS(fractions)
{
  std::string s;
  int sign = sym::choice( "sign", 0, 2 ), a = sym::choice( "first", 0, 9 ), b = sym::choice( "second", -1, 9 ), e = sym::choice( "exponent", -3, 3 );
  if( sign == 1 ) s += "-";
  if( sign == 2 ) s += "+";
  s += char( '0' + a );
  double value = a;
  if( b >= 0 )
  {
    s += ".";
    s += char( '0' + b );
    value += b / 10.0;
  }
  if( e != 0 )
  {
    s += sym::flag( "upper" ) ? "E" : "e";
    if( e < 0 ) s += "-";
    s += char( '0' + ( e < 0 ? -e : e ) );
    value *= std::pow( 10.0, e );
  }
  if( sign == 1 ) value = -value;
  bool success = false;
  double result = u::convert<double>( s, success );
  ASSERT( success, "numbers are converted" );
  ASSERT( std::fabs( result - value ) <= 1e-12 * ( 1 + std::fabs( value ) ), "value of a number" );
  REACH("fractions");
}

//@ special: infinite values and missing numbers in upper and lower case
HARNESS(special)
{
  static const char* names[] = { "inf", "+inf", "infinity", "+infinity", "-inf", "-infinity", "nan", "", "infi", "abc" };
  int k = sym::choice( "name", 0, 9 );
  std::string s = names[k];
  int flip = sym::choice( "flip", -1, int( s.size() ) );
  for( int i = 0; i < int( s.size() ); ++i )
    if( ( i == flip || flip == int( s.size() ) ) && s[ std::size_t(i) ] >= 'a' )
      s[ std::size_t(i) ] = char( s[ std::size_t(i) ] - 'a' + 'A' );
  bool success = sym::flag( "before" );
  double x = u::convert<double>( s, success );
  if( k < 4 ) ASSERT( success && x == std::numeric_limits<double>::infinity(), "positive infinity" );
  else if( k < 6 ) ASSERT( success && x == -std::numeric_limits<double>::infinity(), "negative infinity" );
  else if( k == 6 ) ASSERT( success && x != x, "not a number" );
  else ASSERT( !success && x == 0, "other texts are not converted" );
  REACH("special");
}

static void path( int length )
{
  std::string s = text( "/.a", length );
  std::size_t e = s.size();
  while( e > 0 && s[e-1] == '/' ) --e;
  std::size_t b = e;
  while( b > 0 && s[b-1] != '/' ) --b;
  std::string name = e == 0 ? ( s.empty() ? "" : "/" ) : s.substr( b, e - b );
  ASSERT( u::basename( s ) == name, "last component" );
  std::string stem = u::stem( s ), extension = u::extension( s );
  ASSERT( stem + extension == name, "stem and extension form the name" );
  bool dots = name == "." || name == "..";
  std::size_t last = name.size();
  for( std::size_t i = 0; i < name.size(); ++i )
    if( name[i] == '.' )
      last = i;
  ASSERT( stem.size() == ( dots ? name.size() : last ), "stem ends at last dot" );
  if( !extension.empty() && !stem.empty() ) REACH("extension");
  REACH("path");
}

//@ paths: paths of up to five of three characters
HARNESS(paths) { path( 5 ); }
//@ t_paths: paths of up to seven of three characters
HARNESS(t_paths) { path( 7 ); }

//@ padding: maxima next to all powers of ten, numbers below
HARNESS(padding)
{
  unsigned long long N = 1, n = 0;
  int p = sym::choice( "power", 0, 18 ), digits = 1;
  for( int i = 0; i < p; ++i ) N *= 10;
  int delta = sym::choice( "delta", -1, 1 );
  N = delta < 0 ? N - 1 : N + unsigned( delta );
  for( unsigned long long m = N; m >= 10; m /= 10 ) ++digits;
  int kind = sym::choice( "kind", 0, 2 );
  n = kind == 0 ? 0 : kind == 1 ? N : N / 7;
  char fill = sym::flag( "blank" ) ? ' ' : '0';
  std::string s = u::format( n, N, fill ), d = std::to_string( n );
  ASSERT( s.size() == std::size_t( digits ), "as many characters as the maximum has digits" );
  ASSERT( s == std::string( s.size() - d.size(), fill ) + d, "number with padding" );
  REACH("padding");
}

//@ types: files, directories, links, pipes, sockets and missing files in a directory of their own
HARNESS(types)
{
  int kind = sym::choice( "kind", 0, 6 );
  Directory d; // after all choices: every path has its own directory
  std::string name = d.path + "/x";
  d.files.push_back( name );
  using T = u::FileType;
  static const T expected[] = { T::Undefined, T::RegularFile, T::Directory, T::SymbolicLink, T::NamedPipe, T::Socket, T::SymbolicLink };
  int made = 0, s = -1;
  if( kind == 1 ) d.write( "x", "text" );
  if( kind == 2 ) made = mkdir( name.c_str(), 0700 );
  if( kind == 3 ) made = symlink( d.path.c_str(), name.c_str() );
  if( kind == 4 ) made = mkfifo( name.c_str(), 0600 );
  if( kind == 5 )
  {
    sockaddr_un a;
    memset( &a, 0, sizeof a );
    a.sun_family = AF_UNIX;
    // Names of sockets are short
    std::string shortName = "/proc/self/fd/" + std::to_string( open( d.path.c_str(), O_RDONLY | O_DIRECTORY ) ) + "/x";
    strcpy( a.sun_path, shortName.c_str() );
    s = socket( AF_UNIX, SOCK_STREAM, 0 );
    made = bind( s, (sockaddr*) &a, sizeof a );
  }
  if( kind == 6 ) made = symlink( "missing", name.c_str() );
  if( made != 0 )
    throw std::string( "unable to create a file" );
  T t = u::fileType( name );
  bool directory = u::isDirectory( name ), regular = u::isRegularFile( name ), socket = u::isSocket( name );
  bool exists = kind == 4 || u::exists( name ); // opening a pipe waits for its other end
  if( kind == 2 ) rmdir( name.c_str() );
  ASSERT( t == expected[kind], "type of a file" );
  ASSERT( directory == ( kind == 2 ) && regular == ( kind == 1 ) && socket == ( kind == 5 ), "queries for types" );
  ASSERT( exists == ( kind != 0 && kind != 6 ), "existence" );
  REACH("types");
}

//@ temporary: all combinations of variables that name a directory for temporary files
HARNESS(temporary)
{
  static const char* names[] = { "TMPDIR", "TMP", "TEMP", "TEMPDIR" };
  std::string expected;
  for( int i = 0; i < 4; ++i )
    if( sym::flag( names[i] ) )
    {
      std::string value = "/some/" + std::to_string( i );
      setenv( names[i], value.c_str(), 1 );
      if( expected.empty() )
        expected = value;
    }
    else
      unsetenv( names[i] );
  std::string d = u::tempDirectory();
  ASSERT( expected.empty() ? d == P_tmpdir : d == expected, "first variable that is set" );
  REACH("temporary");
}

//@ longer: four to ten words of up to twelve characters with one of four kinds of space in between, in front and behind
HARNESS(longer)
{
  static const char* spaces[] = { " ", "\t", "  ", " \r\n\t " };
  int n = sym::choice( "words", 4, 10 ), kind = sym::choice( "space", 0, 3 ), ends = sym::choice( "ends", 0, 3 );
  std::vector<std::string> words;
  std::string s;
  if( ends & 1 ) s += spaces[kind];
  for( int i = 0; i < n; ++i )
  {
    words.push_back( std::string( std::size_t( 1 + i * 5 % 12 ), char( 'a' + i ) ) );
    if( i ) s += spaces[ i % 2 ? kind : 0 ];
    s += words.back();
  }
  if( ends & 2 ) s += spaces[kind];
  ASSERT( u::splitByWhitespace( s ) == words, "words in order" );
  ASSERT( u::countTokens( s ) == words.size(), "number of words" );
  auto pieces = words;
  if( ends & 1 ) pieces.insert( pieces.begin(), std::string() );
  ASSERT( u::split( s, std::string( "[[:space:]]+" ) ) == pieces, "pieces between separators" );
  std::string inner = s;
  if( ends & 1 ) inner = inner.substr( std::string( spaces[kind] ).size() );
  ASSERT( u::ltrim( s ) == inner, "white space on the left" );
  if( ends & 2 ) inner = inner.substr( 0, inner.size() - std::string( spaces[kind] ).size() );
  ASSERT( u::trim( s ) == inner, "white space on both sides" );
  std::string path;
  for( auto&& w : words )
    path += "/" + w + "." + w.substr( 0, 3 );
  ASSERT( u::basename( path ) == words.back() + "." + words.back().substr( 0, 3 ) && u::stem( path ) == words.back() && u::extension( path ) == "." + words.back().substr( 0, 3 ), "parts of a long path" );
  long value = 123456789L * n;
  ASSERT( u::convert<long>( std::to_string( -value ) ) == -value, "value of a long number" );
  ASSERT( u::convert<double>( std::to_string( value ) + ".25" ) == double( value ) + 0.25, "value of a long number" );
  REACH("longer");
}
