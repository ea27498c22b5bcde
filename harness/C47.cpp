// C47: command line tools that process persistence diagrams
// tools: persistence_diagram_statistics make_signature topological_distance persistence_indicator_function
// flags: -DALEPH_WITH_RAPID_JSON
#include "tools.h"
#include "persistence_diagram_statistics.inc"
#include "make_signature.inc"
#include "topological_distance.inc"
#include "persistence_indicator_function.inc"

struct P { double x, y; };
typedef std::vector<P> Points;
typedef aleph::PersistenceDiagram<double> Diagram;

static Points points( int n, long hi )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::fixed( "x", -hi, hi, 1 );
    p.y = sym::fixed( "y", -hi, hi, 1 );
    r.push_back( p );
  }
  return r;
}

// Points at concrete positions, where the code divides or takes roots
static Points fixedPoints( int n, int hi )
{
  Points r;
  for( int i = 0; i < n; ++i )
  {
    P p;
    p.x = sym::choice( "x", 0, hi );
    p.y = sym::choice( "y", 0, hi );
    r.push_back( p );
  }
  return r;
}

static Diagram diagram( const Points& points )
{
  Diagram D;
  for( auto&& p : points )
    D.add( p.x, p.y );
  return D;
}

// Text of a file with the points, optionally with comments and other separators
static std::string file( const Points& points, int style = 0 )
{
  std::string t = style ? "# comment\n\n" : "";
  for( auto&& p : points )
    t += text( p.x ) + ( style ? "\t" : " " ) + text( p.y ) + "\n";
  return t;
}

static double power( double x, int k ) { double r = x; for( int i = 1; i < k; ++i ) r *= x; return r; }

static void statistics( int n, int p, int invalid, int style )
{
  static const char* name[] = { "first_d1.txt", "second_k12.txt", "third.txt", "a_d2_k0.txt" };
  static const char* stem[] = { "first", "second", "third", "a_d2" };
  static const char* dimension[] = { "1", "12", "0", "0" };
  auto A = points( n, 7 );
  Inputs d;
  std::string f = d.write( name[style], file( A, style ) ), g = d.write( "other.txt", "0 1\n" );
  std::vector<std::string> arguments;
  if( p )
    arguments = { "-p", std::to_string( p ) };
  if( invalid )
    arguments.insert( arguments.end(), { "--invalid", "3" } );
  arguments.push_back( f );
  arguments.push_back( g );
  auto o = run( persistence_diagram_statistics::tool, arguments );
  auto l = o.lines( "," );
  ASSERT( o.status == 0 && l.size() == 3, "one line for every file" );
  static const char* header[] = { "file", "name", "dimension", "n_features", "power", "total_persistence", "total_persistence_normalized", "infinity_norm", "average_persistence" };
  ASSERT( l[0].size() == 9, "nine columns" );
  for( int i = 0; i < 9; ++i )
    ASSERT( l[0][ std::size_t( i ) ] == header[i], "header" );
  double total = 0, sum = 0, largest = 0;
  int count = 0;
  for( auto&& q : A )
  {
    if( invalid && ( q.x == 3 || q.y == 3 || q.x == q.y ) )
      continue;
    double e = sym::abs( q.y - q.x );
    ++count;
    total  += power( e, p ? p : 2 );
    sum    += q.y - q.x;
    largest = sym::max( largest, e );
  }
  auto check = [&] ( const std::vector<std::string>& r, const std::string& file, const std::string& name, const std::string& dimension, int count, double total, double sum, double largest )
  {
    if( count == 0 )
      return; // averages of nothing
    ASSERT( r.size() == 9, "nine values" );
    ASSERT( r[0] == "'" + file + "'", "file name" );
    ASSERT( r[1] == name, "name of the data set" );
    ASSERT( r[2] == dimension, "dimension of the data set" );
    ASSERT( r[3] == std::to_string( count ), "number of points" );
    ASSERT( same( number( r[4] ), p ? p : 2 ), "power" );
    ASSERT( same( number( r[5] ), total ), "total persistence" );
    ASSERT( same( number( r[6] ) * count, total ), "total persistence divided by the number of points" );
    ASSERT( same( number( r[7] ), largest ), "largest persistence" );
    ASSERT( same( number( r[8] ) * count, sum ), "average persistence" );
  };
  check( l[1], f, stem[style], dimension[style], count, total, sum, largest );
  check( l[2], g, "other", "0", 1, 1, 1, 1 );
  REACH( "statistics" );
}

//@ statistics: two files, one of them with one or two points with coordinates between -3.5 and 3.5 in steps of 1/2; power 1, 2 or 3 or none given; file names with and without dimension
HARNESS( statistics )
{
  int n = sym::choice( "points", 1, 2 ), p = sym::choice( "power", 0, 3 ), s = sym::choice( "style", 0, 3 );
  statistics( n, p, 0, s );
}

//@ invalid: points with an invalid coordinate and points on the diagonal are ignored, one or two points with coordinates between -3.5 and 3.5 in steps of 1/2
HARNESS( invalid )
{
  int n = sym::choice( "points", 1, 2 ), p = sym::choice( "power", 0, 1 );
  statistics( n, p, 1, 0 );
}

static void signature( int n, int keep, int threshold, bool normalize )
{
  auto A = normalize ? fixedPoints( n, 3 ) : points( n, n == 3 ? 3 : 7 );
  double range = 1;
  Points B;
  for( auto&& p : A )
    if( sym::abs( p.x - p.y ) >= threshold )
      B.push_back( p );
  if( normalize && !B.empty() )
  {
    double hi = B[0].x, lo = B[0].x;
    for( auto&& p : B )
    {
      lo = sym::min( lo, sym::min( p.x, p.y ) );
      hi = sym::max( hi, sym::max( p.x, p.y ) );
    }
    if( hi != lo )
      range = hi - lo;
  }
  std::vector<double> expected;
  for( std::size_t i = 0; i < B.size(); ++i )
    for( std::size_t j = i + 1; j < B.size(); ++j )
    {
      double c = sym::max( sym::abs( B[i].x - B[j].x ), sym::abs( B[i].y - B[j].y ) );
      expected.push_back( sym::min( c, sym::min( sym::abs( B[i].x - B[i].y ), sym::abs( B[j].x - B[j].y ) ) ) / range );
    }
  Inputs d;
  std::vector<std::string> arguments;
  if( keep )
    arguments = { "-k", std::to_string( keep ) };
  if( threshold )
    arguments.insert( arguments.end(), { "--filter", std::to_string( threshold ) } );
  if( normalize )
    arguments.push_back( "-n" );
  arguments.push_back( d.write( "a.txt", file( A, 1 ) ) );
  arguments.push_back( d.write( "b.txt", "0 4\n0 3\n" ) );
  auto o = run( make_signature::tool, arguments );
  auto l = o.lines();
  ASSERT( o.status == 0 && l.size() == 2, "one line for every file" );
  std::size_t size = keep ? std::size_t( keep ) : expected.size();
  ASSERT( l[0].size() == size, "length of the signature" );
  while( expected.size() < size )
    expected.push_back( 0 );
  std::vector<double> found;
  for( auto&& t : l[0] )
    found.push_back( number( t ) );
  for( std::size_t i = 0; i < size; ++i )
  {
    ASSERT( i == 0 || found[i] <= found[i-1], "values decrease" );
    // as many of the expected values are larger as come before
    int larger = 0, equal = 0;
    for( double e : expected )
    {
      equal  += sym::ite( same( found[i], e ), 1, 0 );
      larger += sym::ite( sym::both( e > found[i], sym::neg( same( found[i], e ) ) ), 1, 0 );
    }
    ASSERT( larger <= int( i ) && larger + equal > int( i ), "value of the signature" );
  }
  // 1 after normalisation, 1 before
  if( !keep && threshold < 3 )
    ASSERT( l[1].size() == 1 && same( number( l[1][0] ), normalize ? 0.25 : 1.0 ), "signature of the second file" );
  REACH( "signature" );
  if( size == 0 )
    REACH( "empty" );
}

//@ signature: up to two points with coordinates between -3.5 and 3.5 in steps of 1/2 or three points with coordinates between -1.5 and 1.5 in steps of 1/2; all values or the first one or four, all points or those (up to two points) of a persistence of at least 2
HARNESS( signature )
{
  int n = sym::choice( "points", 0, 3 ), k = sym::choice( "keep", 0, 2 ), t = n == 3 ? 0 : sym::choice( "threshold", 0, 1 );
  signature( n, k == 2 ? 4 : k, 2 * t, false );
}
//@ normalized: up to two points with coordinates 0..3
HARNESS( normalized )
{
  int n = sym::choice( "points", 0, 2 );
  signature( n, 0, 0, true );
}

// The expected distance of two data sets whose diagrams have the same dimension
static double distance( int kind, int p, const Points& A, const Points& B )
{
  using namespace aleph::distances;
  switch( kind )
  {
  case 0: case 1: return hausdorffDistance( diagram( A ), diagram( B ) );
  case 2:         return bottleneckDistance( diagram( A ), diagram( B ) );
  case 3:         return wassersteinDistance( diagram( A ), diagram( B ), double( p ) );
  }
  return 0;
}

static void distances( int kind, int p, int n, int m, long hi, bool other, int third )
{
  static const char* option[] = { "", "-h", "-b", "--wasserstein" };
  auto A = p == 1 ? points( n, hi ) : fixedPoints( n, int( hi ) ), B = p == 1 ? points( m, hi ) : fixedPoints( m, int( hi ) );
  Points C = { { 0, 2 } }, E = { { 0, 1 } };
  Inputs d;
  std::vector<std::string> arguments;
  if( other ) // the last option counts
    arguments.push_back( kind == 2 ? "-w" : "-b" );
  if( kind != 0 )
    arguments.push_back( option[kind] );
  if( p != 2 )
    arguments.insert( arguments.end(), { "-p", std::to_string( p ) } );
  std::vector<std::string> files = { d.write( "a_d1.txt", file( A ) ), d.write( "b_d1.txt", file( B, 1 ) ) };
  if( third == 1 )
    files.push_back( d.write( "c_d1.txt", file( C ) ) );
  if( third == 2 )
  {
    files.insert( files.begin(), d.write( "a_d0.txt", file( C ) ) );
    files.push_back( d.write( "b_d0.txt", file( E ) ) );
  }
  arguments.insert( arguments.end(), files.begin(), files.end() );
  auto o = run( topological_distance::tool, arguments );
  auto l = o.lines();
  std::size_t size = third == 1 ? 3 : 2;
  ASSERT( o.status == 0 && l.size() == size, "one row for every data set" );
  double M[3][3] = { { 0 } };
  M[0][1] = M[1][0] = distance( kind, p, A, B );
  if( third == 1 )
  {
    M[0][2] = M[2][0] = distance( kind, p, A, C );
    M[1][2] = M[2][1] = distance( kind, p, B, C );
  }
  for( std::size_t i = 0; i < size; ++i )
  {
    ASSERT( l[i].size() == size, "one column for every data set" );
    for( std::size_t j = 0; j < size; ++j )
    {
      double v = number( l[i][j] ), e = M[i][j];
      if( third == 2 && i != j )
      {
        // the powers of distances of both dimensions are added
        e = power( e, p ) + power( distance( kind, p, C, E ), p );
        v = power( v, p );
      }
      ASSERT( same( v, e ), "distance of two data sets" );
    }
  }
  REACH( "distances" );
  if( M[0][1] > 1 ) REACH( "different" );
}

//@ distances1: Hausdorff, bottleneck and Wasserstein distances with power 1 between two diagrams with one point each with coordinates between -3.5 and 3.5 in steps of 1/2, also with a third diagram or a second dimension, and between two points and one with coordinates 0..3; with other options before
HARNESS( distances1 )
{
  int kind = sym::choice( "kind", 1, 3 ), n = sym::choice( "first", 1, 2 ), third = n == 2 ? 0 : sym::choice( "third", 0, 2 );
  bool other = sym::flag( "other" );
  distances( kind, 1, n, 1, n == 1 ? 7 : 3, other, third );
}
//@ distances2: Hausdorff, bottleneck and Wasserstein distances with power 2 between two diagrams with one point with coordinates 0..3, and with a third diagram or a second dimension
HARNESS( distances2 )
{
  int kind = sym::choice( "kind", 0, 3 ), third = sym::choice( "third", 0, 2 );
  distances( kind, 2, 1, 1, 3, false, third );
}

// Intervals without a gap: sums of functions with gaps are subject to a known finding of C17
static Points intervals( int n )
{
  auto A = fixedPoints( n, 3 );
  for( auto&& p : A )
    ASSUME( p.y > p.x );
  if( n == 2 )
    ASSUME( A[1].x <= A[0].y && A[0].x <= A[1].y );
  return A;
}

// Number of intervals of a diagram that contain a position between integers, as a step function
static double count( const Points& A, double t )
{
  double r = 0;
  for( auto&& p : A )
    r += sym::ite( sym::both( p.x < t, t < p.y ), 1.0, 0.0 );
  return r;
}

//@ indicator: distance of the indicator functions of two diagrams with one or two points with coordinates 0..3 above the diagonal and without a gap, power 1
HARNESS( indicator )
{
  int n = sym::choice( "first", 1, 2 );
  auto A = intervals( n ), B = intervals( 1 );
  Inputs d;
  std::vector<std::string> arguments = { "-i", "-p", "1", d.write( "a_d1.txt", file( A ) ), d.write( "b_d1.txt", file( B ) ) };
  auto o = run( topological_distance::tool, arguments );
  auto l = o.lines();
  ASSERT( o.status == 0 && l.size() == 2 && l[0].size() == 2 && l[1].size() == 2, "matrix" );
  double e = 0;
  for( int t = 0; t < 3; ++t )
    e += sym::abs( count( A, t + 0.5 ) - count( B, t + 0.5 ) );
  ASSERT( same( number( l[0][1] ), e ), "area between both functions" );
  ASSERT( same( number( l[1][0] ), e ), "area between both functions" );
  ASSERT( same( number( l[0][0] ), 0 ) && same( number( l[1][1] ), 0 ), "zero on the diagonal" );
  REACH( "indicator" );
}

// Value of a function that is given by its segments
static double value( const std::vector< std::vector<std::string> >& l, double t )
{
  double r = 0;
  for( std::size_t i = 0; i + 1 < l.size(); i += 2 )
    if( l[i].size() == 2 && l[i+1].size() == 2 )
    {
      double a = number( l[i][0] ), b = number( l[i+1][0] ), y = number( l[i][1] ), z = number( l[i+1][1] );
      ASSERT( y == z && a <= b, "constant segments" );
      r += sym::ite( sym::both( a < t, t < b ), y, 0.0 );
    }
  return r;
}

static std::vector< std::vector<std::string> > contents( const std::string& path )
{
  ASSERT( written().count( path ), "output file exists" );
  return Output::split( written()[path], " \t" );
}

//@ functions: indicator functions of two files with one or two points with coordinates 0..3 above the diagonal and without a gap, and their mean
HARNESS( functions )
{
  int n = sym::choice( "first", 1, 2 ), slash = sym::choice( "slash", 0, 1 );
  bool mean = sym::flag( "mean" );
  auto A = intervals( n ), B = intervals( 1 );
  Inputs d;
  std::vector<std::string> arguments = { "-o", d.path + ( slash ? "/" : "" ), d.write( "a.txt", file( A ) + "0 inf\n" ), d.write( "b.txt", file( B ) ) };
  if( mean )
    arguments.insert( arguments.begin(), "-m" );
  auto o = run( persistence_indicator_function::tool, arguments );
  ASSERT( o.status == 0, "success" );
  auto a = contents( d.path + "/PIF_a.txt" ), b = contents( d.path + "/PIF_b.txt" );
  for( int t = 0; t < 3; ++t )
  {
    ASSERT( same( value( a, t + 0.5 ), count( A, t + 0.5 ) ), "number of intervals" );
    ASSERT( same( value( b, t + 0.5 ), count( B, t + 0.5 ) ), "number of intervals" );
  }
  if( mean )
  {
    auto m = contents( d.path + "/PIF_mean.txt" );
    for( int t = 0; t < 3; ++t )
      ASSERT( same( 2 * value( m, t + 0.5 ), count( A, t + 0.5 ) + count( B, t + 0.5 ) ), "mean" );
    auto e = Output::split( o.err, ": " );
    double norm = 0, s[2] = { 0, 0 };
    for( auto&& p : A ) s[0] += p.y - p.x;
    for( auto&& p : B ) s[1] += p.y - p.x;
    norm = ( s[0] + s[1] ) / 2;
    int found = 0;
    for( auto&& r : e )
      if( r.size() > 2 && r[1] == "Norm" )
      {
        ASSERT( same( number( r.back() ), norm ), "norm of the mean" );
        ++found;
      }
      else if( r.size() > 2 && r[1] == "Sample" )
      {
        ASSERT( same( number( r.back() ), ( s[0] - norm ) * ( s[0] - norm ) + ( s[1] - norm ) * ( s[1] - norm ) ), "variance of the norms" );
        ++found;
      }
    ASSERT( found == 2, "norm and variance are printed" );
    REACH( "mean" );
  }
  REACH( "functions" );
}

//@ options: Wasserstein distances with power 1 of one point with coordinates 0..3 and one without end to another point; removal and replacement of points without end, removal of duplicates and of points on the diagonal, lists of files and JSON files
HARNESS( options )
{
  int mode = sym::choice( "mode", 0, 4 ), end = sym::choice( "end", 0, 3 );
  auto A = fixedPoints( 1, 3 ), B = fixedPoints( 1, 3 );
  Inputs d;
  std::vector<std::string> arguments = { "-w", "-p", "1" };
  Points expected = A;
  std::string a = file( A ), e;
  auto json = [] ( const Points& A, bool unpaired )
  {
    std::string t = "{\"diagrams\": [ { \"betti\": " + std::to_string( int( unpaired ) ) + ", \"dimension\": 1, \"size\": " + std::to_string( A.size() + unpaired ) + ", \"diagram\": [";
    for( auto&& p : A )
      t += "[\"" + text( p.x ) + "\",\"" + text( p.y ) + "\"],";
    if( unpaired )
      t += "[\"1\",\"inf\"],";
    t.back() = ']';
    return t + " } ] }\n";
  };
  if( mode == 0 ) // only points with an end and off the diagonal
  {
    arguments.push_back( "-c" );
    a += std::to_string( end ) + " inf\n";
    if( A[0].x == A[0].y )
      expected.clear();
  }
  else if( mode == 1 || mode == 4 ) // twice the largest value as the end
  {
    if( mode == 4 )
      end = 1;
    arguments.insert( arguments.end(), { "--factor", "2" } );
    a += std::to_string( end ) + " inf\n";
    P p;
    p.x = end;
    p.y = 2 * std::max( p.x, std::max( A[0].x, A[0].y ) );
    expected.push_back( p );
  }
  else if( mode == 2 ) // every point once
  {
    arguments.push_back( "-r" );
    for( int i = 0; i < end; ++i )
      a += file( A );
  }
  std::vector<std::string> files;
  if( mode == 4 )
    files = { d.write( "a.json", json( A, true ) ), d.write( "b.json", json( B, false ) ) };
  else
    files = { d.write( "a.txt", a ), d.write( "b.txt", file( B ) ) };
  if( mode == 3 )
  {
    arguments.push_back( "-l" );
    files = { d.write( "list", files[0] + "\n" + files[1] + "\n" ) };
  }
  arguments.insert( arguments.end(), files.begin(), files.end() );
  if( mode == 0 && B[0].x == B[0].y )
    B.clear();
  auto l = run( topological_distance::tool, arguments ).lines();
  ASSERT( l.size() == 2 && l[0].size() == 2 && l[1].size() == 2, "two data sets" );
  double w = aleph::distances::wassersteinDistance( diagram( expected ), diagram( B ) );
  ASSERT( same( number( l[0][1] ), w ) && same( number( l[1][0] ), w ), "distance of the processed diagrams" );
  ASSERT( same( number( l[0][0] ), 0 ) && same( number( l[1][1] ), 0 ), "zero on the diagonal" );
  REACH( "options" );
  if( mode == 4 ) REACH( "json" );
}

//@ envelopes: distance of the envelopes of two diagrams with one point each with coordinates 0..3 above the diagonal, power 1
HARNESS( envelopes )
{
  auto A = intervals( 1 ), B = intervals( 1 );
  Inputs d;
  auto l = run( topological_distance::tool, { "-b", "-E", "-p", "1", d.write( "a.txt", file( A ) ), d.write( "b.txt", file( B ) ) } ).lines();
  ASSERT( l.size() == 2 && l[0].size() == 2 && l[1].size() == 2, "two data sets" );
  auto f = aleph::Envelope()( diagram( A ) ), g = aleph::Envelope()( diagram( B ) );
  double e = ( f - g ).abs().integral();
  ASSERT( same( number( l[0][1] ), e ) && same( number( l[1][0] ), e ), "area between both envelopes" );
  REACH( "envelopes" );
}
