// C13: minimum-cost assignment
#include "sym.h"
#include <aleph/persistenceDiagrams/distances/detail/Matrix.hh>
#include <aleph/persistenceDiagrams/distances/detail/Munkres.hh>
#include <algorithm>
#include <vector>

using namespace aleph::distances::detail;

template <unsigned n> void checkAssignment( const double (&c)[n][n] )
{
  Matrix<double> m(n);
  for(unsigned i=0;i<n;++i)
    for(unsigned j=0;j<n;++j)
      m(i,j) = c[i][j];

  Munkres<double> solver(m);
  auto r = solver();

  int column[n];
  bool used[n];
  for(unsigned j=0;j<n;++j)
    used[j] = false;

  double total = 0;
  for(unsigned i=0;i<n;++i)
  {
    int k = 0;
    for(unsigned j=0;j<n;++j)
    {
      if( r(i,j) == 0 )
      {
        column[i] = int(j);
        ++k;
        ASSERT( !used[j], "no column is assigned twice" );
        used[j] = true;
        total  += c[i][j];
      }
    }
    ASSERT( k == 1, "every row is assigned exactly one column" );
  }

  // oracle: all permutations
  int p[n];
  for(unsigned i=0;i<n;++i)
    p[i] = int(i);
  double best = 0;
  bool first  = true;
  do
  {
    double s = 0;
    for(unsigned i=0;i<n;++i)
      s += c[i][p[i]];
    best  = first ? s : sym::min(best,s);
    first = false;
  }
  while( std::next_permutation(p,p+n) );

  ASSERT( total == best, "the assignment has minimum total cost" );
  for(unsigned i=0;i<n;++i)
    sym::observe(column[i]);
  sym::observe(total);
  REACH("assignment found");
}

template <unsigned n> void check( long hi, int scale )
{
  symapi_linear();
  double c[n][n];
  for(unsigned i=0;i<n;++i)
    for(unsigned j=0;j<n;++j)
      c[i][j] = sym::fixed("cost", 0, hi, scale);
  checkAssignment<n>( c );
}

//@ n1: one row, costs k/4 with 0<=k<=31
HARNESS(n1) { check<1>(31,2); }
//@ n2: two rows, costs k/4 with 0<=k<=1023
HARNESS(n2) { check<2>(1023,2); }
//@ n3: three rows, costs k/4 with 0<=k<=63
HARNESS(n3) { check<3>(63,2); }


// Every row has at most two cheap columns, so that long alternating paths are
// needed; the costs of the remaining columns are the same within a row.
//@ sparse4: four rows, each with one or two columns of cost 0 and cost 1 elsewhere
HARNESS(sparse4)
{
  double c[4][4];
  for(unsigned i=0;i<4;++i)
  {
    int a = sym::choice("first", 0, 3);
    int b = sym::choice("second", a, 3);
    for(int j=0;j<4;++j)
      c[i][j] = j == a || j == b ? 0 : 1;
  }
  checkAssignment<4>( c );
}

//@ t_zeroone4: four rows, costs 0 or 1
HARNESS(t_zeroone4) { check<4>(1,0); }

// All costs are given except for two symbolic ones; the minimum is known for every way to use these two.
template <unsigned n> void twoSymbolic( int pattern, unsigned r1, unsigned c1, unsigned r2, unsigned c2 )
{
  symapi_linear();
  double c[n][n];
  for(unsigned i=0;i<n;++i)
    for(unsigned j=0;j<n;++j)
      c[i][j] = pattern == 0 ? double( ( i + 1 ) * ( j + 1 ) ) : pattern == 1 ? double( ( 3*i + 5*j ) % 7 ) : pattern == 2 ? double( ( i + j ) % n ) : double( ( i*i + 2*j*j ) % 11 ) / 4;
  double a = sym::fixed("a", 0, 63, 2), b = sym::fixed("b", 0, 63, 2);

  double best[4];
  bool possible[4] = { false, false, false, false };
  int p[n];
  for(unsigned i=0;i<n;++i)
    p[i] = int(i);
  do
  {
    int use = ( p[r1] == int(c1) ? 1 : 0 ) + ( p[r2] == int(c2) ? 2 : 0 );
    double s = 0;
    for(unsigned i=0;i<n;++i)
      if( !( i == r1 && use & 1 ) && !( i == r2 && use & 2 ) )
        s += c[i][p[i]];
    if( !possible[use] || s < best[use] )
      best[use] = s;
    possible[use] = true;
  }
  while( std::next_permutation(p,p+n) );

  c[r1][c1] = a;
  c[r2][c2] = b;
  Matrix<double> m(n);
  for(unsigned i=0;i<n;++i)
    for(unsigned j=0;j<n;++j)
      m(i,j) = c[i][j];
  auto r = Munkres<double>(m)();
  double total = 0, least = best[0];
  unsigned used = 0;
  for(unsigned i=0;i<n;++i)
  {
    int k = 0;
    for(unsigned j=0;j<n;++j)
      if( r(i,j) == 0 )
      {
        ++k;
        ASSERT( !( used >> j & 1 ), "no column is assigned twice" );
        used |= 1u << j;
        total += c[i][j];
      }
    ASSERT( k == 1, "every row is assigned exactly one column" );
  }
  if( possible[1] ) least = sym::min( least, best[1] + a );
  if( possible[2] ) least = sym::min( least, best[2] + b );
  if( possible[3] ) least = sym::min( least, best[3] + a + b );
  ASSERT( total == least, "the assignment has minimum total cost" );
  REACH("two symbolic costs");
}

//@ n5: five rows, four patterns of costs with two symbolic costs k/4, 0<=k<=63, at two pairs of positions
HARNESS(n5)
{
  int pattern = sym::choice("pattern", 0, 3);
  bool near = sym::flag("near");
  twoSymbolic<5>( pattern, 0, 4, near ? 0 : 3, near ? 2 : 1 );
}

//@ n7: six or seven rows, four patterns of costs with two symbolic costs k/4, 0<=k<=63
HARNESS(n7)
{
  int pattern = sym::choice("pattern", 0, 3);
  if( sym::flag("seven") )
    twoSymbolic<7>( pattern, 6, 6, 1, 5 );
  else
    twoSymbolic<6>( pattern, 5, 0, 2, 3 );
}
