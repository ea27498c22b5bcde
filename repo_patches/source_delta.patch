From e30dafa2be0d94cadd4f70d266509994ac6f133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:44 +0000
Subject: [PATCH 01/81] fix: Include top dimension in Euler characteristic

Both sums stopped before the highest dimension. The persistent variant
did not compile because a member function was not called.
---
 include/aleph/persistentHomology/EulerCharacteristic.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistentHomology/EulerCharacteristic.hh b/include/aleph/persistentHomology/EulerCharacteristic.hh
index b85541e..1e7f0c1 100644
--- a/include/aleph/persistentHomology/EulerCharacteristic.hh
+++ b/include/aleph/persistentHomology/EulerCharacteristic.hh
@@ -1,6 +1,8 @@
 #ifndef ALEPH_EULER_CHARACTERISTIC_HH__
 #define ALEPH_EULER_CHARACTERISTIC_HH__
 
+#include <cmath>
+
 #include <iterator>
 #include <map>
 
@@ -30,7 +32,7 @@ template <class SimplicialComplex> long eulerCharacteristic( const SimplicialCom
   }
 
   short s = 1;
-  for( std::size_t d = 0; d < K.dimension(); d++ )
+  for( std::size_t d = 0; d <= K.dimension(); d++ )
   {
     chi += s * cardinality[d];
     s    = s * (-1);
@@ -64,7 +66,7 @@ template <class InputIterator> long eulerCharacteristic( InputIterator begin,
   long chi = 0;
   short s  = 1;
 
-  for( std::size_t d = 0; d < D; d++ )
+  for( std::size_t d = 0; d <= D; d++ )
   {
     chi += s * betti[d];
     s   *= (-1);
@@ -98,7 +100,7 @@ template <class InputIterator> auto persistentEulerCharacteristic( InputIterator
   for( auto it = begin; it != end; ++it )
   {
     auto&& diagram = *it;
-    auto s         = std::pow( -1, it->dimension);
+    auto s         = std::pow( -1, it->dimension() );
 
     for( auto&& point : diagram )
       chi += s * point.persistence();
-- 
2.43.0


From 26efb2e3d6135c355646506b59c957f6d7ff9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:44 +0000
Subject: [PATCH 02/81] fix: Report degree of isolated vertices

The degrees follow the order of vertices of the complex, but a vertex
without any co-faces was left out.
---
 include/aleph/topology/filtrations/Degree.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/filtrations/Degree.hh b/include/aleph/topology/filtrations/Degree.hh
index 13c9be6..7913b26 100644
--- a/include/aleph/topology/filtrations/Degree.hh
+++ b/include/aleph/topology/filtrations/Degree.hh
@@ -41,7 +41,9 @@ template <class SimplicialComplex, class OutputIterator> void degrees( const Sim
 
   for( auto&& simplex : K )
   {
-    if( simplex.dimension() != 0 )
+    if( simplex.dimension() == 0 )
+      degrees[ *simplex.begin() ] += 0;
+    else
     {
       for( auto&& vertex : simplex )
         degrees[vertex] += 1;
-- 
2.43.0


From 2d7ed8c6440b1b44d358f0c412a7d09a042276ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:44 +0000
Subject: [PATCH 03/81] fix: Handle unpaired points in diagrams of functions

A pairing may contain creators without a destroyer. Looking up their
function value threw an exception.
---
 include/aleph/persistenceDiagrams/Calculation.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Calculation.hh b/include/aleph/persistenceDiagrams/Calculation.hh
index 0c58a8c..88a760b 100644
--- a/include/aleph/persistenceDiagrams/Calculation.hh
+++ b/include/aleph/persistenceDiagrams/Calculation.hh
@@ -93,7 +93,10 @@ PersistenceDiagram<DataType> makePersistenceDiagram( const PersistencePairing<In
     auto&& i = pair.first;
     auto&& j = pair.second;
 
-    D.add( functionValues.at(i), functionValues.at(j) );
+    if( j < functionValues.size() )
+      D.add( functionValues.at(i), functionValues.at(j) );
+    else
+      D.add( functionValues.at(i) );
   }
 
   return D;
-- 
2.43.0


From d5fe32a24bb6faca2677283bdf650dfcb9d6c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:44 +0000
Subject: [PATCH 04/81] fix: Limit number of neighbours to number of points

Asking for more neighbours than there are points erased past the end of
the results.
---
 include/aleph/geometry/BruteForce.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/geometry/BruteForce.hh b/include/aleph/geometry/BruteForce.hh
index 9e98504..315c468 100644
--- a/include/aleph/geometry/BruteForce.hh
+++ b/include/aleph/geometry/BruteForce.hh
@@ -85,6 +85,9 @@ public:
     auto D               = _container.dimension();
     DistanceFunctor dist = DistanceFunctor();
 
+    // There are never more neighbours than points
+    k = static_cast<unsigned>( std::min( std::size_t( k ), this->size() ) );
+
     for( IndexType i = 0; i < this->size(); i++ )
     {
       // I am not making any assumptions about the distance functor
-- 
2.43.0


From a2288a8a47be4331e1a65ce344a54f61188b0611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:25 +0000
Subject: [PATCH 05/81] fix: Stay in range for bottleneck distance of tiny
 diagrams

The search over the sorted edges left its range when there was only one
edge, and it read a missing edge for two empty diagrams.
---
 include/aleph/persistenceDiagrams/distances/Bottleneck.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index 69deecc..481d7e0 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -73,12 +73,11 @@ template <class T> struct CheckMatchingCardinality
     // surplus edges need to be removed.
     else
     {
-      do
+      while( _last != it2 )
       {
         boost::remove_edge( _last->source, _last->target, _graph );
         --_last;
       }
-      while( _last != it2 );
     }
 
     boost::edmonds_maximum_cardinality_matching( _graph,
@@ -132,6 +131,9 @@ template <
   auto m           = D2.size();
   auto maximumSize = n + m;
 
+  if( maximumSize == 0 )
+    return DataType();
+
   using SizeType = decltype(n);
   using Edge     = detail::Edge<DataType>;
 
-- 
2.43.0


From f3d77c77a4a622661e350a8275fbdb88a1baf713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:08 +0000
Subject: [PATCH 06/81] fix: Count differing coordinates in Hamming distance

The contribution of a single coordinate, as used by nearest-neighbour
search structures, was the absolute difference.
---
 include/aleph/geometry/distances/Hamming.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/distances/Hamming.hh b/include/aleph/geometry/distances/Hamming.hh
index e573386..34bcb13 100644
--- a/include/aleph/geometry/distances/Hamming.hh
+++ b/include/aleph/geometry/distances/Hamming.hh
@@ -120,7 +120,7 @@ public:
                          const V& b,
                          int __attribute__((unused)) ) const
   {
-    return std::abs( a - b );
+    return static_cast<ResultType>( a != b );
   }
 
   /** @returns Name of functor */
-- 
2.43.0


From f41b0ebf48e7fc24d5f100b66ffb903a718d9c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:05 +0000
Subject: [PATCH 07/81] fix: Do not read past the last point in envelope

The search for the last point with the same position did not stop at the
end of all points.
---
 include/aleph/persistenceDiagrams/Envelope.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Envelope.hh b/include/aleph/persistenceDiagrams/Envelope.hh
index a505bb2..64916eb 100644
--- a/include/aleph/persistenceDiagrams/Envelope.hh
+++ b/include/aleph/persistenceDiagrams/Envelope.hh
@@ -82,7 +82,7 @@ public:
     for( auto&& x : X )
     {
       auto next = std::next( it );
-      while( next->x() == x )
+      while( next != P.end() && next->x() == x )
       {
         ++next;
         ++it;
-- 
2.43.0


From d3f49604d77ed5eba6099a6730da318431d4298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:52 +0000
Subject: [PATCH 08/81] fix: Divide an indicator function by a scalar

The operator called itself without end.
---
 include/aleph/math/StepFunction.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 01a2674..c2107b7 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -146,7 +146,8 @@ public:
     {
       // Note that I do not have to handle divisions by zero here
       // because only the step function is using this class.
-      return this->operator/=( 1/lambda );
+      _y /= lambda;
+      return *this;
     }
 
     IndicatorFunction operator/( I lambda ) const
-- 
2.43.0


From 244f72f4da8d15be2f42ad7c8c175c4ec928436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:52 +0000
Subject: [PATCH 09/81] fix: Compare magnitudes when evaluating step functions

At a point that belongs to two intervals the value of larger magnitude
is used. The magnitude was compared with a signed value, so negating a
function did not negate its values.
---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index c2107b7..29ed73c 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -217,7 +217,7 @@ public:
 
       // If multiple indicator functions overlap, take the one whose
       // absolute value is largest.
-      if( std::abs( f(x) ) > value )
+      if( std::abs( f(x) ) > std::abs( value ) )
         value = f(x);
     }
 
-- 
2.43.0


From 1aa4fa8ebc970cdc08c9feaca4a38c190aae0261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:43 +0000
Subject: [PATCH 10/81] fix: Check for end before access when cleaning step
 functions

---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 29ed73c..40b914b 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -487,7 +487,7 @@ private:
 
     for( ; curr != _indicatorFunctions.end(); )
     {
-      while( curr->y() == prev->y() && curr != _indicatorFunctions.end() )
+      while( curr != _indicatorFunctions.end() && curr->y() == prev->y() )
         ++curr;
 
       indicatorFunctions.insert( IndicatorFunction( prev->a(), std::prev( curr )->b(), prev->y() ) );
-- 
2.43.0


From 40ccd2982fb3ef3dd63b2df813d7669b1d5abb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:43 +0000
Subject: [PATCH 11/81] fix: Do not add an interval before the first event
 point

If the smallest value of a diagram belonged to a point on the diagonal,
an interval starting at zero was added. For negative values this is not
a valid interval and terminated the program.
---
 .../aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
index b1bc30b..7909fe4 100644
--- a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
+++ b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
@@ -156,7 +156,9 @@ template <class DataType> aleph::math::StepFunction<DataType> persistenceIndicat
     // implied by the values.
     else
     {
-      f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+      if( i != 0 )
+        f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+
       useNextPoint = true;
     }
 
-- 
2.43.0


From 01264ad4ed7d95da353dc7d7c7f923c70bf1c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:44 +0000
Subject: [PATCH 12/81] fix: Allow adding a scalar to a piecewise linear
 function in place

The operators were declared constant, so using them did not compile.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 110e41e..12bf26b 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -143,7 +143,7 @@ public:
   }
 
   /** Adds a given value to all points in the image of the function */
-  PiecewiseLinearFunction& operator+=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator+=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::plus<Image>() );
   }
@@ -181,7 +181,7 @@ public:
   }
 
   /** Subtracts a given value from all points in the image of the function */
-  PiecewiseLinearFunction& operator-=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator-=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::minus<Image>() );
   }
-- 
2.43.0


From bfb37dcc3375cc98e3a70bf5c3ee4ad119683ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:52 +0000
Subject: [PATCH 13/81] fix: Integrate all segments of piecewise linear
 functions correctly

Arithmetic operations may create new intersections with the x-axis inside
of a segment. Integrals and absolute values did not take them into account
and were too small. Rounding errors may turn a horizontal segment into
one with a tiny slope. The quadrature formula divides by this slope and
gave values that are off by several percent.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 39 +++++++++++--------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 12bf26b..91c2049 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -280,6 +280,8 @@ public:
   /** Calculates the absolute value of the function */
   PiecewiseLinearFunction& abs() noexcept
   {
+    this->insertIntersectionPoints();
+
     for( auto&& pair : _data )
       pair.second = std::abs( pair.second );
 
@@ -325,30 +327,30 @@ public:
 
     while( current != _data.end() )
     {
-      // Coefficients of the line that connect the previous point and the current
-      // point.
       auto x1 = previous->first;
       auto y1 = previous->second;
       auto x2 = current->first;
       auto y2 = current->second;
-      auto m  = (y2 - y1) / (x2 - x1);
-      auto c  = y1 - m * x1;
 
-      // Evaluator for the integral. This is an application of Cavalieri's
-      // quadrature formula.
-      auto evaluator = [&]( Image x )
-      {
-        // Horizontal segments
-        if( m == Image() )
-          return std::pow( c, p ) * x;
+      auto a  = std::abs( y1 );
+      auto b  = std::abs( y2 );
+      auto h  = x2 - x1;
 
-        // Regular lines
-        else
-          return std::pow( m*x + c, p+1 ) / ( m * (p+1) );
-      };
+      // Segments that intersect the x-axis; the parts before and after the
+      // intersection are integrated on their own.
+      if( y1 * y2 < Image() )
+        norm += ( std::pow( a, p+1 ) + std::pow( b, p+1 ) ) / ( ( a + b ) * (p+1) ) * h;
 
-      auto integral   = std::abs( evaluator( x2 ) - evaluator( x1 ) );
-      norm           += integral;
+      // Segments that are horizontal up to rounding errors; the formula
+      // below would be subject to cancellation.
+      else if( std::abs( b - a ) <= std::cbrt( std::numeric_limits<Image>::epsilon() ) * std::max( a, b ) )
+        norm += std::pow( ( a + b ) / 2, p ) * h;
+
+      // Regular lines. This is an application of Cavalieri's quadrature
+      // formula. Since both values have the same sign, it is sufficient
+      // to look at absolute values.
+      else
+        norm += std::abs( std::pow( b, p+1 ) - std::pow( a, p+1 ) ) / ( std::abs( b - a ) * (p+1) ) * h;
 
       previous = current;
       ++current;
@@ -494,6 +496,9 @@ private:
 
   void insertIntersectionPoints()
   {
+    if( _data.empty() )
+      return;
+
     auto current = _data.begin();
     auto next    = std::next( current );
 
-- 
2.43.0


From 206136de0c3f80ee8797f6f03b00fc5efec245c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:16 +0000
Subject: [PATCH 14/81] fix: Report every symmetric matrix without rows as
 empty

A copy of an empty matrix was not considered to be empty.
---
 include/aleph/math/SymmetricMatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/SymmetricMatrix.hh b/include/aleph/math/SymmetricMatrix.hh
index 4df3104..e88ab97 100644
--- a/include/aleph/math/SymmetricMatrix.hh
+++ b/include/aleph/math/SymmetricMatrix.hh
@@ -138,7 +138,7 @@ public:
   /** Checks whether the matrix is empty */
   bool empty() const noexcept
   {
-    return _numRows == 0 && _size == 0 && _data == nullptr;
+    return _numRows == 0 && _size == 0;
   }
 
 private:
-- 
2.43.0


From e70469609d3fd46cd9628b0d1da0b13bb72fd471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:13 +0000
Subject: [PATCH 15/81] fix: Avoid overflow for shortest paths with integral
 weights

The largest number stands for a missing path. Adding something to it gave
negative distances between vertices without a path.
---
 include/aleph/topology/FloydWarshall.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/FloydWarshall.hh b/include/aleph/topology/FloydWarshall.hh
index cbb9107..99afd29 100644
--- a/include/aleph/topology/FloydWarshall.hh
+++ b/include/aleph/topology/FloydWarshall.hh
@@ -57,6 +57,9 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
   // infinity (all others). Next, edge weights of the complex will
   // be added to the matrix.
 
+  const DataType infinity
+    = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+
   auto n = vertex_to_index.size();
 
   Matrix M( static_cast<VertexType>( n ) );
@@ -65,7 +68,7 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
   {
     M(i,i) = DataType(0);
     for( auto j = i+1; j < VertexType(n); j++ )
-      M(i,j) = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+      M(i,j) = infinity;
   }
 
   for( auto&& s : K )
@@ -87,6 +90,11 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
     {
       for( auto j = i+1; j < VertexType(n); j++ )
       {
+        // Makes sure that nothing is added to an infinite distance because
+        // this is subject to overflows for integral types.
+        if( M(i,k) == infinity || M(k,j) == infinity )
+          continue;
+
         if( M(i,j) > M(i,k) + M(k,j) )
           M(i,j) = M(i,k) + M(k,j);
       }
-- 
2.43.0


From eb9a27ebc88d9902c33e8eaeae59b63775a8512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:29 +0000
Subject: [PATCH 16/81] fix: Choose unused ID for mesh vertices without ID

The largest ID was assigned again if it is larger than the number of
vertices.
---
 include/aleph/topology/Mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 8a1b4ee..19fc7e0 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -166,7 +166,7 @@ public:
   {
     Vertex v;
 
-    v.id   = id == std::numeric_limits<Index>::max() ? std::max( _vertices.size(), _largestVertexID ) : id;
+    v.id   = id == std::numeric_limits<Index>::max() ? _vertices.empty() ? Index() : _largestVertexID + 1 : id;
     v.x    = x;
     v.y    = y;
     v.z    = z;
-- 
2.43.0


From ed623d295c9080eb964957a6e555f7df7db1cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:41 +0000
Subject: [PATCH 17/81] fix: Report all faces of a mesh

Only one face per vertex was found, and vertices without an edge crashed
the program.
---
 include/aleph/topology/Mesh.hh | 35 ++++++++--------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 19fc7e0..4aa46d6 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -121,22 +121,10 @@ public:
   // TODO: Better return type?
   std::vector< std::vector<Index> > faces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
     std::vector< std::vector<Index> > results;
-    results.reserve( faces.size() );
+    results.reserve( _faces.size() );
 
-    for( auto&& face : faces )
+    for( auto&& face : _faces )
       results.push_back( face->vertices() );
 
     return results;
@@ -144,19 +132,7 @@ public:
 
   std::size_t numFaces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
-    return faces.size();
+    return _faces.size();
   }
 
   // Mesh modification -------------------------------------------------
@@ -246,6 +222,8 @@ public:
       edges.push_back( edge );
     }
 
+    _faces.push_back( face );
+
     // Set 'next' and 'prev' pointers correctly ------------------------
     //
     // We first traverse all edges that bound the current face. Here, it
@@ -583,6 +561,9 @@ private:
   */
 
   std::unordered_map<Index, VertexPointer> _vertices;
+
+  /** Stores all faces of the mesh in the order in which they were added. */
+  std::vector<FacePointer> _faces;
 };
 
 } // namespace topology
-- 
2.43.0


From b70f20524f25291729ed697716c19eeb8adb6cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:41 +0000
Subject: [PATCH 18/81] fix: Visit all faces around a mesh vertex at the
 boundary

The star of a vertex ended at the first half-edge without a face.
---
 include/aleph/topology/Mesh.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 4aa46d6..455a191 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -502,11 +502,13 @@ private:
     auto edge = v.edge;
     do
     {
-      if( edge && edge->face )
-        faces.push_back( edge->face );
-      else
+      if( !edge )
         break;
 
+      // Half-edges at the boundary do not belong to a face
+      if( edge->face )
+        faces.push_back( edge->face );
+
       edge = edge->pair->next;
     }
     while( edge != v.edge );
-- 
2.43.0


From 4cc48156fb29f535460bd33eb7b878b70a826ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:41 +0000
Subject: [PATCH 19/81] fix: Count connected components of a mesh using all
 edges

Only one edge per vertex was used, so the components of some meshes were
not merged. Vertices without an edge crashed the program.
---
 include/aleph/topology/Mesh.hh | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 455a191..15339e8 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -437,13 +437,11 @@ public:
 
     for( auto&& vertex : vertices )
     {
-      auto&& v      = _vertices.at( vertex );
-      auto&& e      = v->edge;
-      auto&& source = e->source()->id;
-      auto&& target = e->target()->id;
+      auto&& v = _vertices.at( vertex );
 
       // Actually, the order does not matter one bit here...
-      uf.merge( target, source );
+      for( auto&& neighbour : this->getNeighbours( *v ) )
+        uf.merge( neighbour->id, vertex );
     }
 
     std::vector<Index> roots;
-- 
2.43.0


From 2fa2e82598d683adbca66eaf94b6f5af123270d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:17 +0000
Subject: [PATCH 20/81] fix: Link the boundary of a mesh for every order of
 faces

Adding a face crashed the program or did not terminate unless the first
vertex of the face and the order of faces were chosen suitably.
---
 include/aleph/topology/Mesh.hh | 45 ++++++++++++----------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 15339e8..208256c 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -250,43 +250,30 @@ public:
 
     // Extend boundary -------------------------------------------------
     //
-    // Traverse all vertices whose paired edges have an empty face. Any
-    // of these edges is part of the boundary face.
+    // Traverse all edges whose paired edges have an empty face. Any of
+    // these paired edges is part of the boundary. Its successor can be
+    // found by rotating about its target vertex.
 
-    for( auto&& pair : _vertices )
+    for( auto&& f : _faces )
     {
-      auto&& vertex = pair.second;
-
-      if( !vertex->edge || vertex->edge->pair->face )
-        continue;
-
-      auto curr = vertex->edge->target();
-      auto edge = vertex->edge->pair;
+      auto edge = f->edge;
 
       do
       {
-        assert( !edge->face );
-        auto edges = this->getEdges( *curr );
-
-        for( auto&& e : edges )
+        if( !edge->pair->face )
         {
-          if( !e->pair->face )
-          {
-            e->pair->next = edge;
-            edge->prev    = e->pair;
-
-            edge          = e->pair;
-            curr          = e->pair->pair->target();
-            break;
-          }
+          auto next = edge->prev->pair;
+
+          while( next->face )
+            next = next->prev->pair;
+
+          edge->pair->next = next;
+          next->prev       = edge->pair;
         }
-      }
-      while( curr != vertex );
 
-      // Close the loop around the boundary face by adding a pointer to
-      // the identified edge.
-      vertex->edge->pair->next = edge;
-      edge->prev               = vertex->edge->pair;
+        edge = edge->next;
+      }
+      while( edge != f->edge );
     }
   }
 
-- 
2.43.0


From fe9125e1b9a6b369aa3edfc5e524b9b44769dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:28 +0000
Subject: [PATCH 21/81] fix: Return zero for small dimensions of perversities

Querying dimension zero, or one for Goresky-MacPherson perversities, read
memory in front of the values.
---
 include/aleph/persistentHomology/PhiPersistence.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 4741198..2b73f5e 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -105,7 +105,7 @@ public:
 
   int operator()( std::size_t d ) const noexcept
   {
-    if( d < _values.size() + 1 )
+    if( d >= 1 && d < _values.size() + 1 )
       return _values[ static_cast<std::size_t>( d-1 ) ];
     else
       return 0;
@@ -166,7 +166,7 @@ public:
 
   unsigned operator()( std::size_t d ) const noexcept
   {
-    if( d < _values.size() + 2 )
+    if( d >= 2 && d < _values.size() + 2 )
       return _values[ static_cast<std::size_t>( d-2 ) ];
     else
       return 0;
-- 
2.43.0


From dddff1aaa05c339d529fa37c69faff4049b54ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:28 +0000
Subject: [PATCH 22/81] fix: Permit empty strata for intersection homology

The dimension of an empty stratum was queried, which throws an exception.
---
 include/aleph/persistentHomology/PhiPersistence.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 2b73f5e..f0da33e 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -271,7 +271,7 @@ auto calculateIntersectionHomology( const aleph::topology::SimplicialComplex<Sim
 
     for( auto&& x : X )
     {
-      if( !K.empty() )
+      if( !x.empty() )
       {
         minDimension = std::min( minDimension, x.dimension() );
         maxDimension = std::max( maxDimension, x.dimension() );
-- 
2.43.0


From 55bf5b3442ea7835e33d1deb3a8d76f1af5a4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:28 +0000
Subject: [PATCH 23/81] fix: Make Goresky-MacPherson perversities start with
 zero

The class documents that it ensures this.
---
 include/aleph/persistentHomology/PhiPersistence.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index f0da33e..f69549f 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -146,6 +146,9 @@ public:
   template <class InputIterator> PerversityGM( InputIterator begin, InputIterator end )
     : _values( begin, end )
   {
+    if( !_values.empty() )
+      _values[0] = 0;
+
     for( std::size_t k = 1; k < _values.size(); k++ )
     {
       if( _values[k] != _values[k-1] && _values[k] != _values[k-1] + 1 )
-- 
2.43.0


From ecedc3353fc256fd36bb2e40fa439c12d399ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:03 +0000
Subject: [PATCH 24/81] fix: Handle cover trees without points

All queries except for the level of the tree crashed.
---
 include/aleph/geometry/CoverTree.hh | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/aleph/geometry/CoverTree.hh b/include/aleph/geometry/CoverTree.hh
index 9c82af9..c342e07 100644
--- a/include/aleph/geometry/CoverTree.hh
+++ b/include/aleph/geometry/CoverTree.hh
@@ -292,7 +292,8 @@ public:
   void print( std::ostream& o )
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -334,7 +335,8 @@ public:
     std::multimap<long, Point> levelMap;
 
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -370,7 +372,8 @@ public:
     std::map<Point, long> levelMap;
 
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -398,7 +401,8 @@ public:
     std::vector<Point> result;
 
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -449,11 +453,12 @@ public:
   bool checkLevelInvariant() const noexcept
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     // Initialize the level artificially in order to simplify the code
     // below.
-    long level = _root->_level + 1;
+    long level = this->level() + 1;
 
     while( !nodes.empty() )
     {
@@ -487,7 +492,8 @@ public:
   bool checkCoveringInvariant() const noexcept
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -529,7 +535,8 @@ public:
   bool checkSeparatingInvariant() const noexcept
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
-- 
2.43.0


From 604f94916b0cf3502031b41f75530ad2fa168ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:43 +0000
Subject: [PATCH 25/81] fix: Load last point of point clouds without a final
 newline

Only newline characters were counted, so a last line without one was
either dropped or resulted in an exception.
---
 include/aleph/containers/PointCloud.hh | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index 88438a8..c27c36e 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -9,6 +9,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <vector>
 
 #include <cstddef>
 
@@ -233,26 +234,19 @@ template<class T> PointCloud<T> load( std::istream& in )
   if( !in )
     return PointCloud<T>();
 
-  auto lines = std::count( std::istreambuf_iterator<char>( in ),
-                           std::istreambuf_iterator<char>(),
-                           '\n' );
+  std::size_t lines = 0;
 
-  in.clear();
-  in.seekg( 0 );
-
-  if( lines <= 0 )
-    return PointCloud<T>();
-
-  // Recount all lines in the file, removing comments and empty lines
+  // Count all lines in the file, removing comments and empty lines
   // from the calculation. Else, the code below allocates many points
-  // that will remain empty.
+  // that will remain empty. Notice that the last line does not need
+  // to end with a newline.
   {
     std::string line;
     while( std::getline( in, line ) )
     {
       line = utilities::trim( line );
-      if( line.empty() || line.front() == '#' )
-        lines -= 1;
+      if( !line.empty() && line.front() != '#' )
+        lines += 1;
     }
   }
 
@@ -261,7 +255,7 @@ template<class T> PointCloud<T> load( std::istream& in )
 
   std::size_t i = 0;
   std::size_t d = 0;
-  std::size_t n = static_cast<std::size_t>( lines );
+  std::size_t n = lines;
 
   std::string line;
 
-- 
2.43.0


From ae1e7f11b92269345df53028bd258ec74856be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:43 +0000
Subject: [PATCH 26/81] fix: Count digits for formatting numbers

The width was calculated by a logarithm, which is not finite for a
maximum of zero, and inexact for large numbers.
---
 include/aleph/utilities/Format.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/aleph/utilities/Format.hh b/include/aleph/utilities/Format.hh
index 34b8ea0..77e6282 100644
--- a/include/aleph/utilities/Format.hh
+++ b/include/aleph/utilities/Format.hh
@@ -3,10 +3,9 @@
 
 #include <iomanip>
 #include <ostream>
+#include <sstream>
 #include <string>
 
-#include <cmath>
-
 namespace aleph
 {
 
@@ -24,7 +23,9 @@ namespace utilities
 
 template <class T> std::string format( T n, T N, char fill = '0' )
 {
-  int width = static_cast<int>(std::log10( N ) + 1);
+  int width = 1;
+  for( T m = N; m >= 10; m /= 10 )
+    ++width;
 
   std::ostringstream stream;
   stream << std::setw( width ) << std::setfill( fill ) << n;
-- 
2.43.0


From c29474186e617f3e2565dd8c8845ef92cd5faad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:11 +0000
Subject: [PATCH 27/81] fix: Forget node labels of previous edge lists

The counter for labels started again for every file, but the labels did
not, so different nodes of a second file obtained the same ID.
---
 include/aleph/topology/io/EdgeLists.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aleph/topology/io/EdgeLists.hh b/include/aleph/topology/io/EdgeLists.hh
index 6a1e471..ecebdeb 100644
--- a/include/aleph/topology/io/EdgeLists.hh
+++ b/include/aleph/topology/io/EdgeLists.hh
@@ -68,6 +68,7 @@ public:
     std::vector<Simplex> edges;
 
     std::size_t lastID = 0;
+    _nodeLabels.clear();
 
     while( in )
     {
-- 
2.43.0


From 62462325e6c43df886a78f9a28bd147f3270e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:11 +0000
Subject: [PATCH 28/81] fix: Read signed numbers and exponents from GML files

Negative values and values with a negative exponent were read as zero,
including those that the writer itself creates.
---
 include/aleph/topology/io/GML.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 0938c24..c3e9afc 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -140,7 +140,7 @@ public:
     Edge edge;
 
     std::regex reAttribute = std::regex( "([_\\|[:alpha:]]+)[[:space:]]*.*" );
-    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([[:alnum:]\\.]+)" );
+    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([-+[:alnum:]\\.]+)" );
     std::regex reLabel     = std::regex( "(label)[[:space:]]+\"([^\"]+)\"" );
 
     while( std::getline( in, line ) )
-- 
2.43.0


From 238fde8d76fbd7939bcda827899e2d5523375545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:11 +0000
Subject: [PATCH 29/81] fix: Skip blank lines at the beginning of GML files

A blank line in front of the graph raised an exception.
---
 include/aleph/topology/io/GML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index c3e9afc..059b3ed 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -148,6 +148,9 @@ public:
       line        = trim( line );
       auto tokens = split( line );
 
+      if( line.empty() )
+        continue;
+
       // Skip comment lines. This is somewhat wasteful because I am
       // splitting the complete string even though I merely need to
       // know the first token.
-- 
2.43.0


From d19882ed8ffa0175d9d0db1460013ab51ba062b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:11 +0000
Subject: [PATCH 30/81] fix: Skip blank lines in Pajek files

A blank line raised an exception.
---
 include/aleph/topology/io/Pajek.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index cb1d624..dd75e30 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -72,8 +72,8 @@ public:
       // white space characters in order to simplify parsing.
       line = trim( line );
 
-      // Skip comments
-      if( line.front() == '%' )
+      // Skip comments and empty lines
+      if( line.empty() || line.front() == '%' )
         continue;
 
       // 1st case: Found a keyword. This changes the parser mode and
-- 
2.43.0


From 594bc15dbfb13b02c6e95238bd80591eb9604258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:11 +0000
Subject: [PATCH 31/81] fix: Read signed weights and exponents from Pajek files

A negative weight raised an exception.
---
 include/aleph/topology/io/Pajek.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index dd75e30..b3169fb 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -56,7 +56,7 @@ public:
     std::regex reKeyword  = std::regex( "\\*([[:alpha:]]+).*" );
     std::regex reKeyValue = std::regex( "\\*([[:alpha:]]+)[[:space:]]+([[:digit:]]+)" );
     std::regex reVertex   = std::regex( "([[:digit:]]+)[[:space:]]+\"(.*)\"");
-    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([[:digit:]\\.]+)*");
+    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([-+[:digit:]\\.eE]+)*");
 
     std::smatch matches;
 
-- 
2.43.0


From 802e556d0abdc13cedd105c666f8dea39c9252ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:11 +0000
Subject: [PATCH 32/81] fix: Keep vertices of Pajek files without labels and
 edges

The vertices were only created when encountering the first edge.
---
 include/aleph/topology/io/Pajek.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index b3169fb..041d54b 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -160,6 +160,14 @@ public:
       }
     }
 
+    // There may be no edges at all, so the vertices without labels have
+    // not been created yet.
+    if( simplices.empty() )
+    {
+      for( std::size_t i = 0; i < numVertices; i++ )
+        simplices.push_back( Simplex( VertexType(i+1) ) );
+    }
+
     K = SimplicialComplex( simplices.begin(), simplices.end() );
   }
 
-- 
2.43.0


From a33488e8a006aeb98f8f846b2b473ab571df5900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:12 +0000
Subject: [PATCH 33/81] fix: Read triangulations that start on the next line

An empty block was considered to be finished, which resulted in empty
complexes instead of the list that follows.
---
 include/aleph/topology/io/LexicographicTriangulation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/LexicographicTriangulation.hh b/include/aleph/topology/io/LexicographicTriangulation.hh
index 22c2ce4..d33cbe4 100644
--- a/include/aleph/topology/io/LexicographicTriangulation.hh
+++ b/include/aleph/topology/io/LexicographicTriangulation.hh
@@ -121,7 +121,7 @@ private:
     auto numOpeningBrackets = std::count( block.begin(), block.end(), '[' );
     auto numClosingBrackets = std::count( block.begin(), block.end(), ']' );
 
-    return numOpeningBrackets == numClosingBrackets;
+    return numOpeningBrackets > 0 && numOpeningBrackets == numClosingBrackets;
   }
 
   /**
-- 
2.43.0


From 0fc6ec47453084ffdee74058a7bbed19cca60bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:45 +0000
Subject: [PATCH 34/81] fix: Read sparse adjacency matrices without graph
 labels

Turning off graph labels resulted in an exception because the label of
every graph was still looked up.
---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 865e6a2..f5e288d 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -153,7 +153,8 @@ public:
       // Most of the time, this just degenerates into an identity
       // lookup, but in case labels are not contiguous, they will
       // be assigned correctly here.
-      labels[index] = _graphLabels.at( index );
+      if( _readGraphLabels )
+        labels[index] = _graphLabels.at( index );
 
       if( _readNodeAttributes && isValidIndex( _nodeAttributeIndex ) )
       {
-- 
2.43.0


From 57e590ffe886fb701b30d203452be0dc4aeed0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 35/81] fix: Skip comments and blank lines in adjacency
 matrices

Reading the weights stopped at the first comment although the class
promises to ignore these lines.
---
 include/aleph/topology/io/AdjacencyMatrix.hh | 29 ++++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 3ef1406..5eba003 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -118,7 +118,6 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position    = in.tellg();
     std::size_t n    = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
@@ -130,24 +129,36 @@ public:
 
     {
       std::string line;
+      std::size_t width = 0;
+
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
         // Skip empty lines and comments as promised
         if( line.empty() || line.front() == '#' )
           continue;
 
+        auto tokens = split( line );
+
+        if( n == 0 )
+          width = tokens.size();
+        else if( width != tokens.size() )
+          throw std::runtime_error( "Format error: number of columns must not vary" );
+
+        for( auto&& token : tokens )
+        {
+          bool success = false;
+          values.push_back( convert<DataType>( token, success ) );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert edge weight" );
+        }
+
         ++n;
       }
-
-      in.clear();
-      in.seekg( position );
     }
 
-    // FIXME: this will not work in case comments are part of the file.
-    // Drat---should probably rewrite it.
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
     if( values.empty() )
-- 
2.43.0


From ef0207f2bd22a782bf18cbb29493dd1abceac256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 36/81] fix: Skip comments and blank lines in bipartite
 adjacency matrices

Reading the weights stopped at the first comment, and blank lines were
counted as rows, although the class promises to ignore these lines.
---
 .../topology/io/BipartiteAdjacencyMatrix.hh   | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index 46b784e..e33ad91 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -72,8 +72,8 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position      = in.tellg();
     std::size_t height = 0;
+    std::size_t width  = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
     // the file. They are supposed to correspond to a matrix with some
@@ -85,14 +85,32 @@ public:
     {
       std::string line;
       while( std::getline( in, line ) )
-        ++height;
+      {
+        line = trim( line );
 
-      in.clear();
-      in.seekg( position );
-    }
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
 
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
+        auto tokens = split( line );
+
+        if( height == 0 )
+          width = tokens.size();
+        else if( width != tokens.size() )
+          throw std::runtime_error( "Format error: number of columns must not vary" );
+
+        for( auto&& token : tokens )
+        {
+          bool success = false;
+          values.push_back( convert<DataType>( token, success ) );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert edge weight" );
+        }
+
+        ++height;
+      }
+    }
 
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
@@ -100,9 +118,7 @@ public:
       return;
 
     _height = height;
-    _width  = values.size() / height;
-    if( values.size() % height != 0 )
-      throw std::runtime_error( "Format error: number of columns must not vary" );
+    _width  = width;
 
     // This is required in order to assign the weight of nodes
     // correctly; we cannot trust the weights to be positive.
-- 
2.43.0


From 3445fe1d36c10b793946b7e2fb86e96504415099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 37/81] fix: Skip comments and blank lines in matrices

Reading the values stopped at the first comment although the class
promises to ignore these lines. An empty file resulted in an endless
loop.
---
 include/aleph/topology/io/Matrix.hh | 47 ++++++++++++++++-------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/include/aleph/topology/io/Matrix.hh b/include/aleph/topology/io/Matrix.hh
index 593b829..c93248d 100644
--- a/include/aleph/topology/io/Matrix.hh
+++ b/include/aleph/topology/io/Matrix.hh
@@ -111,7 +111,11 @@ public:
   /** @overload operator()( const std::string&, SimplicialComplex&, SimplicialComplex&, Functor ) */
   template <class SimplicialComplex, class Functor> void operator()( std::istream& in, SimplicialComplex& K, Functor f )
   {
-    auto position = in.tellg();
+    using Simplex    = typename SimplicialComplex::ValueType;
+    using DataType   = typename Simplex::DataType;
+    using VertexType = typename Simplex::VertexType;
+
+    std::vector<DataType> values;
 
     std::size_t height = 0;
     std::size_t width  = 0;
@@ -122,7 +126,12 @@ public:
       std::string line;
       while( std::getline( in, line ) )
       {
-        line        = trim( line );
+        line = trim( line );
+
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
+
         auto tokens = split( line );
 
         if( width == 0 )
@@ -130,26 +139,22 @@ public:
         else if( width != tokens.size() )
           throw std::runtime_error( "Format error: number of columns must not vary" );
 
+        for( auto&& token : tokens )
+        {
+          bool success = false;
+          values.push_back( convert<DataType>( token, success ) );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert value" );
+        }
+
         ++height;
       }
-
-      in.clear();
-      in.seekg( position );
     }
 
     _height = height;
     _width  = width;
 
-    using Simplex    = typename SimplicialComplex::ValueType;
-    using DataType   = typename Simplex::DataType;
-    using VertexType = typename Simplex::VertexType;
-
-    std::vector<DataType> values;
-    values.reserve( _height * _width );
-
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
     std::vector<Simplex> simplices;
 
     // Vertices --------------------------------------------------------
@@ -165,7 +170,7 @@ public:
 
     for( std::size_t y = 0; y < _height; y++ )
     {
-      for( std::size_t x = 0; x < _width - 1; x++ )
+      for( std::size_t x = 0; x + 1 < _width; x++ )
       {
         // current:   (x,  y) --> width * y + x
         // neighbour: (x+1,y) --> width * y + x+1
@@ -179,7 +184,7 @@ public:
 
     // Vertical edges --------------------------------------------------
 
-    for( std::size_t y = 0; y < _height - 1; y++ )
+    for( std::size_t y = 0; y + 1 < _height; y++ )
     {
       for( std::size_t x = 0; x < _width; x++ )
       {
@@ -195,9 +200,9 @@ public:
 
     // Diagonal edges --------------------------------------------------
 
-    for( std::size_t y = 0; y < _height - 1; y++ )
+    for( std::size_t y = 0; y + 1 < _height; y++ )
     {
-      for( std::size_t x = 0; x < _width - 1; x++ )
+      for( std::size_t x = 0; x + 1 < _width; x++ )
       {
         // current:   (x  ,y  ) --> width * (y  ) + x
         // neighbour: (x+1,y+1) --> width * (y+1) + x+1
@@ -213,9 +218,9 @@ public:
 
     if( _addTriangles )
     {
-      for( std::size_t y = 0; y < _height - 1; y++ )
+      for( std::size_t y = 0; y + 1 < _height; y++ )
       {
-        for( std::size_t x = 0; x < _width - 1; x++ )
+        for( std::size_t x = 0; x + 1 < _width; x++ )
         {
           /*
             [a] (x,y  ) o---o (x+1,y  ) [b]
-- 
2.43.0


From 77e700f9142598c145d6493cb409164b9557151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:33 +0000
Subject: [PATCH 38/81] fix: Skip blank lines and trailing white space in VTK
 files

Every blank line added a value of zero, and keywords followed by white
space were taken as values.
---
 include/aleph/topology/io/VTK.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index b064bc5..ea6210b 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -139,6 +139,9 @@ public:
       line         = trim( line );
       auto strings = split( line );
 
+      if( line.empty() )
+        continue;
+
       for( auto&& coordinate : strings )
         coordinates.push_back( convert<DataType>( coordinate ) );
 
@@ -154,6 +157,11 @@ public:
 
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
+        if( line.empty() )
+          continue;
+
         if( std::regex_match( line, matches, rePointData ) )
         {
           auto sn = matches[1];
@@ -180,7 +188,6 @@ public:
         }
         else
         {
-          line         = trim( line );
           auto strings = split( line );
 
           for( auto&& value : strings )
-- 
2.43.0


From 5110d0a3c41407b72bf1e620d83c9f6b28ebc659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:33 +0000
Subject: [PATCH 39/81] fix: Accept underscores in names and types of VTK files

The unsigned types contain an underscore, so these files were ignored.
Scalars with an underscore in their name were taken as values.
---
 include/aleph/topology/io/VTK.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index ea6210b..672a95b 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -128,7 +128,7 @@ public:
     // attributes are supported.
 
     std::regex rePointData( "POINT_DATA[[:space:]]+([[:digit:]]+)" );
-    std::regex reScalars( "SCALARS[[:space:]]+([[:alnum:]]+)[[:space:]]+([[:alnum:]]+)[[:space:]]*([[:digit:]]*)" );
+    std::regex reScalars( "SCALARS[[:space:]]+([^[:space:]]+)[[:space:]]+([[:alnum:]_]+)[[:space:]]*([[:digit:]]*)" );
     std::regex reLookupTable( "LOOKUP_TABLE[[:space:]]+([[:alnum:]]+)" );
 
     std::vector<DataType> coordinates;
@@ -398,7 +398,7 @@ private:
     y = std::size_t( std::stoull( sy ) );
     z = std::size_t( std::stoull( sz ) );
 
-    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([[:alpha:]]+)" );
+    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([[:alpha:]_]+)" );
     if( !std::regex_match( points, matches, rePoints ) )
       return false;
 
@@ -425,7 +425,7 @@ private:
       s = sizeof(unsigned short);
     else if( st == "char" )
       s = sizeof(char);
-    else if( st == "unsigned char" )
+    else if( st == "unsigned_char" )
       s = sizeof(unsigned char);
     else if( st == "bit" )
       s = sizeof(bool);
-- 
2.43.0


From 23ee7e9e131d8f750d7f37ae4ead18d3d0ba968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:33 +0000
Subject: [PATCH 40/81] fix: Forget previous spectrum when reading another one

Entries of a longer previous spectrum remained in the results.
---
 include/aleph/topology/io/FlexSpectrum.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index ff22c86..62233d9 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -35,6 +35,9 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
+    _index_to_value.clear();
+    _index_to_intensity.clear();
+
     std::string line;
     std::size_t index = 0; // line index, but conveniently, this will
                            // also be the vertex index
-- 
2.43.0


From 3bd1a1b4a57afea30fe5cc8b538d279e573adeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:21 +0000
Subject: [PATCH 41/81] fix: Compare each diagram with itself in pseudo-metric
 of kernel embedding

---
 include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index b9f2ee0..9eae280 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -128,9 +128,9 @@ double pseudoMetric( const PersistenceDiagram<T>& D,
                      Weight w,
                      Kernel k )
 {
-  auto kxx = linearKernel(D, E, w, k);
+  auto kxx = linearKernel(D, D, w, k);
   auto kxy = linearKernel(D, E, w, k);
-  auto kyy = linearKernel(D, E, w, k);
+  auto kyy = linearKernel(E, E, w, k);
 
   return std::sqrt( kxx + kyy - 2*kxy );
 }
-- 
2.43.0


From 0977d43cd6c2682e6505d46ec86b1a7665a074d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:21 +0000
Subject: [PATCH 42/81] fix: Use squared pseudo-metric in Gaussian kernel of
 diagrams

---
 include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index 9eae280..a143f8d 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -170,7 +170,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
                        double tau )
 {
   auto d = pseudoMetric(D, E, w, k);
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d*d );
 }
 
 /**
@@ -198,7 +198,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
   auto k = detail::DefaultKernel( sigma );
   auto d = pseudoMetric(D, E, w, k);
 
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d*d );
 }
 
 
-- 
2.43.0


From 6b042d43f4c8273ad3170e4faa5c46f5bff5155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:21 +0000
Subject: [PATCH 43/81] fix: Use smoothing parameter in exponents of
 multi-scale kernel

---
 .../aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
index b068581..7cf6beb 100644
--- a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
+++ b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
@@ -73,8 +73,8 @@ template <class T> double multiScaleKernel( const PersistenceDiagram<T>& D1,
       auto d1 = detail::squaredEuclideanDistance( p, q );
       auto d2 = detail::squaredEuclideanDistance( p, q, true );
 
-      sum += std::exp( -d1 / ( 8.0*M_PI ) );
-      sum -= std::exp( -d2 / ( 8.0*M_PI ) );
+      sum += std::exp( -d1 / ( 8.0*sigma ) );
+      sum -= std::exp( -d2 / ( 8.0*sigma ) );
     }
   }
 
@@ -93,8 +93,8 @@ template <class T> double multiScaleFeatureMap( const PersistenceDiagram<T>& D,
       auto d1 = detail::squaredEuclideanDistance( p, q );
       auto d2 = detail::squaredEuclideanDistance( p, q, true );
 
-      result += std::exp( -d1 / (4.0*M_PI) );
-      result -= std::exp( -d2 / (4.0*M_PI) );
+      result += std::exp( -d1 / (4.0*sigma) );
+      result -= std::exp( -d2 / (4.0*sigma) );
     }
   }
 
-- 
2.43.0


From e205c13d49ead86abf3c367f07f8519f23719309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:21 +0000
Subject: [PATCH 44/81] fix: Avoid square root of negative rounding errors in
 kernel embedding

---
 include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index a143f8d..5cd9761 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -132,7 +132,7 @@ double pseudoMetric( const PersistenceDiagram<T>& D,
   auto kxy = linearKernel(D, E, w, k);
   auto kyy = linearKernel(E, E, w, k);
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  return std::sqrt( std::max( kxx + kyy - 2*kxy, 0.0 ) );
 }
 
 /**
-- 
2.43.0


From 381e51e1f1acdb06046bbe98bc6e596120e55ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:21 +0000
Subject: [PATCH 45/81] fix: Avoid square root of negative rounding errors in
 multi-scale kernel

---
 include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
index 7cf6beb..293a071 100644
--- a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
+++ b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
@@ -120,7 +120,7 @@ template <class T> double multiScalePseudoMetric( const PersistenceDiagram<T>& D
   auto kxy = multiScaleKernel( D1, D2, sigma );
   auto kyy = multiScaleKernel( D2, D2, sigma );
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  return std::sqrt( std::max( kxx + kyy - 2*kxy, 0.0 ) );
 }
 
 } // namespace aleph
-- 
2.43.0


From e63f30864d09657c673d231bea81f071706219a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:56 +0000
Subject: [PATCH 46/81] fix: Do not count a simplex as its own parallel
 neighbour

---
 include/aleph/topology/CombinatorialCurvature.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index 9aa199d..ee3b40b 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -57,7 +57,7 @@ template <class SimplicialComplex> bool parallelNeighbours( const SimplicialComp
                                                             const typename SimplicialComplex::ValueType& s,
                                                             const typename SimplicialComplex::ValueType& t )
 {
-  if( s.dimension() != t.dimension() )
+  if( s.dimension() != t.dimension() || s == t )
     return false;
 
   using Simplex = typename SimplicialComplex::ValueType;
-- 
2.43.0


From 1c06e17424452b92041cce637f14aa83bb843363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:56 +0000
Subject: [PATCH 47/81] fix: Permit negative curvature and vertices without
 faces

The curvature was calculated in the unsigned type of vertices, which
cannot represent negative values.  A vertex was counted as having a
face.
---
 include/aleph/topology/CombinatorialCurvature.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index ee3b40b..7ad1baa 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -93,7 +93,6 @@ template <class SimplicialComplex, class OutputIterator> void curvature( const S
                                                                          unsigned p = 1 )
 {
   using Simplex    = typename SimplicialComplex::ValueType;
-  using VertexType = typename Simplex::VertexType;
   auto pair        = K.range( p );
 
   for( auto&& it = pair.first; it != pair.second; ++it )
@@ -106,9 +105,9 @@ template <class SimplicialComplex, class OutputIterator> void curvature( const S
     range                      = K.range( s.dimension() );
     auto numParallelNeighbours = std::count_if( range.first, range.second, isParallelNeighbour );
 
-    *result++ = VertexType(   VertexType( numCofaces )
-                            + VertexType( s.size() )
-                            - VertexType( numParallelNeighbours ) );
+    auto numFaces              = std::distance( s.begin_boundary(), s.end_boundary() );
+
+    *result++ = static_cast<int>( numCofaces + numFaces - numParallelNeighbours );
   }
 }
 
-- 
2.43.0


From b7dd17f278ffb45e300bbedfa134de0644b74afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:56 +0000
Subject: [PATCH 48/81] fix: Ignore common faces that are missing in complex

The end iterator of the complex was dereferenced for them.
---
 include/aleph/topology/CombinatorialCurvature.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index 7ad1baa..aad133d 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -158,7 +158,11 @@ template <class SimplicialComplex> auto commonFaces(
   std::vector<Simplex> commonFaces;
 
   for( auto&& simplex : commonBoundary )
-    commonFaces.push_back( *K.find( simplex ) );
+  {
+    auto it = K.find( simplex );
+    if( it != K.end() )
+      commonFaces.push_back( *it );
+  }
 
   return commonFaces;
 }
-- 
2.43.0


From ce474f9d74ed52f9e467b6072d1a90c230146634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:56 +0000
Subject: [PATCH 49/81] fix: Take absolute values per neighbour in weighted
 curvature

Contributions of different neighbours cancelled each other, so unit
weights did not give the unweighted curvature.
---
 include/aleph/topology/CombinatorialCurvature.hh | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index aad133d..43624ac 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -206,8 +206,7 @@ template <class SimplicialComplex, class OutputIterator> void weightedCurvature(
 
     range = K.range( s.dimension() );
 
-    std::vector<DataType> weights_commonCofaces;
-    std::vector<DataType> weights_commonFaces;
+    std::vector<DataType> weights_neighbours;
 
     for( auto itNeighbour = range.first; itNeighbour != range.second; ++itNeighbour )
     {
@@ -218,19 +217,26 @@ template <class SimplicialComplex, class OutputIterator> void weightedCurvature(
       auto faces   = commonFaces  ( K, *itNeighbour, s );
       auto weight  = std::sqrt( s.data() * itNeighbour->data() );
 
+      std::vector<DataType> weights_commonCofaces;
+      std::vector<DataType> weights_commonFaces;
+
       for( auto&& coface : cofaces )
         weights_commonCofaces.push_back( weight / coface.data() );
 
       for( auto&& face : faces )
         weights_commonFaces.push_back( face.data() / weight );
+
+      auto s21 = aleph::math::accumulate_kahan_sorted( weights_commonCofaces.begin(), weights_commonCofaces.end(), DataType() );
+      auto s22 = aleph::math::accumulate_kahan_sorted( weights_commonFaces.begin()  , weights_commonFaces.end()  , DataType() );
+
+      weights_neighbours.push_back( std::abs( s21 - s22 ) );
     }
 
     auto s11 = aleph::math::accumulate_kahan_sorted( weights_Cofaces.begin()      , weights_Cofaces.end()      , DataType() );
     auto s12 = aleph::math::accumulate_kahan_sorted( weights_Faces.begin()        , weights_Faces.end()        , DataType() );
-    auto s21 = aleph::math::accumulate_kahan_sorted( weights_commonCofaces.begin(), weights_commonCofaces.end(), DataType() );
-    auto s22 = aleph::math::accumulate_kahan_sorted( weights_commonFaces.begin()  , weights_commonFaces.end()  , DataType() );
+    auto s2  = aleph::math::accumulate_kahan_sorted( weights_neighbours.begin()   , weights_neighbours.end()   , DataType() );
 
-    auto curvature = s.data() * ( (s11 + s12) - std::abs( s21 - s22 ) );
+    auto curvature = s.data() * ( (s11 + s12) - s2 );
     *result++      = curvature;
   }
 }
-- 
2.43.0


From 83e8c1bd1105a1cb27fb09eb1d34b47f9fb71179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:27 +0000
Subject: [PATCH 50/81] fix: Keep dimension when updating mean of diagrams

The updated diagram had dimension zero, so that it could not be paired
with diagrams of any other dimension.
---
 include/aleph/persistenceDiagrams/Mean.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aleph/persistenceDiagrams/Mean.hh b/include/aleph/persistenceDiagrams/Mean.hh
index 7c9cc38..0f597a9 100644
--- a/include/aleph/persistenceDiagrams/Mean.hh
+++ b/include/aleph/persistenceDiagrams/Mean.hh
@@ -210,6 +210,7 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
   while( !stop )
   {
     PersistenceDiagram Z;
+    Z.setDimension( Y.dimension() );
 
     auto k = Y.size();
     for( decltype(k) i = 0; i < k; i++ )
-- 
2.43.0


From e23a35553c4dd4034e72f4350dbd4ca27ecf2c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:12 +0000
Subject: [PATCH 51/81] fix: Return a number from the Euclidean norm of density
 estimators

The norm used the type of the vector for its result and therefore did
not compile for any vector.
---
 include/aleph/math/KernelDensityEstimator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/KernelDensityEstimator.hh b/include/aleph/math/KernelDensityEstimator.hh
index 4ce6321..6de6976 100644
--- a/include/aleph/math/KernelDensityEstimator.hh
+++ b/include/aleph/math/KernelDensityEstimator.hh
@@ -93,12 +93,12 @@ public:
 class Euclidean
 {
 public:
-  template <class T> T operator()( T value ) const
+  template <class T> double operator()( const T& value ) const
   {
     auto squaredNorm
       = std::inner_product( std::begin( value ), std::end( value ),
                             std::begin( value ),
-                            T() );
+                            0.0 );
 
     return std::sqrt( squaredNorm );
   }
-- 
2.43.0


From 12da514b570c489a30934ede54a46cf4d3f905c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:22 +0000
Subject: [PATCH 52/81] fix: Handle a single point when taking the largest
 distance

The eccentricity of order zero read past the end of an empty vector if
the container has one point only.
---
 include/aleph/containers/DataDescriptors.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/containers/DataDescriptors.hh b/include/aleph/containers/DataDescriptors.hh
index 96a0da6..268a7b2 100644
--- a/include/aleph/containers/DataDescriptors.hh
+++ b/include/aleph/containers/DataDescriptors.hh
@@ -77,7 +77,7 @@ template <class Distance, class Container> std::vector<double> eccentricities( c
       eccentricity = aleph::math::accumulate_kahan( distances.begin(), distances.end(), 0.0 );
       eccentricity = std::pow( eccentricity, 1.0 / order );
     }
-    else
+    else if( !distances.empty() )
       eccentricity = *std::max_element( distances.begin(), distances.end() );
 
     eccentricities.push_back( eccentricity );
-- 
2.43.0


From 3b72c25557c6e27a4f73308d1f496a28db3617a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:52 +0000
Subject: [PATCH 53/81] fix: Avoid integer division in pseudo-inverse of
 Laplacian matrix

The constant matrix that makes the Laplacian matrix invertible was zero
for more than one vertex.
---
 include/aleph/geometry/HeatKernel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 8b5b3bd..3b37692 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -149,7 +149,7 @@ template <class SimplicialComplex> auto pinvWeightedLaplacianMatrix( const Simpl
   using Simplex   = typename SimplicialComplex::ValueType;
   using DataType  = typename Simplex::DataType;
 
-  Matrix M = Matrix::Constant( L.rows(), L.cols(), static_cast<DataType>( 1/ n ) );
+  Matrix M = Matrix::Constant( L.rows(), L.cols(), DataType(1) / static_cast<DataType>( n ) );
 
   return (M+L).inverse() - M;
 }
-- 
2.43.0


From 02116cdf683400cd5ce170ce5434aab3d55d98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:52 +0000
Subject: [PATCH 54/81] fix: Start determinant of heat kernel with one

The product of eigenvalues was always zero.
---
 include/aleph/geometry/HeatKernel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 3b37692..4bfa088 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -343,7 +343,7 @@ public:
 
   T determinant( T t) const
   {
-    T result = T();
+    T result = T(1);
 
     for( auto&& eigenvalue : _eigenvalues )
       result = result * std::exp( -t * eigenvalue );
-- 
2.43.0


From 450cd3c93c98ea9f080f1a30c7174346a1dc5e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:52 +0000
Subject: [PATCH 55/81] fix: Evaluate heat kernel for all pairs of vertices

Eigenvectors are stored as rows, so their product was a number that was
added to an empty vector. This triggered an assertion.
---
 include/aleph/geometry/HeatKernel.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 4bfa088..fb42a79 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -238,14 +238,15 @@ public:
   {
 #ifdef ALEPH_WITH_EIGEN
 
-    Vector result = Vector();
+    auto n        = _eigenvectors.empty() ? IndexType() : _eigenvectors.front().size();
+    Matrix result = Matrix::Zero( n, n );
 
     for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uk = _eigenvectors[k];
 
-      result += lk * uk * uk.transpose();
+      result += lk * uk.transpose() * uk;
     }
 
     return std::vector<T>( result.data(), result.data() + result.size() );
-- 
2.43.0


From 53cf996c9085c9bc4f54cd98b270f3d76f925266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:16 +0000
Subject: [PATCH 56/81] fix: Give every point its own number of neighbour
 distances

Searches with the FLANN library sized the distances of all points by the
number of neighbours of the first one. This read past the end for points
with fewer neighbours and lost distances for points with more.
---
 include/aleph/geometry/FLANN.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/aleph/geometry/FLANN.hh b/include/aleph/geometry/FLANN.hh
index db39c67..8e32e04 100644
--- a/include/aleph/geometry/FLANN.hh
+++ b/include/aleph/geometry/FLANN.hh
@@ -96,14 +96,18 @@ public:
       return;
 
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
       for( size_type row = 0; row < distances.size(); row++ )
+      {
+        distances[row].resize( internalDistances[row].size() );
+
         for( size_type col = 0; col < distances[row].size(); col++ )
           distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+      }
     }
 
     for( auto&& D : distances )
@@ -179,14 +183,18 @@ public:
       return;
 
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
       for( size_type row = 0; row < distances.size(); row++ )
+      {
+        distances[row].resize( internalDistances[row].size() );
+
         for( size_type col = 0; col < distances[row].size(); col++ )
           distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+      }
     }
 
     for( auto&& D : distances )
-- 
2.43.0


From ca2e20a62974e9a3ec2aee1436e727b166069dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:08 +0000
Subject: [PATCH 57/81] fix: Refuse invalid GraphML files

Missing files, invalid XML, files without a GraphML element and files
without an XML declaration crashed the reader. The declaration is
optional, so files without it are read now.
---
 include/aleph/topology/io/GraphML.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 0225221..75dadbd 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -97,10 +97,12 @@ public:
       using namespace tinyxml2;
 
       XMLDocument document;
-      document.LoadFile( filename.c_str() );
+      if( document.LoadFile( filename.c_str() ) != XML_SUCCESS )
+        throw std::runtime_error( "Unable to read input file" );
 
-      auto root        = document.FirstChild();
-      auto graphml     = root->NextSiblingElement( "graphml" );
+      auto graphml = document.FirstChildElement( "graphml" );
+      if( !graphml )
+        throw std::runtime_error( "GraphML file has to contain a root element" );
 
       // 1. Read optional information about keys in the graph ----------
 
-- 
2.43.0


From aa0658ff1c32c00b6d8820ae39f4ef3005155fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:08 +0000
Subject: [PATCH 58/81] fix: Refuse incomplete keys of GraphML files

Keys without an ID, a name or a type crashed the reader.
---
 include/aleph/topology/io/GraphML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 75dadbd..ec5a412 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -114,6 +114,9 @@ public:
           auto name = key->Attribute( "attr.name" );
           auto type = key->Attribute( "for" );
 
+          if( !id || !name || !type )
+            throw std::runtime_error( "Key element must specify ID, name, and type" );
+
           // It makes sense to switch these two items because we use the
           // name, e.g. 'weight', to look up the ID, e.g. 'id0'.
           if( std::string( type ) == "node" )
-- 
2.43.0


From c7dab1fb0bea5b3c81b6a75e5abeac4963240848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:08 +0000
Subject: [PATCH 59/81] fix: Use default weight for nodes of GraphML files
 without a weight

Weights of edges that are calculated from their nodes raised an
exception if one of the nodes does not specify its weight.
---
 include/aleph/topology/io/GraphML.hh | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index ec5a412..8d61786 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -248,15 +248,11 @@ public:
         {
           auto iu = id_to_index_map.at( edge.source );
           auto iv = id_to_index_map.at( edge.target );
-          auto du = _nodes.at( iu ).dict.at( _graph.nodeKeys.at( _nodeWeightAttribute ) );
-          auto dv = _nodes.at( iv ).dict.at( _graph.nodeKeys.at( _nodeWeightAttribute ) );
-
-          // There is no need to check the success of the conversion
-          // because we already processed the nodes before. Failures
-          // to convert the data type have already been processed at
-          // this point.
-          auto wu = convert<DataType>( du );
-          auto wv = convert<DataType>( dv );
+
+          // The nodes have already been processed at this point, and
+          // their simplices are stored in the order of their indices.
+          auto wu = simplices.at( iu ).data();
+          auto wv = simplices.at( iv ).data();
 
           weight = f(wu, wv);
         }
-- 
2.43.0


From a97c122ae7222e80550999a2e0c9b203d16e75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:08 +0000
Subject: [PATCH 60/81] fix: Handle data elements of GraphML files without text
 or key

Both kinds of elements crashed the reader.
---
 include/aleph/topology/io/GraphML.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 8d61786..e2acc02 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -387,7 +387,12 @@ private:
           auto key   = child->Attribute( "key" );
           auto value = child->GetText();
 
-          dict[key] = value;
+          if( !key )
+            throw std::runtime_error( "Data element must specify key" );
+
+          // Ignore empty elements
+          if( value )
+            dict[key] = value;
         }
 
         child = child->NextSiblingElement();
-- 
2.43.0


From 47a2608fd33d1a6cf808b6711d9608b481171df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:08 +0000
Subject: [PATCH 61/81] fix: Order labels of Pajek files by vertex

Labels were sorted by the text of the vertex number, so that vertex 10
came before vertex 2.
---
 include/aleph/topology/io/SimplicialComplexReader.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 4095c87..14f4750 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <fstream>
 #include <iterator>
+#include <map>
 #include <string>
 #include <stdexcept>
 #include <vector>
@@ -123,7 +124,14 @@ public:
       PajekReader reader;
       reader( filename, K );
 
-      _labels = getLabels( reader.getLabelMap() );
+
+      // Ensures that labels follow the numerical order of vertices
+      std::map<unsigned long, std::string> labelMap;
+
+      for( auto&& pair : reader.getLabelMap() )
+        labelMap[ std::stoul( pair.first ) ] = pair.second;
+
+      _labels = getLabels( labelMap );
     }
 
     // For PLY files, the parser supports optionally reading a property
-- 
2.43.0


From e1d2c254e3dad510c254165cb8190ea5795178a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:08 +0000
Subject: [PATCH 62/81] fix: Clear labels of the previous file before reading a
 new one

---
 include/aleph/topology/io/SimplicialComplexReader.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 14f4750..a46bc3d 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -95,6 +95,8 @@ public:
     if( !in )
       throw std::runtime_error( "Unable to read input file" );
 
+    _labels.clear();
+
     auto extension = aleph::utilities::extension( filename );
 
     // The GML parser works more or less on its own and does not make
-- 
2.43.0


From d635ad7b4fe678bac40cfd034b37d5135c28a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:42 +0000
Subject: [PATCH 63/81] fix: Distinguish points of different dimensions

Comparing a point with one that has fewer coordinates read past the end
of the latter. A point with more coordinates was considered equal.
---
 include/aleph/geometry/Point.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/geometry/Point.hh b/include/aleph/geometry/Point.hh
index 45d4aab..dc61ca1 100644
--- a/include/aleph/geometry/Point.hh
+++ b/include/aleph/geometry/Point.hh
@@ -80,7 +80,8 @@ public:
   /** Checks all coordinates of two points for equality */
   bool operator==( const Point& other ) const noexcept
   {
-    return std::equal( _data.begin(), _data.end(), other._data.begin() );
+    return    _data.size() == other._data.size()
+           && std::equal( _data.begin(), _data.end(), other._data.begin() );
   }
 
   /** Checks whether at least one coordinate of the two points differs */
-- 
2.43.0


From bf86d36948cf740890a9fd11e09e111b72e4be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:42 +0000
Subject: [PATCH 64/81] fix: Correct sign of the centre of an algebraic sphere

The coefficients of |x-c|^2 - r^2 contain the centre with a negative
sign. All coordinates of the reported centre had the wrong sign.
---
 include/aleph/math/AlgebraicSphere.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/AlgebraicSphere.hh b/include/aleph/math/AlgebraicSphere.hh
index c60607e..fb6d733 100644
--- a/include/aleph/math/AlgebraicSphere.hh
+++ b/include/aleph/math/AlgebraicSphere.hh
@@ -51,7 +51,7 @@ public:
       std::transform( c.begin(), c.end(), c.begin(),
         [&s] ( T x )
         {
-          return x / (2*s);
+          return -x / (2*s);
         }
       );
 
-- 
2.43.0


From 573fd1e1938dc90c91d6e0f351ba6566f4c1e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:05 +0000
Subject: [PATCH 65/81] fix: expose the dimension of a persistence diagram to
 Python

The getter and the setter of the property were swapped, so that neither reading nor assigning it worked.
---
 bindings/python/aleph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index b4b51f7..bef509a 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -327,7 +327,7 @@ void wrapPersistenceDiagram( py::module& m )
     )
     .def( "removeDiagonal", &PersistenceDiagram::removeDiagonal )
     .def( "removeUnpaired", &PersistenceDiagram::removeUnpaired )
-    .def_property( "dimension", &PersistenceDiagram::setDimension, &PersistenceDiagram::dimension )
+    .def_property( "dimension", &PersistenceDiagram::dimension, &PersistenceDiagram::setDimension )
     .def_property_readonly( "betti", &PersistenceDiagram::betti )
     .def( "__array__",
       [] ( PersistenceDiagram& D )
-- 
2.43.0


From 262802ad209b15d74a0c7049529fa7d799200280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:05 +0000
Subject: [PATCH 66/81] fix: return the complex when loading it with a functor
 from Python

The function returned nothing, and it converted the weights that the functor calculates to Booleans.
---
 bindings/python/aleph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index bef509a..6a84c04 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -756,9 +756,11 @@ void wrapInputFunctions( py::module& m )
               K,
               [&functor] ( DataType a, DataType b )
               {
-                return py::cast<bool>( functor(a,b) );
+                return py::cast<DataType>( functor(a,b) );
               }
       );
+
+      return K;
     }
   );
 
-- 
2.43.0


From b3150e232a7637cbd62d846afe8c38b74ea58662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:05 +0000
Subject: [PATCH 67/81] fix: respect strides of buffers that contain points

Transposed or sliced arrays were read as if they were contiguous.
---
 bindings/python/aleph.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 6a84c04..56d0a37 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -470,9 +470,13 @@ void wrapPersistentHomologyCalculation( py::module& m )
       );
 
       DataType* target = pointCloud.data();
-      DataType* source = reinterpret_cast<DataType*>( bufferInfo.ptr );
+      const char* source = reinterpret_cast<const char*>( bufferInfo.ptr );
 
-      std::copy( source, source + n*d, target );
+      // The buffer need not be contiguous, so its strides, which are
+      // given in bytes, have to be respected.
+      for( decltype(n) i = 0; i < n; i++ )
+        for( decltype(d) j = 0; j < d; j++ )
+          target[i*d+j] = *reinterpret_cast<const DataType*>( source + i * bufferInfo.strides[0] + j * bufferInfo.strides[1] );
 
       using Distance = aleph::geometry::distances::Euclidean<DataType>;
       dimension      = dimension > 0 ? dimension : static_cast<unsigned>( pointCloud.dimension() + 1 );
-- 
2.43.0


From ba3f030ef2b651178cc0f97ebfefbb0eda4294df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:05 +0000
Subject: [PATCH 68/81] fix: select edges that merge components in
 two-dimensional Rips complexes

The vertex that creates a component is not always a vertex of the edge that destroys it, so that edges were selected that do not exist.
---
 bindings/python/aleph.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 56d0a37..f1de77c 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1102,14 +1102,9 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           // make this a proper selection of edges.
           else
           {
-            auto u = K[ pair.first ][0]; // creator is always a vertex
             auto e = K[ pair.second ];   // destroyer is always an edge
 
-            // Select the proper vertex index for the destroyer; this is
-            // just the *other* vertex of the edge.
-            auto v = e[0] != u ? e[0] : e[1];
-
-            selected_edges.push_back( std::make_pair( u, v ) );
+            selected_edges.push_back( std::make_pair( e[1], e[0] ) );
           }
         }
 
-- 
2.43.0


From 6bf3d722686de7b1bd213a4987d61248abb558ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:05 +0000
Subject: [PATCH 69/81] fix: select the largest edge of the triangle that
 destroys a cycle

The first edge that is at least as large as the creator was selected instead.
---
 bindings/python/aleph.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index f1de77c..1ab8ff5 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1149,17 +1149,17 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           auto k = i;
           auto l = j;
 
-          if( d1 >= creator.data() )
+          if( d1 >= d2 && d1 >= d3 )
           {
             k = u; 
             l = v;
           }
-          else if( d2 >= creator.data() )
+          else if( d2 >= d3 )
           {
             k = u;
             l = w;
           }
-          else if( d3 >= creator.data() )
+          else
           {
             k = v;
             l = w;
-- 
2.43.0


From 52a1cbb02eb3fce9f7bc2c34db4768042ed6e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:05 +0000
Subject: [PATCH 70/81] fix: stop computing the mean of diagrams when costs do
 not decrease

Pairings of points may alternate between several states, in which case
the computation never ended.
---
 include/aleph/persistenceDiagrams/Mean.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/Mean.hh b/include/aleph/persistenceDiagrams/Mean.hh
index 0f597a9..961f255 100644
--- a/include/aleph/persistenceDiagrams/Mean.hh
+++ b/include/aleph/persistenceDiagrams/Mean.hh
@@ -202,7 +202,7 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
 
     #pragma omp critical
     {
-      cost += pairings.back().cost;
+      cost += pairings[i].cost;
     }
   }
 
@@ -277,11 +277,13 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
 
         #pragma omp critical
         {
-          newCost += newPairings.back().cost;
+          newCost += newPairings[i].cost;
         }
       }
 
-      if( newPairings == pairings )
+      // The costs have to decrease in every step. Otherwise, the pairings
+      // may alternate forever.
+      if( newPairings == pairings || newCost >= cost )
         stop = true;
       else
       {
-- 
2.43.0


From 3530351ee981e7d5eff1755ff7d417f464cf3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:35 +0000
Subject: [PATCH 71/81] fix: create signatures of empty diagrams

---
 src/tools/make_signature.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/make_signature.cc b/src/tools/make_signature.cc
index e33ccce..e9da7d2 100644
--- a/src/tools/make_signature.cc
+++ b/src/tools/make_signature.cc
@@ -78,7 +78,7 @@ std::vector<DataType> makeSignature( const PersistenceDiagram& D )
   // All pairwise distances with potential repetitions for points that
   // are well outside the influence radius of other points.
   std::vector<DataType> distances;
-  distances.reserve( ( D.size() * D.size() - 1 ) / 2 );
+  distances.reserve( D.size() * ( D.size() - 1 ) / 2 );
 
   for( auto it1 = D.begin(); it1 != D.end(); ++it1 )
   {
-- 
2.43.0


From e3d87ea5a69801063b621ba92d1c913e56c22ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:36 +0000
Subject: [PATCH 72/81] fix: print bottleneck and Wasserstein distances instead
 of their roots

---
 src/tools/topological_distance.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index dc3a86b..ee48777 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -691,12 +691,12 @@ int main( int argc, char** argv )
         useWassersteinDistance
         ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
              {
-               return aleph::distances::wassersteinDistance( D1, D2, p );
+               return std::pow( aleph::distances::wassersteinDistance( D1, D2, p ), p );
              }
         : useBottleneckDistance
-          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double )
+          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-                 return aleph::distances::bottleneckDistance( D1, D2 );
+                 return std::pow( aleph::distances::bottleneckDistance( D1, D2 ), p );
                }
           : [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-- 
2.43.0


From 42688c7c9bff89d67abd94c0b1a334236ce399d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:36 +0000
Subject: [PATCH 73/81] fix: calculate Hausdorff distances if they are
 requested last

---
 src/tools/topological_distance.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index ee48777..75c5972 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -458,6 +458,7 @@ int main( int argc, char** argv )
       useExponentialFunction = true;
       break;
     case 'h':
+      useBottleneckDistance        = false;
       useWassersteinDistance       = false;
       useIndicatorFunctionDistance = false;
       useScaleSpaceKernel          = false;
-- 
2.43.0


From d6edaa105e7ac01928d8aa96d834f77eea8f14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:43:31 +0000
Subject: [PATCH 74/81] fix: sort connectivity matrices by weight before
 calculating diagrams

---
 src/tools/connectivity_matrix_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 23b1afd..759d403 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -15,6 +15,8 @@
 
 #include <aleph/persistentHomology/Calculation.hh>
 
+#include <aleph/topology/filtrations/Data.hh>
+
 #include <aleph/topology/io/AdjacencyMatrix.hh>
 
 #include <aleph/topology/Simplex.hh>
@@ -132,7 +134,7 @@ int main( int argc, char** argv )
       }
     );
 
-    K.sort();
+    K.sort( aleph::topology::filtrations::Data<Simplex>() );
 
     bool dualize                    = true;
     bool includeAllUnpairedCreators = keepUnpaired;
-- 
2.43.0


From 34d29a2526cae977d961898af479cc73947dd4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:43:31 +0000
Subject: [PATCH 75/81] fix: separate the diagrams of connectivity matrices by
 commas

---
 src/tools/connectivity_matrix_analysis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 759d403..5bf28de 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -119,6 +119,8 @@ int main( int argc, char** argv )
   std::cout << "{\n"
             << "\"diagrams\": [\n";
 
+  bool first = true;
+
   for( auto&& filename : filenames )
   {
     if( verbose )
@@ -174,6 +176,11 @@ int main( int argc, char** argv )
 
       kvs["persistent_entropy"]  = std::to_string( aleph::persistentEntropy( diagram ) );
 
+      if( !first )
+        std::cout << ",\n";
+
+      first = false;
+
       aleph::io::writeJSON( std::cout, diagram, basename, kvs );
     }
   }
-- 
2.43.0


From 9c48af6c640a14192920e3d216b135502bf90d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:43:31 +0000
Subject: [PATCH 76/81] fix: use the expanded complexes of sparse adjacency
 matrices

---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index 80f5ca4..ffb9b9c 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -241,7 +241,7 @@ int main( int argc, char** argv )
     std::cerr << "* Expanding simplicial complexes to dimension " << dimension << "...";
 
     for( auto&& K : simplicialComplexes )
-      expander( K, dimension );
+      K = expander( K, dimension );
 
     std::cerr << "finished\n";
   }
-- 
2.43.0


From 38c05d34c9ac8ea6690057946c75a0e54e75fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:43:31 +0000
Subject: [PATCH 77/81] fix: sort superlevel set filtrations of sparse
 adjacency matrices in descending order

---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index ffb9b9c..aea2ae2 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -315,7 +315,7 @@ int main( int argc, char** argv )
       if( useSuperlevelSets )
       {
         K.sort(
-           aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+           aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
          );
       }
       else
-- 
2.43.0


From 6f4ed1fe8409cc7622af5221f3806f8d5fb8df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:21:00 +0000
Subject: [PATCH 78/81] fix: write intersection homology diagrams by their
 dimension

The tool assumed that the diagrams exist for dimensions zero, one and two
in this order. It crashed, or wrote a diagram to the file of another
dimension, if no vertex is allowable.
---
 src/tools/persistent_intersection_homology.cc | 53 +++++++++----------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/tools/persistent_intersection_homology.cc b/src/tools/persistent_intersection_homology.cc
index db260af..534a754 100644
--- a/src/tools/persistent_intersection_homology.cc
+++ b/src/tools/persistent_intersection_homology.cc
@@ -36,6 +36,7 @@
 #include <iostream>
 #include <numeric>
 #include <set>
+#include <string>
 #include <vector>
 
 #include <getopt.h>
@@ -295,40 +296,38 @@ int main( int argc, char** argv )
 
   std::cerr << "finished\n";
 
-  {
-    std::ofstream out0( "/tmp/D_0_PH.txt" );
-    std::ofstream out1( "/tmp/D_0_IH.txt" );
-
-    D1.front().removeDiagonal();
-    D2.front().removeDiagonal();
-
-    out0 << D1.front() << "\n";
-    out1 << D2.front() << "\n";
-  }
+  std::cerr << D1.size() << "," << D2.size() << "\n";
 
-  if( D1.size() >= 2 && D2.size() >= 2 )
+  // Not all dimensions need to occur in the diagrams, so their position
+  // does not tell anything about their dimension.
+  for( std::size_t dimension = 0; dimension <= 2; dimension++ )
   {
-    std::ofstream out0( "/tmp/D_1_PH.txt" );
-    std::ofstream out1( "/tmp/D_1_IH.txt" );
+    auto has_dimension = [&dimension] ( const PersistenceDiagram& D )
+    {
+      return D.dimension() == dimension;
+    };
 
-    D1[1].removeDiagonal();
-    D2[1].removeDiagonal();
+    auto it1 = std::find_if( D1.begin(), D1.end(), has_dimension );
+    auto it2 = std::find_if( D2.begin(), D2.end(), has_dimension );
 
-    out0 << D1[1] << "\n";
-    out1 << D2[1] << "\n";
-  }
+    if( dimension > 0 && ( it1 == D1.end() || it2 == D2.end() ) )
+      continue;
 
-  std::cerr << D1.size() << "," << D2.size() << "\n";
+    auto prefix = "/tmp/D_" + std::to_string( dimension );
 
-  if( D1.size() >= 3 && D2.size() >= 3 )
-  {
-    std::ofstream out0( "/tmp/D_2_PH.txt" );
-    std::ofstream out1( "/tmp/D_2_IH.txt" );
+    std::ofstream out0( prefix + "_PH.txt" );
+    std::ofstream out1( prefix + "_IH.txt" );
 
-    D1[2].removeDiagonal();
-    D2[2].removeDiagonal();
+    if( it1 != D1.end() )
+    {
+      it1->removeDiagonal();
+      out0 << *it1 << "\n";
+    }
 
-    out0 << D1[2] << "\n";
-    out1 << D2[2] << "\n";
+    if( it2 != D2.end() )
+    {
+      it2->removeDiagonal();
+      out1 << *it2 << "\n";
+    }
   }
 }
-- 
2.43.0


From 19b1bbda11d1d792407c6b6110bdda4d1d64d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:48:28 +0000
Subject: [PATCH 79/81] fix: use a descending filtration for positive
 correlations

The second filtration of the tool for connectivity matrices is documented
to go from positively to negatively correlated features, but it was sorted
in ascending order. Its expansion used the maximum weight, and expanded
simplices with negative weights only were assigned a weight of zero.
---
 src/tools/ephemeral.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index 8f53fac..b611cfa 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -143,13 +143,13 @@ std::vector<PersistenceDiagram> processFilename( const std::string& filename,
   // If desired, perform a simple Vietoris--Rips expansion of the given
   // simplicial complex. This tacitly assumes that edges are *weighted*
   // and propagates the maximum edge weight to higher-dimensional faces
-  // of the complex.
+  // of the complex. The descending filtration uses the minimum instead.
   if( dimension != 0 )
   {
     RipsExpander expander;
 
     K = expander( K, dimension );
-    K = expander.assignMaximumWeight( K );
+    K.recalculateWeights( !reverse, true );
   }
 
   // Setting both of them would be invalid
@@ -158,7 +158,7 @@ std::vector<PersistenceDiagram> processFilename( const std::string& filename,
   if( reverse )
   {
     K.sort(
-       aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+       aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
      );
   }
   else
-- 
2.43.0


From e87d888e6488807ae9ac14cab470a42aa4b618f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:48:28 +0000
Subject: [PATCH 80/81] fix: read large adjacency matrices with small vertex
 types

The index of a matrix entry was stored using the type of the vertices, so
wrong entries were used if the matrix has more entries than the type has
values.
---
 include/aleph/topology/io/AdjacencyMatrix.hh          | 2 +-
 include/aleph/topology/io/BipartiteAdjacencyMatrix.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 5eba003..2a8afb4 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -198,7 +198,7 @@ public:
       // not be considered here.
       for( std::size_t x = y + 1; x < _dimension; x++ )
       {
-        auto i = static_cast<VertexType>( _dimension * y + x   );
+        auto i = _dimension * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index e33ad91..f2cb697 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -160,7 +160,7 @@ public:
     {
       for( std::size_t x = 0; x < _width; x++ )
       {
-        auto i = static_cast<VertexType>( _width * y + x   );
+        auto i = _width * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
-- 
2.43.0


From 1b3ffc1b7777985477974bd48c78db73f7ebb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:22:56 +0000
Subject: [PATCH 81/81] fix: use only edges between singular points as strata

Inverted thresholds also selected edges with a single singular point, so
the stratum was not a simplicial complex.
---
 src/tools/persistent_intersection_homology.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/persistent_intersection_homology.cc b/src/tools/persistent_intersection_homology.cc
index 534a754..c0cce80 100644
--- a/src/tools/persistent_intersection_homology.cc
+++ b/src/tools/persistent_intersection_homology.cc
@@ -257,7 +257,7 @@ int main( int argc, char** argv )
           auto y = singularityValues.at(v);
 
           if( invert )
-            return std::max(x,y) > filterThreshold;
+            return std::min(x,y) > filterThreshold;
           else
             return std::max(x,y) < filterThreshold;
         }
-- 
2.43.0

