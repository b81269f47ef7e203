From 3e149911e65e22c7cb8ee80227075f227a2b5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 01/38] fix: point_sink handling of duplicate points at loop
 boundaries

A loop whose first point equals the last point of the previously added loop
lost that point, a loop with a single unique point read out of bounds, and a
loop ending with repeated copies of its first point was left with a
zero-length closing line.
---
 include/poly_ops/clip.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 299a75d..5bb30bf 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2027,8 +2027,6 @@ public:
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::finalize_prev() {
-    if(!n.lpoints.empty() && prev == n.lpoints.back().data) return;
-
     if(pt) {
         switch(n.lpoints.size() - std::size_t(first_i)) {
         case 0:
@@ -2051,10 +2049,14 @@ void clipper<Coord,Index>::point_sink::finalize_prev() {
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index orig_i) {
-    if(started) finalize_prev();
+    n._next_orig_i = orig_i + 1;
+    if(started) {
+        // consecutive duplicates are ignored
+        if(p == prev) return;
+        finalize_prev();
+    }
     prev = p;
     prev_orig_i = orig_i;
-    n._next_orig_i = orig_i + 1;
     started = true;
 }
 template<coordinate Coord,std::integral Index>
@@ -2064,7 +2066,8 @@ clipper<Coord,Index>::point_sink::~point_sink() {
     end-point indices. The sweep sets expect line segments with unique indices.
     */
     if(started) [[likely]] {
-        if(prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
+        // if nothing was added yet, the loop has only one unique point
+        if(n.lpoints.size() > std::size_t(first_i) && prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
 
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
         if(points_added < 3) [[unlikely]] {
-- 
2.43.0


From 59d37b892c7ee57ff6e782a1414f98794c5dd509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 02/38] fix: offset with a magnitude exceeding the inradius no
 longer creates spurious polygons

The inverted lines of an inset could wind around in the solid direction,
leaving polygons outside of the original shape. Joining the lines through the
original point keeps the winding number of inverted parts from becoming
positive.
---
 include/poly_ops/offset.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index e62d629..4b4df21 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -25,9 +25,9 @@ ___\__________/___
        /  \
 
 The ends of the lines are reconnected. For outer angles in the original polygon,
-greater than 180 degrees, the ends are joined with a single line. For outer
-angles less than 180 degrees, an arc, whose center is the original point, is
-approximated with multiple lines.
+greater than 180 degrees, the ends are joined by going through the original
+point. For outer angles less than 180 degrees, an arc, whose center is the
+original point, is approximated with multiple lines.
 
 Intersecting lines are then broken so that only end-points touch.
  /\            /\
@@ -130,6 +130,11 @@ void add_offset_point(
                 sink(p2 + vround<Coord>(offset),orig_i2);
             }
         }
+    } else if(triangle_winding(p1,p2,p3) != 0) {
+        /* going through the original point keeps inverted geometry inverted,
+        even when the magnitude is so large that inverted parts intersect each
+        other */
+        sink(p2,orig_i2);
     }
 }
 
-- 
2.43.0


From 47b472a1cdc67c1e33504d7fdc2905996a6f2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 03/38] fix: offset of a lone point makes a full circle

The angle of each step was computed from the step count before the minimum was
applied (dividing by zero for small magnitudes) and one point was left out,
which for the minimum of three points left nothing.
---
 include/poly_ops/offset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 4b4df21..7c61578 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -158,12 +158,12 @@ Index offset_lone_point(
     // use at least 3 points to make a circle
     long lsteps = std::max(static_cast<long>(steps),3L);
 
-    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(steps));
-    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(steps));
+    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(lsteps));
+    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(lsteps));
 
     point_t<real_t> offset{magnitude,0};
 
-    for(long i=1; i<lsteps; ++i) {
+    for(long i=0; i<lsteps; ++i) {
         offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
         sink(p + vround<Coord>(offset),next_orig_i);
     }
-- 
2.43.0


From fed75298467d437fe1607ba9e5badd2ec79a0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 04/38] fix: original point indices reported by offset
 operations

The indices were wrong for the points around duplicate points, and the index of
the points following an open line, a loop with leading duplicate points or a
lone point with a non-positive magnitude or with duplicates, was not advanced
by the number of input points.
---
 include/poly_ops/offset.hpp | 105 +++++++++++++++++++++---------------
 1 file changed, 62 insertions(+), 43 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 7c61578..147f13f 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -139,16 +139,16 @@ void add_offset_point(
 }
 
 template<typename Index,typename Coord>
-Index offset_lone_point(
+void offset_lone_point(
     typename clipper<Coord,Index>::point_sink &sink,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index next_orig_i,
+    Index orig_i,
     point_t<Coord> p)
 {
     using real_t = real_coord_t<Coord>;
 
-    if(magnitude <= 0) return next_orig_i;
+    if(magnitude <= 0) return;
 
     // we need to approximate a circle
 
@@ -165,10 +165,8 @@ Index offset_lone_point(
 
     for(long i=0; i<lsteps; ++i) {
         offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
-        sink(p + vround<Coord>(offset),next_orig_i);
+        sink(p + vround<Coord>(offset),orig_i);
     }
-
-    return next_orig_i + 1;
 }
 
 /* add a signed int to a possibly unsigned integer */
@@ -177,9 +175,11 @@ template<typename T> auto signed_add(T a,int b) {
 }
 
 template<typename Coord,typename Index> struct offset_tail_end {
-    Index orig_i;
+    Index next_orig_i;
     point_t<Coord> prev1;
     point_t<Coord> prev2;
+    Index prev1_orig_i;
+    Index prev2_orig_i;
 };
 
 template<typename Coord,typename Index,typename Input>
@@ -188,25 +188,27 @@ offset_tail_end<Coord,Index> _add_offset_tail_open(
     Input &&input,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index first_orig_i,
+    Index next_orig_i,
     int i_step,
     point_t<Coord> prev2,
-    point_t<Coord> prev1)
+    point_t<Coord> prev1,
+    Index prev2_orig_i,
+    Index prev1_orig_i)
 {
-    Index next_orig_i = first_orig_i;
-
     for(point_t<Coord> p : input) {
         if(p != prev1) {
-            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,p);
+            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_orig_i,prev1_orig_i,prev2,prev1,p);
             prev2 = prev1;
+            prev2_orig_i = prev1_orig_i;
             prev1 = p;
+            prev1_orig_i = next_orig_i;
         }
         next_orig_i = signed_add(next_orig_i,i_step);
     }
 
-    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,prev2);
+    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_orig_i,prev1_orig_i,prev2,prev1,prev2);
 
-    return {signed_add(next_orig_i,i_step),prev1,prev2};
+    return {next_orig_i,prev1,prev2,prev1_orig_i,prev2_orig_i};
 }
 
 template<typename Coord,typename Index,typename Input>
@@ -235,37 +237,53 @@ void _add_offset_open(
         point_t<Coord> prev1;
 
         auto sink = n.add_loop(set,pt);
-        
+        const Index first_orig_i = sink.next_orig_i();
+        end_orig_i = first_orig_i + 1;
+
         for(;;) {
             if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
+                offset_lone_point<Index,Coord>(sink,magnitude,arc_step_size,first_orig_i,prev2);
                 break;
             }
 
             prev1 = *itr;
             ++itr;
+            ++end_orig_i;
 
             if(prev1 != prev2) {
-                auto [orig_i,prev1b,prev2b] = _add_offset_tail_open<Coord,Index>(
+                auto tail = _add_offset_tail_open<Coord,Index>(
                     sink,
                     std::ranges::subrange{itr,std::ranges::end(input)},
                     magnitude,
                     arc_step_size,
-                    sink.next_orig_i(),
+                    end_orig_i,
                     1,
                     prev2,
-                    prev1);
-                end_orig_i = orig_i;
+                    prev1,
+                    first_orig_i,
+                    end_orig_i - 1);
+                end_orig_i = tail.next_orig_i;
+
+                /* go back to the last point not equal to the end point */
+                auto r_itr = std::ranges::rbegin(input);
+                Index r_orig_i = end_orig_i - 1;
+                while(point_t<Coord>(*r_itr) == tail.prev1) {
+                    ++r_itr;
+                    --r_orig_i;
+                }
+                ++r_itr;
 
                 _add_offset_tail_open<Coord,Index>(
                     sink,
-                    std::ranges::subrange{std::next(std::ranges::rbegin(input),2),std::ranges::rend(input)},
+                    std::ranges::subrange{r_itr,std::ranges::rend(input)},
                     magnitude,
                     arc_step_size,
-                    end_orig_i,
+                    signed_add(r_orig_i,-1),
                     -1,
-                    prev1b,
-                    prev2b);
+                    tail.prev1,
+                    tail.prev2,
+                    tail.prev1_orig_i,
+                    tail.prev2_orig_i);
                 break;
             }
         }
@@ -304,46 +322,47 @@ void _add_offset_closed(
         point_t<Coord> second;
 
         auto sink = n.add_loop(set,pt);
-        
+        const Index first_orig_i = sink.next_orig_i();
+        end_orig_i = first_orig_i + 1;
+
         for(;;) {
             if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
+                offset_lone_point<Index,Coord>(sink,magnitude,arc_step_size,first_orig_i,prev2);
                 break;
             }
 
             prev1 = second = *itr;
             ++itr;
+            Index prev2_orig_i = first_orig_i;
+            Index prev1_orig_i = end_orig_i;
+            ++end_orig_i;
 
             if(prev1 != prev2) {
-                Index first_orig_i = sink.next_orig_i();
-                end_orig_i = first_orig_i;
                 for(point_t<Coord> p : std::ranges::subrange{itr,end}) {
                     if(p != prev1) {
-                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,end_orig_i+1,prev2,prev1,p);
+                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_orig_i,prev1_orig_i,prev2,prev1,p);
                         prev2 = prev1;
+                        prev2_orig_i = prev1_orig_i;
                         prev1 = p;
+                        prev1_orig_i = end_orig_i;
                     }
                     ++end_orig_i;
                 }
 
-                if(prev2 != prev1) {
-                    add_offset_point<Index,Coord>(
-                        sink,
-                        magnitude,
-                        arc_step_size,
-                        end_orig_i,
-                        end_orig_i+1,
-                        prev2,
-                        prev1,
-                        prev1 == first ? second : first);
-                }
-                ++end_orig_i;
+                add_offset_point<Index,Coord>(
+                    sink,
+                    magnitude,
+                    arc_step_size,
+                    prev2_orig_i,
+                    prev1_orig_i,
+                    prev2,
+                    prev1,
+                    prev1 == first ? second : first);
 
                 /* if "prev1" is equal to "first", we are already done */
                 if(prev1 != first) {
-                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,first_orig_i,prev1,first,second);
+                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev1_orig_i,first_orig_i,prev1,first,second);
                 }
-                ++end_orig_i;
                 break;
             }
         }
-- 
2.43.0


From 69634c2bdf82a7168bdfe9535f6f89aaaf6e845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 05/38] fix: intersection points that are integers are no
 longer moved by rounding

The floating-point calculation of an intersection point could be slightly off
from an integer, in which case floor/ceil gave a neighboring integer, even for
axis-aligned rectangles.
---
 include/poly_ops/clip.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 5bb30bf..c6948aa 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -439,6 +439,23 @@ bool rand_bool(rand_generator &rgen) {
     return rgen() > mid;
 }
 
+/* Randomly round up or down. The floating-point calculation of a coordinate that
+is an integer can be slightly off. Such a coordinate must not be moved. */
+template<typename Coord>
+Coord rand_round(const real_coord_t<Coord> &x,rand_generator &rgen) {
+    using real_t = real_coord_t<Coord>;
+
+    bool round_down = rand_bool(rgen);
+    Coord nearest = coord_ops<Coord>::round(x);
+    real_t diff = x - static_cast<real_t>(nearest);
+    real_t margin = x * real_t(0x1p-50);
+    if(diff < real_t(0)) diff = -diff;
+    if(margin < real_t(0)) margin = -margin;
+    if(diff <= margin) return nearest;
+
+    return round_down ? coord_ops<Coord>::floor(x) : coord_ops<Coord>::ceil(x);
+}
+
 /* Check if two line segments intersect.
 
 Returns "true" if the lines intersect. Adjacent lines do not count as
@@ -510,8 +527,8 @@ bool intersects(
         creates yet another intersection, and so forth, until the lines are
         nowhere near where they started. */
 
-        p[0] = static_cast<Coord>(x1 + (rand_bool(rgen) ? coord_ops<Coord>::floor(rx) : coord_ops<Coord>::ceil(rx)));
-        p[1] = static_cast<Coord>(y1 + (rand_bool(rgen) ? coord_ops<Coord>::floor(ry) : coord_ops<Coord>::ceil(ry)));
+        p[0] = static_cast<Coord>(x1 + rand_round<Coord>(rx,rgen));
+        p[1] = static_cast<Coord>(y1 + rand_round<Coord>(ry,rgen));
 
         at_edge[0] = at_edge_t::no;
         at_edge[1] = at_edge_t::no;
-- 
2.43.0


From 73f38227b228cd31afb9fd1def1b9423b8edebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 06/38] fix: carry and borrow propagation without compiler
 extensions

---
 include/poly_ops/large_ints.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index ac8cf60..0072a75 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -569,26 +569,25 @@ namespace detail {
         out = a + b;
         carry_t cr = out < a;
         out += carry;
-        return (out < a) | cr;
+        return (out < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _addcarry_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
         a = a + b;
         carry_t cr = a < b;
         a += carry;
-        return (a < b) | cr;
+        return (a < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow(full_uint a,full_uint b,full_uint &out,carry_t carry=0) noexcept {
-        out = a - b;
-        carry_t cr = out > a;
-        out -= carry;
-        return (out > a) | cr;
+        full_uint diff = a - b;
+        carry_t cr = diff > a;
+        out = diff - carry;
+        return (out > diff) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
-        full_uint prev_a = a;
-        a = a - b;
-        carry_t cr = a > prev_a;
-        a -= carry;
-        return (a > prev_a) | cr;
+        full_uint diff = a - b;
+        carry_t cr = diff > a;
+        a = diff - carry;
+        return (a > diff) | cr;
     }
 #endif
 
-- 
2.43.0


From 1cecb3b4bd8fbea493e3775af26aeb792add1993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 07/38] fix: assigning a narrower value to a multi-word integer

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 0072a75..a6d66df 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -397,7 +397,7 @@ public:
 
     template<safe_comp_or_single_i<N,Signed> T> compound_xint &operator=(const T &b) noexcept {
         if constexpr(N > 1) {
-            lo() = detail::compi_lo<N>(b);
+            lo().set(detail::compi_lo<N>(b));
         }
         hi() = detail::compi_hi<N>(b);
         return *this;
-- 
2.43.0


From 9d3f9a418edc36a896199cc2817f049a9aa4f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 08/38] fix: remainder of a signed division by an unsigned
 64-bit value is not truncated

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index a6d66df..c15037e 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1334,7 +1334,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             udivmod_shift_sub<N>(a_tmp.data(),b_tmp.data(),r.quot.data());
         }
 
-        r.rem = compound_int<int_count<false,U>>(a_tmp);
+        r.rem = decltype(r.rem)(a_tmp);
 
         if constexpr(Mod == modulo_t::truncate_v) {
             if(sa ^ sb) r.quot = -r.quot;
-- 
2.43.0


From 76645ee3f515743a33fb42631bfb9f80e02681a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 09/38] fix: conversion of multi-word integers to 128-bit and
 floating-point values

---
 include/poly_ops/large_ints.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index c15037e..bbacca0 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -283,9 +283,9 @@ namespace detail {
     template<integral T,typename U> T cast(const U &x) noexcept {
         constexpr unsigned int N = int_count<false,U>;
         if constexpr(N == 1) {
-            return static_cast<T>(compi_hi<1>(x));
+            return static_cast<T>(compi_hi<1,signed_type<U>>(x));
         } else if constexpr(int_count<false,T> >= N) {
-            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int))) | cast<T>(compi_lo<N>(x));
+            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int) * 8)) | cast<T>(compi_lo<N>(x));
         } else {
             return cast<T>(compi_lo<N>(x));
         }
@@ -347,7 +347,7 @@ template<unsigned int N> using const_compound_xint_ref = _compound_xint_ref<N,tr
 namespace detail {
     template<std::floating_point T,unsigned int N> T unsigned_to_float(const_compound_xint_ref<N> x) noexcept {
         if constexpr(N > 1) {
-            return std::ldexp(static_cast<T>(x.hi()),32*N) + unsigned_to_float<T,N-1>(x.lo());
+            return std::ldexp(static_cast<T>(x.hi()),static_cast<int>(sizeof(full_uint)*8*(N-1))) + unsigned_to_float<T,N-1>(x.lo());
         } else {
             return static_cast<T>(x.hi());
         }
-- 
2.43.0


From 0eb47ee0936d565273f14394d8945d895634f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:24 +0000
Subject: [PATCH 10/38] fix: floored division of exact multiples and by the
 minimum value

---
 include/poly_ops/large_ints.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index bbacca0..fae82f2 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -407,7 +407,7 @@ public:
         if constexpr(N > 1) {
             return full_uint(0) - *this;
         } else {
-            return -static_cast<full_xint<Signed>>(hi());
+            return compound_xint(full_uint(0) - hi());
         }
     }
 
@@ -860,7 +860,7 @@ template<typename T> auto abs(const T &x) noexcept {
     } else if constexpr(builtin_number<T>) {
         return std::abs(x);
     } else if constexpr(N == 1) {
-        return compound_xint<N,true>(std::abs(compi_hi<1,true>(x)));
+        return x.negative() ? -x : x;
     } else {
         return compi_hi<N,true>(x) < 0 ? -x : x;
     }
@@ -1180,9 +1180,9 @@ auto unmul(const T &a,const U &b,modulo_t::type<Mod> = {}) noexcept {
 #  endif
         if constexpr(Signed && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if(compi_hi<3>(a) ^ compi_hi<2>(b)) {
+            if((compi_hi<3>(a) ^ compi_hi<2>(b)) && r.rem) {
                 r.quot -= 1;
-                r.rem = abs(b) - r.rem;
+                r.rem = abs(decltype(r.rem)(b)) - r.rem;
             }
         }
     } else
@@ -1310,8 +1310,8 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
 
         if constexpr(signed_ && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if((sign(a_tmp) ^ sign(b_tmp))) {
-                r.rem = abs(b_tmp) - r.rem;
+            if((sign(a_tmp) ^ sign(b_tmp)) && r.rem) {
+                r.rem = abs(decltype(r.rem)(b)) - r.rem;
                 r.quot -= 1;
             }
         }
@@ -1341,8 +1341,12 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             if(sa) r.rem = -r.rem;
         } else if constexpr(Mod == modulo_t::euclid_v) {
             if(sa ^ sb) {
-                r.rem = abs(b) - r.rem;
-                r.quot = -1 - r.quot;
+                if(r.rem) {
+                    r.rem = abs(decltype(r.rem)(b)) - r.rem;
+                    r.quot = -1 - r.quot;
+                } else {
+                    r.quot = -r.quot;
+                }
             }
         }
     } else {
-- 
2.43.0


From 09ffef2c19dc25761b40aa68d5ccd97a74cad0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:35 +0000
Subject: [PATCH 11/38] fix: loops are no longer dropped from the output
 hierarchy when lines coincide

---
 include/poly_ops/clip.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index c6948aa..46a7d44 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1431,14 +1431,21 @@ std::pmr::vector<temp_polygon<Index>*> arrange_loops(
     for(const auto& item : ordered_loops) {
         if(item.hits.empty()) top.push_back(&loops[item.p]);
         else {
+            /* Normally, the parent is the loop contained by all the other loops
+            in "hits" and nothing else. When lines of different loops coincide,
+            there might not be such a loop, in which case, the innermost
+            remaining candidate is used. */
+            temp_polygon<Index> *parent = nullptr;
+            std::size_t parent_depth = 0;
             for(Index outer_i : item.hits) {
-                if(ordered_loops[outer_i].hits.size() == (item.hits.size() - 1)) {
-                    loops[outer_i].children.push_back(&loops[item.p]);
-                    goto next;
+                std::size_t depth = ordered_loops[outer_i].hits.size();
+                if(depth < item.hits.size() && (!parent || depth > parent_depth)) {
+                    parent = &loops[outer_i];
+                    parent_depth = depth;
                 }
             }
-            POLY_OPS_ASSERT(false);
-          next: ;
+            if(parent) parent->children.push_back(&loops[item.p]);
+            else top.push_back(&loops[item.p]);
         }
     }
 
-- 
2.43.0


From a20354b066ffbd2a42814060613a0d4e82456a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 12/38] fix: tclipper::add_loops_subject and add_loops_clip
 could not be instantiated

---
 include/poly_ops/clip.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 46a7d44..5c40d0c 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2547,19 +2547,19 @@ public:
     }
 
     /**
-     * Calls `add_loops(std::forward<R>(loops),bool_set::subject,tracker.callbacks())`
+     * Calls `add_loops(std::forward<R>(loops),bool_set::subject)`
      */
     template<typename R> void add_loops_subject(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::subject,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::subject);
     }
 
     /**
-     * Calls `add_loops(std::forward<R>(loops),bool_set::clip,tracker.callbacks())`
+     * Calls `add_loops(std::forward<R>(loops),bool_set::clip)`
      */
     template<typename R> void add_loops_clip(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::clip,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::clip);
     }
 
     /**
-- 
2.43.0


From 4ea56377603442105f29b999490e1e808ccc41ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 13/38] fix: anchor points are announced to the point tracker
 when making a hierarchy

Otherwise the tracker's array was accessed out of bounds.
---
 include/poly_ops/clip.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 5c40d0c..b40ccda 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1851,7 +1851,7 @@ template<coordinate Coord,std::integral Index=std::size_t> class clipper {
         Index s2,
         i_point_tracker<Index> *pt);
     void add_fb_events(Index sa,Index sb);
-    Index insert_anchor_point(Index i);
+    Index insert_anchor_point(Index i,i_point_tracker<Index> *pt);
     void do_op(bool_op op,i_point_tracker<Index> *pt,bool TreeOut);
 
     template<point_range<Coord> R> void _add_loop(R &&loop,bool_set cat,i_point_tracker<Index> *pt) {
@@ -2341,13 +2341,16 @@ void clipper<Coord,Index>::calc_line_bal(bool_op op) {
 }
 
 template<coordinate Coord,std::integral Index>
-Index clipper<Coord,Index>::insert_anchor_point(Index i) {
+Index clipper<Coord,Index>::insert_anchor_point(Index i,i_point_tracker<Index> *pt) {
     if(!(lpoints[lpoints[i].next].state() & detail::line_state::anchor)) {
         Index new_i = Index(lpoints.size());
+        Index next = lpoints[i].next;
         lpoints.push_back(lpoints[i]);
         lpoints.back().state() = detail::line_state::anchor_undef;
         lpoints[i].next = new_i;
 
+        if(pt) pt->new_point_between(i,next);
+
         POLY_OPS_DEBUG_LOG("Adding anchor point {} after {}",new_i,i);
     }
     return lpoints[i].next;
@@ -2371,12 +2374,12 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
 
     if(tree_out) {
         for(auto &intr : samples) {
-            for(Index &i : intr.hits) i = insert_anchor_point(i);
+            for(Index &i : intr.hits) i = insert_anchor_point(i,pt);
         }
         for(auto &intr : samples) {
             follow_balance<Index,Coord>(
                 lpoints,
-                std::exchange(intr.p,insert_anchor_point(intr.p)),
+                std::exchange(intr.p,insert_anchor_point(intr.p,pt)),
                 breaks,pt);
         }
     } else {
-- 
2.43.0


From 3c161b46dd09e5a3551432f2d4b5fd067b47d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 14/38] fix: missing cap where an offset line turns back on
 itself

A point where the line turns back on itself, without the previous and next
points being equal, was treated like a point on a straight line. The end of the
line was not surrounded by the offset shape.
---
 include/poly_ops/offset.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 147f13f..d364c57 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -89,8 +89,9 @@ template<typename Index> using original_sets_t = mini_set_proxy_vector<Index,std
 template<typename Index> using original_set_replacements_t = indexed_mini_set_proxy_vector<Index,std::pmr::polymorphic_allocator<Index>>;
 template<typename Index> using original_set_t = mini_flat_set<Index,std::pmr::polymorphic_allocator<Index>>;
 
-/* When p1 == p3, the angle p1-p2-p3 is assumed to be concave, so that the
-offset goes around the end-points of an open line */
+/* When the line turns back on itself at p2, the angle p1-p2-p3 is assumed to be
+concave, so that the offset goes around p2 (which includes the end-points of an
+open line) */
 template<typename Index,typename Coord>
 void add_offset_point(
     typename clipper<Coord,Index>::point_sink &sink,
@@ -113,8 +114,13 @@ void add_offset_point(
 
     sink(p2 + vround<Coord>(offset),orig_i2);
 
-    bool concave = p1 == p3 || triangle_winding(p1,p2,p3) > 0;
-    if(magnitude < real_t(0)) concave = !concave;
+    const auto winding = triangle_winding(p1,p2,p3);
+    bool concave;
+    if(winding == 0) {
+        concave = vdot(vcast<real_t>(p1-p2),vcast<real_t>(p3-p2)) > real_t(0);
+    } else {
+        concave = (winding > 0) != (magnitude < real_t(0));
+    }
     if(concave) {
         // we need to approximate an arc
 
@@ -130,7 +136,7 @@ void add_offset_point(
                 sink(p2 + vround<Coord>(offset),orig_i2);
             }
         }
-    } else if(triangle_winding(p1,p2,p3) != 0) {
+    } else if(winding != 0) {
         /* going through the original point keeps inverted geometry inverted,
         even when the magnitude is so large that inverted parts intersect each
         other */
-- 
2.43.0


From 425c76cc080123b60f86a07eacd09a25c0285ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:52 +0000
Subject: [PATCH 15/38] fix: original points lost when discarded points were
 merged out of order

Runs of discarded points were merged in the order of their intersection points,
so a run could be merged into a point that had already been discarded, contrary
to what i_point_tracker::point_merge promises. The points of lines that would
have been reversed were not passed on at all. The original points of these were
then missing from the output.
---
 include/poly_ops/clip.hpp | 53 +++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index b40ccda..d99724e 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1206,9 +1206,7 @@ template<typename Index,typename Coord> struct breaks_t {
 
 /* Follow the points connected to the point at "intr" until another intersection
 is reached or we wrapped around. Along the way, update the "state()" value to
-the value at "intr", and if "state()" at "intr" is not "line_state::keep" or
-"line_state::keep_rev", merge all the point values into "intr" via the point
-tracker.
+the value at "intr".
 
 If "state()" at "intr" is one of the "keep" values and the "state" of the next
 intersection is not, add the point before the intersection to "broken_ends. If
@@ -1217,8 +1215,7 @@ template<typename Index,typename Coord>
 void follow_balance(
     std::pmr::vector<loop_point<Index,Coord>> &points,
     Index intr,
-    breaks_t<Index,Coord> &breaks,
-    i_point_tracker<Index> *pt)
+    breaks_t<Index,Coord> &breaks)
 {
     POLY_OPS_ASSERT(points[intr].has_line_bal());
     POLY_OPS_ASSERT(!(points[intr].state() & line_state::anchor));
@@ -1228,9 +1225,7 @@ void follow_balance(
         Index real_next_next = points[next].next;
 
         points[next].state() = points[intr].state() | (points[next].state() & line_state::anchor);
-        if(!(points[intr].state() & line_state::keep)) {
-            if(pt) pt->point_merge(prev,next);
-        } else if(points[intr].state() & line_state::reverse) {
+        if((points[intr].state() & line_state::keep) && (points[intr].state() & line_state::reverse)) {
             /* the actual points should not be moved, to make point-tracking
             simpler, except for the temporary anchor points, which must have the
             same coordinates as the (new) previous point */
@@ -1246,7 +1241,6 @@ void follow_balance(
 
     switch(points[intr].state()) {
     case line_state::discard:
-        if(pt) pt->point_merge(prev,next);
         break;
     case line_state::keep:
         breaks.broken_starts[points[intr].data].push_back(intr);
@@ -1279,6 +1273,35 @@ void follow_balance(
     }
 }
 
+/* Merge every discarded point into the point that follows it, via the point
+tracker, starting with the ones that follow a point that is not discarded, so
+that nothing is merged into a point that was already discarded (except when an
+entire loop is discarded).
+
+"next" has the value of "loop_point::next" of every point from before any line
+was removed or reversed. */
+template<typename Index,typename Coord>
+void merge_discarded(
+    const std::pmr::vector<loop_point<Index,Coord>> &points,
+    std::pmr::vector<Index> &next,
+    i_point_tracker<Index> &pt)
+{
+    auto kept = [&](Index i) { return (points[i].state() & line_state::keep) != 0; };
+
+    const Index size = static_cast<Index>(next.size());
+
+    for(Index i=0; i<size; ++i) {
+        if(!kept(i)) continue;
+        for(Index j=next[i]; !kept(j); j=std::exchange(next[j],j)) pt.point_merge(j,next[j]);
+    }
+
+    // what is left are loops without a point to keep
+    for(Index i=0; i<size; ++i) {
+        if(kept(i)) continue;
+        for(Index j=i; next[j] != j; j=std::exchange(next[j],j)) pt.point_merge(j,next[j]);
+    }
+}
+
 template<typename Index> struct loop_location {
     Index start;
     Index size;
@@ -2372,6 +2395,12 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
     self_intersection(pt);
     calc_line_bal(op);
 
+    std::pmr::vector<Index> next_points(contig_mem);
+    if(pt) {
+        next_points.reserve(lpoints.size());
+        for(const auto &lp : lpoints) next_points.push_back(lp.next);
+    }
+
     if(tree_out) {
         for(auto &intr : samples) {
             for(Index &i : intr.hits) i = insert_anchor_point(i,pt);
@@ -2380,11 +2409,11 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
             follow_balance<Index,Coord>(
                 lpoints,
                 std::exchange(intr.p,insert_anchor_point(intr.p,pt)),
-                breaks,pt);
+                breaks);
         }
     } else {
         for(auto &intr : samples) {
-            follow_balance<Index,Coord>(lpoints,intr.p,breaks,pt);
+            follow_balance<Index,Coord>(lpoints,intr.p,breaks);
         }
     }
 
@@ -2414,6 +2443,8 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
         lpoints[intr].next = vp.next;
     }
 
+    if(pt) merge_discarded<Index,Coord>(lpoints,next_points,*pt);
+
     /* match all the points in broken_starts and broken_ends to make new loops
     with the remaining lines */
     for(Index intr : breaks.broken_ends) {
-- 
2.43.0


From c8969fcd6fd78e73361d93f88c37dd2538ffef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 16/38] fix: polydraw.hpp could not be included by more than
 one source file

should_fill was defined without being inline. Also, comparing a fraction with an
integer for equality returned the ordering instead.
---
 include/poly_ops/polydraw.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index a1b5409..c03a9cd 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -63,7 +63,7 @@ struct fraction {
     }
     friend auto operator==(const fraction &a,T b) noexcept {
         assert(a.denom > 0);
-        return a.num <=> large_ints::mul(b,a.denom);
+        return a.num == large_ints::mul(b,a.denom);
     }
 };
 
@@ -406,7 +406,7 @@ template<typename T,unsigned int NumSize,unsigned int DenomSize> T to_coord(cons
     return clamp(static_cast<T>(large_ints::unmul<compound_int_size<T>>(x.num,x.denom).quot),lo,hi);
 }
 
-bool should_fill(fill_rule_t rule,long winding) {
+inline bool should_fill(fill_rule_t rule,long winding) {
     switch(rule) {
     case fill_rule_t::non_zero:
         return winding != 0;
-- 
2.43.0


From ba6390a3cb99f8b4899209c8d778eb2b609888e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 17/38] fix: shapes outside of the picture were drawn on its
 left and right columns

---
 include/poly_ops/polydraw.hpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index c03a9cd..77cccce 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -395,15 +395,8 @@ public:
     const event<Coord> &current() const { return events[static_cast<std::size_t>(current_i)]; }
 };
 
-template<typename T> T clamp(T x,std::type_identity_t<T> lo,std::type_identity_t<T> hi) {
-    POLY_OPS_ASSERT(lo <= hi);
-    if(x < lo) x = lo;
-    else if(x > hi) x = hi;
-    return x;
-}
-
-template<typename T,unsigned int NumSize,unsigned int DenomSize> T to_coord(const fraction<T,NumSize,DenomSize> &x,std::type_identity_t<T> lo,std::type_identity_t<T> hi) {
-    return clamp(static_cast<T>(large_ints::unmul<compound_int_size<T>>(x.num,x.denom).quot),lo,hi);
+template<typename T,unsigned int NumSize,unsigned int DenomSize> T to_coord(const fraction<T,NumSize,DenomSize> &x) {
+    return static_cast<T>(large_ints::unmul<compound_int_size<T>>(x.num,x.denom).quot);
 }
 
 inline bool should_fill(fill_rule_t rule,long winding) {
@@ -698,10 +691,15 @@ public:
                         winding += s_itr->value.a_is_main(rast.lpoints) ? 1 : -1;
 
                         Coord x_start = x;
-                        x = to_coord(x_intercept(s_itr->value.pa,s_itr->value.pb,y),0,static_cast<Coord>(width-1));
-   
-                        if(prev_winding) {
-                            sc = {static_cast<unsigned int>(x),static_cast<unsigned int>(x_start),static_cast<unsigned int>(y),prev_winding};
+                        x = to_coord(x_intercept(s_itr->value.pa,s_itr->value.pb,y));
+
+                        // parts that are entirely outside are skipped
+                        if(prev_winding && x_start >= 0 && std::cmp_less(x,width)) {
+                            sc = {
+                                x > 0 ? static_cast<unsigned int>(x) : 0u,
+                                std::cmp_less(x_start,width) ? static_cast<unsigned int>(x_start) : (width - 1),
+                                static_cast<unsigned int>(y),
+                                prev_winding};
                             suspended = true;
                             return true;
                         }
-- 
2.43.0


From 5a75a246a345d05cec57eb4d3f5355962d89a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:07 +0000
Subject: [PATCH 18/38] fix: rasterizing lines that cross on a scan line or at
 the same place

Lines crossing exactly on a scan line were put in order after lines starting
there were added, with an order that did not exist yet, or failed an assertion.
More than two lines crossing at the same place were swapped back and forth
endlessly.
---
 include/poly_ops/polydraw.hpp | 55 +++++++++++++++--------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index 77cccce..74412bf 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -122,6 +122,8 @@ template<typename Coord> using cached_segment = poly_ops::detail::cached_segment
 template<typename T> constexpr size_t compound_int_size
     = (sizeof(T) + sizeof(large_ints::full_uint) - 1) / sizeof(large_ints::full_uint);
 
+/* Returns true if the lines intersect and "s1" is to the right of "s2" before
+(above) the intersection point. */
 template<typename Coord>
 bool intersects(
     const cached_segment<Coord> &s1,
@@ -142,14 +144,13 @@ bool intersects(
     if(s1.a == s2.a || s1.a == s2.b || s1.b == s2.a || s1.b == s2.b) return false;
 
     auto d = mul<Coord,Coord>(x1-x2,y3-y4) - mul<Coord,Coord>(y1-y2,x3-x4);
-    if(d == 0) return false;
+    // both lines go down, so the sign of "d" tells which one has to move right
+    if(d >= 0) return false;
 
     auto t_i = mul<Coord,Coord>(x1-x3,y3-y4) - mul<Coord,Coord>(y1-y3,x3-x4);
     auto u_i = mul<Coord,Coord>(x1-x3,y1-y2) - mul<Coord,Coord>(y1-y3,x1-x2);
 
-    if(d > 0) {
-        if(t_i <= 0 || t_i >= d || u_i <= 0 || u_i >= d) return false;
-    } else if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
+    if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
 
     auto qr = unmul<compound_int_size<Coord>>(mul(t_i,y2-y1) + mul(d,y1),d,modulo_t::euclid);
     intr_y.whole = static_cast<Coord>(qr.quot);
@@ -218,7 +219,9 @@ bool consistent_order(const sweep_t<Coord> &sweep) {
     return true;
 }
 
-enum class event_type_t {backward,forward,swap};
+/* the order of the values is the order that events, at the same scan line, are
+processed */
+enum class event_type_t {swap,backward,forward};
 struct swap_type {};
 template<typename Coord> struct event {
     event_type_t type;
@@ -431,9 +434,8 @@ template<typename Coord> class rasterizer {
 
     bool ran;
 
-    void check_intersection(std::size_t s1,std::size_t s2,Coord y);
-    void check_intersection_after_swap(
-        detail::sweep_t<Coord> sweep,
+    void check_intersection(
+        detail::sweep_t<Coord> &sweep,
         std::size_t s1,
         std::size_t s2,
         const detail::whole_and_frac<Coord,2> &y);
@@ -444,7 +446,7 @@ template<typename Coord> class rasterizer {
         for(poly_ops::point_t<Coord> p : loop) sink(p);
     }
 
-    void swap_and_check(detail::sweep_t<Coord> sweep,std::size_t s1,std::size_t s2,const detail::whole_and_frac<Coord,2> &y);
+    void swap_and_check(detail::sweep_t<Coord> &sweep,std::size_t s1,std::size_t s2,const detail::whole_and_frac<Coord,2> &y);
 
 public:
     class point_sink {
@@ -539,23 +541,12 @@ void rasterizer<Coord>::add_fb_events(std::size_t sa,std::size_t sb) {
     sweep_nodes.emplace_back(detail::cached_segment<Coord>(sa,sb,lpoints));
 }
 
+/* If the lines intersect at or after "y", make them swap places, which needs to
+be done right away when more than two lines meet at the same place or when lines
+are coincident */
 template<typename Coord>
-void rasterizer<Coord>::check_intersection(std::size_t s1,std::size_t s2,Coord y) {
-    detail::whole_and_frac<Coord,2> intr_y;
-    if(intersects(sweep_nodes[s1].value,sweep_nodes[s2].value,intr_y) && intr_y >= y) {
-        POLY_OPS_DRAW_DEBUG_LOG("checking intersection of {} and {}: {}",sweep_nodes[s1].value,sweep_nodes[s2].value,intr_y);
-        events.add_swap_event(s1,s2,intr_y);
-        POLY_OPS_ASSERT(events.check_last_event(lpoints));
-    } else {
-        POLY_OPS_DRAW_DEBUG_LOG("checking intersection of {} and {}: none",sweep_nodes[s1].value,sweep_nodes[s2].value);
-    }
-}
-
-/* When lines are coincident, intersecting lines will have to swap with all the
-coincident lines */
-template<typename Coord>
-void rasterizer<Coord>::check_intersection_after_swap(
-    detail::sweep_t<Coord> sweep,
+void rasterizer<Coord>::check_intersection(
+    detail::sweep_t<Coord> &sweep,
     std::size_t s1,
     std::size_t s2,
     const detail::whole_and_frac<Coord,2> &y)
@@ -568,7 +559,7 @@ void rasterizer<Coord>::check_intersection_after_swap(
                 "IMMEDIATE SWAP {} and {}",
                 sweep_nodes[s1].value,
                 sweep_nodes[s2].value);
-            
+
             swap_and_check(sweep,s1,s2,y);
         } else {
             events.add_swap_event(s1,s2,intr_y);
@@ -580,7 +571,7 @@ void rasterizer<Coord>::check_intersection_after_swap(
 }
 
 template<typename Coord> void rasterizer<Coord>::swap_and_check(
-    detail::sweep_t<Coord> sweep,
+    detail::sweep_t<Coord> &sweep,
     std::size_t s1,
     std::size_t s2,
     const detail::whole_and_frac<Coord,2> &y)
@@ -591,10 +582,10 @@ template<typename Coord> void rasterizer<Coord>::swap_and_check(
     sweep.insert_before(s1,s2);
 
     auto itr1 = sweep.iterator_to(s2);
-    if(itr1 != sweep.begin()) check_intersection_after_swap(sweep,std::prev(itr1).index(),s2,y);
+    if(itr1 != sweep.begin()) check_intersection(sweep,std::prev(itr1).index(),s2,y);
     itr1 = sweep.iterator_to(s1);
     auto itr2 = std::next(itr1);
-    if(itr2 != sweep.end()) check_intersection_after_swap(sweep,s1,itr2.index(),y);
+    if(itr2 != sweep.end()) check_intersection(sweep,s1,itr2.index(),y);
 }
 
 struct scan_line {
@@ -655,7 +646,7 @@ public:
                 auto itr = sweep.erase(e.sweep_node);
 
                 if(itr != sweep.end() && itr != sweep.begin()) {
-                    rast.check_intersection(std::prev(itr).index(),itr.index(),e.ab.a_y(rast.lpoints));
+                    rast.check_intersection(sweep,std::prev(itr).index(),itr.index(),whole_and_frac<Coord,2>(y));
                 }
 
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
@@ -671,9 +662,9 @@ public:
                 auto [itr,inserted] = sweep.insert(e.sweep_node);
                 POLY_OPS_ASSERT(inserted);
 
-                if(itr != sweep.begin()) rast.check_intersection(std::prev(itr).index(),e.sweep_node,e.ab.a_y(rast.lpoints));
+                if(itr != sweep.begin()) rast.check_intersection(sweep,std::prev(itr).index(),e.sweep_node,whole_and_frac<Coord,2>(y));
                 ++itr;
-                if(itr != sweep.end()) rast.check_intersection(e.sweep_node,itr.index(),e.ab.a_y(rast.lpoints));
+                if(itr != sweep.end()) rast.check_intersection(sweep,e.sweep_node,itr.index(),whole_and_frac<Coord,2>(y));
 
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
-- 
2.43.0


From e72eaa1bbcd5a58c411436349f41020c0e5a6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 19/38] fix: rasterizer used an event after the events were
 moved

---
 include/poly_ops/polydraw.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index 74412bf..ebb50d8 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -623,7 +623,8 @@ public:
                     && less_than_or_equal(rast.lpoints,rast.events.current(),y)
                     && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
             {
-                auto &e = rast.events.current();
+                // this is a copy because adding an event can move the others
+                const auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "SWAP {} and {} at {}",
@@ -636,7 +637,8 @@ public:
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::backward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                // this is a copy because adding an event can move the others
+                const auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "BACKWARD {} at {}",
@@ -652,7 +654,8 @@ public:
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::forward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                // this is a copy because adding an event can move the others
+                const auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "FORWARD {} at {}",
-- 
2.43.0


From 70e288b5c248294395fabba32e43f9692217f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 20/38] fix: clip.hpp and large_ints.hpp could not be included
 by more than one source file

---
 include/poly_ops/clip.hpp       | 2 +-
 include/poly_ops/large_ints.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index d99724e..aa0e320 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -434,7 +434,7 @@ using rand_generator = std::minstd_rand;
 
 /* std::uniform_int_distribution(0,1) appears to behave differently between
 GCC's and MSVC's libraries, so it isn't used */
-bool rand_bool(rand_generator &rgen) {
+inline bool rand_bool(rand_generator &rgen) {
     constexpr auto mid = rand_generator::min() + (rand_generator::max() - rand_generator::min()) / 2;
     return rgen() > mid;
 }
diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index fae82f2..d31d3a7 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -866,13 +866,13 @@ template<typename T> auto abs(const T &x) noexcept {
     }
 }
 
-void ar_add(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
+inline void ar_add(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
     detail::carry_t carry = 0;
     for(unsigned int i=0; i<n; ++i) {
         carry = detail::_addcarry(a[i],b[i],out[i],carry);
     }
 }
-void ar_sub(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
+inline void ar_sub(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
     detail::carry_t carry = 0;
     for(unsigned int i=0; i<n; ++i) {
         carry = detail::_subborrow(a[i],b[i],out[i],carry);
-- 
2.43.0


From 4b26b855880e8cdc293bf527de81bb5663d27528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:34 +0000
Subject: [PATCH 21/38] fix: the post-increment operator of the point iterator
 did not compile

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index aa0e320..055c9a7 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1658,7 +1658,7 @@ public:
     }
 
     proto_loop_iterator operator++(int) noexcept {
-        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--};
+        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--,tracker};
     }
 
     value_type operator*() const noexcept(std::is_nothrow_copy_constructible_v<Coord>) {
-- 
2.43.0


From 6f1f5e03af376db1701cc3c29a4e5a39eeca0cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 22/38] fix: members of view_interface could not be used with
 loops of the output

---
 include/poly_ops/clip.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 055c9a7..d7d44a2 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1698,31 +1698,31 @@ public:
 
 private:
     const detail::loop_point<Index,Coord> *lpoints;
-    const detail::temp_polygon<Index> &data;
+    const detail::temp_polygon<Index> *data;
     [[no_unique_address]] tracker_ptr tracker;
 public:
     temp_polygon_proxy(
         const detail::loop_point<Index,Coord> *lpoints,
         const detail::temp_polygon<Index> &data,
         tracker_ptr tracker)
-        : lpoints{lpoints}, data{data}, tracker{tracker} {}
+        : lpoints{lpoints}, data{&data}, tracker{tracker} {}
 
     /** Get the iterator to the first element. */
     proto_loop_iterator<Coord,Index,Tracker> begin() const noexcept {
-        return {lpoints,data.loop_loc.start,data.loop_loc.size,tracker};
+        return {lpoints,data->loop_loc.start,data->loop_loc.size,tracker};
     }
 
     /** Get the end iterator */
     proto_loop_iterator<Coord,Index,Tracker> end() const noexcept {
-        return {lpoints,data.loop_loc.start,0,tracker};
+        return {lpoints,data->loop_loc.start,0,tracker};
     }
 
     /** Return the number of elements in this range. */
-    Index size() const noexcept { return data.loop_loc.size; }
+    Index size() const noexcept { return data->loop_loc.size; }
 
     /** Return a range representing the children of this polygon. */
     auto inner_loops() const noexcept {
-        return detail::make_temp_polygon_tree_range<Index,Coord>(lpoints,data.children,*tracker);
+        return detail::make_temp_polygon_tree_range<Index,Coord>(lpoints,data->children,*tracker);
     }
 };
 
-- 
2.43.0


From 924a7667cd561ceacba2cf4c02b99dc021b6bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 23/38] fix: product of an unsigned multi-word integer and a
 single word

---
 include/poly_ops/large_ints.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index d31d3a7..b006259 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1092,6 +1092,8 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
             if constexpr(Signed) {
                 offset_add<Na+1,1>(r,umulnx1<Na-1>(compi_lo<Na>(a),compi_hi<Nb+1>(b)));
                 return compound_int<Na+1>{r};
+            } else {
+                return r;
             }
         } else {
             compound_uint<Na+Nb> a_tmp{a};
-- 
2.43.0


From 1f428ce9e26d1062e15b2ae5a1e0d4709b88ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:50 +0000
Subject: [PATCH 24/38] fix: product of two unsigned built-in integers
 overflowed

---
 include/poly_ops/large_ints.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index b006259..225c346 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1078,7 +1078,13 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
     using namespace detail;
 
     if constexpr(small_xints<T> && small_xints<U>) {
-        return static_cast<detail::bltin_sized_int<sizeof(T) + sizeof(U)>>(a) * b;
+        using result_t = detail::bltin_sized_int<sizeof(T) + sizeof(U)>;
+        if constexpr(signed_type<T> || signed_type<U>) {
+            return static_cast<result_t>(a) * static_cast<result_t>(b);
+        } else {
+            using uresult_t = std::make_unsigned_t<result_t>;
+            return static_cast<uresult_t>(static_cast<uresult_t>(a) * static_cast<uresult_t>(b));
+        }
     } else {
         constexpr bool Signed = signed_type<T> || signed_type<U>;
         constexpr unsigned int Na = int_count<Signed,T>;
-- 
2.43.0


From e5f139038bdb67668c910e3bc61fc93e39cc1712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 25/38] fix: distance and order of strided iterators

---
 include/poly_ops/strided_itr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/strided_itr.hpp b/include/poly_ops/strided_itr.hpp
index 950bf17..705306c 100644
--- a/include/poly_ops/strided_itr.hpp
+++ b/include/poly_ops/strided_itr.hpp
@@ -75,11 +75,11 @@ struct strided_itr {
     }
 
     friend std::ptrdiff_t operator-(const strided_itr &a,const strided_itr &b) {
-        return a.ptr - b.ptr;
+        return (a.ptr - b.ptr) / a.stride;
     }
 
     friend auto operator<=>(const strided_itr &a,const strided_itr &b) {
-        return a.ptr <=> b.ptr;
+        return a.stride < 0 ? (b.ptr <=> a.ptr) : (a.ptr <=> b.ptr);
     }
 
     friend auto operator==(const strided_itr &a,const strided_itr &b) {
-- 
2.43.0


From a68da0fc294b5046f72941b9a12507fc55338087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 26/38] fix: overflow in winding_dir

---
 include/poly_ops/base.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/base.hpp b/include/poly_ops/base.hpp
index a4590c9..f65d48c 100644
--- a/include/poly_ops/base.hpp
+++ b/include/poly_ops/base.hpp
@@ -535,12 +535,15 @@ public:
         : first{first}, prev{first}, r(0) {}
     
     void operator()(point_t<Coord> p) {
-        r += coord_ops<Coord>::mul(prev[0]-p[0],prev[1]+p[1]);
+        /* the sum of two coordinates can be too large for "Coord", but the
+        difference cannot */
+        r += triangle_winding<Coord>(first,prev,p);
         prev = p;
     }
 
     long_coord_t<Coord> close() {
-        return r + coord_ops<Coord>::mul(prev[0]-first[0],prev[1]+first[1]);
+        /* the triangle of "first", "prev" and "first" has no area */
+        return r;
     }
 };
 
-- 
2.43.0


From 18095482daa244a2adc83bd3c359596f7fbb0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 27/38] fix: hierarchies with tracked points could not be
 returned to Python

---
 py/_polyops.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 6f2f13a..7e0cb7a 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -449,7 +449,7 @@ cdef public object make_recur_loop(loop,children):
     return RecursiveLoop(loop,children)
 
 cdef public object make_tracked_recur_loop(loop,children,offsets,indices):
-    return RecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
+    return TrackedRecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
 
 cdef load_loop(clipper &c,loop,_bool_set bset,common_dtype,np.NPY_CASTING casting,i_point_tracker *pt):
     cdef np.ndarray ar
-- 
2.43.0


From f98972c6899684967c3343fdd8891a74216390cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 28/38] fix: add_offsets accepted invalid sets

---
 py/_polyops.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 7e0cb7a..92050fd 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -643,7 +643,7 @@ cdef class Clipper:
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip[0],loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        self.calc_dtype = load_offsets(self._clip[0],loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,NULL)
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
@@ -734,7 +734,7 @@ cdef class TrackedClipper:
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip.base,loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        self.calc_dtype = load_offsets(self._clip.base,loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
-- 
2.43.0


From d9a6f4563b2a9b92cec45be6ada023bc349ce9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 29/38] fix: loops added before one that was refused were left
 in an inconsistent state

---
 py/_polyops.pyx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 92050fd..56db1c9 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -638,12 +638,18 @@ cdef class Clipper:
     cdef _add_loops(self,loops,bset,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loops(self._clip[0],loops,to_bool_set(bset),self.calc_dtype,casting,NULL)
+        cdef _bool_set bset_raw = to_bool_set(bset)
+        for loop in loops:
+            # this is updated for every loop because the loops that come before
+            # one that cannot be loaded, stay loaded
+            self.calc_dtype = load_loop(self._clip[0],loop,bset_raw,self.calc_dtype,casting,NULL)
 
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip[0],loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        cdef _bool_set bset_raw = to_bool_set(bset)
+        for loop in loops:
+            self.calc_dtype = load_offset(self._clip[0],loop,bset_raw,magnitude,step_size,closed,self.calc_dtype,casting,NULL)
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
@@ -729,12 +735,18 @@ cdef class TrackedClipper:
     cdef _add_loops(self,loops,bset,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loops(self._clip.base,loops,to_bool_set(bset),self.calc_dtype,casting,self._clip.tracker.callbacks())
+        cdef _bool_set bset_raw = to_bool_set(bset)
+        for loop in loops:
+            # this is updated for every loop because the loops that come before
+            # one that cannot be loaded, stay loaded
+            self.calc_dtype = load_loop(self._clip.base,loop,bset_raw,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip.base,loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        cdef _bool_set bset_raw = to_bool_set(bset)
+        for loop in loops:
+            self.calc_dtype = load_offset(self._clip.base,loop,bset_raw,magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
-- 
2.43.0


From 08b0690d67fc8725f7b0df9d83b5f5cfca9d8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 30/38] fix: points of arrays with strides of zero were skipped

---
 py/common.pxd | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/common.pxd b/py/common.pxd
index 7ab98f7..4283ea0 100644
--- a/py/common.pxd
+++ b/py/common.pxd
@@ -23,7 +23,7 @@ cdef extern from *:
 
         char *data;
         npy_intp stride;
-        const char *run_end;
+        npy_intp remaining; // the number of items left in the current run
 
         polyops_npy_range(PyArrayObject *ar,int flag,NPY_CASTING casting) noexcept : itr{nullptr}, itr_next{nullptr}
         {
@@ -59,7 +59,7 @@ cdef extern from *:
         void read_pointers() {
             data = *data_ptr;
             stride = *stride_ptr;
-            run_end = data + *inner_size_ptr * stride;
+            remaining = *inner_size_ptr;
         }
 
         npy_point_iterator begin() noexcept;
@@ -74,7 +74,7 @@ cdef extern from *:
         polyops_npy_range *range;
 
         coord_t &operator[](npy_intp i) const noexcept {
-            assert((range->data + i*range->stride) != range->run_end);
+            assert(i < range->remaining);
             return *reinterpret_cast<coord_t*>(range->data + i*range->stride);
         }
 
@@ -104,7 +104,8 @@ cdef extern from *:
             assert(range && range->data);
 
             range->data += range->stride*2;
-            if(range->data == range->run_end) {
+            range->remaining -= 2;
+            if(range->remaining == 0) {
                 if(!(*range->itr_next)(range->itr)) range->data = nullptr;
                 else range->read_pointers();
             }
-- 
2.43.0


From cf64b6d0342506ee63785670a42aceaaa082a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 31/38] fix: copy open lines whose range has no common end
 before offsetting them

---
 include/poly_ops/offset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index d364c57..85ebb78 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -439,7 +439,7 @@ void add_offset(
         if(closed) {
             detail::_add_offset_closed(n,input,set,magnitude,arc_step_size,pt);
         } else {
-            if constexpr(std::ranges::bidirectional_range<Input>) {
+            if constexpr(std::ranges::bidirectional_range<Input> && std::ranges::common_range<Input>) {
                 detail::_add_offset_open(n,input,set,magnitude,arc_step_size,pt);
             } else if constexpr(std::ranges::common_range<Input>) {
                 std::pmr::vector<point_t<Coord>> buffer(std::ranges::begin(input),std::ranges::end(input),n.memory());
-- 
2.43.0


From 91977d67a6535cd74ec74ce216287b385b66e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:17 +0000
Subject: [PATCH 32/38] fix: negate points whose coordinates are promoted to
 int

---
 include/poly_ops/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/base.hpp b/include/poly_ops/base.hpp
index f65d48c..fa141e6 100644
--- a/include/poly_ops/base.hpp
+++ b/include/poly_ops/base.hpp
@@ -351,7 +351,7 @@ template<typename T> struct point_t {
     }
 
     constexpr point_t operator-() const {
-        return {-_data[0],-_data[1]};
+        return {static_cast<T>(-_data[0]),static_cast<T>(-_data[1])};
     }
 
     friend constexpr void swap(point_t &a,point_t &b) noexcept(std::is_nothrow_swappable_v<T>) {
-- 
2.43.0


From 009c17a9cbc58005f2483ca7dcff1bfdd7000090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:56 +0000
Subject: [PATCH 33/38] fix: clipper::execute on an r-value returns a result
 that owns its data

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index d7d44a2..bbd2532 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2063,7 +2063,7 @@ public:
      * Perform a boolean operation and return the result.
      */
     template<bool TreeOut=false> auto execute(bool_op op) && {
-        return execute<TreeOut,null_tracker<Coord,Index>>(op,{});
+        return std::move(*this).template execute<TreeOut,null_tracker<Coord,Index>>(op,{});
     }
 
     Index &next_orig_i() noexcept { return _next_orig_i; }
-- 
2.43.0


From 430ecd8d322135fb3d860469c5795ef879e32c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:51 +0000
Subject: [PATCH 34/38] fix: running out of memory while adding points is
 reported instead of terminating the program

---
 include/poly_ops/clip.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index bbd2532..5c44645 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2097,11 +2097,16 @@ void clipper<Coord,Index>::point_sink::finalize_prev() {
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index orig_i) {
     n._next_orig_i = orig_i + 1;
-    if(started) {
-        // consecutive duplicates are ignored
-        if(p == prev) return;
-        finalize_prev();
+    // consecutive duplicates are ignored
+    if(started && p == prev) return;
+
+    /* the destructor adds the last point and must not throw, so there has to be
+    room for that point as well */
+    if(n.lpoints.capacity() - n.lpoints.size() < 2) {
+        n.lpoints.reserve(std::max(n.lpoints.capacity() * 2,n.lpoints.size() + 2));
     }
+
+    if(started) finalize_prev();
     prev = p;
     prev_orig_i = orig_i;
     started = true;
-- 
2.43.0


From 966c81b952704af2e184f0404de9a4a9bc10c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:51 +0000
Subject: [PATCH 35/38] fix: clipper takes the memory for the nodes of the
 sweep set from the memory resource it was given

---
 include/poly_ops/clip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 5c44645..193ce68 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1937,6 +1937,7 @@ public:
         lpoints(contig_mem),
         samples(contig_mem),
         events(contig_mem),
+        sweep_nodes(contig_mem),
         breaks(contig_mem,&discrete_mem),
         _next_orig_i(0),
         ran(false),
-- 
2.43.0


From c7bc4c2d861e18b669cf693506a984e677edfe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:06 +0000
Subject: [PATCH 36/38] fix: arranging loops does not copy the result with
 memory from the default resource

---
 include/poly_ops/clip.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 193ce68..a3171c8 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1442,7 +1442,7 @@ void replace_line_indices_with_loop_indices(
 }
 
 template<typename Index>
-std::pmr::vector<temp_polygon<Index>*> arrange_loops(
+void arrange_loops(
     const intr_array_t<Index> &ordered_loops,
     std::pmr::vector<temp_polygon<Index>> &loops,
     std::pmr::vector<temp_polygon<Index>*> &top)
@@ -1471,8 +1471,6 @@ std::pmr::vector<temp_polygon<Index>*> arrange_loops(
             else top.push_back(&loops[item.p]);
         }
     }
-
-    return top;
 }
 
 /* after calling this function, the items of "samples" are left in an
-- 
2.43.0


From fb8d2d4443d4e1ff1ba2cb23051b12ee65b69cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:30 +0000
Subject: [PATCH 37/38] fix: original point sets were stored in misaligned
 memory when the index type is smaller than a pointer

---
 include/poly_ops/mini_flat_set.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 849928c..fef2985 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -31,17 +31,26 @@ class mini_flat_set {
         data_t *data;
     } u;
 
+    /* the alignment of data_t can be greater than that of T */
+    struct storage_t {
+        alignas(data_t) unsigned char bytes[alignof(data_t)];
+    };
+    using storage_alloc_t = typename alloc_traits::template rebind_alloc<storage_t>;
+    using storage_traits = std::allocator_traits<storage_alloc_t>;
+
     static std::size_t alloc_size(std::size_t n) {
-        return n + (offsetof(data_t,items) + sizeof(T) - 1) / sizeof(T);
+        return (offsetof(data_t,items) + n * sizeof(T) + sizeof(storage_t) - 1) / sizeof(storage_t);
     }
 
     static data_t *alloc_data(Allocator &alloc,std::size_t n) {
-        data_t *r = reinterpret_cast<data_t*>(alloc_traits::allocate(alloc,alloc_size(n)));
+        storage_alloc_t s_alloc(alloc);
+        data_t *r = reinterpret_cast<data_t*>(storage_traits::allocate(s_alloc,alloc_size(n)));
         r->capacity = n;
         return r;
     }
     static void dealloc_data(Allocator &alloc,data_t *d) {
-        alloc_traits::deallocate(alloc,reinterpret_cast<T*>(d),alloc_size(d->capacity));
+        storage_alloc_t s_alloc(alloc);
+        storage_traits::deallocate(s_alloc,reinterpret_cast<storage_t*>(d),alloc_size(d->capacity));
     }
 
     template<std::input_iterator InputIt>
-- 
2.43.0


From bb28dbdb1a06cde59d1d79e32af31063e1cc0f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:25 +0000
Subject: [PATCH 38/38] fix: the free functions took a pointer to a class
 derived from memory_resource for a tracker, which did not compile

---
 include/poly_ops/clip.hpp   | 3 +++
 include/poly_ops/offset.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index a3171c8..320d496 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2649,6 +2649,7 @@ public:
  * `Tracker` must satisfy `point_tracker<Coord,Index>`.
  */
 template<bool TreeOut,typename Coord,typename Index=std::size_t,typename Input,typename Tracker>
+requires(point_tracker<Tracker,Coord,Index>)
 std::conditional_t<TreeOut,
     temp_polygon_tree_range<Coord,Index,Tracker>,
     temp_polygon_range<Coord,Index,Tracker>>
@@ -2694,6 +2695,7 @@ auto union_op(Input &&input,std::pmr::memory_resource *contig_mem=nullptr) {
  * `Tracker` must satisfy `point_tracker<Coord,Index>`.
  */
 template<bool TreeOut,typename Coord,typename Index=std::size_t,typename Input,typename Tracker>
+requires(point_tracker<Tracker,Coord,Index>)
 std::conditional_t<TreeOut,
     temp_polygon_tree_range<Coord,Index,Tracker>,
     temp_polygon_range<Coord,Index,Tracker>>
@@ -2744,6 +2746,7 @@ auto normalize_op(Input &&input,std::pmr::memory_resource *contig_mem=nullptr) {
  * `Tracker` must satisfy `point_tracker<Coord,Index>`.
  */
 template<bool TreeOut,typename Coord,typename Index=std::size_t,typename SInput,typename CInput,typename Tracker>
+requires(point_tracker<Tracker,Coord,Index>)
 std::conditional_t<TreeOut,
     temp_polygon_tree_range<Coord,Index,Tracker>,
     temp_polygon_range<Coord,Index,Tracker>>
diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 85ebb78..2f707a7 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -518,6 +518,7 @@ void add_offset_clip(
 }
 
 template<bool TreeOut,typename Coord,typename Index=std::size_t,typename Input,typename Tracker>
+requires(point_tracker<Tracker,Coord,Index>)
 std::conditional_t<TreeOut,
     temp_polygon_tree_range<Coord,Index,Tracker>,
     temp_polygon_range<Coord,Index,Tracker>>
-- 
2.43.0

