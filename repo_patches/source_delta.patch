From b0fca5d6a9075c4c6dbd7ebae27ab46f29390d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 001/215] fix: scale() about a center must leave that center
 fixed

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 807fc49..2f80147 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4137,9 +4137,9 @@ def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
         if vclose(cent,point(0,0,0)):
             mat = xform.Scale(sx,sy,sz)
         else:
-            mat = xform.Translation(cent,inverse=True)
+            mat = xform.Translation(cent)
             mat = mat.mul(xform.Scale(sx,sy,sz))
-            mat = mat.mul(xform.Translation(cent))
+            mat = mat.mul(xform.Translation(cent,inverse=True))
 
     if ispoint(x):
         return mat.mul(x)
-- 
2.43.0


From d0fb48ea7f8b7ee9c69633c5fdfffa88bedd9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 002/215] fix: xform.Rotation crashed on non-unit rotation axes

---
 src/yapcad/xform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index d25a419..126e089 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -204,7 +204,7 @@ def Rotation(axis,angle,inverse=False):
     if m < geom.epsilon:
         raise ValueError('zero-length rotation axis not allowed')
     if not geom.close(m,1.0):
-        u = geom.geom.scale3(axis,1.0/m)
+        u = geom.scale3(axis,1.0/m)
 
     if inverse:
         angle *= -1.0
-- 
2.43.0


From 2a3bd7fc122ae0dbb3e1a086aec0e97022396127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 003/215] fix: mirror() of arcs: keep xy-mirrored span, and
 mirror the sampling direction in plane

---
 src/yapcad/geom.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2f80147..1ff0136 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3505,7 +3505,8 @@ def reverseGeomList(gl):
             rgl.insert(0,line(g[1],g[0]))
         elif isarc(g):
             c = deepcopy(g)
-            c[1][3] = -2 # set samplereverse flag
+            # toggle samplereverse flag
+            c[1][3] = -1 if c[1][3] == -2 else -2
             rgl.insert(0,c)
         elif ispoly(g):
             ply = deepcopy(g).reverse()
@@ -4272,7 +4273,10 @@ def mirror(x,plane):
         a2[0] = mul(x[0],flip)
         start = x[1][1]
         end  = x[1][2]
-        if not (start == 0 and end == 360):
+        if plane != 'xy':
+            ## in-plane mirroring reverses the sampling direction
+            a2[1][3] = -1 if x[1][3] == -2 else -2
+        if plane != 'xy' and not (start == 0 and end == 360):
             ## mirror the arc segment
             ps = point(cos(start*pi2/360.0),sin(start*pi2/360.0))
             pe = point(cos(end*pi2/360.0),sin(end*pi2/360.0))
-- 
2.43.0


From c2aa118428e3a398f8bd34e3aedb091dfa4a281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 004/215] fix: sample/unsample arcs over the same sweep
 arclength() measures

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 1ff0136..b821e4f 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2413,7 +2413,7 @@ def samplearc(c,u,polar=False):
     w=c[1][3]
     if w == -2: # if arc is flagged as sample-reversed, flip u
         u=1.0-u
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
@@ -2464,7 +2464,7 @@ def unsamplearc(c,p):
     #     start = 0
     #     end = 360
         
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
-- 
2.43.0


From a04b5a34431e2e8e16f4c633f5a6205200552f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 005/215] fix: arc bounding box must contain the whole arc

---
 src/yapcad/geom.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index b821e4f..944a632 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2493,10 +2493,16 @@ def arcbbox(c):
         rr=point(c[1][0],c[1][0])
         return [sub(c[0],rr),add(c[0],rr)]
     else:
-        pp = []
-        for i in range(5):
-            u = i/4
-            pp.append(samplearc(c,u))
+        pp = [ samplearc(c,0.0), samplearc(c,1.0) ]
+        start = c[1][1] % 360.0
+        end = c[1][2] % 360.0
+        if end < start:
+            end += 360.0
+        # extreme points of the circle which fall within the sweep
+        for i,d in enumerate([[1,0],[0,1],[-1,0],[0,-1]]):
+            ang = i*90.0
+            if start <= ang <= end or start <= ang+360.0 <= end:
+                pp.append(add(c[0],point(c[1][0]*d[0],c[1][0]*d[1])))
         return polybbox(pp)
 
 def isinsidearcXY(c,p):
-- 
2.43.0


From 3c6ca3e030dfb69183c39239627276ba0ee59044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 006/215] fix: line-arc intersection must honor the line
 segment and not drop or crash on end/near-tangent hits

---
 src/yapcad/geom.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 944a632..742753c 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2791,19 +2791,24 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     ## Check to see if we are within epsilon, scaled by the length of the line
     if mpm.fabs(d) < mpm.sqrt(a)*2*mpepsilon: # one point of intersection
         b0 = -b/(2*a)
-        b1 = False
-    elif d < 0:
-        print("value of d: ",d,"  value of sqrt(a)*epsilon",sqrt(a)*epsilon)
-        raise ValueError("imaginary solution to circle line intersection -- shouldn't happen here")
+        b1 = None
+    elif d < 0: # line passes within epsilon outside the circle: tangent
+        b0 = -b/(2*a)
+        b1 = None
     else: # two points of intersection
         b0 = (-b + mpm.sqrt(d))/(2*a)
         b1 = (-b - mpm.sqrt(d))/(2*a)
 
     # use computed parameters to calculate solutions, still in
     # circle-at-origin coordinates
-    s = [ add(scale3(V,float(b0)),p1) ]
-    if b1:
-        s = s + [ add(scale3(V,float(b1)),p1) ]
+    bb = [ float(b0) ]
+    if b1 is not None:
+        bb = bb + [ float(b1) ]
+    if inside and not params:
+        # only solutions within the line segment are of interest
+        tol = epsilon/float(mpm.sqrt(a))
+        bb = [ q for q in bb if q >= -tol and q <= 1.0+tol ]
+    s = [ add(scale3(V,q),p1) for q in bb ]
 
     if not inside or circle or params:              # transform back into world
                                           # coordinates
@@ -2815,6 +2820,8 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
                 uu1 = uu1 + [ unsampleline(l,pp[i]) ]
                 uu2 = uu2 + [ unsamplearc(c,pp[i]) ]
             return [uu1, uu2]
+        elif len(pp) == 0:
+            return False
         else:
             return pp
 
-- 
2.43.0


From e60000325e6e1bc4662030f6b6c45fb8b029d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 007/215] fix: polyline intersections: two-segment polylines,
 poly/poly parameter order, arc/arc wrap typo

---
 src/yapcad/geom.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 742753c..e341ef3 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2666,7 +2666,7 @@ def _arcArcIntersectXY(c1,c2,inside=True,params=False):
             uparam1 = uparam1 + [ u1 ]
                 
             if end2 <= 360.0 or ang2 >= start2 or \
-               ( end2 > 360.0 and ang2 > end1-360.0):
+               ( end2 > 360.0 and ang2 > end2-360.0):
                 u2 = (ang2-start2)/(end2-start2)
                 if sr2:
                     u2 = 1.0-u2
@@ -3299,7 +3299,7 @@ def intersectSimplePolyXY(g,a,inside=True,params=False):
         else:
             return lineArcIntersectXY(lines[0],g,inside,params)
     dst = 0.0
-    if len(lines) > 2:
+    if len(lines) > 1:
         for i in range(len(lines)):
             if LINE:
                 uu = lineLineIntersectXY(lines[i],g,params=True)
@@ -4416,7 +4416,8 @@ def intersectXY(g1,g2,inside=True,params=False):
             closed = False
             if len(g1) > 2 and dist(g1[0],g1[-1]) < epsilon:
                 closed= True
-            uu1s = uu2s = []
+            uu1s = []
+            uu2s = []
             pnts = []
             lines, lengths, leng =  __lineslength(g1)
             if lines == []:
@@ -4441,9 +4442,10 @@ def intersectXY(g1,g2,inside=True,params=False):
                                    (uu[0][j] >= 0.0 and uu[0][j] <= 1.0) and \
                                    (uu[1][j] >= 0.0 and uu[1][j] <= 1.0):
                                     pnts.append(sample(g2,uu[1][j]))
+                dst = dst+lengths[i]
             if params:
                 if len(uu1s) > 0:
-                    return [ uu2s, uu1s]
+                    return [ uu1s, uu2s]
                 else:
                     return False
             else:
-- 
2.43.0


From db388db07204a7dc81a0c27d8c4662ee4dc6b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 008/215] fix: geometry-list intersections for nested lists,
 polylines and single-element lists

---
 src/yapcad/geom.py | 58 ++++------------------------------------------
 1 file changed, 4 insertions(+), 54 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index e341ef3..ed6eef0 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3678,7 +3678,7 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
             return 'simple'
         elif ispoly(geom):
             return 'poly'
-        elif isgeomlist(g):
+        elif isgeomlist(geom):
             return 'glist'
         else:
             return False
@@ -3690,25 +3690,8 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
     uu2s = []
     lengths, leng = __geomlistlength(gl)
     if len(gl) == 1:
-        if gtype == 'simple':
-            return _intersectSimpleXY(g,gl[0],inside,params)
-        if gtype == 'poly':
-            r = intersectSimplePolyXY(gl[0],g,inside,params)
-            if params:
-                return [ r[1], r[0] ]
-            else:
-                return r
-        if gtype == 'glist':
-            r = intersectGeomListXY(gl[0],g,inside,params)
-            if params:
-                if isinstance(r,bool):
-                    return r
-                return [ r[1], r[0] ]
-            else:
-                return r
-        else:
-            raise ValueError('bad gtype in intersectGeomListXY, this should never happen')
-        
+        return intersectXY(g,gl[0],inside,params)
+
     dst = 0.0
     if len(gl) > 1:
         for i in range(len(gl)):
@@ -3725,41 +3708,8 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
                 except ValueError:
                     print('simple intersection problem with: ',vstr(g),' and ',vstr(g2))
                     raise
-            elif gtype == 'simple' and  gtype2 == 'poly':
-                uu = intersectSimplePolyXY(g,g2,params=True)
-            elif gtype == 'poly' and gtype2 == 'simple':
-                z = intersectSimplePolyXY(g2,g,params=True)
-                if not isinstance(z,bool):
-                    uu = [z[1],z[0]]
-            elif gtype == 'poly' and gtype2 == 'poly':
-                zz1 = []
-                zz2 = []
-                for j in range(1,len(g)):
-                    zz = intersectSimplePolyXY(line(g[j-1],g[j]),
-                                               g2, params=True)
-                    if not isinstance(zz,bool):
-                        zz1 = zz1 + zz[0]
-                        zz2 = zz2 + zz[1]
-                if len(zz1) > 0:
-                    uu = [ zz1,zz2 ]
-            elif gtype == 'simple' and gtype2 == 'glist':
-                uu = intersectGeomListXY(g,g2,params=True)
-            elif gtype == 'glist' and gtype2 == 'simple':
-                z = intersectGeomListXY(g2,g,params=True)
-                if not isinstance(z,bool):
-                    uu = [z[1],z[0]]
-            elif gtype == 'glist' and gtype2 == 'glist':
-                zz1 = []
-                zz2 = []
-                for gg in g:
-                    zz = intersectGeomListXY(gg,g2,params=True)
-                    if not isinstance(z,bool):
-                        zz1.append(zz[0])
-                        zz2.append(zz[1])
-                if len(zz1) > 0:
-                    uu = [zz1,zz2 ]
             else:
-                raise ValueError('Aaaaahhhhh.... this should never happen')
+                uu = intersectXY(g,g2,inside,params=True)
 
             ## if there was at least one intersection
             if not isinstance(uu,bool) and len(uu) > 0:
-- 
2.43.0


From 9417282a98b372f067fb66a562eb4fcf9ce7df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 009/215] fix: even-odd inside tests must not be fooled by test
 lines through vertices; open polylines only contain their own points

---
 src/yapcad/geom.py | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index ed6eef0..4b15ed8 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3116,25 +3116,28 @@ def isinsidepolyXY(a,p):
     ## if not closed, use "unsample" test to determine if ``p`` lies
     ## on the polyline
     if not closed:
-        if unsamplepoly(a,p) == False:
-            return False
-        else:
-            return True
+        return any(isinsidelineXY(line(a[i-1],a[i]),p)
+                   for i in range(1,len(a)) if dist(a[i-1],a[i]) > epsilon)
     ## poly is closed polygon
     bb = polybbox(a)
     ## do quick bounding box check
     if not isinsidebbox(bb,p):
         return False
     ## inside the bounding box, do intersection testing
-    p2 = add([0.01,0.01,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
-    pp = intersectSimplePolyXY(l,a)
-    if pp == False:
-        return False
-    return len(pp) % 2 == 1
+    return _evenOddInsideXY(a,p,bb,intersectSimplePolyXY)
+
+## even-odd test for point p known to lie in bounding box bb. A single
+## test line can graze a vertex or run along an edge, so take the
+## majority of several lines to different points outside the box.
+def _evenOddInsideXY(a,p,bb,intersect):
+    dx = bb[1][0]-bb[0][0]+1.0
+    dy = bb[1][1]-bb[0][1]+1.0
+    votes = 0
+    for fx,fy in ((1.0,0.1234567),(-0.2718282,1.0),(-1.0,-0.3141593)):
+        pp = intersect(line(p,add(p,point(fx*dx,fy*dy))),a)
+        if pp != False and len(pp) % 2 == 1:
+            votes += 1
+    return votes >= 2
 
 ## is it a polygon with all points in the same x-y plane
 def ispolygonXY(a):
@@ -3628,16 +3631,7 @@ def isinsidegeomlistXY(a,p):
     bb = geomlistbbox(a)
     if not isinsidebbox(bb,p):
         return False
-    p2 = add([0.1,0.1,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
-
-    pp = intersectGeomListXY(l,a)
-    if pp == False:
-        return False
-    return len(pp) % 2 == 1
+    return _evenOddInsideXY(a,p,bb,intersectGeomListXY)
 
 
 ## determint if the contents of a geometry list lie in the same x-y
-- 
2.43.0


From 875bf87d1e5508644de818d3b0645492b2890f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 010/215] fix: isinsideXY of an open arc is true only on the
 arc, as documented

---
 src/yapcad/geom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 4b15ed8..e0c1778 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2515,10 +2515,10 @@ def isinsidearcXY(c,p):
 
     x = c[0]
     r = c[1][0]
-    if dist(x,p) > r:
-        return False
     if iscircle(c):
-        return True
+        return dist(x,p) <= r
+    if abs(dist(x,p) - r) > epsilon:
+        return False
     start = c[1][1]%360.0
     end = c[1][2]%360.0
     if end < start:
-- 
2.43.0


From 2144fef8d872013788637d430448d17f9f934d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 011/215] fix: reversing polylines (segment with u1>u2,
 reverseGeomList) used the None result of list.reverse()

---
 src/yapcad/geom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index e0c1778..5b32e1c 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3218,7 +3218,8 @@ def segmentpoly(a,u1,u2):
         if u1 < 0 or u2 < 0 or u1 > 1 or u2 > 1:
             raise ValueError('parameters fall outside 0,1 interval: {},{}'.format(u1,u2))
     if u2 < u1:
-        a = deepcopy(a).reverse()
+        a = deepcopy(a)
+        a.reverse()
         u1 = 1.0-u1
         u2 = 1.0-u2
         
@@ -3525,7 +3526,8 @@ def reverseGeomList(gl):
             c[1][3] = -1 if c[1][3] == -2 else -2
             rgl.insert(0,c)
         elif ispoly(g):
-            ply = deepcopy(g).reverse()
+            ply = deepcopy(g)
+            ply.reverse()
             rgl.insert(0,ply)
         elif isgeomlist(g):
             rgl.insert(0,reverseGeomList(g))
-- 
2.43.0


From 08305a1a263c64dc4f0b5f7e9d88d69fd2a844c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 012/215] fix: unsample() of geometry lists raised
 NameError/TypeError

---
 src/yapcad/geom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 5b32e1c..99fba35 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3477,7 +3477,7 @@ def unsamplegeomlist(gl,p):
     False if the point is more than epsilon away from any poly line
     segment
     """
-    if not isgeomlist(g):
+    if not isgeomlist(gl):
         raise ValueError('non geometry list passed to unsamplegeomlist')
 
     lengths,leng = __geomlistlength(gl)
@@ -3496,14 +3496,14 @@ def unsamplegeomlist(gl,p):
                 uu = unsample(gl[i],p)
                 if (not isinstance(uu,bool)
                     and uu >= 0.0 and uu < 1.0):
-                    return (uu*lengths[i]+dst)/length
+                    return (uu*lengths[i]+dst)/leng
                 else:
                     dst = dst+lengths[i]
         uu2 = unsample(gl[-1],p)
         
         if (not isinstance(uu2,bool) and
             uu2 >= 0.0 and uu2 <= 1.0):
-            return (uu2*lengths[-1]+dst)/length
+            return (uu2*lengths[-1]+dst)/leng
         else:
             return False
 
-- 
2.43.0


From 28501993d5496975f77e9c7da3a952433cf4552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 013/215] fix: sampling a polyline or geometry list that starts
 or ends with a zero-length element divided by zero

---
 src/yapcad/geom.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 99fba35..7ca3595 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3183,6 +3183,11 @@ def samplepoly(a,u):
 
     if closed:
         u=u%1.0
+
+    # ignore zero-length lines for sampling purposes
+    if 0.0 in lengths and length > 0.0:
+        lines = [ l for l,d in zip(lines,lengths) if d > 0.0 ]
+        lengths = [ d for d in lengths if d > 0.0 ]
         
     dst = u * length;
     d = 0
@@ -3454,6 +3459,11 @@ def samplegeomlist(gl,u):
         raise ValueError('non-geomlist passed to samplegeomlist')
     
     lengths,leng = __geomlistlength(gl)
+
+    # ignore points and other zero-length elements for sampling purposes
+    if 0.0 in lengths and leng > 0.0:
+        gl = [ g for g,l in zip(gl,lengths) if l > 0.0 ]
+        lengths = [ l for l in lengths if l > 0.0 ]
         
     dst = u * leng
     d = 0
-- 
2.43.0


From a57ba56d6bd6e1adc86de2f44f45d20be1749712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 014/215] fix: linePointXY(params=True) returned 1-u, unsigned

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 7ca3595..a6be34e 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2206,14 +2206,14 @@ def linePointXY(l,p,inside=True,distance=False,params=False):
             if distance:
                 return d1
             elif params:
-                return d1pb/abdist
+                return dot(sub(p,a),dir)/abdist
             else:
                 return pi1
         else:
             if distance:
                 return d2
             elif params:
-                return d2pb/abdist
+                return dot(sub(p,a),dir)/abdist
             else:
                 return pi2
         
-- 
2.43.0


From 043376d1d873bc7628aafab6e6094aa75067f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 015/215] fix: line-line intersection missed short non-parallel
 segments (absolute parallel tolerance)

---
 src/yapcad/geom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index a6be34e..d87007a 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2090,7 +2090,8 @@ def lineLineIntersectXY(l1,l2,inside=True,params=False):
 
     ## do lines intersect anywhere?
     denom=(x1-x2)*(y3-y4)-(y1-y2)*(x3-x4)
-    if denom*denom < epsilon:
+    ## (parallel test is relative to the line lengths)
+    if abs(denom) <= epsilon*sqrt(((x1-x2)**2+(y1-y2)**2)*((x3-x4)**2+(y3-y4)**2)):
         return False
 
     ## the lines do intersect, so let's see if they intersect
-- 
2.43.0


From 5c3184edc3721de5fb96f61e0dec54a3104e4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 016/215] fix: unsample() of a line compares the distance from
 the line, not a length-scaled value, with epsilon

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index d87007a..2baf6b2 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2034,10 +2034,10 @@ def unsampleline(l,p):
     v2 = sub(p,l[0])
     z = cross(v1,v2)            # magnitude of cross product is zero
                                 # if vectors parallel
-    if mag(z) > epsilon:        #  not parallel case
-        return False
     len1 = mag(v1)
     len2 = mag(v2)
+    if mag(z) > epsilon*len1:   #  not parallel case
+        return False
     if dot(v1,v2) > 0:
         return len2/len1
     else:
-- 
2.43.0


From 3e284f62cdf871bceca1fdcf3a0f13bf6b2561e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 017/215] fix: geometry lists accept every supported curve type

---
 src/yapcad/geom.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2baf6b2..183a7e2 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3400,6 +3400,8 @@ def isgeomlist(a):
     b = list(filter(lambda x: not (ispoint(x) or isline(x) \
                                    or isarc(x) or isellipse(x) or ispoly(x) \
                                    or iscatmullrom(x) or isnurbs(x) \
+                                   or isbezier(x) or isbspline(x) \
+                                   or isparabola(x) or ishyperbola(x) \
                                    or isgeomlist(x)),a))
     return not len(b) > 0
 
@@ -3624,7 +3626,11 @@ def geomlistbbox(gl):
             ply = ply + arcbbox(g)
         elif isellipse(g):
             ply = ply + ellipse_bbox(g)
-        elif iscatmullrom(g) or isnurbs(g):
+        elif isparabola(g):
+            ply = ply + parabola_bbox(g)
+        elif ishyperbola(g):
+            ply = ply + hyperbola_bbox(g)
+        elif iscatmullrom(g) or isnurbs(g) or isbezier(g) or isbspline(g):
             segs = 64
             for i in range(segs + 1):
                 ply.append(sample(g, i / segs))
-- 
2.43.0


From e42db39dd93d5910c0e923abc744d46f22e3c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 018/215] fix: copied transformation matrices shared row
 storage with the original

---
 src/yapcad/xform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index 126e089..f9398d2 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -149,7 +149,7 @@ class Matrix:
             self.m[2][i] = x[2]
             self.m[3][i] = x[3]
         else:
-            self.m[i] = x
+            self.m[i] = list(x)
         
     def setcol(self,j,x):
         if not geom.isvect(x):
@@ -162,7 +162,7 @@ class Matrix:
             self.m[2][j] = x[2]
             self.m[3][j] = x[3]
         else:
-            self.m[j] = x
+            self.m[j] = list(x)
         
 
     # matrix multiply.  If x is a matrix, compute MX.  If x is a
-- 
2.43.0


From 6f9d663cb9bb08b3e3bc0ca176dd588df564032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 019/215] fix: unsample() at arc end points and on zero-length
 lines

---
 src/yapcad/geom.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 183a7e2..b3ff6ad 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2036,6 +2036,8 @@ def unsampleline(l,p):
                                 # if vectors parallel
     len1 = mag(v1)
     len2 = mag(v2)
+    if len1 == 0.0: # degenerate, zero-length line
+        return 0.0 if len2 < epsilon else False
     if mag(z) > epsilon*len1:   #  not parallel case
         return False
     if dot(v1,v2) > 0:
@@ -2482,6 +2484,11 @@ def unsamplearc(c,p):
     ang = (atan2(x[1],x[0]) % pi2)*360/pi2
     if end > 360.0 and ang <= end-360.0:
         ang = ang + 360.0
+    # absorb angle roundoff at the ends of the arc
+    for a in (start,end):
+        if abs((ang-a+180.0)%360.0-180.0) < 1e-9:
+            ang = a
+            break
     u = (ang-start)/(end-start)
     if c[1][3] == -2: #samplereverse
         u = 1.0-u
-- 
2.43.0


From 3492454e0175ba2e7dbf7f0e52817a65d8ea9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 020/215] fix: convex polygon membership skipped part of
 polygons with more than three vertices

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index b3ff6ad..24c8a91 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3803,7 +3803,7 @@ def _isInsideConvexPolyXY(a,poly): #no value checking version
         return _isInsideTriangleXY(a,poly)
     else:
         return _isInsideTriangleXY(a,poly[0:3]) or \
-               _isInsideConvexPolyXY(a,poly[1:len(poly)])
+               _isInsideConvexPolyXY(a,[poly[0]] + poly[2:len(poly)])
 
 # value-safe wrapper for convex polygon inside testing function
 def isInsideConvexPolyXY(a,poly):
-- 
2.43.0


From 93ebe903b97f3aa4774264ff07d3aa29a559ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 021/215] fix: linePointXY picked the mirrored foot point (or
 missed the segment) for points close to the line

---
 src/yapcad/geom.py | 70 +++++++---------------------------------------
 1 file changed, 10 insertions(+), 60 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 24c8a91..975d62d 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2170,73 +2170,23 @@ def linePointXY(l,p,inside=True,distance=False,params=False):
     if not inside and distance:
         return linedist
     
-    ## find out where the intersection between the original line and a
-    ## line defined by the point and an orthogonal direction vector
-    ## is.  We do this by constructing two direction vectors
-    ## orthogonal to the orgiginal line scaled by the line distance,
-    ## and adding them to the point in question.  Assuming that the
-    ## line distance is not zero, only one of these constructed points
-    ## will fall on the line
-
-    ## compute unit direction vector for original line
+    ## compute unit direction vector for original line, and project the
+    ## point onto the line
     dir = sub(b,a)
     dir = scale3(dir,1.0/mag(dir))
+    along = dot(sub(p,a),dir)
+    foot = add(a,scale3(dir,along))
 
-    ## compute two orthogonal direction vectors of length linedist
-    ordir1 = scale3(orthoXY(dir),linedist)
-    ordir2 = scale3(ordir1, -1.0)
-    
-    ## there are two possible intersection points
-    pi1 = add(p,ordir1)
-    pi2 = add(p,ordir2)
-
-    ## compute distances
-    d1pa = dist(a,pi1)
-    d1pb = dist(pi1,b)
-    d1 =  d1pa+d1pb # "triangle" with pi1
-
-    d2pa = dist(a,pi2)
-    d2pb = dist(pi2,b)
-    d2 =  d2pa+d2pb # "triangle" with pi2
-
-    ## the shortest "triangle" distance will signal the point that
-    ## is actually on the line, even if that point falls outside
-    ## the a,b line interval
-    
-    if params or not inside: # if we don't care about being inside the
-                             # line segment
-        if d1 <= d2:
-            if distance:
-                return d1
-            elif params:
-                return dot(sub(p,a),dir)/abdist
-            else:
-                return pi1
-        else:
-            if distance:
-                return d2
-            elif params:
-                return dot(sub(p,a),dir)/abdist
-            else:
-                return pi2
-        
-    
-    ## if the closest point on the line to point p lies between
-    ## the endpoints of the line, then either d1 or d2 will equal
-    ## abdist.  IF neither do, then we know that the closest point lies
-    ## outside the endpoints
-
-    if abs(d1-abdist) < epsilon:
-        if distance:
-            return linedist
-        else:
-            return pi1
+    if params:
+        return along/abdist
 
-    if  abs(d2-abdist) < epsilon:
+    ## if we don't care about being inside the line segment, or the
+    ## projected point lies between the end points, we are done
+    if not inside or (along >= 0.0 and along <= abdist):
         if distance:
             return linedist
         else:
-            return pi2
+            return foot
 
     ## closest point is outside the interval.  That means that the
     ## distance from point p to whichever endpoint is smaller is the
-- 
2.43.0


From 9a9446392e280687065b68d0a6ec6c2fc8687275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 022/215] fix: 2D booleans paired crossings heuristically;
 classify every section of both outlines instead

---
 src/yapcad/geom_util.py | 245 +++++++++-------------------------------
 1 file changed, 53 insertions(+), 192 deletions(-)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 63616ad..a20325a 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -665,193 +665,51 @@ def combineglist(g1,g2,operation):
 
     if inter != False and (inter[0] == False or inter[1] == False):
         raise ValueError('bad intersection list: ',inter)
-    # Given parameter values that define two potential sub-arcs of
-    # a figure, determine which sub-arc is valid by looking for
-    # intersections between these parameter values. In the
-    # condition where u2 is smaller than u1, it's possible that
-    # this represents an arc in the counter-clockwise direction
-    # between u2 and u1.  It also could represent a clockwise arc
-    # that "wraps around" from u1 to (u2+1).  We will check for
-    # values x1, x2 in ilist that are u2 < x1 < u1 and u1 < x2 <
-    # (u2+1.0).  The existance of x1 or x2 rules out the
-    # corresponding arc.  If neither x1 nor x2 exists, we bias
-    # towards the counter-clockwise arc.
-
-    def between(u1,u2,ilist):
-        if len(ilist) < 2:
-            raise ValueError('bad ilist')
-            
-        if u1 > u2 :
-            if len(ilist) == 2:
-                return u1,u2+1.0,False
-            x1s = list(filter(lambda x: x > u2 and x < u1,ilist))
-            x2s = list(filter(lambda x: x > u1 or x < u2,ilist))
-            l1 = len(x1s)
-            l2 = len(x2s)
-            #print("u1: ",u1," u2: ",u2," ilist: ",ilist," x1s: ",x1s," x2s: ",x2s)
-            #if l1 > 0 and l2 > 0:
-            #    print('WARNING: intersections on both sides')
-
-            if l1 > l2:
-                # print("AA")
-                if True or operation == 'union':
-                    return u1,u2+1.0,False
-                else:
-                    return u2,u1,True
-            else:
-                # print("A-")
-                return u2,u1,True
-
-        else:
-            if len(ilist) == 2:
-                return u1,u2,False
-            x1s = list(filter(lambda x: x > u1 and x < u2,ilist))
-            x2s = list(filter(lambda x: x > u2 or x < u1,ilist))
-            l1 = len(x1s)
-            l2 = len(x2s)
-            #print("u1: ",u1," u2: ",u2," ilist: ",ilist," x1s: ",x1s," x2s: ",x2s)
-            #if l1 > 0 and l2 > 0:
-            #    print('WARNING: intersections on both sides')
-                
-            if l1 > l2:
-                # print("BB")
-
-                if True or operation == 'union':
-                    return u2,u1+1,False
+    ## the two figures cut each other into sections; a section is kept
+    ## (or not) as a whole, depending on whether it lies inside, outside
+    ## or on the outline of the other figure
+
+    def sections(us):
+        """consecutive pairs of crossing parameters, in outline order"""
+        us = sorted(us)
+        secs = []
+        for i in range(len(us)):
+            u1 = us[i]
+            u2 = us[i+1] if i+1 < len(us) else us[0]+1.0
+            if not close(u1,u2):
+                secs.append((u1,u2))
+        return secs
+
+    def classify(g,sec,other):
+        """where does section ``sec`` of ``g`` lie relative to ``other``?"""
+        votes = {'in':0,'out':0,'same':0,'opposed':0}
+        for i in range(5):
+            t = (i+1)/6.0
+            u = ((1.0-t)*sec[0]+t*sec[1])%1.0
+            p = sample(g,u)
+            if unsample(other,p) is not False:
+                # common boundary: are the two interiors on the same side?
+                d = sub(sample(g,min(u+1e-4,1.0)),sample(g,max(u-1e-4,0.0)))
+                if mag(d) < epsilon:
+                    continue
+                q = add(p,scale3(orthoXY(d),0.001/mag(d)))
+                if isinsideXY(g,q) == isinsideXY(other,q):
+                    votes['same'] += 1
                 else:
-                    return u1,u2,False
+                    votes['opposed'] += 1
+            elif isinsideXY(other,p):
+                votes['in'] += 1
             else:
-                # print("B-")
-                return u1,u2,False
-            
-
-    ## utility to perform combination on one "segment"
-    def cmbin(g1,g2,itr):
-        if not isgeomlist(g1):
-            g1 = [ g1 ]
-
-        if not isgeomlist(g2):
-            g2 = [ g2 ]
-        
-        g1s = itr[0][0]
-        g1e = itr[0][1]
-        g2s = itr[1][0]
-        g2e = itr[1][1]
-        
-        seg = []
-        ZLEN1=close(g1s,g1e)
-        ZLEN2=close(g2s,g2e)
-
-        g1reverse=False
-        g2reverse=False
-            
-        if True or operation == 'difference':
-            if g1e < g1s:
-                g1e+=1.0
-            #g1s,g1e,g1reverse = between(g1s,g1e,inter[0])
-            #import pdb ; pdb.set_trace()
-            g2s,g2e,g2reverse = between(g2s,g2e,inter[1])
-            g2reverse = False
-        else:
-            if g1e < g1s:
-                g1e+=1.0
-            if g2e < g2s:
-                g2e += 1.0
-
-        #p1=sample(g1,((g1s+g1e)/2)%1.0)
-
-        p1inside=0
-        for i in range(5):
-            u = (i+1)/6.0
-            p = sample(g1,(u*g1e+(1.0-u)*g1s)%1.0)
-            if isinsideXY(g2,p):
-                p1inside=p1inside+1
+                votes['out'] += 1
+        return max(votes,key=lambda k: votes[k])
 
-        p2inside = 0
-        for i in range(5):
-            u = (i+1)/6.0
-            p = sample(g2,(u*g2e+(1.0-u)*g2s)%1.0)
-            if isinsideXY(g1,p):
-                p2inside=p2inside+1
-                
-        #if p1inside > 0 and p2inside > 0:
-        #    print("warning: inside test succeeded for both p1s and p2s: ",
-        #          p1inside," ",p2inside)
-
-        #if p1inside == 0 and p2inside == 0:
-        #    print("warning: inside test failed for both p1s and p2s")
-                
-        #p2=sample(g2,((g2s+g2e)/2)%1.0)
-
-        if ZLEN1 and ZLEN2:
-            print ('both segments zero length')
-            return []
-        elif ZLEN2 and not ZLEN1:
-            print ('zero length segment 2')
-            if operation=='union':
-                return segmentgeomlist(g1,g1s,g1e,closed=True)
-            elif operation=='difference':
-                return []
-            else: #intersection
-                return []
-        elif ZLEN1 and not ZLEN2:
-            print ('zero length segment 1')
-            if operation=='union':
-                if g2e < g2s:
-                    g2e += 1.0
-                return segmentgeomlist(g2,g2s,g2e,closed=True)
-            else: # difference or intersection
-                return []
-            
-        if operation == 'union':
-            #if isinsideXY(g2,p1):
-            if p1inside > p2inside:
-                # if g2e < g2s:
-                #     g2e += 1.0
-                seg += segmentgeomlist(g2,g2s,g2e,closed=True)
-            else:
-                seg += segmentgeomlist(g1,g1s,g1e,closed=True)
-        elif operation == 'intersection':
-            #if isinsideXY(g2,p1):
-            if p1inside > p2inside:
-                seg += segmentgeomlist(g1,g1s,g1e,closed=True)
-            else:
-                # if g2e < g2s:
-                #     g2e += 1.0
-                #seg += segmentgeomlist(g2,g2s,g2e,reverse=g2reverse)
-                seg += segmentgeomlist(g2,g2s,g2e,closed=True)
-        elif operation == 'difference':
-            s = []
-            #if isinsideXY(g2,p1):
-            if p1inside > p2inside:
-                pass
-            else:
-                # print("rsort: ",vstr(inter))
-                seg += segmentgeomlist(g1,g1s,g1e,closed=True)
-                # print("g2s: ",g2s," g2e: ",g2e," g2reverse: ",g2reverse)
-                s = segmentgeomlist(g2,g2s,g2e,closed=True,reverse=g2reverse)
-                s = reverseGeomList(s)
-                seg += s
-            if len(inter[0]) > 2:
-                pass
-                #combineDebugGL.append(s)
-                # print("seg: ",vstr(seg))
-
-        return seg
-
-    ## utility function to sort intersections into non-decreasing
-    ## order
-    def rsort(il):
-        nl = []
-        rl = []
-        rr = []
-        for i in range(len(il[0])):
-            nl.append([il[0][i],il[1][i]])
-        nl.sort(key=lambda x: x[0])
-        for i in range(len(nl)):
-            rl.append(nl[i][0])
-            rr.append(nl[i][1])
-        return [rl,rr]
+    ## which sections of the first and second figure bound the result
+    keep1 = { 'union': ('out','same'),
+              'intersection': ('in','same'),
+              'difference': ('out','opposed') }[operation]
+    keep2 = { 'union': ('out',),
+              'intersection': ('in',),
+              'difference': ('in',) }[operation]
 
     if inter == False: # disjoint, but bounding boxes might be
         # null or one could be inside the other
@@ -902,17 +760,20 @@ def combineglist(g1,g2,operation):
         else: #intersection
             return []
     ## There are two or more points of intersection.
-    inter = rsort(inter)
-    #print("rsort: ",vstr(inter))
-
     if len(inter[0]) %2 != 0:
         print("WARNING: odd number of intersections (",len(inter[0]),", unpredictable behavior may result")
+    if not isgeomlist(g1):
+        g1 = [ g1 ]
+    if not isgeomlist(g2):
+        g2 = [ g2 ]
     r = []
-    for i in range(1,len(inter[0])+1):
-        r += cmbin(g1,g2,[[inter[0][i-1],
-                           inter[0][i%len(inter[0])]],
-                          [inter[1][i-1],
-                           inter[1][i%len(inter[1])]]])
+    for sec in sections(inter[0]):
+        if classify(g1,sec,g2) in keep1:
+            r += segmentgeomlist(g1,sec[0],sec[1],closed=True)
+    for sec in sections(inter[1]):
+        if classify(g2,sec,g1) in keep2:
+            s = segmentgeomlist(g2,sec[0],sec[1],closed=True)
+            r += reverseGeomList(s) if operation == 'difference' else s
     return r
 
 
-- 
2.43.0


From 8f9e4f365ebdd5dd223526c74d119fa2c95ec1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 023/215] fix: 2D booleans of figures made of several loops
 dropped loops; hole assignment used the vertex centroid

---
 src/yapcad/combine.py   | 13 ++++----
 src/yapcad/geom_util.py | 70 +++++++++++++++++++++++++++++++----------
 2 files changed, 60 insertions(+), 23 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index 3054d28..3a0bf2b 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -53,18 +53,17 @@ class Boolean(Geometry):
             gl = [gl]
 
         try:
-            outer, holes = geomlist2poly_with_holes(gl, self.__minang, self.__minlen, checkcont=False)
+            components = geomlist2poly_components(gl, self.__minang, self.__minlen, checkcont=False)
         except Exception:
             if isgeomlist(gl):
                 return gl
             return []
 
-        if not outer:
-            return []
-
-        segments = self._poly_to_segments(outer)
-        for hole in holes:
-            segments.extend(self._poly_to_segments(hole))
+        segments = []
+        for outer, holes in components:
+            segments.extend(self._poly_to_segments(outer))
+            for hole in holes:
+                segments.extend(self._poly_to_segments(hole))
         return segments
 
     def _combine_geom(self,g1,g2):
diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index a20325a..a8f2509 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -331,7 +331,6 @@ def _assemble_components(loop_points):
             'points': pts,
             'area': area,
             'abs_area': abs(area),
-            'centroid': _polygon_centroid_xy(pts),
             'parent': None,
             'children': [],
         })
@@ -346,7 +345,11 @@ def _assemble_components(loop_points):
                 continue
             if candidate['abs_area'] <= node['abs_area'] + epsilon:
                 continue
-            if _point_in_polygon_xy(candidate['points'], node['centroid']):
+            # loops don't cross, so any vertex tells whether one contains
+            # the other; the majority isn't fooled by common vertices
+            votes = [ _point_in_polygon_xy(candidate['points'], (p[0], p[1]))
+                      for p in node['points'][:-1] ]
+            if 2*sum(votes) > len(votes):
                 if parent_idx is None or candidate['abs_area'] < nodes[parent_idx]['abs_area']:
                     parent_idx = jdx
         node['parent'] = parent_idx
@@ -393,20 +396,6 @@ def geomlist2poly_with_holes(gl, minang=5.0, minlen=0.25, checkcont=False):
     return components[0]
 
 
-def _polygon_centroid_xy(pts):
-    if not pts:
-        return (0.0, 0.0)
-    sx = sy = 0.0
-    count = 0
-    for p in pts:
-        sx += p[0]
-        sy += p[1]
-        count += 1
-    if count == 0:
-        return (0.0, 0.0)
-    return (sx / count, sy / count)
-
-
 def _point_in_polygon_xy(poly, pt):
     x, y = pt
     inside = False
@@ -653,6 +642,14 @@ def combineglist(g1,g2,operation):
     if not operation in ["union","intersection","difference"]:
         raise ValueError("bad operation specified for combineglist")
     
+    if not g1 or not g2: # at least one operand is empty
+        if operation == 'union':
+            return g1 if g1 else g2
+        elif operation == 'difference':
+            return g1
+        else: #intersection
+            return []
+
     bbox1 = bbox(g1)
     bbox2 = bbox(g2)
     try :
@@ -711,6 +708,47 @@ def combineglist(g1,g2,operation):
               'intersection': ('in',),
               'difference': ('in',) }[operation]
 
+    def contours(gl):
+        """split ``gl`` into its closed loops, or return an empty list if
+        it isn't made of closed loops listed one after the other"""
+        loops = []
+        run = []
+        for g in gl if isgeomlist(gl) else [ gl ]:
+            if ispoint(g):
+                continue
+            if not run and not (isline(g) or isarc(g) or ispoly(g)):
+                sub_loops = contours(g)
+                if not sub_loops:
+                    return []
+                loops += sub_loops
+                continue
+            run.append(poly2lines(g) if ispoly(g) and not isline(g) else [ g ])
+            if dist(sample(run[0],0.0),sample(run[-1],1.0)) < 1e-3:
+                loops.append([ e for r in run for e in r ])
+                run = []
+        return loops if not run else []
+
+    loops1 = contours(g1)
+    loops2 = contours(g2)
+    if loops1 and loops2 and (len(loops1) > 1 or len(loops2) > 1):
+        ## combine figures made of several loops loop by loop
+        g1 = [ e for l in loops1 for e in l ]
+        g2 = [ e for l in loops2 for e in l ]
+        r = []
+        for loops,other,keep,rev in ((loops1,g2,keep1,False),
+                                     (loops2,g1,keep2,operation=='difference')):
+            for loop in loops:
+                xpts = intersectXY(loop,other,params=True)
+                if xpts == False or len(xpts[0]) < 2:
+                    if classify(loop,(0.0,1.0),other) in keep:
+                        r += reverseGeomList(loop) if rev else loop
+                    continue
+                for sec in sections(xpts[0]):
+                    if classify(loop,sec,other) in keep:
+                        s = segmentgeomlist(loop,sec[0],sec[1],closed=True)
+                        r += reverseGeomList(s) if rev else s
+        return r
+
     if inter == False: # disjoint, but bounding boxes might be
         # null or one could be inside the other
         if not bbox1 and bbox2: # g1 is empty, but g2 contains geometry
-- 
2.43.0


From 515edae87e9cc0e9987cb66ca6aff55e71e9ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 024/215] fix: closed B-splines used a knot vector that was too
 short (IndexError, or only part of the loop)

---
 src/yapcad/spline.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index 47c419f..ebdf06a 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -246,8 +246,10 @@ def _uniform_knot_vector(n: int, degree: int, closed: bool = False) -> List[floa
         Uniform knot vector
     """
     if closed:
-        # Periodic knot vector for closed curves
-        m = n + degree + 1
+        # Periodic knot vector for closed curves.  The control polygon is
+        # extended cyclically by ``degree`` points, so n + 2*degree + 1 knots
+        # are needed; the active domain knots[degree]..knots[n+degree] is [0,1]
+        m = n + 2 * degree + 1
         return [float(i - degree) / n for i in range(m)]
     else:
         # Clamped uniform knot vector (curve passes through endpoints)
@@ -341,7 +343,7 @@ def bspline_point(control_points, t: float, degree: int = 3, closed: bool = Fals
         knots = _uniform_knot_vector(n, degree, closed=True)
         # Map t to the active knot domain
         u_min = knots[degree]
-        u_max = knots[n]
+        u_max = knots[n + degree]
         u = u_min + t * (u_max - u_min)
 
         x = y = z = 0.0
-- 
2.43.0


From 558ab0a3b2c66b052f33aa8aeb002b8ac02ba847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 025/215] fix: NURBS end point was wrong with more than
 degree+1 control points

---
 src/yapcad/spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index ebdf06a..e062eac 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -681,7 +681,7 @@ def _nurbs_point(ctrl: Sequence[list], weights: Sequence[float], knots: Sequence
 
 def _nip(i: int, p: int, u: float, knots: Sequence[float]) -> float:
     if p == 0:
-        if knots[i] <= u < knots[i + 1] or (u == knots[-1] and knots[i] < knots[i + 1]):
+        if knots[i] <= u < knots[i + 1] or (u == knots[-1] and knots[i] < knots[i + 1] == u):
             return 1.0
         return 0.0
 
-- 
2.43.0


From 139a730ba1b73c6a87f20d41579b52fbad1bf68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 026/215] fix: ellipse/parabola/hyperbola tangents ignored a
 tilted normal

---
 src/yapcad/geom.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 975d62d..8b12d57 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -899,6 +899,22 @@ def ellipse_sample(e, u):
         return point(center[0] + x_3d, center[1] + y_3d, center[2] + z_3d)
 
 
+def _orient_direction(vec, normal):
+    """Rotate the XY-plane direction ``vec`` into the plane of ``normal``,
+    with the rotation the conic ``*_sample`` functions use."""
+    x, y = vec
+    nx, ny, nz = normal[0], normal[1], normal[2]
+    if abs(nz - 1.0) < 1e-10:
+        return [x, y, 0.0, 0.0]
+    # rotation axis is z cross normal = (-ny, nx, 0)
+    s = (nx * nx + ny * ny) ** 0.5
+    if s < 1e-10:
+        return [x, y if nz > 0 else -y, 0.0, 0.0]
+    kx, ky = -ny / s, nx / s
+    kdp = (kx * x + ky * y) * (1.0 - nz)
+    return [x * nz + kx * kdp, y * nz + ky * kdp, (kx * y - ky * x) * s, 0.0]
+
+
 def ellipse_tangent(e, u):
     """Return the tangent vector at parameter u on an ellipse.
 
@@ -951,7 +967,7 @@ def ellipse_tangent(e, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _orient_direction((dx_rot/mag, dy_rot/mag), meta['normal'])
 
 
 def ellipse_length(e, segments=100):
@@ -1224,7 +1240,7 @@ def parabola_tangent(p, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _orient_direction((dx_rot/mag, dy_rot/mag), meta['normal'])
 
 
 def parabola_length(p, segments=100):
@@ -1512,7 +1528,7 @@ def hyperbola_tangent(h, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _orient_direction((dx_rot/mag, dy_rot/mag), meta['normal'])
 
 
 def hyperbola_length(h, segments=100):
-- 
2.43.0


From d45e3844d45355b5f53f55c62686c91951b7370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 027/215] fix: evaluate_nurbs at u=1 could round past the last
 knot and miss the end point

---
 src/yapcad/spline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index e062eac..2b0077c 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -546,7 +546,10 @@ def evaluate_nurbs(curve, u: float) -> list:
     u_start = knots[degree]
     u_end = knots[-degree - 1]
     u_clamped = max(0.0, min(1.0, float(u)))
-    real_u = u_start + (u_end - u_start) * u_clamped
+    # rounding must not push the end parameter past the last knot
+    real_u = min(u_end, u_start + (u_end - u_start) * u_clamped)
+    if u_clamped == 1.0:
+        real_u = u_end
     return _nurbs_point([point(p) for p in ctrl], weights, knots, degree, real_u)
 
 def sample_catmullrom(curve, *, segments_per_span: int = 12) -> List[list]:
-- 
2.43.0


From 13dcd276c61c94a8bdc373d24e009ede45631df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 028/215] fix: Bezier/B-spline control points given as
 coordinate tuples (documented) all became the origin

---
 src/yapcad/spline.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index 2b0077c..e5170e6 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -9,12 +9,19 @@ from __future__ import annotations
 from math import pow, factorial
 from typing import Iterable, List, Sequence, Tuple
 
-from yapcad.geom import point
+from yapcad.geom import ispoint, point
 from yapcad.geometry_utils import to_vec3
 
 Vec3 = Tuple[float, float, float]
 
 
+def _control_vec(p) -> Vec3:
+    """XYZ of a control point given as a yapCAD point or a coordinate tuple."""
+    if isinstance(p, (list, tuple)) and not ispoint(p):
+        p = point(*p[:3])
+    return to_vec3(point(p))
+
+
 # =============================================================================
 # Bezier Curve Support
 # =============================================================================
@@ -76,7 +83,7 @@ def bezier_point(control_points, t: float) -> list:
     >>> cp = [point(0, 0), point(10, 20), point(30, 20), point(40, 0)]
     >>> p = bezier_point(cp, 0.5)  # Point at middle of curve
     """
-    pts = [to_vec3(point(p)) for p in control_points]
+    pts = [_control_vec(p) for p in control_points]
     n = len(pts)
     if n == 0:
         raise ValueError('bezier_point requires at least one control point')
@@ -144,7 +151,7 @@ def bezier_tangent(control_points, t: float) -> list:
     >>> cp = [point(0, 0), point(10, 20), point(30, 20), point(40, 0)]
     >>> tangent = bezier_tangent(cp, 0.5)
     """
-    pts = [to_vec3(point(p)) for p in control_points]
+    pts = [_control_vec(p) for p in control_points]
     n = len(pts)
     if n < 2:
         # Constant point has zero derivative
@@ -330,7 +337,7 @@ def bspline_point(control_points, t: float, degree: int = 3, closed: bool = Fals
     list
         Point on the curve at parameter t.
     """
-    pts = [to_vec3(point(p)) for p in control_points]
+    pts = [_control_vec(p) for p in control_points]
     n = len(pts)
     if n < degree + 1:
         raise ValueError(f'B-spline needs at least {degree + 1} control points for degree {degree}')
-- 
2.43.0


From c6c7177622571805c4308e246c57506658917b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 029/215] fix: scalesurface/scalesolid about a center scaled
 about the opposite point

---
 src/yapcad/geom3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5343f5c..aa2cc5b 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -702,9 +702,9 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     if vclose(cent, point(0,0,0)):
         mat = xform.Scale(sx, sy, sz)
     else:
-        mat = xform.Translation(cent, inverse=True)
+        mat = xform.Translation(cent)
         mat = mat.mul(xform.Scale(sx, sy, sz))
-        mat = mat.mul(xform.Translation(cent))
+        mat = mat.mul(xform.Translation(cent, inverse=True))
 
     s2 = deepcopy(s)
     # Transform vertices
-- 
2.43.0


From f7b066f283e068f5df936516a08f89c7fe5e323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 030/215] fix: issurface(fast=False) accepted face and boundary
 indices outside the vertex list

---
 src/yapcad/geom3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index aa2cc5b..82b9ded 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -583,8 +583,8 @@ def issurface(s,fast=True):
         l = len(verts)
         if l < 3:
             return False
-        return (len(list(filter(lambda x: not (isinstance(x,int) or
-                                               x < 0 or x >= l),
+        return (len(list(filter(lambda x: not isinstance(x,int) or
+                                x < 0 or x >= l,
                                 inds))) == 0)
 
     if not isinstance(s,list) or len(s) not in (6,7) or s[0] != 'surface':
-- 
2.43.0


From 67666dc9ec5f111caf15c2553868c55f0b749679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 031/215] fix: poly2surface dropped triangles below 1e-4 area
 by default, leaving holes in surfaces, tubes and extrusions

---
 src/yapcad/geom3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 82b9ded..5693114 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1229,7 +1229,7 @@ def surf2lines(surf):
 
     return lines
     
-def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0001,
+def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0,
                  checkclosed=False,basis=None):
 
     """Given ``ply``, a coplanar polygon, return the triangulated surface
@@ -1276,7 +1276,7 @@ def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0001,
 
     return surf,bnd2
 
-def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
+def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0,
                    checkclosed=False,box=None):
     """Given ``ply``, return a triangulated XY surface (holes supported)."""
 
-- 
2.43.0


From 77fe97b749ad5c615f5fd8f5942ee4c54fa0135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 032/215] fix: extruding against a surface's normal produced an
 inside-out solid

---
 src/yapcad/geom3d_util.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index b703487..59a7c53 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1337,6 +1337,15 @@ def extrude(surf,distance,direction=vect(0,0,1,0)):
     if distance <= epsilon:
         raise ValueError('bad distance passed to extrude')
 
+    # faces must look along the extrusion direction, or the solid would be
+    # inside-out
+    facing = 0.0
+    for f in surf[3]:
+        a, b, c = (surf[1][i] for i in f)
+        facing += dot(cross(sub(b, a), sub(c, a)), direction)
+    if facing < 0:
+        surf = reversesurface(surf)
+
     s1 = translatesurface(surf,scale4(direction,distance))
     s2 = reversesurface(surf)
 
-- 
2.43.0


From f3e68dc65f9acc27537a9a2a8e94553c323c4a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 033/215] fix: partial spherical shells had stray flat caps and
 mismatched rims, so they were not closed

---
 src/yapcad/geom3d_util.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 59a7c53..96d95ad 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -832,7 +832,7 @@ def _make_revolution_brep(contour, zStart, zEnd, steps):
         return None
 
 
-def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_error=None,max_chord=None,return_brep=False):
+def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_error=None,max_chord=None,return_brep=False,flat_caps=True):
     """
     Generate a surface of revolution by sampling a contour function.
 
@@ -844,6 +844,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
                        If None (default), adaptive resolution is used.
     :param chord_error: (deprecated) maximum chord error/sagitta for legacy mode
     :param max_chord: maximum chord length in mm for adaptive resolution (default: size-adaptive)
+    :param flat_caps: close ends of non-zero radius with flat discs (default True)
     :returns: ``['surface', vertices, normals, faces]`` list representing the surface
     """
 
@@ -981,7 +982,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
     # ── Flat disc caps for open ends (r > 0 at endpoints) ──────────
     # When the contour doesn't reach r=0 at zStart or zEnd, the surface
     # is open (a tube). Add flat disc caps to close it into a solid.
-    if not need_start_cap and r_start >= epsilon:
+    if flat_caps and not need_start_cap and r_start >= epsilon:
         # Bottom disc cap: center vertex at (0,0,zStart), fan to first ring
         cap_center = [0.0, 0.0, zStart, 1.0]
         cap_normal = [0.0, 0.0, -1.0, 0.0]  # outward = -Z for bottom
@@ -996,7 +997,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
             # Wind CW from outside (looking at -Z face)
             sF.append([center_idx, k2, k1])
 
-    if not need_end_cap and r_end >= epsilon:
+    if flat_caps and not need_end_cap and r_end >= epsilon:
         # Top disc cap: center vertex at (0,0,zEnd), fan to last ring
         cap_center = [0.0, 0.0, zEnd, 1.0]
         cap_normal = [0.0, 0.0, 1.0, 0.0]  # outward = +Z for top
@@ -1851,13 +1852,15 @@ def spherical_shell(outer_diameter, wall_thickness,
     outer_surface = makeRevolutionSurface(_sphere_contour(outer_radius),
                                           z_start_outer, z_end_outer,
                                           max(steps, lat_steps),
-                                          arcSamples=arc_samples)
+                                          arcSamples=arc_samples,
+                                          flat_caps=False)
     outer_surface = translatesurface(outer_surface, point(center[0], center[1], 0))
 
     inner_surface = makeRevolutionSurface(_sphere_contour(inner_radius),
                                           z_start_inner, z_end_inner,
                                           max(steps, lat_steps),
-                                          arcSamples=arc_samples)
+                                          arcSamples=arc_samples,
+                                          flat_caps=False)
     inner_surface = translatesurface(inner_surface, point(center[0], center[1], 0))
     inner_surface = reversesurface(inner_surface)
 
@@ -1867,14 +1870,15 @@ def spherical_shell(outer_diameter, wall_thickness,
         r_outer_ring = outer_radius * math.sin(theta)
         r_inner_ring = inner_radius * math.sin(theta)
 
-        base_outer = [point(center[0] + p[0], center[1] + p[1], cz + outer_radius * math.cos(theta), 1.0)
-                      for p in _circle_loop((0, 0), r_outer_ring, minang)[:-1]]
-        base_inner = [point(center[0] + p[0], center[1] + p[1], cz + inner_radius * math.cos(theta), 1.0)
-#                      for p in list(reversed(_circle_loop((0, 0), r_inner_ring, minang)))[:-1]]
-                      for p in _circle_loop((0, 0), r_inner_ring, minang)[:-1]]
+        # sampled like the two cap surfaces, so that the rims coincide
+        ring = [(math.cos(i * pi2 / arc_samples), math.sin(i * pi2 / arc_samples))
+                for i in range(arc_samples)]
+        base_outer = [point(center[0] + r_outer_ring * c, center[1] + r_outer_ring * s, z_start_outer)
+                      for c, s in ring]
+        base_inner = [point(center[0] + r_inner_ring * c, center[1] + r_inner_ring * s, z_start_inner)
+                      for c, s in ring]
 
-        conic_surface = _loft_surface(base_outer, base_inner, invert=False)
-        surfaces.append(conic_surface)
+        surfaces.append(_loft_surface(base_outer, base_inner, invert=True))
 
     call = ("yapcad.geom3d_util.spherical_shell("
             f"{outer_diameter}, {wall_thickness}, {solid_angle}, center={center})")
-- 
2.43.0


From deb16bc3abcd600c85f70c65ae300807c5a816e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 034/215] fix: lofts were left open at both ends (no caps),
 inside-out for clockwise profiles, and multi-profile lofts unioned open
 meshes

---
 src/yapcad/geom3d_util.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 96d95ad..1408c4f 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1609,19 +1609,43 @@ def _loft_brep(lower_loop, upper_loop):
         return shape
 
 
+def _loft_shell(loops):
+    """Outward-facing surfaces of the solid through successive planar loops:
+    one side surface per pair, and a cap at each end."""
+    def normal(loop):
+        n = vect(0, 0, 0, 0)
+        for a, b in zip(loop, loop[1:] + loop[:1]):
+            n = add(n, cross(sub(a, loop[0]), sub(b, loop[0])))
+        return n
+
+    def centroid(loop):
+        c = vect(0, 0, 0, 0)
+        for p in loop:
+            c = add(c, p)
+        return scale3(c, 1.0 / len(loop))
+
+    loops = [[point(p) for p in loop] for loop in loops]
+    if dot(normal(loops[0]), sub(centroid(loops[1]), centroid(loops[0]))) < 0:
+        loops = [loop[::-1] for loop in loops]
+    sides = [_loft_surface(lower, upper) for lower, upper in zip(loops, loops[1:])]
+    bottom, _ = poly2surface(loops[0])
+    top, _ = poly2surface(loops[-1])
+    return [reversesurface(bottom)] + sides + [top]
+
+
 def makeLoftSolid(lower_loop, upper_loop, *, metadata=None):
     """
     Create a solid loft between two planar loops (matching vertex counts).
     Attempts to attach a native BREP when pythonocc-core is available,
     otherwise falls back to the tessellated representation.
     """
-    surf = _loft_surface(lower_loop, upper_loop)
+    surfaces = _loft_shell([lower_loop, upper_loop])
     call = f"yapcad.geom3d_util.makeLoftSolid(lower_loop, upper_loop)"
     construction = ['procedure', call]
     if metadata is not None and isinstance(metadata, dict):
-        sld = solid([surf], [], construction, metadata)
+        sld = solid(surfaces, [], construction, metadata)
     else:
-        sld = solid([surf], [], construction)
+        sld = solid(surfaces, [], construction)
 
     try:
         brep_shape = _loft_brep(lower_loop, upper_loop)
@@ -3474,6 +3498,11 @@ def loft(profiles, *, segments=None, metadata=None):
         upper = profiles[1]
         return makeLoftSolid(lower, upper, metadata=metadata)
 
+    if not occ_available():
+        construction = ['procedure', 'yapcad.geom3d_util.loft(profiles)']
+        args = [metadata] if isinstance(metadata, dict) else []
+        return solid(_loft_shell(profiles), [], construction, *args)
+
     # For multiple profiles, create sequential lofts
     # This is a simplified approach - a more sophisticated version
     # would use OCC BRepOffsetAPI_ThruSections for all profiles at once
-- 
2.43.0


From 481901cccd0215bb8786f5c783f6ebddbb614aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 035/215] fix: poly2surfaceXY gave clockwise polygons normals
 on the opposite side of their triangles

---
 src/yapcad/geom3d.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5693114..a12e262 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1307,12 +1307,19 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0,
                                     [[(q[0], q[1]) for q in loop]
                                      for loop in hole_loops])
 
+    outer_area = sum(outer_loop[i][0]*outer_loop[(i+1)%len(outer_loop)][1]
+                     - outer_loop[(i+1)%len(outer_loop)][0]*outer_loop[i][1]
+                     for i in range(len(outer_loop)))
+    orientation = 1 if outer_area >= 0 else -1
+
+    normal = [0, 0, orientation, 0] # same side as the triangle winding
+
     def makeboundary(poly,vertices,normals):
         bndry = []
         i = len(vertices)
         for p in poly:
             vertices.append(point(p))
-            normals.append([0,0,1,0])
+            normals.append(list(normal))
             bndry.append(i)
             i+=1
         return bndry,vertices,normals
@@ -1334,11 +1341,6 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0,
         (x1,y1),(x2,y2),(x3,y3) = tri
         return ((x2 - x1)*(y3 - y1) - (x3 - x1)*(y2 - y1)) / 2.0
 
-    outer_area = sum(outer_loop[i][0]*outer_loop[(i+1)%len(outer_loop)][1]
-                     - outer_loop[(i+1)%len(outer_loop)][0]*outer_loop[i][1]
-                     for i in range(len(outer_loop)))
-    orientation = 1 if outer_area >= 0 else -1
-
     for tri in triangles:
         tri_points = [point(x, y, 0, 1) for (x, y) in tri]
         area = _signed_triangle(tri)
@@ -1347,9 +1349,9 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0,
             area = -area
         if abs(area) > minarea:
             surf = addTri2Surface(tri_points,surf,
-                                  nfunc=lambda x: ([0,0,1,0],
-                                                   [0,0,1,0],
-                                                   [0,0,1,0]))
+                                  nfunc=lambda x: (list(normal),
+                                                   list(normal),
+                                                   list(normal)))
 
     return surf,[]
 
-- 
2.43.0


From c6567e484fa90d416897d2c56c141b40a18fcb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 036/215] fix: keep collinear outline vertices in
 triangulations (extruded solids were left open)

---
 src/yapcad/geom3d.py       | 14 ++++---
 src/yapcad/triangulator.py | 85 +++++++++++++++++++++++++++++++++++---
 2 files changed, 88 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index a12e262..1cd0a9a 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1341,13 +1341,17 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0,
         (x1,y1),(x2,y2),(x3,y3) = tri
         return ((x2 - x1)*(y3 - y1) - (x3 - x1)*(y2 - y1)) / 2.0
 
-    for tri in triangles:
+    # The triangulator winds all of its triangles the same way, so decide the
+    # winding once: judging slivers on collinear vertices one by one would
+    # leave some of them turned against their neighbours.
+    areas = [_signed_triangle(tri) for tri in triangles]
+    flip = sum(areas) * orientation < 0
+
+    for tri, area in zip(triangles, areas):
         tri_points = [point(x, y, 0, 1) for (x, y) in tri]
-        area = _signed_triangle(tri)
-        if area * orientation < 0:
+        if flip:
             tri_points[1], tri_points[2] = tri_points[2], tri_points[1]
-            area = -area
-        if abs(area) > minarea:
+        if abs(area) >= minarea:
             surf = addTri2Surface(tri_points,surf,
                                   nfunc=lambda x: (list(normal),
                                                    list(normal),
diff --git a/src/yapcad/triangulator.py b/src/yapcad/triangulator.py
index 30a6450..a08926d 100644
--- a/src/yapcad/triangulator.py
+++ b/src/yapcad/triangulator.py
@@ -64,12 +64,85 @@ def triangulate_polygon(outer: Sequence[Sequence[float]],
     vertices = np.asarray(point_map, dtype=np.float32)
     ring_array = np.asarray(ring_ends, dtype=np.uint32)
     indices = _earcut.triangulate_float32(vertices, ring_array)
-    triangles: List[List[Point2D]] = []
-    for i in range(0, len(indices), 3):
-        triangles.append([point_map[indices[i]],
-                          point_map[indices[i + 1]],
-                          point_map[indices[i + 2]]])
-    return triangles
+    faces = [(int(indices[i]), int(indices[i + 1]), int(indices[i + 2]))
+             for i in range(0, len(indices), 3)]
+    faces = _split_skipped_vertices(faces, point_map, ring_ends)
+    return [[point_map[a], point_map[b], point_map[c]] for a, b, c in faces]
+
+
+def _split_skipped_vertices(faces: List[Tuple[int, int, int]],
+                            points: Sequence[Point2D],
+                            ring_ends: Sequence[int]
+                            ) -> List[Tuple[int, int, int]]:
+    """Re-insert collinear vertices that ear clipping skipped.
+
+    Ear clipping drops vertices in the middle of straight edges, which leaves
+    triangle edges running past them (T-junctions).  Such edges are split so
+    that neighbouring triangles, and side walls built on the same outline,
+    share their edges.
+    """
+
+    ring_edges = set()
+    start = 0
+    for end in ring_ends:
+        for i in range(start, end):
+            j = i + 1 if i + 1 < end else start
+            ring_edges.add((min(i, j), max(i, j)))
+        start = end
+
+    tol = 1e-6 * max(max(abs(x), abs(y)) for x, y in points)
+
+    def _open_edges():
+        count: dict = {}
+        for face in faces:
+            for i in range(3):
+                a, b = face[i], face[(i + 1) % 3]
+                key = (min(a, b), max(a, b))
+                count[key] = count.get(key, 0) + 1
+        loose = {e for e, n in count.items() if n == 1 and e not in ring_edges}
+        ends = {v for e in loose for v in e}
+        ends.update(v for e in ring_edges if e not in count for v in e)
+        return loose, ends
+
+    def _between(a, b, candidates):
+        (ax, ay), (bx, by) = points[a], points[b]
+        dx, dy = bx - ax, by - ay
+        length2 = dx * dx + dy * dy
+        found = []
+        for v in candidates:
+            if v in (a, b) or length2 <= 0.0:
+                continue
+            px, py = points[v][0] - ax, points[v][1] - ay
+            t = (px * dx + py * dy) / length2
+            off = abs(px * dy - py * dx) / length2 ** 0.5
+            if 0.0 < t < 1.0 and off <= tol:
+                found.append((t, v))
+        return [v for _, v in sorted(found)]
+
+    for _ in range(len(points)):
+        loose, ends = _open_edges()
+        if not loose:
+            break
+        result: List[Tuple[int, int, int]] = []
+        changed = False
+        for face in faces:
+            for i in range(3):
+                a, b, c = face[i], face[(i + 1) % 3], face[(i + 2) % 3]
+                if (min(a, b), max(a, b)) not in loose:
+                    continue
+                chain = [v for v in _between(a, b, ends) if v != c]
+                if chain:
+                    path = [a] + chain + [b]
+                    result.extend((path[k], path[k + 1], c)
+                                  for k in range(len(path) - 1))
+                    changed = True
+                    break
+            else:
+                result.append(face)
+        faces = result
+        if not changed:
+            break
+    return faces
 
 
 def _prepare_loop(points: Sequence[Sequence[float]], *, want_ccw: bool) -> List[Point2D]:
-- 
2.43.0


From c21a576d73bf9cfbd9510ad46f4648d3dfdaf8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 037/215] fix: dodecahedron has the requested circumscribed
 diameter and centre

---
 src/yapcad/geom3d_util.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 1408c4f..0429775 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -469,8 +469,8 @@ def dodecahedron(diameter, center=point(0,0,0)):
     
     phi = (1 + math.sqrt(5)) / 2  # Golden ratio ≈ 1.618
     
-    # Scale factor to fit within diameter
-    scale = diameter / (2 * phi)
+    # Scale factor: the unscaled vertices lie on a sphere of radius sqrt(3)
+    scale = diameter / (2 * math.sqrt(3))
     
     # 20 vertices of a regular dodecahedron
     # Using standard golden ratio construction
@@ -491,17 +491,13 @@ def dodecahedron(diameter, center=point(0,0,0)):
     # Scale vertices
     verts = [[x*scale, y*scale, z*scale] for x, y, z in vertex_coords]
     
-    # Rotate ~31.72° around Y-axis so model sits on a flat pentagonal face
-    # (default orientation would place it on an edge/vertex)
-    angle = math.radians(31.72)
+    # Rotate ~31.72° around Y-axis so the lowest face is a flat pentagon
+    # (default orientation would put an edge there)
+    angle = math.atan(1 / phi)
     cos_a, sin_a = math.cos(angle), math.sin(angle)
     verts = [[v[0]*cos_a + v[2]*sin_a, v[1], -v[0]*sin_a + v[2]*cos_a] 
              for v in verts]
     
-    # Shift so z_min = 0 (now sitting on flat face with 5 vertices at bottom)
-    z_min = min(v[2] for v in verts)
-    verts = [[v[0], v[1], v[2] - z_min] for v in verts]
-    
     # Apply center offset and convert to yapCAD points
     points = [point(v[0] + center[0], v[1] + center[1], v[2] + center[2]) 
               for v in verts]
-- 
2.43.0


From 5dcf59d54e963e233709a5cc229a0933415b5900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 038/215] fix: tube circles keep the requested resolution and
 matching vertex counts

---
 src/yapcad/geom3d_util.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 0429775..4abdb55 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1669,10 +1669,16 @@ def _circle_loop(center_xy, radius, minang=None, chord_error=None, max_chord=Non
     if minang is None:
         minang = adaptive_angr_from_radius(radius, chord_error=chord_error, max_chord=max_chord)
 
-    arc_geom = [arc(point(center_xy[0], center_xy[1]), radius)]
-    loop = geomlist2poly(arc_geom, minang=minang, minlen=0.0)
-    if not loop:
-        raise ValueError('failed to generate circle loop')
+    # sampled directly: going through geomlist2poly would round the angular
+    # resolution to whole degrees and drop vertices of small circles, leaving
+    # matched loops with different vertex counts
+    samples = max(3, int(round(360.0 / minang)))
+    loop = []
+    for i in range(samples):
+        theta = pi2 * i / samples
+        loop.append(point(center_xy[0] + radius * math.cos(theta),
+                          center_xy[1] + radius * math.sin(theta)))
+    loop.append(point(loop[0]))
     return loop
 
 
-- 
2.43.0


From 3c163fec216fd8d620a06db4e5612a29a6ad3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 039/215] fix: tube and conic_tube refuse a non-positive length

---
 src/yapcad/geom3d_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 4abdb55..62aaf57 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1705,6 +1705,9 @@ def tube(outer_diameter, wall_thickness, length,
     if wall_thickness <= epsilon:
         raise ValueError('wall thickness must be positive')
 
+    if length <= epsilon:
+        raise ValueError('length must be positive')
+
     outer_radius = outer_diameter / 2.0
     inner_radius = outer_radius - wall_thickness
     if inner_radius <= epsilon:
@@ -1780,6 +1783,9 @@ def conic_tube(bottom_outer_diameter, top_outer_diameter, wall_thickness,
     if wall_thickness <= epsilon:
         raise ValueError('wall thickness must be positive')
 
+    if length <= epsilon:
+        raise ValueError('length must be positive')
+
     r0_outer = bottom_outer_diameter / 2.0
     r1_outer = top_outer_diameter / 2.0
     r0_inner = r0_outer - wall_thickness
-- 
2.43.0


From d8a99fa44ff1608245236da939139759a950aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 040/215] fix: triTriIntersect clips to both triangles;
 linePlaneIntersect accepts a planar basis and inside=False

---
 src/yapcad/geom3d.py | 113 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 89 insertions(+), 24 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 1cd0a9a..f9c90f2 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -336,7 +336,7 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             return sampleline(lne,u)
 
     # is the plane specified symbolicaly?
-    trangle = False
+    triangle = False
     idx = -1
     if plane=="xy":
         idx=2
@@ -355,9 +355,11 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             tri2 = [ plane[2].mul(tri[0]),
                      plane[2].mul(tri[1]),
                      plane[2].mul(tri[2]) ]
-        else:
+        elif not (isinstance(plane,(list,tuple)) and len(plane) == 4
+                  and isinstance(plane[2],Matrix)
+                  and isinstance(plane[3],Matrix)):
             raise ValueError('non-plane passed to linePlaneIntersect')
-        # otherwise assume that plane is a valid planar basis
+        # otherwise plane is a planar basis
 
         # transform into basis with plane at z=0
         l2 = [plane[2].mul(lne[0]),plane[2].mul(lne[1])]
@@ -365,11 +367,47 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
         if not p:
             return False
         else:
-            if triangle and not isInsideTriangleXY(p,tri2):
+            if triangle and inside and not isInsideTriangleXY(p,tri2):
                 return False
             return plane[3].mul(p)
         
 
+def _clipTriangles(t1,t2):
+    """Return the overlap of two triangles in the XY plane as a closed
+    polygon, or False if they do not overlap."""
+
+    def ccw(t):
+        t = [point(p[0],p[1]) for p in t[:3]]
+        if cross(sub(t[1],t[0]),sub(t[2],t[1]))[2] < 0:
+            t.reverse()
+        return t
+
+    loop = ccw(t1)
+    poly = ccw(t2)
+    for i in range(3):
+        p,q = loop[i],loop[(i+1)%3]
+        e = sub(q,p)
+        side = [ cross(e,sub(v,p))[2] for v in poly ]
+        clipped = []
+        for j in range(len(poly)):
+            k = (j+1)%len(poly)
+            if side[j] >= 0:
+                clipped.append(poly[j])
+            if (side[j] >= 0) != (side[k] >= 0):
+                u = side[j]/(side[j]-side[k])
+                clipped.append(sampleline([poly[j],poly[k]],u))
+        poly = clipped
+    result = []
+    for p in poly:
+        if not result or dist(p,result[-1]) > epsilon:
+            result.append(p)
+    while len(result) > 1 and dist(result[0],result[-1]) <= epsilon:
+        result.pop()
+    if len(result) < 3:
+        return False
+    result.append(point(result[0]))
+    return result
+
 def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
 
     """Function to compute the intersection of two triangles.  Returns
@@ -419,18 +457,20 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
             else:
                 return t2
         else: # return poly that is in-plane intersection
-            intr = combineglist(t1p,t2p,'intersection')
-            if len(intr) < 1: #no intersection
+            intr = _clipTriangles(t1p,t2p)
+            if not intr: #no intersection
                 return False
             else:
                 if inPlane:
                     return intr
                 else:
-                    return transform(intr,tinv)
+                    return [tinv.mul(p) for p in intr]
     # not coplanar, check to see if planes are parallel
-    if vclose(n1,n2):
+    if abs(dot(n1,n2)) >= 1.0 - epsilon*epsilon:
         return False #yep, degenerate
 
+    edges = [[t2p[0],t2p[1]],[t2p[1],t2p[2]],[t2p[2],t2p[0]]]
+
     if inside:
         # check to see if t2p lies entirely above or below the z=0 plane
         if ((t2p[0][2] > epsilon and t2p[1][2] > epsilon and t2p[2][2] > epsilon)
@@ -438,26 +478,51 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
             (t2p[0][2] < -epsilon and t2p[1][2] < -epsilon and
              t2p[2][2] < -epsilon)):
             return False
-        # linear intersection.  Figure out which two of three lines
-        # cross the z=0 plane
-
-    # this should work whether or not the intersection is
-    # inside t2.
-    ip1 = linePlaneIntersect([t2p[0],t2p[1]],"xy",False)
-    ip2 = linePlaneIntersect([t2p[1],t2p[2]],"xy",False)
-    ip3 = linePlaneIntersect([t2p[2],t2p[0]],"xy",False)
-
-    a=ip1
-    b=ip2
-    if not a:
-        a=ip3
-    if not b:
-        b=ip3
+
+    # the points at which the edges of t2 (extended to lines when not
+    # ``inside``) meet the z=0 plane, with edges that lie in that
+    # plane represented by their vertices
+    hits = [ p for p in t2p if abs(p[2]) <= epsilon ]
+    for e in edges:
+        p = linePlaneIntersect(e,"xy",inside)
+        if p:
+            hits.append(p)
+    if len(hits) < 2:
+        return False
+    a,b = max(((p,q) for p in hits for q in hits),
+              key=lambda x: dist(x[0],x[1]))
+    if dist(a,b) <= epsilon:
+        return False
+
+    if inside:
+        # clip the segment to the bounds of t1, the interior of which
+        # lies to the left of each of its counter-clockwise edges
+        u0,u1 = 0.0,1.0
+        d = sub(b,a)
+        loop = t1p[:3]
+        if cross(sub(loop[1],loop[0]),sub(loop[2],loop[1]))[2] < 0:
+            loop.reverse()
+        for i in range(3):
+            p,q = loop[i],loop[(i+1)%3]
+            ex,ey = q[0]-p[0],q[1]-p[1]
+            side = ex*(a[1]-p[1]) - ey*(a[0]-p[0])
+            rate = ex*d[1] - ey*d[0]
+            if abs(rate) <= epsilon*epsilon:
+                if side < -epsilon:
+                    return False
+            elif rate > 0:
+                u0 = max(u0,-side/rate)
+            else:
+                u1 = min(u1,-side/rate)
+        if (u1-u0)*mag(d) <= epsilon:
+            return False
+        a,b = add(a,scale3(d,u0)),add(a,scale3(d,u1))
+
     if inPlane:
         return [a,b]
     else:
         return [tinv.mul(a),tinv.mul(b)]
-    
+
 def surface(*args):
     """given a surface or a list of surface parameters as arguments,
     return a conforming surface representation.  Checks arguments
-- 
2.43.0


From 63e36c85f035b2d7ea01f120b6baf53aa39b86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 041/215] fix: boxoverlap of crossing boxes, queries on an
 empty tree, caller's list left alone

---
 src/yapcad/octtree.py | 41 +++++++----------------------------------
 1 file changed, 7 insertions(+), 34 deletions(-)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 1b7d2d9..8104119 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -209,40 +209,11 @@ def boxoverlap2(bbx1,bbx2,dim3=True):
 def boxoverlap(bbx1,bbx2,dim3=True):
 
     """determine if two bounding boxes overlap"""
-    minx = bbx1[0][0]
-    miny = bbx1[0][1]
-    minz = bbx1[0][2]
-    
-    len1 = bbx1[1][0] - bbx1[0][0] # length
-    wid1 = bbx1[1][1] - bbx1[0][1] # width
-    hei1 = bbx1[1][2] - bbx1[0][2] # height
-
-    p0=bbx1[0]
-    p1=add(p0,point(len1,0,0))
-    p2=add(p1,point(0,wid1,0))
-    p3=add(p0,point(0,wid1,0))
-
-    points = [p0,p1,p2,p3]
-    
-    if not dim3:
-        for p in points:
-            if isinsidebbox2D(bbx2,p):
-                return True
-        return False
-
-    p4=add(p0,point(0,0,hei1))
-    p5=add(p4,point(len1,0,0))
-    p6=bbx1[1]
-    p7=add(p4,point(0,wid1,0))
+    for i in range(3 if dim3 else 2):
+        if bbx1[1][i] < bbx2[0][i] or bbx2[1][i] < bbx1[0][i]:
+            return False
+    return True
 
-    points += [p4,p5,p6,p7]
-    #print("boxoverlap points; ",vstr(points))
-    #print("boxoverlap bbx2: ",vstr(bbx2))
-    for p in points:
-        if isinsidebbox(bbx2,p):
-            return True
-    return False
-    
 def bbox2oct(bbx,refbox,center):
     """
     Utility function to take a bounding box representation and assign
@@ -431,7 +402,7 @@ class NTree():
             ugeom = untag(geom)
             if isgeomlist(ugeom):
                 self.__bbox= bbox(ugeom)
-                self.__geom= geom
+                self.__geom= list(geom)
             else:
                 raise ValueError('geom must be valid geometry list, or None')
 
@@ -591,6 +562,8 @@ class NTree():
         overalp the provided bounding box, or the empty list if none.
 
         """
+        if self.__geom == []:
+            return []
         if self.__update:
             self.updateTree()
 
-- 
2.43.0


From 8c49fc6d65f7b3d9076a06f6f3565c354c9e6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 042/215] fix: transformed surfaces drop their cached octree
 (containment tests used the old geometry)

---
 src/yapcad/geom3d.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index f9c90f2..cc782d8 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -689,6 +689,16 @@ geom_translate = translate
 geom_scale = scale
 geom_mirror = mirror
 
+def _copysurface(s):
+    """Return a deep copy of surface ``s`` without its cached octree, for
+    use where the geometry of the copy is about to change."""
+    s2 = deepcopy(s)
+    for item in s2[6:]:
+        if isinstance(item,dict):
+            item.pop('_octree',None)
+            item.pop('_octree_dirty',None)
+    return s2
+
 def rotatesurface(s,ang,cent=point(0,0,0),axis=point(0,0,1.0),mat=False):
     """ return a rotated copy of the surface"""
     if close(ang,0.0):
@@ -700,7 +710,7 @@ def rotatesurface(s,ang,cent=point(0,0,0),axis=point(0,0,1.0),mat=False):
             mat = xform.Translation(cent)
             mat = mat.mul(xform.Rotation(axis,ang))
             mat = mat.mul(xform.Translation(cent,inverse=True))
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     #import pdb ; pdb.set_trace()
     s2[1] = geom_rotate(s2[1],ang,cent,axis,mat)
     s2[2] = geom_rotate(s2[2],ang,cent,axis,mat)
@@ -710,7 +720,7 @@ def translatesurface(s,delta):
     """ return a translated copy of the surface"""
     if vclose(delta,point(0,0,0)):
         return deepcopy(s)
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     for i in range(len(s2[1])):
         s2[1][i] = add(s2[1][i],delta)
     return s2
@@ -724,7 +734,7 @@ def mirrorsurface(s,plane):
     Note that this is a full surface geometry reflection, and not
     simply a normal reverser.
     """
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     s2[1] = mirror(s[1],plane)
     s2[2] = mirror(s[2],plane)
     s2[3] = list(map(lambda x: [x[0],x[2],x[1]],s2[3]))
@@ -732,7 +742,7 @@ def mirrorsurface(s,plane):
     
 def reversesurface(s):
     """ return a nomal-reversed copy of the surface """
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     s2[2] = list(map(lambda x: scale4(x,-1.0),s2[2]))
     s2[3] = list(map(lambda x: [x[0],x[2],x[1]],s2[3]))
     return s2
@@ -771,7 +781,7 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
         mat = mat.mul(xform.Scale(sx, sy, sz))
         mat = mat.mul(xform.Translation(cent, inverse=True))
 
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     # Transform vertices
     for i in range(len(s2[1])):
         s2[1][i] = mat.mul(s2[1][i])
-- 
2.43.0


From a2807b2634e197431f87ab2e99850b5365268b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 043/215] fix: solids_intersect tests real vertices instead of
 bounding-box centres (nested tubes missed, solid in a hole reported)

---
 src/yapcad/boolean/native.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/boolean/native.py b/src/yapcad/boolean/native.py
index 4132b0f..91bb121 100644
--- a/src/yapcad/boolean/native.py
+++ b/src/yapcad/boolean/native.py
@@ -1088,20 +1088,21 @@ def solids_intersect(a, b, tol=_DEFAULT_RAY_TOL):
     if box_a and box_b and not _bbox_overlap(box_a, box_b, tol):
         return False
 
-    center_a = point((box_a[0][0] + box_a[1][0]) / 2.0,
-                     (box_a[0][1] + box_a[1][1]) / 2.0,
-                     (box_a[0][2] + box_a[1][2]) / 2.0)
-    center_b = point((box_b[0][0] + box_b[1][0]) / 2.0,
-                     (box_b[0][1] + box_b[1][1]) / 2.0,
-                     (box_b[0][2] + box_b[1][2]) / 2.0)
-    if solid_contains_point(a, center_b, tol=tol) or solid_contains_point(b, center_a, tol=tol):
-        return True
-
     for tri_a in _iter_triangles_from_solid(a):
+        bbox_a = _triangle_bbox(tri_a, tol)
+        if not _bbox_overlap(bbox_a, box_b, tol):
+            continue
         for tri_b in _iter_triangles_from_solid(b):
-            if _geom3d().triTriIntersect(tri_a, tri_b):
+            if (_bbox_overlap(bbox_a, _triangle_bbox(tri_b, tol), tol)
+                    and _geom3d().triTriIntersect(tri_a, tri_b)):
                 return True
-    return False
+
+    # The boundaries do not meet, so the solids intersect only if a connected
+    # part of one lies inside the other: its vertices then do as well.
+    return (any(solid_contains_point(a, p, tol=tol)
+                for s in b[1] for p in s[1])
+            or any(solid_contains_point(b, p, tol=tol)
+                   for s in a[1] for p in s[1]))
 
 
 def solid_boolean(a, b, operation, tol=_DEFAULT_RAY_TOL, *, stitch=False):
-- 
2.43.0


From 518471bb8698463d07fc94ec99011f211333818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 044/215] fix: Geometry.mirror handles points, arcs and
 circles, and keeps the area sign for the xy plane

---
 src/yapcad/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 38dacd5..04f49a0 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -466,8 +466,12 @@ class Geometry:
                 self._setUpdate(True)
             return
         nelm = mirror(self.__elem,plane)
-        if keepSign:
-            nelm = reverseGeomList(nelm)
+        # mirroring in the plane of the figure leaves its sign alone
+        if keepSign and plane != 'xy' and not ispoint(nelm):
+            if isarc(nelm):
+                nelm = reverseGeomList([nelm])[0]
+            else:
+                nelm = reverseGeomList(nelm)
         self._setElem(nelm)
         self._setUpdate(True)
 
-- 
2.43.0


From 09a3d0f5339b101157440834d677ff872c1b55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 045/215] fix: Geometry.scale of a solid keeps a valid solid

---
 src/yapcad/geometry.py | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 04f49a0..9a2e565 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -357,28 +357,11 @@ class Geometry:
                 self._clearSurfaceCache()
                 self._setUpdate(True)
                 return
-            # fallback: scale vertices of each surface (uniform only)
-            def _scale_point(p):
-                return point(
-                    cent[0] + sx * (p[0] - cent[0]),
-                    cent[1] + sx * (p[1] - cent[1]),
-                    cent[2] + sx * (p[2] - cent[2]),
-                )
-            new_surfaces = []
-            for surf in self.__elem[1]:
-                new_pts = [_scale_point(v) for v in surf[1]]
-                new_surf = [new_pts, list(deepcopy(surf[2])), list(deepcopy(surf[3]))]
-                # boundaries/holes/metadata if present
-                if len(surf) > 4:
-                    new_surf.append(deepcopy(surf[4]))
-                if len(surf) > 5:
-                    new_surf.append(deepcopy(surf[5]))
-                if len(surf) > 6:
-                    new_surf.append(deepcopy(surf[6]))
-                new_surfaces.append(new_surf)
-            meta = self.__elem[3] if len(self.__elem) > 3 else []
-            self._setElem(['solid', new_surfaces, [] , meta])
+            # fallback: scale the tessellation (uniform only)
+            from yapcad.geom3d import scalesolid
+            self._setElem(scalesolid(self.__elem, sx, cent=cent))
             self._setUpdate(True)
+            self._clearSurfaceCache()
             return
         if is_brep(self.__elem):
             require_occ()
-- 
2.43.0


From f978e3235f8f614b15e444ff999804f02fd5cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 046/215] fix: Geometry drops its cached surface and bounding
 box when its element changes

---
 src/yapcad/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 9a2e565..1ed4047 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -542,6 +542,10 @@ class Geometry:
     def _setUpdate(self,bln):
         """method to set status of __update, accessible from derived classes"""
         self.__update = bln
+        if bln:
+            # values derived from the previous element are now stale
+            self.__bbox = None
+            self._clearSurfaceCache()
 
     @update.setter
     def update(self,bln):
-- 
2.43.0


From 8ad28aaefd27c50eb78165725359965d847119c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 047/215] fix: Boolean bounding box, length, center and samples
 work before geom is read

---
 src/yapcad/combine.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index 3a0bf2b..a2964e8 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -115,8 +115,7 @@ class Boolean(Geometry):
         for p in self.elem:
             p.transform(m)
             
-    @property
-    def geom(self):
+    def _updateInternals(self):
         if self.update:
             if len(self.elem) < 2:
                 raise ValueError('Boolean requires at least two operands')
@@ -127,9 +126,14 @@ class Boolean(Geometry):
 
             self.__outline = cullZeroLength(result)
             self._setUpdate(False)
-            self._setBbox(bbox(self.__outline))
+            self._setBbox(bbox(self.__outline) if self.__outline else None)
             self._setLength(length(self.__outline))
             self._setCenter(self._calcCenter())
+
+    @property
+    def geom(self):
+        if self.update:
+            self._updateInternals()
         return deepcopy(self.__outline)
         
         
-- 
2.43.0


From 36faad69c558ebd0a57e6ebcfae39603278fcc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 048/215] fix: assigning Geometry.elem invalidates cached
 values

---
 src/yapcad/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 1ed4047..c9093c6 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -562,6 +562,7 @@ class Geometry:
     @elem.setter
     def elem(self,e):
         self._setElem(e)
+        self._setUpdate(True)
 
     def _clearSurfaceCache(self):
         """Reset cached tessellation so it can be regenerated."""
-- 
2.43.0


From 52cd1a95c523c6dfb8350ba72ca9e3da81369f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 049/215] fix: Geometry.mirror of a mesh solid works without
 OCC (was silently ignored)

---
 src/yapcad/geometry.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index c9093c6..875717b 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -423,15 +423,16 @@ class Geometry:
 
         """
         if issolid(self.__elem, fast=False):
-            try:
-                from yapcad.brep import mirror_brep_solid
-                mirror_brep_solid(self.__elem, plane)
-                self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
-                self._clearSurfaceCache()
-                self._setUpdate(True)
-                return
-            except Exception:
-                pass
+            if _GEOMETRY_HAVE_OCC and has_brep_data(self.__elem):
+                try:
+                    from yapcad.brep import mirror_brep_solid
+                    mirror_brep_solid(self.__elem, plane)
+                    self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
+                    self._clearSurfaceCache()
+                    self._setUpdate(True)
+                    return
+                except Exception:
+                    pass
             from yapcad.geom3d import mirror as mirror_solid
             self._setElem(mirror_solid(self.__elem, plane))
             self._setUpdate(True)
-- 
2.43.0


From b0fef3bba3d73ccde468fece95a2de0210162d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 050/215] fix: isinsideXY of an empty figure (empty Boolean) is
 False instead of an exception

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 8b12d57..724f32f 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3621,7 +3621,7 @@ def geomlistbbox(gl):
 def isinsidegeomlistXY(a,p):
 
     bb = geomlistbbox(a)
-    if not isinsidebbox(bb,p):
+    if not bb or not isinsidebbox(bb,p): # an empty list contains nothing
         return False
     return _evenOddInsideXY(a,p,bb,intersectGeomListXY)
 
-- 
2.43.0


From c1018c6f0b121977df94e4e8750949c986b1e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 051/215] fix: solid_contains_point: rays through vertices no
 longer decide, points on a face count whichever ray is tried first

---
 src/yapcad/boolean/native.py | 81 +++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/yapcad/boolean/native.py b/src/yapcad/boolean/native.py
index 91bb121..d718e7a 100644
--- a/src/yapcad/boolean/native.py
+++ b/src/yapcad/boolean/native.py
@@ -1020,6 +1020,16 @@ def solid_contains_point(sld, p, tol=_DEFAULT_RAY_TOL):
     else:
         ray_length = 1.0
 
+    # a point on the surface counts as contained, whichever way rays leave it
+    probe_box = _segment_bbox(p, p, tol * 5)
+    for surf in surfaces:
+        for tri in _surface_candidates(surf, probe_box):
+            try:
+                if abs(_geom3d().signedFaceDistance(p, tri)) <= tol:
+                    return True
+            except ValueError:
+                continue  # degenerate triangle
+
     directions = [
         vect(1, 0, 0, 0),
         vect(-1, 0, 0, 0),
@@ -1028,53 +1038,64 @@ def solid_contains_point(sld, p, tol=_DEFAULT_RAY_TOL):
         vect(0, 0, 1, 0),
         vect(0, 0, -1, 0),
     ]
+    # used only if every axis-aligned ray grazes a vertex or an edge
+    skewed = [
+        vect(0.8017, 0.5345, 0.2673, 0),
+        vect(-0.3651, 0.9129, 0.1826, 0),
+        vect(0.2197, -0.3296, 0.9182, 0),
+    ]
 
-    seen_inside = False
-    for direction in directions:
+    def crossings(direction):
+        """signs of the surface crossings along the ray, nearest first, and
+        whether they can be trusted: several triangles meeting the ray at
+        one point do so at a vertex, where signs say little"""
         far_point = point(p[0] + direction[0] * ray_length,
                           p[1] + direction[1] * ray_length,
                           p[2] + direction[2] * ray_length)
         query_box = _segment_bbox(p, far_point, tol * 5)
         hits = []
         for surf in surfaces:
-            tree = surface_octree(surf)
-            if tree is None:
-                candidates = list(_iter_triangles_from_surface(surf))
-            else:
-                elems = tree.getElements(query_box)
-                candidates = []
-                for elem in elems:
-                    if isinstance(elem, list):
-                        candidates.append(elem)
-                    elif isinstance(elem, tuple):
-                        candidates.append(elem[0])
-                    else:
-                        candidates.append(elem)
-                if not candidates:
-                    candidates = list(_iter_triangles_from_surface(surf))
-            for tri in candidates:
+            for tri in _surface_candidates(surf, query_box):
                 result = _ray_triangle_intersection(p, direction, tri, tol=tol)
                 if result is None:
                     continue
                 t_hit, hit_point, _ = result
                 if t_hit < -tol or t_hit > ray_length + tol:
                     continue
-                if t_hit <= tol:
-                    return True
                 normal = _triangle_normal(tri)
                 sign = -1 if dot(normal, direction) > 0 else 1
                 hits.append((t_hit, hit_point, sign))
         groups = _group_hits(hits, tol)
-        parity = 0
-        for group in groups:
-            sign_sum = sum(hit[2] for hit in group)
-            if sign_sum == 0:
-                continue
-            parity ^= 1
-        if parity == 0:
-            return False
-        seen_inside = True
-    return seen_inside
+        sums = [sum(hit[2] for hit in group) for group in groups]
+        signs = [1 if s > 0 else -1 for s in sums if s != 0]
+        # entries and exits must alternate along a ray
+        clear = (all(len(group) <= 2 for group in groups)
+                 and all(s0 != s1 for s0, s1 in zip(signs, signs[1:])))
+        return signs, clear
+
+    # Every ray that meets the solid ends with the same kind of crossing.
+    rays = []
+    for group in (directions, skewed):
+        for direction in group:
+            signs, clear = crossings(direction)
+            if not signs:
+                return False
+            rays.append((signs, clear))
+        last = sum(signs[-1] for signs, _ in rays)
+        trusted = [ray for ray in rays if ray[1] and ray[0][-1] * last >= 0]
+        if trusted:
+            rays = trusted
+            break
+    return all(len(signs) % 2 == 1 for signs, _ in rays)
+
+
+def _surface_candidates(surf, query_box):
+    """triangles of ``surf`` that may touch ``query_box``"""
+    tree = surface_octree(surf)
+    if tree is None:
+        return list(_iter_triangles_from_surface(surf))
+    return [elem[0] if isinstance(elem, tuple) else elem
+            for elem in tree.getElements(query_box)]
 
 
 def solids_intersect(a, b, tol=_DEFAULT_RAY_TOL):
-- 
2.43.0


From 82435097aa89b490f8287297c0bb7f3824d92a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 052/215] fix: small triangles are not degenerate: mesh_view,
 STL and STEP export dropped faces below 2.5e-6 area, leaving holes

---
 src/yapcad/geometry_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geometry_utils.py b/src/yapcad/geometry_utils.py
index 8dd67dd..b2734e9 100644
--- a/src/yapcad/geometry_utils.py
+++ b/src/yapcad/geometry_utils.py
@@ -51,7 +51,9 @@ def triangle_normal(v0: Vec3, v1: Vec3, v2: Vec3) -> Vec3 | None:
     bx, by, bz = v2[0] - v0[0], v2[1] - v0[1], v2[2] - v0[2]
     n = cross([ax, ay, az, 1.0], [bx, by, bz, 1.0])
     length = mag(n)
-    if length <= epsilon:
+    # relative to the edge lengths: a small triangle is not a degenerate one
+    if length <= 1e-12 * max(ax * ax + ay * ay + az * az,
+                             bx * bx + by * by + bz * bz):
         return None
     return (n[0] / length, n[1] / length, n[2] / length)
 
-- 
2.43.0


From e3955f799cfac8979dfb67b2eb485e860ca1b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 053/215] fix: write_step shares vertices that coincide in the
 file (a prism was exported as six open shells)

---
 src/yapcad/io/step.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index 4037d70..bd71574 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -234,14 +234,18 @@ def write_step(obj: Sequence,
 
     vertex_map: Dict[Vec3, _Vertex] = {}
 
-    for tri in triangles:
-        for coords in (tri.v0, tri.v1, tri.v2):
-            if coords not in vertex_map:
-                pt = writer.add(
-                    f"CARTESIAN_POINT('', ({coords[0]:.6f}, {coords[1]:.6f}, {coords[2]:.6f}))"
-                )
-                vert = writer.add(f"VERTEX_POINT('', #{pt})")
-                vertex_map[coords] = _Vertex(coords, pt, vert)
+    def _vertex(coords: Vec3) -> _Vertex:
+        # vertices written with the same coordinates are the same vertex, so
+        # that faces of neighboring surfaces share their edges
+        coords = tuple(round(c, 6) + 0.0 for c in coords)
+        vertex = vertex_map.get(coords)
+        if vertex is None:
+            pt = writer.add(
+                f"CARTESIAN_POINT('', ({coords[0]:.6f}, {coords[1]:.6f}, {coords[2]:.6f}))"
+            )
+            vert = writer.add(f"VERTEX_POINT('', #{pt})")
+            vertex = vertex_map[coords] = _Vertex(coords, pt, vert)
+        return vertex
 
     def _line_for_edge(start: _Vertex, end: _Vertex) -> Tuple[int, int, int]:
         direction_vec = _normalize((end.coords[0] - start.coords[0],
@@ -258,10 +262,13 @@ def write_step(obj: Sequence,
     tri_records: List[_TriRecord] = []
     edge_to_faces: Dict[Tuple[int, int], List[int]] = defaultdict(list)
 
-    for idx, tri in enumerate(triangles):
-        v0 = vertex_map[tri.v0]
-        v1 = vertex_map[tri.v1]
-        v2 = vertex_map[tri.v2]
+    for tri in triangles:
+        v0 = _vertex(tri.v0)
+        v1 = _vertex(tri.v1)
+        v2 = _vertex(tri.v2)
+        if len({v0.vertex_id, v1.vertex_id, v2.vertex_id}) < 3:
+            continue  # collapsed at the precision of the file
+        idx = len(tri_records)
         tri_records.append(_TriRecord(v0=v0, v1=v1, v2=v2, normal=_normalize(tri.normal)))
 
         for start, end in ((v0, v1), (v1, v2), (v2, v0)):
-- 
2.43.0


From 0d76886e6afdb9f53136a686b74732bd24305ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 054/215] fix: write_step encodes quotes, backslashes and
 non-ASCII characters of the product name

---
 src/yapcad/io/step.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index bd71574..d71b097 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -230,6 +230,7 @@ def write_step(obj: Sequence,
     triangles = list(triangles_from_mesh(mesh_view(obj)))
     if not triangles:
         raise ValueError('object produced no triangles for STEP export')
+    name = _step_string(name)
     writer = _EntityWriter()
 
     vertex_map: Dict[Vec3, _Vertex] = {}
@@ -457,6 +458,23 @@ def _write_header(stream: TextIO, name: str, schema: str) -> None:
     stream.write("ENDSEC;\n")
 
 
+def _step_string(text: str) -> str:
+    """Encode ``text`` for use between the quotes of a STEP string."""
+
+    out = []
+    for char in text:
+        code = ord(char)
+        if char in "'\\":
+            out.append(char * 2)
+        elif 32 <= code < 127:
+            out.append(char)
+        elif code <= 0xFFFF:
+            out.append(f"\\X2\\{code:04X}\\X0\\")
+        else:
+            out.append(f"\\X4\\{code:08X}\\X0\\")
+    return ''.join(out)
+
+
 def _normalize(vec: Vec3) -> Vec3:
     length = (vec[0] ** 2 + vec[1] ** 2 + vec[2] ** 2) ** 0.5
     if length == 0.0:
-- 
2.43.0


From 39f4ee76fa503c045c44a5226e48fa49a5e3d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 055/215] fix: ASCII STL export of a non-ASCII name failed
 after truncating the file

---
 src/yapcad/io/stl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index d512b0e..20c93a7 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -68,6 +68,7 @@ def _write_ascii(triangles: Iterable[Triangle], path_or_file, name: str) -> None
         stream = open(path_or_file, 'w', encoding='ascii')
         close_when_done = True
 
+    name = name.encode('ascii', errors='replace').decode('ascii')
     try:
         print(f"solid {name}", file=stream)
         for tri in triangles:
-- 
2.43.0


From aaea7006fe3bfa50e7e1af2c273729e8470c3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 056/215] fix: geometry JSON lost the sampling direction of
 reversed arcs

---
 src/yapcad/io/geometry_json.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 73c0a4a..fa8415d 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -489,9 +489,11 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     vect_data = vect(radius, 0.0, 360.0, orientation)
                     normal = prim.get("normal")
                     if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
+                        elements.append(arc(center, vect_data, _point_from_components(normal),
+                                            samplereverse=orientation == -2))
                     else:
-                        elements.append(arc(center, vect_data))
+                        elements.append(arc(center, vect_data,
+                                            samplereverse=orientation == -2))
                 elif kind == "arc":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
                     radius = float(prim.get("radius", 0.0))
@@ -501,9 +503,11 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     vect_data = vect(radius, start_angle, end_angle, orientation)
                     normal = prim.get("normal")
                     if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
+                        elements.append(arc(center, vect_data, _point_from_components(normal),
+                                            samplereverse=orientation == -2))
                     else:
-                        elements.append(arc(center, vect_data))
+                        elements.append(arc(center, vect_data,
+                                            samplereverse=orientation == -2))
                 elif kind == "ellipse":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
                     semi_major = float(prim.get("semi_major", 1.0))
-- 
2.43.0


From d1facee73574e59baf8157a60ea9a83a0558adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 057/215] fix: geometry JSON held live metadata, including
 in-memory caches that cannot be written (after a containment test or boolean)

---
 src/yapcad/io/geometry_json.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index fa8415d..8c65a6a 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -6,6 +6,7 @@ Implements the draft schema described in ``docs/geometry_json_schema.md``.
 from __future__ import annotations
 
 import uuid
+from copy import deepcopy
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Sequence
 
 from yapcad.geom import (
@@ -73,6 +74,12 @@ def _point_from_components(components: Sequence[float]) -> List[float]:
     return point(float(components[0]), float(components[1]))
 
 
+def _public_metadata(metadata: Dict[str, Any]) -> Dict[str, Any]:
+    """Copy of ``metadata`` without the in-memory caches (``_octree``, ...)."""
+    return {key: deepcopy(value) for key, value in metadata.items()
+            if not str(key).startswith("_")}
+
+
 def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]] = None) -> Dict[str, Any]:
     try:
         surface_id = ensure_surface_id(surface)
@@ -94,7 +101,7 @@ def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]
         "id": metadata.get("entityId", surface_id),
         "type": "surface",
         "name": metadata.get("name"),
-        "metadata": metadata,
+        "metadata": _public_metadata(metadata),
         "boundingBox": bbox,
         "properties": {},
         "vertices": [_float_vec(v) for v in verts],
@@ -190,7 +197,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         "id": metadata.get("entityId", solid_id),
         "type": "solid",
         "name": metadata.get("name"),
-        "metadata": metadata,
+        "metadata": _public_metadata(metadata),
         "boundingBox": bbox,
         "properties": {},
         "shell": shell_ids,
-- 
2.43.0


From b056f0485c277e6cc7aea936244fc68c048154c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 058/215] fix: geometry JSON dropped a surface that is a
 transformed copy of another one; renamed copies do not share metadata with
 the document

---
 src/yapcad/io/geometry_json.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 8c65a6a..41c5acf 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -143,11 +143,10 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         surface_id = serialized["id"]
         while surface_id in surface_cache:
             new_id = uuid.uuid4().hex
-            meta = serialized["metadata"]
-            meta["entityId"] = new_id
-            meta["id"] = new_id
+            for meta in (serialized["metadata"], get_surface_metadata(surf)):
+                meta["entityId"] = new_id
+                meta["id"] = new_id
             serialized["id"] = new_id
-            set_surface_metadata(surf, meta)
             surface_id = new_id
         surface_cache[surface_id] = serialized
         shell_ids.append(surface_id)
@@ -171,11 +170,10 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
                 surface_id = serialized["id"]
                 while surface_id in surface_cache:
                     new_id = uuid.uuid4().hex
-                    meta = serialized["metadata"]
-                    meta["entityId"] = new_id
-                    meta["id"] = new_id
+                    for meta in (serialized["metadata"], get_surface_metadata(surf)):
+                        meta["entityId"] = new_id
+                        meta["id"] = new_id
                     serialized["id"] = new_id
-                    set_surface_metadata(surf, meta)
                     surface_id = new_id
                 surface_cache[surface_id] = serialized
                 void_ids.append(surface_id)
@@ -379,6 +377,15 @@ def geometry_to_json(
                     set_layer(meta, layer)
                 meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
             surface_entry = _serialize_surface(entity, metadata_override)
+            known = surface_cache.get(surface_entry["id"])
+            if known is not None and any(known[key] != surface_entry[key]
+                                         for key in ("vertices", "normals", "faces")):
+                # a copy that kept the id of the original is an entity of its own
+                new_id = uuid.uuid4().hex
+                for meta in (surface_entry["metadata"], get_surface_metadata(entity)):
+                    meta["entityId"] = new_id
+                    meta["id"] = new_id
+                surface_entry["id"] = new_id
             surface_cache.setdefault(surface_entry["id"], surface_entry)
         elif isgeomlist(entity):
             sketch_entry = _serialize_sketch(entity, metadata_override)
-- 
2.43.0


From 2e73a2907ce52fb20bfb3fb303ad265b097d3e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 059/215] fix: geometry_from_json dropped stand-alone surfaces
 and sketches of documents that also hold solids

---
 src/yapcad/io/geometry_json.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 41c5acf..605e98d 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -477,13 +477,19 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         brep_from_solid(solid)
         solids.append(solid)
 
-    if solids:
-        return solids
+    used = set()
+    for entry in doc.get("entities", []):
+        if entry.get("type") == "solid":
+            used.update(entry.get("shell", []))
+            for void_ids in entry.get("voids", []):
+                used.update(void_ids)
+    free_surfaces = [surf for sid, surf in surfaces.items() if sid not in used]
+
     sketches = [
         entry for entry in doc.get("entities", []) if entry.get("type") == "sketch"
     ]
+    geomlists: List[list] = []
     if sketches:
-        geomlists: List[list] = []
         for sketch in sketches:
             primitives = sketch.get("primitives") or []
             elements: List[list] = []
@@ -588,9 +594,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 polylines.extend(segments)
             if polylines:
                 geomlists.append(polylines)
-        if geomlists:
-            return geomlists
-    return list(surfaces.values())
+    return solids + free_surfaces + geomlists
 
 
 __all__ = [
-- 
2.43.0


From 9ed22f37ba7dc84dda7ca7a8e5e5e57f1db0c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 060/215] fix: geometry JSON dropped points,
 Bezier/B-spline/conic curves, nested and out-of-plane elements of sketches

---
 src/yapcad/io/geometry_json.py | 107 +++++++++++++++++++++++++++------
 1 file changed, 90 insertions(+), 17 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 605e98d..af2a35b 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -11,12 +11,22 @@ from typing import Any, Dict, Iterable, List, Optional, Tuple, Sequence
 
 from yapcad.geom import (
     arc,
+    bezier,
+    bspline,
     catmullrom,
     ellipse,
+    hyperbola,
+    isbezier,
+    isbspline,
+    ishyperbola,
     isnurbs,
+    isparabola,
+    ispoint,
+    ispoly,
     iscatmullrom,
     isellipse,
     nurbs,
+    parabola,
     point,
     vect,
     bbox as bbox2d,
@@ -225,20 +235,44 @@ def _sample_geometry_element(element: list, min_segments: int = 8) -> List[List[
     return points
 
 
+def _flatten_sketch(geomlist: list) -> List[list]:
+    """Elements of a (possibly nested) geometry list; a bare curve is one element."""
+    if (isline(geomlist) or isarc(geomlist) or isellipse(geomlist) or ispoly(geomlist)
+            or iscatmullrom(geomlist) or isnurbs(geomlist)
+            or isbezier(geomlist) or isbspline(geomlist)
+            or isparabola(geomlist) or ishyperbola(geomlist)):
+        return [geomlist]
+    elements: List[list] = []
+    for element in geomlist:
+        if ispoint(element):
+            elements.append(element)
+        else:
+            elements.extend(_flatten_sketch(element))
+    return elements
+
+
+def _primitive_point(pt: Sequence[float]) -> List[float]:
+    """XY components, plus Z for points outside the XY plane."""
+    coords = [float(pt[0]), float(pt[1])]
+    if pt[2]:
+        coords.append(float(pt[2]))
+    return coords
+
+
 def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]] = None) -> Dict[str, Any]:
     poly_vectors: List[List[List[float]]] = []
     primitives: List[Dict[str, Any]] = []
 
-    for element in geomlist:
-        if isline(element):
-            start = _polyline_points(element[0])
-            end = _polyline_points(element[1])
-            poly_vectors.append([start, end])
+    for element in _flatten_sketch(geomlist):
+        if ispoint(element):
+            primitives.append({"kind": "point", "point": _point_components(element)})
+        elif isline(element):
+            poly_vectors.append([_polyline_points(element[0]), _polyline_points(element[1])])
             primitives.append(
                 {
                     "kind": "line",
-                    "start": start,
-                    "end": end,
+                    "start": _primitive_point(element[0]),
+                    "end": _primitive_point(element[1]),
                 }
             )
         elif iscircle(element):
@@ -308,11 +342,29 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
                 }
             )
             poly_vectors.append(_sample_geometry_element(element))
-        elif isinstance(element, list) and len(element) >= 2 and all(isinstance(pt, list) for pt in element):
-            coords = [_polyline_points(pt) for pt in element]
-            if coords:
-                poly_vectors.append(coords)
-                primitives.append({"kind": "polyline", "points": coords})
+        elif isbezier(element) or isbspline(element):
+            primitives.append(
+                {
+                    "kind": element[0],
+                    "points": [_point_components(pt) for pt in element[1]],
+                    "params": dict(element[2]),
+                }
+            )
+            poly_vectors.append(_sample_geometry_element(element))
+        elif isparabola(element) or ishyperbola(element):
+            primitives.append(
+                {
+                    "kind": element[0],
+                    "center": _point_components(element[1]),
+                    "params": dict(element[2]),
+                }
+            )
+            poly_vectors.append(_sample_geometry_element(element))
+        elif ispoly(element):
+            poly_vectors.append([_polyline_points(pt) for pt in element])
+            primitives.append(
+                {"kind": "polyline", "points": [_primitive_point(pt) for pt in element]}
+            )
 
     box = bbox2d(geomlist)
     if box:
@@ -387,7 +439,10 @@ def geometry_to_json(
                     meta["id"] = new_id
                 surface_entry["id"] = new_id
             surface_cache.setdefault(surface_entry["id"], surface_entry)
-        elif isgeomlist(entity):
+        elif (isgeomlist(entity) or isarc(entity) or isellipse(entity)
+                or iscatmullrom(entity) or isnurbs(entity)
+                or isbezier(entity) or isbspline(entity)
+                or isparabola(entity) or ishyperbola(entity)):
             sketch_entry = _serialize_sketch(entity, metadata_override)
             serialized_entities.append(sketch_entry)
         else:
@@ -499,9 +554,10 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     start = prim.get("start", [])
                     end = prim.get("end", [])
                     if len(start) >= 2 and len(end) >= 2:
-                        p0 = point(float(start[0]), float(start[1]))
-                        p1 = point(float(end[0]), float(end[1]))
-                        elements.append(line(p0, p1))
+                        elements.append(line(_point_from_components(start),
+                                             _point_from_components(end)))
+                elif kind == "point":
+                    elements.append(_point_from_components(prim.get("point", [0.0, 0.0])))
                 elif kind == "circle":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
                     radius = float(prim.get("radius", 0.0))
@@ -549,7 +605,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     )
                 elif kind == "polyline":
                     coords = prim.get("points", [])
-                    pts = [point(float(pt[0]), float(pt[1])) for pt in coords if len(pt) >= 2]
+                    pts = [_point_from_components(pt) for pt in coords if len(pt) >= 2]
                     for idx in range(len(pts) - 1):
                         elements.append(line(pts[idx], pts[idx + 1]))
                 elif kind == "catmullrom":
@@ -562,6 +618,23 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                             alpha=float(params.get("alpha", 0.5)),
                         )
                     )
+                elif kind == "bezier":
+                    elements.append(
+                        bezier([_point_from_components(pt) for pt in prim.get("points", [])])
+                    )
+                elif kind == "bspline":
+                    params = prim.get("params") or {}
+                    elements.append(
+                        bspline(
+                            [_point_from_components(pt) for pt in prim.get("points", [])],
+                            degree=int(params.get("degree", 3)),
+                            closed=bool(params.get("closed", False)),
+                        )
+                    )
+                elif kind in ("parabola", "hyperbola"):
+                    make = parabola if kind == "parabola" else hyperbola
+                    center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
+                    elements.append(make(center, **(prim.get("params") or {})))
                 elif kind == "nurbs":
                     ctrl_points = [_point_from_components(pt) for pt in prim.get("points", [])]
                     params = prim.get("params") or {}
-- 
2.43.0


From 35e7021c01f2b43bd879051b24bdd0d1d0f9d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 061/215] fix: geometry JSON gave copied solids, or the
 surfaces of a solid with a caller-chosen id, the same id

---
 src/yapcad/io/geometry_json.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index af2a35b..4aa6321 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -90,6 +90,11 @@ def _public_metadata(metadata: Dict[str, Any]) -> Dict[str, Any]:
             if not str(key).startswith("_")}
 
 
+def _inherited(metadata_override: Dict[str, Any]) -> Dict[str, Any]:
+    """The part of a solid's metadata override that its surfaces share: not its id."""
+    return {k: v for k, v in metadata_override.items() if k not in ("entityId", "id")}
+
+
 def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]] = None) -> Dict[str, Any]:
     try:
         surface_id = ensure_surface_id(surface)
@@ -145,7 +150,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         surface_meta = get_surface_metadata(surf, create=True)
         surface_override = None
         if metadata_override:
-            surface_override = dict(metadata_override)
+            surface_override = _inherited(metadata_override)
         if parent_layer and (not surface_meta.get("layer") or surface_meta.get("layer") == "default"):
             surface_override = dict(surface_override or {})
             surface_override["layer"] = parent_layer
@@ -172,7 +177,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
                 surface_meta = get_surface_metadata(surf, create=True)
                 surface_override = None
                 if metadata_override:
-                    surface_override = dict(metadata_override)
+                    surface_override = _inherited(metadata_override)
                 if parent_layer and (not surface_meta.get("layer") or surface_meta.get("layer") == "default"):
                     surface_override = dict(surface_override or {})
                     surface_override["layer"] = parent_layer
@@ -402,6 +407,7 @@ def geometry_to_json(
     """Serialize solids/surfaces into the geometry JSON document."""
     serialized_entities: List[Dict[str, Any]] = []
     surface_cache: Dict[str, Dict[str, Any]] = {}
+    solid_ids = set()
 
     for item in entities:
         metadata_override = None
@@ -420,6 +426,14 @@ def geometry_to_json(
                     set_layer(meta, layer)
                 meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
             solid_entry = _serialize_solid(entity, surface_cache, metadata_override)
+            if solid_entry["id"] in solid_ids:
+                # a copy that kept the id of the original is an entity of its own
+                new_id = uuid.uuid4().hex
+                for meta in (solid_entry["metadata"], get_solid_metadata(entity)):
+                    meta["entityId"] = new_id
+                    meta["id"] = new_id
+                solid_entry["id"] = new_id
+            solid_ids.add(solid_entry["id"])
             serialized_entities.append(solid_entry)
         elif issurface(entity):
             if metadata_override:
-- 
2.43.0


From 3a5275d114294f387629104c917c24d0f87f761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 062/215] fix: geometry JSON invented empty cavities for solids
 that carry a construction record

---
 src/yapcad/io/geometry_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 4aa6321..15f7e55 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -193,7 +193,8 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
                 surface_cache[surface_id] = serialized
                 void_ids.append(surface_id)
                 layers_seen.append(serialized["metadata"].get("layer", "default"))
-            voids.append(void_ids)
+            if void_ids:
+                voids.append(void_ids)
 
     if "layer" not in metadata or not metadata.get("layer"):
         unique_layers = [layer for layer in layers_seen if layer]
-- 
2.43.0


From 050ac2c71de8e7e211627150fcd1d3da28cbc166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 063/215] fix: vstr (and printing an octree) failed on lists of
 more than about 1000 points

---
 src/yapcad/geom.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 724f32f..d92adc3 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -1868,19 +1868,10 @@ def vstr(a):
     """ utility function for recursively checking and formatting lists
     """
     def _isallvect(foo):
-        if not isinstance(foo,list):
-            return False
-        if len(foo)==1:
-            return isinstance(foo[0],list) and \
-                (isvect(foo[0]) or _isallvect(foo[0]))
-        else:
-            return (isvect(foo[0]) or _isallvect(foo[0])) and \
-                _isallvect(foo[1:])
+        return isinstance(foo,list) and len(foo) > 0 and \
+            all(isvect(f) or _isallvect(f) for f in foo)
     def _makestr(foo):
-        if len(foo) ==1:
-            return vstr(foo[0])
-        else:
-            return vstr(foo[0]) + ", " + _makestr(foo[1:])
+        return ", ".join(vstr(f) for f in foo)
     # if it's not a list, it's not a vector, line, or poly    
     if not isinstance(a,list):
         return str(a) # fall back to default string formatting
-- 
2.43.0


From 9e9dd6cf5e32c3ce957c586cbeffc9d19531a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 064/215] fix: packaging a solid whose material was set with
 metadata.set_material raised TypeError

---
 src/yapcad/package/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 04dba65..73043d7 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -64,7 +64,10 @@ def _collect_material_refs(entities: Iterable[list]) -> List[str]:
         else:
             continue
         mat_ref = meta.get("material")
-        if mat_ref and mat_ref not in seen:
+        if isinstance(mat_ref, dict):
+            # material namespace section (``metadata.set_material``)
+            mat_ref = mat_ref.get("name")
+        if isinstance(mat_ref, str) and mat_ref and mat_ref not in seen:
             refs.append(mat_ref)
             seen.add(mat_ref)
     return refs
-- 
2.43.0


From 0baab4b2cb9742f0b3f80e1ef847d0e44b7e13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 065/215] fix: a manifest that cannot be dumped truncated the
 one on disk

---
 src/yapcad/package/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 73043d7..3c7ef6a 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -123,8 +123,9 @@ class PackageManifest:
         self.root.mkdir(parents=True, exist_ok=True)
         import yaml
 
+        text = yaml.safe_dump(self.data, sort_keys=False)
         with self.manifest_path.open("w", encoding="utf-8") as fp:
-            yaml.safe_dump(self.data, fp, sort_keys=False)
+            fp.write(text)
 
     def recompute_hashes(self, *, algorithm: str = "sha256") -> None:
         geom = self.data.get("geometry", {})
-- 
2.43.0


From 28c48ed6a265c4c090242cefc58a0c56a5b67287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 066/215] fix: add_geometry_file wrote outside the package for
 ../ destinations, and copied the file before refusing an unknown category

---
 src/yapcad/package/core.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 3c7ef6a..214871c 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -266,6 +266,9 @@ def add_geometry_file(
         The manifest entry dictionary that was inserted.
     """
 
+    if category not in ("derived", "attachments"):
+        raise ValueError(f"unsupported category for geometry file: {category}")
+
     src_path = Path(source)
     if not src_path.exists():
         raise FileNotFoundError(f"geometry source not found: {src_path}")
@@ -273,14 +276,14 @@ def add_geometry_file(
     if dest_relative is None:
         if category == "derived":
             dest_relative_path = Path("geometry") / "derived" / src_path.name
-        elif category == "attachments":
-            dest_relative_path = Path("attachments") / src_path.name
         else:
-            dest_relative_path = Path(src_path.name)
+            dest_relative_path = Path("attachments") / src_path.name
     else:
         dest_relative_path = Path(dest_relative)
         if dest_relative_path.is_absolute():
             raise ValueError("dest_relative must be a relative path")
+        if ".." in dest_relative_path.parts:
+            raise ValueError("dest_relative must stay inside the package")
 
     dest_path = manifest.root / dest_relative_path
     dest_path.parent.mkdir(parents=True, exist_ok=True)
@@ -310,14 +313,12 @@ def add_geometry_file(
         derived = [item for item in derived if item.get("path") != entry["path"]]
         derived.append(entry)
         geometry["derived"] = derived
-    elif category == "attachments":
+    else:
         attachments = manifest.data.setdefault("attachments", [])
         attachments = [item for item in attachments if item.get("path") != entry["path"]]
         entry.setdefault("id", dest_relative_path.stem)
         attachments.append(entry)
         manifest.data["attachments"] = attachments
-    else:
-        raise ValueError(f"unsupported category for geometry file: {category}")
 
     return entry
 
-- 
2.43.0


From 6d6edd38cd7f58b903e2fb9c11d510a6d8f1a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 067/215] fix: validate_package rejected intact packages hashed
 with another algorithm than sha256

---
 src/yapcad/package/validator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 5d09164..2323949 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -18,7 +18,12 @@ def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]
     if not path.exists():
         messages.append(f"ERROR: missing file {path}")
         return False, messages
-    actual_hash = _compute_hash(path)
+    algorithm = expected_hash.partition(":")[0].lower() if expected_hash else "sha256"
+    try:
+        actual_hash = _compute_hash(path, algorithm)
+    except ValueError:
+        messages.append(f"ERROR: unsupported hash algorithm '{algorithm}' for {path}")
+        return False, messages
     if expected_hash and expected_hash.lower() != actual_hash.lower():
         messages.append(
             f"ERROR: hash mismatch for {path} (expected {expected_hash}, got {actual_hash})"
-- 
2.43.0


From e5e3f43854fe6f9cff7ca4af876e6cd2c2bf13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 068/215] fix: validate_package raised on malformed manifests
 (wrong types, directories, missing paths) instead of reporting them

---
 src/yapcad/package/validator.py | 49 +++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 2323949..48fdc6b 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -15,13 +15,16 @@ VALID_SOURCE_TYPES = {"standard", "vendor", "custom", "tested"}
 
 def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]:
     messages: List[str] = []
-    if not path.exists():
+    if not path.is_file():
         messages.append(f"ERROR: missing file {path}")
         return False, messages
+    if expected_hash is not None and not isinstance(expected_hash, str):
+        messages.append(f"ERROR: malformed hash {expected_hash!r} for {path}")
+        return False, messages
     algorithm = expected_hash.partition(":")[0].lower() if expected_hash else "sha256"
     try:
         actual_hash = _compute_hash(path, algorithm)
-    except ValueError:
+    except (ValueError, TypeError):
         messages.append(f"ERROR: unsupported hash algorithm '{algorithm}' for {path}")
         return False, messages
     if expected_hash and expected_hash.lower() != actual_hash.lower():
@@ -32,6 +35,13 @@ def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]
     return True, messages
 
 
+def _check_entry(root: Path, entry: Any) -> Tuple[bool, List[str]]:
+    """Check the file recorded by a manifest entry."""
+    if not isinstance(entry, dict) or not isinstance(entry.get("path"), str):
+        return False, [f"ERROR: malformed file entry {entry!r}"]
+    return _check_file(root / entry["path"], entry.get("hash"))
+
+
 def _validate_material(mat_id: str, mat_def: Dict[str, Any], strict: bool) -> Tuple[bool, List[str]]:
     """Validate a single material definition per the schema spec."""
     messages: List[str] = []
@@ -42,25 +52,33 @@ def _validate_material(mat_id: str, mat_def: Dict[str, Any], strict: bool) -> Tu
     if not source:
         messages.append(f"ERROR: material '{mat_id}' missing required 'source' field")
         return False, messages
+    if not isinstance(source, dict):
+        messages.append(f"ERROR: material '{mat_id}' field 'source' must be a dictionary")
+        return False, messages
 
     source_type = source.get("type")
     if not source_type:
         messages.append(f"ERROR: material '{mat_id}' missing required 'source.type' field")
         ok = False
-    elif source_type not in VALID_SOURCE_TYPES:
+    elif not isinstance(source_type, str) or source_type not in VALID_SOURCE_TYPES:
         messages.append(f"ERROR: material '{mat_id}' has invalid source.type '{source_type}'")
         ok = False
     else:
         # Validate source type-specific fields
         if source_type == "standard":
             std = source.get("standard", {})
+            if not isinstance(std, dict):
+                std = {}
             if not std.get("body"):
                 messages.append(f"WARNING: material '{mat_id}' (type=standard) missing source.standard.body")
             if not std.get("designation"):
                 messages.append(f"WARNING: material '{mat_id}' (type=standard) missing source.standard.designation")
 
     # Validate visual properties if present
-    visual = mat_def.get("visual", {})
+    visual = mat_def.get("visual") or {}
+    if not isinstance(visual, dict):
+        messages.append(f"ERROR: material '{mat_id}' field 'visual' must be a dictionary")
+        return False, messages
     color = visual.get("color")
     if color:
         if not isinstance(color, list) or len(color) != 3:
@@ -120,6 +138,8 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
         return False, [f"ERROR: failed to load manifest: {exc}"]
 
     data = manifest.data
+    if not isinstance(data, dict):
+        return False, ["ERROR: manifest is not a mapping"]
     if data.get("schema") != "ycpkg-spec-v0.1":
         messages.append(f"ERROR: unsupported package schema {data.get('schema')}")
 
@@ -130,7 +150,7 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
         messages.append(f"ERROR: geometry.primary missing: {exc}")
         return False, messages
 
-    ok, file_messages = _check_file(primary_path, data.get("geometry", {}).get("primary", {}).get("hash"))
+    ok, file_messages = _check_entry(manifest.root, data["geometry"]["primary"])
     messages.extend(file_messages)
     if ok:
         try:
@@ -144,21 +164,26 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
     overall_ok = ok and not any(msg.startswith("ERROR") for msg in messages)
 
     # Derived geometry
-    derived_entries = data.get("geometry", {}).get("derived", []) or []
+    derived_entries = data["geometry"].get("derived", []) or []
+    if not isinstance(derived_entries, list):
+        messages.append("ERROR: geometry.derived must be a list")
+        derived_entries, overall_ok = [], False
     for entry in derived_entries:
-        derived_path = manifest.root / entry["path"]
-        ok_entry, msgs = _check_file(derived_path, entry.get("hash"))
+        ok_entry, msgs = _check_entry(manifest.root, entry)
         messages.extend(msgs)
         overall_ok = overall_ok and ok_entry
 
     # Exports and attachments
     for section in ("exports", "attachments"):
-        for entry in data.get(section, []) or []:
-            file_path = manifest.root / entry["path"]
-            ok_entry, msgs = _check_file(file_path, entry.get("hash"))
+        entries = data.get(section, []) or []
+        if not isinstance(entries, list):
+            messages.append(f"ERROR: {section} must be a list")
+            entries, overall_ok = [], False
+        for entry in entries:
+            ok_entry, msgs = _check_entry(manifest.root, entry)
             messages.extend(msgs)
             overall_ok = overall_ok and ok_entry
-            if strict and entry.get("hash") is None:
+            if strict and isinstance(entry, dict) and entry.get("hash") is None:
                 messages.append(f"WARNING: {section} entry {entry.get('id')} missing hash")
 
     # Materials validation
-- 
2.43.0


From e8f7445ba12032e1b8fc7546cd49b7d6cb9e07e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 069/215] fix: validate_package accepted file references that
 leave the package

---
 src/yapcad/package/validator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 48fdc6b..7527152 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -39,6 +39,9 @@ def _check_entry(root: Path, entry: Any) -> Tuple[bool, List[str]]:
     """Check the file recorded by a manifest entry."""
     if not isinstance(entry, dict) or not isinstance(entry.get("path"), str):
         return False, [f"ERROR: malformed file entry {entry!r}"]
+    rel = Path(entry["path"])
+    if rel.is_absolute() or ".." in rel.parts:
+        return False, [f"ERROR: {rel} is not a relative path within the package"]
     return _check_file(root / entry["path"], entry.get("hash"))
 
 
-- 
2.43.0


From d711e21a065345c1d0c94dc4e14bbef8fbc0b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 070/215] fix: a package whose manifest holds an unquoted YAML
 date, as in the specification, could not be signed or verified

---
 src/yapcad/package/signing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 0bda5de..e0d2da2 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -125,8 +125,8 @@ def _compute_canonical_manifest_hash(manifest_path: Path) -> str:
     if 'signatures' in data:
         data = {k: v for k, v in data.items() if k != 'signatures'}
     
-    # Canonicalize: sort keys, compact JSON
-    canonical = json.dumps(data, sort_keys=True, separators=(',', ':'))
+    # Canonicalize: sort keys, compact JSON (YAML dates become strings)
+    canonical = json.dumps(data, sort_keys=True, separators=(',', ':'), default=str)
     
     # Compute hash
     hash_bytes = hashlib.sha256(canonical.encode('utf-8')).digest()
-- 
2.43.0


From 99be31601470750f431ae93fe6807ded01b17f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 071/215] fix: SSH signatures: tampered packages were reported
 VALID_UNTRUSTED and signers listed in allowed_signers were not trusted

---
 src/yapcad/package/signing.py | 42 +++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index e0d2da2..2744b3a 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -303,31 +303,35 @@ def _verify_ssh_signature(
         sig_file = f.name
     
     try:
-        if allowed_signers and allowed_signers.exists():
-            # Verify with allowed signers (trusted verification)
-            # Need to figure out principal - for now use wildcard
+        # Does the signature match the content at all?
+        result = subprocess.run(
+            ["ssh-keygen", "-Y", "check-novalidate", "-n", namespace, "-s", sig_file],
+            input=content, capture_output=True,
+        )
+        if result.returncode != 0:
+            return VerificationStatus.INVALID, "unknown", result.stderr.decode('utf-8', 'replace')
+
+        if not (allowed_signers and allowed_signers.exists()):
+            return VerificationStatus.VALID_UNTRUSTED, "unknown", "No allowed_signers file provided"
+
+        # Verify with allowed signers (trusted verification), as any of the
+        # principals the file lists for the signing key
+        result = subprocess.run(
+            ["ssh-keygen", "-Y", "find-principals", "-s", sig_file, "-f", str(allowed_signers)],
+            capture_output=True,
+        )
+        for principal in result.stdout.decode('utf-8', 'replace').splitlines():
             cmd = [
                 "ssh-keygen", "-Y", "verify",
                 "-f", str(allowed_signers),
-                "-I", "*",  # Match any principal
+                "-I", principal,
                 "-n", namespace,
                 "-s", sig_file
             ]
-            result = subprocess.run(cmd, input=content, capture_output=True)
-            
-            if result.returncode == 0:
-                return VerificationStatus.VALID, "verified", None
-            else:
-                stderr = result.stderr.decode('utf-8')
-                if "Could not verify" in stderr:
-                    return VerificationStatus.INVALID, "unknown", stderr
-                else:
-                    return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
-        else:
-            # Without allowed_signers, we can only check signature format validity
-            # This is a limitation - can't verify without knowing the public key
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "No allowed_signers file provided"
-            
+            if subprocess.run(cmd, input=content, capture_output=True).returncode == 0:
+                return VerificationStatus.VALID, principal, None
+        return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
+
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "ssh-keygen not found"
     finally:
-- 
2.43.0


From 52fb4a4b91083b188ff4b16356dd587063e9df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 072/215] fix: GPG verification: custom keyrings were never
 read, untrusted or revoked keys were VALID, and unverifiable signatures
 VALID_UNTRUSTED

---
 src/yapcad/package/signing.py | 46 +++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 2744b3a..7ec8456 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -254,29 +254,33 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
         sig_file = f.name
     
     try:
-        cmd = ["gpg", "--verify", sig_file, content_file]
+        cmd = ["gpg", "--batch", "--status-fd", "1"]
         if keyring:
-            cmd.extend(["--keyring", str(keyring)])
+            cmd.extend(["--keyring", str(keyring.resolve())])
+        cmd.extend(["--verify", sig_file, content_file])
         
         result = subprocess.run(cmd, capture_output=True)
-        stderr = result.stderr.decode('utf-8')
-        
-        if result.returncode == 0:
-            # Extract signer from output
-            signer = "unknown"
-            for line in stderr.split('\n'):
-                if 'Good signature from' in line:
-                    # Extract quoted name
-                    start = line.find('"') + 1
-                    end = line.rfind('"')
-                    if start > 0 and end > start:
-                        signer = line[start:end]
-            return VerificationStatus.VALID, signer, None
-        elif "Can't check signature: No public key" in stderr:
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "Public key not found"
-        else:
+        stderr = result.stderr.decode('utf-8', 'replace')
+        # "[GNUPG:] KEYWORD args..." lines
+        status = {}
+        for line in result.stdout.decode('utf-8', 'replace').splitlines():
+            parts = line.split(' ', 3)
+            if parts[0] == "[GNUPG:]" and len(parts) > 1:
+                status[parts[1]] = parts[3] if len(parts) > 3 else ""
+
+        if "BADSIG" in status:
             return VerificationStatus.INVALID, "unknown", stderr
-            
+        if result.returncode == 0 and "VALIDSIG" in status:
+            signer = next((status[k] for k in ("GOODSIG", "EXPKEYSIG", "REVKEYSIG")
+                           if status.get(k)), "unknown")
+            trusted = any(k in status for k in ("TRUST_MARGINAL", "TRUST_FULLY", "TRUST_ULTIMATE"))
+            if "GOODSIG" in status and trusted:
+                return VerificationStatus.VALID, signer, None
+            return VerificationStatus.VALID_UNTRUSTED, signer, "Signing key is not trusted"
+        if "NO_PUBKEY" in status:
+            return VerificationStatus.ERROR, "unknown", "Public key not found"
+        return VerificationStatus.INVALID, "unknown", stderr
+
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "GPG not found"
     finally:
@@ -505,12 +509,12 @@ def verify_package(
         if method == SignatureMethod.GPG:
             status, signer, error = _verify_gpg_signature(
                 content, signature, 
-                keyring=Path(gpg_keyring) if gpg_keyring else None
+                keyring=Path(gpg_keyring).expanduser() if gpg_keyring else None
             )
         else:
             status, signer, error = _verify_ssh_signature(
                 content, signature,
-                allowed_signers=Path(allowed_signers) if allowed_signers else None
+                allowed_signers=Path(allowed_signers).expanduser() if allowed_signers else None
             )
         
         sig_info = SignatureInfo(
-- 
2.43.0


From 8984fd897fd12b462dd817d4c9dfa5a0a0d6da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 073/215] fix: signing with the default GPG key recorded an
 unknown signer and key

---
 src/yapcad/package/signing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 7ec8456..e3a39ca 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -149,7 +149,7 @@ def _sign_with_gpg(content: bytes, key_id: Optional[str] = None) -> tuple[str, s
     
     Returns: (signature_armored, signer_id, key_id)
     """
-    cmd = ["gpg", "--armor", "--detach-sign"]
+    cmd = ["gpg", "--status-fd", "2", "--armor", "--detach-sign"]
     if key_id:
         cmd.extend(["--local-user", key_id])
     
@@ -166,7 +166,10 @@ def _sign_with_gpg(content: bytes, key_id: Optional[str] = None) -> tuple[str, s
     except FileNotFoundError:
         raise SigningError("GPG not found. Install GnuPG to use GPG signing.")
     
-    # Get signer info
+    # Get signer info, for the key that gpg reports to have used
+    for line in result.stderr.decode('utf-8', 'replace').splitlines():
+        if line.startswith("[GNUPG:] SIG_CREATED "):
+            key_id = line.split()[-1]
     try:
         list_result = subprocess.run(
             ["gpg", "--list-keys", "--with-colons", key_id or ""],
-- 
2.43.0


From c658815ccdf33f83157349c66eae7bfb46d05df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 074/215] fix: adding a signature overwrote the signature file
 of an existing one (second GPG key, SSH signers sharing 20 characters)

---
 src/yapcad/package/signing.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index e3a39ca..43f07ca 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -385,12 +385,23 @@ def sign_package(
     sig_dir = pkg_path / "signatures"
     sig_dir.mkdir(exist_ok=True)
     
+    # Signatures kept by add=True keep their files
+    taken = {Path(info.signature_file).name for info in list_signatures(pkg_path)} if add else set()
+
+    def signature_path(name: str) -> Path:
+        candidate, count = name, 1
+        while candidate in taken:
+            count += 1
+            stem, dot, suffix = name.rpartition('.')
+            candidate = f"{stem}-{count}{dot}{suffix}"
+        return sig_dir / candidate
+
     # Sign based on method
     timestamp = datetime.now(timezone.utc).isoformat()
     
     if method == SignatureMethod.GPG:
         signature, signer_id, actual_key_id = _sign_with_gpg(content, key_id)
-        sig_file = sig_dir / "manifest.sig.asc"
+        sig_file = signature_path("manifest.sig.asc")
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
@@ -407,7 +418,7 @@ def sign_package(
         
         # Generate unique filename for SSH signatures
         safe_name = signer_id.replace('@', '_').replace(' ', '_').replace('/', '_')[:20]
-        sig_file = sig_dir / f"manifest.sig.{safe_name}"
+        sig_file = signature_path(f"manifest.sig.{safe_name}")
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
-- 
2.43.0


From 7d4965bd4a11e7022c9710ba91ca91bddc631c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 075/215] fix: SSH signer names were cut at the first space,
 and "no" for keys without comment

---
 src/yapcad/package/signing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 43f07ca..ff9addc 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -226,10 +226,12 @@ def _sign_with_ssh(content: bytes, key_path: Path, namespace: str = "ycpkg") ->
             check=True
         )
         fp_line = fp_result.stdout.decode('utf-8').strip()
-        # Format: "256 SHA256:xxxx comment (type)"
+        # Format: "256 SHA256:xxxx comment (type)", the comment may hold spaces
         parts = fp_line.split()
         fingerprint = parts[1] if len(parts) > 1 else "unknown"
-        signer_id = parts[2] if len(parts) > 2 else str(key_path.name)
+        signer_id = ' '.join(parts[2:-1])
+        if not signer_id or signer_id == "no comment":
+            signer_id = str(key_path.name)
         
     except subprocess.CalledProcessError as e:
         raise SigningError(f"SSH signing failed: {e.stderr.decode('utf-8')}")
-- 
2.43.0


From d628ea5cb4d73dd621007f279f298404e2b311b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:36 +0000
Subject: [PATCH 076/215] fix: verify_package accepted packages whose files had
 been modified or removed

---
 src/yapcad/package/signing.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index ff9addc..dad6253 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -33,6 +33,8 @@ from typing import Any, Dict, List, Optional
 
 import yaml
 
+from .validator import _check_file
+
 
 class SignatureMethod(Enum):
     """Supported signature methods."""
@@ -133,6 +135,27 @@ def _compute_canonical_manifest_hash(manifest_path: Path) -> str:
     return hash_bytes.hex()
 
 
+def _recorded_files(section: Any) -> List[Dict[str, Any]]:
+    """All manifest entries below ``section`` that record a file and its hash."""
+    if isinstance(section, dict):
+        found = [section] if isinstance(section.get("path"), str) and isinstance(section.get("hash"), str) else []
+        return found + [e for value in section.values() for e in _recorded_files(value)]
+    if isinstance(section, list):
+        return [e for value in section for e in _recorded_files(value)]
+    return []
+
+
+def _modified_files(pkg_path: Path, manifest: Dict[str, Any]) -> List[str]:
+    """Paths of recorded files that are missing or differ from their recorded hash."""
+    modified = []
+    for name in ("geometry", "exports", "attachments", "source"):
+        for entry in _recorded_files(manifest.get(name)):
+            ok, _ = _check_file(pkg_path / entry["path"], entry["hash"])
+            if not ok:
+                modified.append(entry["path"])
+    return modified
+
+
 def _create_signable_content(manifest_hash: str) -> bytes:
     """Create the content to be signed.
     
@@ -497,6 +520,9 @@ def verify_package(
         result.warnings.append("Package has no signatures")
         return result
     
+    # The signature covers the files through the hashes in the manifest
+    modified = _modified_files(pkg_path, manifest)
+
     # Verify each signature
     for sig_entry in signatures:
         method_str = sig_entry.get("method", "gpg")
@@ -533,6 +559,10 @@ def verify_package(
                 allowed_signers=Path(allowed_signers).expanduser() if allowed_signers else None
             )
         
+        if modified and status in (VerificationStatus.VALID, VerificationStatus.VALID_UNTRUSTED):
+            status = VerificationStatus.INVALID
+            error = "Package files modified: " + ", ".join(modified)
+
         sig_info = SignatureInfo(
             signer=sig_entry.get("signer", signer),
             method=method,
-- 
2.43.0


From ae679f4c1e0b1ab85a7084b1d996c341601b0792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 077/215] fix: verify_package raised on corrupted manifests and
 signature files instead of reporting an error

---
 src/yapcad/package/signing.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index dad6253..2fdb739 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -502,14 +502,21 @@ def verify_package(
             errors=["Package manifest not found"]
         )
     
-    # Compute expected manifest hash
-    manifest_hash = _compute_canonical_manifest_hash(manifest_path)
+    # Load manifest and compute expected manifest hash
+    try:
+        with open(manifest_path, 'r', encoding='utf-8') as f:
+            manifest = yaml.safe_load(f)
+        if not isinstance(manifest, dict):
+            raise ValueError("manifest is not a mapping")
+        manifest_hash = _compute_canonical_manifest_hash(manifest_path)
+    except (OSError, ValueError, TypeError, yaml.YAMLError) as exc:
+        return VerificationResult(
+            package_path=str(pkg_path),
+            manifest_hash="",
+            errors=[f"Package manifest unreadable: {exc}"]
+        )
     content = _create_signable_content(manifest_hash)
-    
-    # Load manifest
-    with open(manifest_path, 'r', encoding='utf-8') as f:
-        manifest = yaml.safe_load(f)
-    
+
     result = VerificationResult(
         package_path=str(pkg_path),
         manifest_hash=f"sha256:{manifest_hash}",
@@ -524,7 +531,13 @@ def verify_package(
     modified = _modified_files(pkg_path, manifest)
 
     # Verify each signature
+    if not isinstance(signatures, list):
+        result.errors.append("Malformed signatures section")
+        signatures = []
     for sig_entry in signatures:
+        if not isinstance(sig_entry, dict):
+            result.errors.append(f"Malformed signature entry: {sig_entry!r}")
+            continue
         method_str = sig_entry.get("method", "gpg")
         try:
             method = SignatureMethod(method_str)
@@ -532,8 +545,8 @@ def verify_package(
             result.errors.append(f"Unknown signature method: {method_str}")
             continue
         
-        sig_file_path = pkg_path / sig_entry.get("signature_file", "")
-        if not sig_file_path.exists():
+        sig_file_path = pkg_path / str(sig_entry.get("signature_file", ""))
+        if not sig_file_path.is_file():
             sig_info = SignatureInfo(
                 signer=sig_entry.get("signer", "unknown"),
                 method=method,
@@ -546,7 +559,7 @@ def verify_package(
             result.signatures.append(sig_info)
             continue
         
-        signature = sig_file_path.read_text()
+        signature = sig_file_path.read_text(encoding='utf-8', errors='replace')
         
         if method == SignatureMethod.GPG:
             status, signer, error = _verify_gpg_signature(
-- 
2.43.0


From a11b0194529f0be367356a03beb98d0686dd91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 078/215] fix: the last expression statement of every DSL block
 was never executed

---
 src/yapcad/dsl/runtime/interpreter.py | 41 +++++++++++++--------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3deb662..95b1734 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -253,10 +253,20 @@ class Interpreter:
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
         """Execute a command's body statements."""
-        for stmt in command.body.statements:
+        self._execute_body(command.body, ctx)
+
+    def _execute_body(self, block: Block, ctx: ExecutionContext) -> None:
+        """Execute the statements of a block in the current scope.
+
+        The parser keeps a block's trailing expression statement apart (as
+        ``final_expression``); used as a statement it is executed too.
+        """
+        for stmt in block.statements:
             self._execute_statement(stmt, ctx)
             if ctx.should_return:
-                break
+                return
+        if block.final_expression is not None:
+            self._evaluate(block.final_expression, ctx)
 
     def _apply_command_meta_hint(self, command: Command, ctx: ExecutionContext) -> None:
         """Apply a command's merged ``@meta(...)`` hint to its emitted solid.
@@ -371,10 +381,9 @@ class Interpreter:
         with ctx.new_scope("for-loop"):
             for item in items:
                 ctx.set_variable(stmt.variable, wrap_value(item, elem_type))
-                for body_stmt in stmt.body.statements:
-                    self._execute_statement(body_stmt, ctx)
-                    if ctx.should_return:
-                        return
+                self._execute_body(stmt.body, ctx)
+                if ctx.should_return:
+                    return
 
     # NOTE: _execute_while removed - while loops not supported for static verifiability
 
@@ -385,10 +394,7 @@ class Interpreter:
         if condition.is_truthy():
             # Execute then branch
             with ctx.new_scope("if-then"):
-                for body_stmt in stmt.then_branch.statements:
-                    self._execute_statement(body_stmt, ctx)
-                    if ctx.should_return:
-                        return
+                self._execute_body(stmt.then_branch, ctx)
         else:
             # Check elif branches
             executed = False
@@ -396,20 +402,14 @@ class Interpreter:
                 elif_cond = self._evaluate(elif_branch.condition, ctx)
                 if elif_cond.is_truthy():
                     with ctx.new_scope("elif"):
-                        for body_stmt in elif_branch.body.statements:
-                            self._execute_statement(body_stmt, ctx)
-                            if ctx.should_return:
-                                return
+                        self._execute_body(elif_branch.body, ctx)
                     executed = True
                     break
 
             # Execute else branch if no elif matched
             if not executed and stmt.else_branch is not None:
                 with ctx.new_scope("else"):
-                    for body_stmt in stmt.else_branch.statements:
-                        self._execute_statement(body_stmt, ctx)
-                        if ctx.should_return:
-                            return
+                    self._execute_body(stmt.else_branch, ctx)
 
     def _execute_return(self, stmt: ReturnStatement, ctx: ExecutionContext) -> None:
         """Execute a return statement."""
@@ -422,10 +422,7 @@ class Interpreter:
     def _execute_block(self, block: Block, ctx: ExecutionContext) -> None:
         """Execute a block of statements."""
         with ctx.new_scope("block"):
-            for stmt in block.statements:
-                self._execute_statement(stmt, ctx)
-                if ctx.should_return:
-                    break
+            self._execute_body(block, ctx)
 
     def _execute_python_block(self, block: PythonBlock, ctx: ExecutionContext) -> None:
         """Execute an embedded Python block."""
-- 
2.43.0


From 4fea04be9340a33bec05753fef167d81d192b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 079/215] fix: emit did not return from a DSL command, so an
 early emit was overwritten by a later one

---
 src/yapcad/dsl/runtime/interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 95b1734..3b5dfcb 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -359,6 +359,8 @@ class Interpreter:
                 for key, expr in stmt.metadata.items():
                     metadata[key] = self._evaluate(expr, ctx).data
         ctx.set_emit(value, metadata)
+        # emit is the command's return: nothing after it runs
+        ctx.signal_return(value)
 
     def _execute_for(self, stmt: ForStatement, ctx: ExecutionContext) -> None:
         """Execute a for loop."""
-- 
2.43.0


From 546e23f9e6b1aa8faefc7675fd2fe2bb62617f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 080/215] fix: variables declared in a DSL for-loop body leaked
 into the next iteration

---
 src/yapcad/dsl/runtime/interpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3b5dfcb..c596543 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -380,8 +380,10 @@ class Interpreter:
         else:
             elem_type = INT  # Default for ranges
 
-        with ctx.new_scope("for-loop"):
-            for item in items:
+        for item in items:
+            # A fresh scope per iteration: names declared in the body do not
+            # survive into the next one.
+            with ctx.new_scope("for-loop"):
                 ctx.set_variable(stmt.variable, wrap_value(item, elem_type))
                 self._execute_body(stmt.body, ctx)
                 if ctx.should_return:
-- 
2.43.0


From 1b10f866918dbffc04dc7e96395506346528499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 081/215] fix: DSL and/or evaluated the right operand even when
 the left one decides

---
 src/yapcad/dsl/runtime/interpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index c596543..c116c5c 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -567,17 +567,18 @@ class Interpreter:
     def _eval_binary_op(self, op: BinaryOp, ctx: ExecutionContext) -> Value:
         """Evaluate a binary operation."""
         left = self._evaluate(op.left, ctx)
-        right = self._evaluate(op.right, ctx)
 
         # Short-circuit for logical operators
         if op.operator == TokenType.AND:
             if not left.is_truthy():
                 return bool_val(False)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
         elif op.operator == TokenType.OR:
             if left.is_truthy():
                 return bool_val(True)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
+
+        right = self._evaluate(op.right, ctx)
 
         # Arithmetic operators
         if op.operator == TokenType.PLUS:
-- 
2.43.0


From 99e89b941ab473faa47cfd828844be29080c94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 082/215] fix: a failed require in a helper command was
 ignored, execution went on after a failed require, and the message was an AST
 node

---
 src/yapcad/dsl/runtime/interpreter.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index c116c5c..a59434c 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -69,6 +69,10 @@ class ExecutionResult:
         return {}
 
 
+class _RequireFailed(Exception):
+    """Stops execution after a failed require (recorded in the context)."""
+
+
 class Interpreter:
     """
     Tree-walking interpreter for DSL execution.
@@ -172,6 +176,8 @@ class Interpreter:
         # Execute the command body
         try:
             self._execute_command(command, ctx)
+        except _RequireFailed:
+            pass  # reported below from ctx.require_failures
         except RuntimeError as e:
             return ExecutionResult(
                 success=False,
@@ -202,6 +208,7 @@ class Interpreter:
                 emit_result=ctx.emit_result,
                 require_failures=ctx.require_failures,
                 provenance=provenance,
+                error_message="; ".join(str(f) for f in ctx.require_failures),
             )
 
         # Check for emit
@@ -342,8 +349,11 @@ class Interpreter:
         """Execute a require statement."""
         condition = self._evaluate(stmt.condition, ctx)
         if not condition.is_truthy():
-            message = stmt.message if stmt.message else "Constraint violated"
+            message = "Constraint violated"
+            if stmt.message is not None:
+                message = self._evaluate(stmt.message, ctx).data
             ctx.add_require_failure(message)
+            raise _RequireFailed()
 
     def _execute_emit(self, stmt: EmitStatement, ctx: ExecutionContext) -> None:
         """Execute an emit statement."""
@@ -738,7 +748,12 @@ class Interpreter:
             cmd_ctx = create_context(module_name, command.name, param_dict, "")
 
             # Execute the command body
-            self._execute_command(command, cmd_ctx)
+            try:
+                self._execute_command(command, cmd_ctx)
+            except _RequireFailed:
+                # A helper's failed contract fails the whole run
+                parent_ctx.require_failures.extend(cmd_ctx.require_failures)
+                raise
 
             # Apply @meta(...) hint to the emitted solid before returning
             # so the value seen by the caller (e.g. add_part(...)) carries
-- 
2.43.0


From ef6e676cd0fdaf063c02200388c54c67521f9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 083/215] fix: a helper command's result could not be used as a
 condition

---
 src/yapcad/dsl/runtime/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index a59434c..7b563ef 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -762,7 +762,7 @@ class Interpreter:
 
             # Return the emitted value
             if cmd_ctx.emit_result is not None:
-                return cmd_ctx.emit_result
+                return cmd_ctx.emit_result.value
             else:
                 raise RuntimeError(f"Command '{command.name}' did not emit a value")
         finally:
-- 
2.43.0


From 992363846b1f0432f0b1c72e9cbfbea0c7a03b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:59 +0000
Subject: [PATCH 084/215] fix: named arguments of DSL command and built-in
 calls were ignored when mixed with positional ones, and defaults saw the
 caller's variables

---
 src/yapcad/dsl/runtime/interpreter.py | 137 +++++++++++++++++---------
 1 file changed, 93 insertions(+), 44 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 7b563ef..6375f3d 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -43,6 +43,7 @@ from ..types import (
     INT, FLOAT, BOOL, STRING,
 )
 from ..tokens import SourceSpan, TokenType
+from ..symbols import SymbolTable
 
 
 @dataclass
@@ -112,6 +113,9 @@ class Interpreter:
 
         self.call_depth = 0  # Current command call depth
 
+    # Signatures of the built-ins (their parameter names), created on first use
+    _builtin_symbols: Optional[SymbolTable] = None
+
     def execute(
         self,
         module: Module,
@@ -668,6 +672,10 @@ class Interpreter:
         """Evaluate a function call."""
         # Evaluate positional arguments
         args = [self._evaluate(arg, ctx) for arg in call.arguments]
+        named = {
+            name: self._evaluate(arg, ctx)
+            for name, arg in (getattr(call, 'named_arguments', None) or {}).items()
+        }
 
         # Extract function name from callee (which is an Identifier)
         if isinstance(call.callee, Identifier):
@@ -677,34 +685,56 @@ class Interpreter:
 
         # Check for native function first
         if func_name in self.native_functions:
+            if named:
+                raise RuntimeError(
+                    f"Native function '{func_name}' takes no named arguments"
+                )
             return self._call_native_function(func_name, args)
 
         # Check for commands in the current module
         if self.current_module is not None:
             for cmd in self.current_module.commands:
                 if cmd.name == func_name:
-                    # Resolve named_arguments into positional order if present
-                    named = getattr(call, 'named_arguments', {})
-                    if named and not args:
-                        # Build positional arg list from named_arguments
-                        # matching command parameter order
-                        resolved = []
-                        for param in cmd.parameters:
-                            if param.name in named:
-                                resolved.append(self._evaluate(named[param.name], ctx))
-                            elif param.default_value is not None:
-                                resolved.append(self._evaluate(param.default_value, ctx))
-                            else:
-                                raise RuntimeError(
-                                    f"Command '{func_name}' missing required argument '{param.name}'"
-                                )
-                        args = resolved
-                    return self._call_command(cmd, args, ctx)
+                    return self._call_command(cmd, args, ctx, named)
 
         # Call the built-in function
+        if named:
+            args = self._place_named_builtin_args(func_name, args, named)
         return call_builtin(func_name, args)
 
-    def _call_command(self, command: Command, args: List[Value], parent_ctx: ExecutionContext) -> Value:
+    def _place_named_builtin_args(
+        self, func_name: str, args: List[Value], named: Dict[str, Value]
+    ) -> List[Value]:
+        """Turn named arguments of a built-in call into positional ones."""
+        if Interpreter._builtin_symbols is None:
+            Interpreter._builtin_symbols = SymbolTable()
+        sig = Interpreter._builtin_symbols.lookup_builtin(func_name)
+        names = [p[0] for p in sig.params] if sig is not None else []
+        args = list(args)
+        named = dict(named)
+        for name in names[len(args):]:
+            if not named:
+                break
+            if name not in named:
+                raise RuntimeError(
+                    f"Function '{func_name}' needs a value for '{name}' "
+                    f"when later parameters are given by name"
+                )
+            args.append(named.pop(name))
+        if named:
+            raise RuntimeError(
+                f"Function '{func_name}' cannot take named argument(s) "
+                f"{', '.join(sorted(named))} here"
+            )
+        return args
+
+    def _call_command(
+        self,
+        command: Command,
+        args: List[Value],
+        parent_ctx: ExecutionContext,
+        named: Optional[Dict[str, Value]] = None,
+    ) -> Value:
         """Call a command as a function from within another command."""
         # Check recursion depth limit
         self.call_depth += 1
@@ -716,32 +746,7 @@ class Interpreter:
             )
 
         try:
-            # Build parameters dict from args
-            param_dict = {}
-
-            # Count required parameters (those without defaults)
-            required_count = sum(1 for p in command.parameters if p.default_value is None)
-
-            if len(args) < required_count or len(args) > len(command.parameters):
-                if required_count == len(command.parameters):
-                    raise RuntimeError(
-                        f"Command '{command.name}' expects {len(command.parameters)} arguments, got {len(args)}"
-                    )
-                else:
-                    raise RuntimeError(
-                        f"Command '{command.name}' expects {required_count}-{len(command.parameters)} arguments, got {len(args)}"
-                    )
-
-            # Assign provided arguments
-            for param, arg in zip(command.parameters, args):
-                param_dict[param.name] = arg
-
-            # Fill in default values for missing parameters
-            for i in range(len(args), len(command.parameters)):
-                param = command.parameters[i]
-                if param.default_value is not None:
-                    default_val = self._evaluate(param.default_value, parent_ctx)
-                    param_dict[param.name] = default_val
+            param_dict = self._bind_arguments(command, args, named or {})
 
             # Create a new context for the command execution
             module_name = self.current_module.name if self.current_module else "unknown"
@@ -768,6 +773,50 @@ class Interpreter:
         finally:
             self.call_depth -= 1
 
+    def _bind_arguments(
+        self, command: Command, args: List[Value], named: Dict[str, Value]
+    ) -> Dict[str, Value]:
+        """Bind positional and named arguments, then defaults, to parameters.
+
+        A default is evaluated in the scope of the called command, where it can
+        use the parameters before it.
+        """
+        params = command.parameters
+        required_count = sum(1 for p in params if p.default_value is None)
+        if len(args) > len(params):
+            expected = (
+                f"{required_count}" if required_count == len(params)
+                else f"{required_count}-{len(params)}"
+            )
+            raise RuntimeError(
+                f"Command '{command.name}' expects {expected} arguments, got {len(args)}"
+            )
+        bound = {param.name: arg for param, arg in zip(params, args)}
+        known = {param.name for param in params}
+        for name, arg in named.items():
+            if name not in known:
+                raise RuntimeError(f"Command '{command.name}' has no parameter '{name}'")
+            if name in bound:
+                raise RuntimeError(
+                    f"Command '{command.name}' got more than one value for '{name}'"
+                )
+            bound[name] = arg
+
+        scope = ExecutionContext()
+        result: Dict[str, Value] = {}
+        for param in params:
+            if param.name in bound:
+                value = bound[param.name]
+            elif param.default_value is not None:
+                value = self._evaluate(param.default_value, scope)
+            else:
+                raise RuntimeError(
+                    f"Command '{command.name}' missing required argument '{param.name}'"
+                )
+            scope.set_variable(param.name, value)
+            result[param.name] = value
+        return result
+
     def _call_native_function(self, func_name: str, args: List[Value]) -> Value:
         """Call a native function with the given arguments."""
         func = self.native_functions[func_name]
-- 
2.43.0


From 79a5b56805c8b2eca883041973b1a442c260f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 085/215] fix: calls of DSL commands were type-checked without
 named arguments, arity, or priority over built-ins; recursion warnings came
 in random order

---
 src/yapcad/dsl/checker.py | 142 ++++++++++++++++++++++++++++++++------
 1 file changed, 119 insertions(+), 23 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 2584f2f..0f68034 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -83,6 +83,9 @@ class TypeChecker:
         self._call_graph: Dict[str, set] = {}
         # Set of command names (to distinguish from builtins/native functions)
         self._command_names: set = set()
+        # First definition of each command, for checking calls to it
+        self._commands: Dict[str, Command] = {}
+        self._command_types: Dict[str, FunctionType] = {}
 
     def check(self, module: Module) -> CheckResult:
         """Type check a complete module."""
@@ -113,6 +116,7 @@ class TypeChecker:
         for command in module.commands:
             self._register_command(command)
             self._command_names.add(command.name)
+            self._commands.setdefault(command.name, command)
             self._call_graph[command.name] = set()
 
         # Third pass: check command/function bodies (populates call graph)
@@ -212,6 +216,7 @@ class TypeChecker:
             param_types.append(param_type)
 
         func_type = FunctionType(tuple(param_types), return_type)
+        self._command_types.setdefault(command.name, func_type)
 
         symbol = Symbol(
             name=command.name,
@@ -762,6 +767,11 @@ class TypeChecker:
             callee_type = self._check_expression(expr.callee)
             return UNKNOWN
 
+        # Commands of this module come first, as they do when running
+        command = self._commands.get(callee_name)
+        if command is not None:
+            return self._check_command_call(command, expr)
+
         # Check for built-in function
         builtin = self.symbols.lookup_builtin(callee_name)
         if builtin is not None:
@@ -777,29 +787,30 @@ class TypeChecker:
                 self._check_expression(arg)
             return type_val
 
-        # Check for user-defined command or native function
+        # Check for native function
         symbol = self.symbols.lookup(callee_name)
-        if symbol is not None and symbol.kind in (SymbolKind.COMMAND, SymbolKind.FUNCTION):
-            # Track command-to-command calls for recursion detection
-            if (callee_name in self._command_names and
-                self._current_command is not None and
-                self._current_command.name in self._call_graph):
-                self._call_graph[self._current_command.name].add(callee_name)
-
+        if symbol is not None and symbol.kind is SymbolKind.FUNCTION:
             if isinstance(symbol.type, FunctionType):
                 # Check argument count and types for native functions
                 func_type = symbol.type
+                if len(expr.arguments) != len(func_type.param_types):
+                    self._error(
+                        f"Function '{callee_name}' expects {len(func_type.param_types)} "
+                        f"arguments, got {len(expr.arguments)}",
+                        expr.span,
+                        "E271"
+                    )
                 for i, arg in enumerate(expr.arguments):
                     arg_type = self._check_expression(arg)
                     if i < len(func_type.param_types):
-                        param_type = func_type.param_types[i]
-                        if param_type != UNKNOWN and not param_type.is_assignable_from(arg_type):
-                            if arg_type != ERROR:
-                                self._error(
-                                    f"Argument {i+1} expects '{param_type}', got '{arg_type}'",
-                                    arg.span,
-                                    "E274"
-                                )
+                        self._check_argument(str(i + 1), func_type.param_types[i], arg_type, arg)
+                for name, arg in expr.named_arguments.items():
+                    self._check_expression(arg)
+                    self._error(
+                        f"Unknown parameter '{name}' for function '{callee_name}'",
+                        arg.span,
+                        "E273"
+                    )
                 return func_type.return_type
             return UNKNOWN
 
@@ -810,13 +821,84 @@ class TypeChecker:
         )
         return ERROR
 
+    def _check_argument(
+        self, label: str, param_type: Type, arg_type: Type, arg: Expression
+    ) -> None:
+        """Check one argument of a command or native function call."""
+        if UNKNOWN in (param_type, arg_type) or arg_type == ERROR:
+            return
+        if not param_type.is_assignable_from(arg_type):
+            self._error(
+                f"Argument {label} expects '{param_type}', got '{arg_type}'",
+                arg.span,
+                "E274"
+            )
+
+    def _check_command_call(self, command: Command, expr: FunctionCall) -> Type:
+        """Check a call to a command of the module (positional and named)."""
+        # Track command-to-command calls for recursion detection
+        if (self._current_command is not None and
+                self._current_command.name in self._call_graph):
+            self._call_graph[self._current_command.name].add(command.name)
+
+        params = command.parameters
+        func_type = self._command_types[command.name]
+        param_types = {p.name: t for p, t in zip(params, func_type.param_types)}
+        if len(expr.arguments) > len(params):
+            self._error(
+                f"Command '{command.name}' takes at most {len(params)} arguments, "
+                f"got {len(expr.arguments)}",
+                expr.span,
+                "E271"
+            )
+        given = set()
+        for i, arg in enumerate(expr.arguments):
+            arg_type = self._check_expression(arg)
+            if i < len(params):
+                given.add(params[i].name)
+                self._check_argument(str(i + 1), param_types[params[i].name], arg_type, arg)
+        for name, arg in expr.named_arguments.items():
+            arg_type = self._check_expression(arg)
+            if name not in param_types:
+                self._error(
+                    f"Unknown parameter '{name}' for command '{command.name}'",
+                    arg.span,
+                    "E273"
+                )
+            elif name in given:
+                self._error(
+                    f"Parameter '{name}' of command '{command.name}' is given twice",
+                    arg.span,
+                    "E273"
+                )
+            else:
+                given.add(name)
+                self._check_argument(f"'{name}'", param_types[name], arg_type, arg)
+        missing = [p.name for p in params
+                   if p.default_value is None and p.name not in given]
+        if missing:
+            self._error(
+                f"Command '{command.name}' is missing argument(s) {', '.join(missing)}",
+                expr.span,
+                "E271"
+            )
+        return func_type.return_type
+
     def _check_builtin_call(self, sig: FunctionSignature, expr: FunctionCall) -> Type:
         """Check a call to a built-in function."""
         # Check argument count
         required_params = [p for p in sig.params if p[2] is None]
-        if len(expr.arguments) < len(required_params):
+        given = {p[0] for p in sig.params[:len(expr.arguments)]} | set(expr.named_arguments)
+        if any(p[0] not in given for p in required_params):
             self._error(
                 f"Function '{sig.name}' requires at least {len(required_params)} "
+                f"arguments, got {len(expr.arguments) + len(expr.named_arguments)}",
+                expr.span,
+                "E271"
+            )
+        if len(expr.arguments) > len(sig.params) and not sig.is_variadic:
+            self._error(
+                f"Function '{sig.name}' takes at most {len(sig.params)} "
                 f"arguments, got {len(expr.arguments)}",
                 expr.span,
                 "E271"
@@ -827,8 +909,8 @@ class TypeChecker:
         for i, arg in enumerate(expr.arguments):
             arg_type = self._check_expression(arg)
             arg_types.append(arg_type)
-            if i < len(sig.params):
-                param_name, param_type, _ = sig.params[i]
+            if i < len(sig.params) or (sig.is_variadic and sig.params):
+                param_name, param_type, _ = sig.params[min(i, len(sig.params) - 1)]
                 if param_type != UNKNOWN and not param_type.is_assignable_from(arg_type):
                     if arg_type != ERROR:
                         self._error(
@@ -839,15 +921,29 @@ class TypeChecker:
                         )
 
         # Check named arguments
-        param_names = {p[0] for p in sig.params}
+        param_types = {p[0]: p[1] for p in sig.params}
+        positional = {p[0] for p in sig.params[:len(expr.arguments)]}
         for name, arg in expr.named_arguments.items():
             arg_type = self._check_expression(arg)
-            if name not in param_names:
+            if name not in param_types:
                 self._error(
                     f"Unknown parameter '{name}' for function '{sig.name}'",
                     arg.span,
                     "E273"
                 )
+            elif name in positional:
+                self._error(
+                    f"Parameter '{name}' of function '{sig.name}' is given twice",
+                    arg.span,
+                    "E273"
+                )
+            elif (param_types[name] != UNKNOWN and arg_type != ERROR
+                    and not param_types[name].is_assignable_from(arg_type)):
+                self._error(
+                    f"Argument '{name}' expects '{param_types[name]}', got '{arg_type}'",
+                    arg.span,
+                    "E272"
+                )
 
         # Infer return type for list functions based on argument types
         return_type = sig.return_type
@@ -894,14 +990,14 @@ class TypeChecker:
             rec_stack.add(node)
             path.append(node)
 
-            for callee in self._call_graph.get(node, set()):
+            for callee in sorted(self._call_graph.get(node, set())):
                 find_cycles(callee, path)
 
             path.pop()
             rec_stack.remove(node)
 
         # Start DFS from each command
-        for cmd_name in self._command_names:
+        for cmd_name in self._commands:
             if cmd_name not in visited:
                 find_cycles(cmd_name, [])
 
-- 
2.43.0


From 4f50283eaddd046780cf959d95522ace0883719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 086/215] fix: the checker rejected the documented vector(dx,
 dy), variadic min/max and four-argument text_solid calls

---
 src/yapcad/dsl/symbols.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/dsl/symbols.py b/src/yapcad/dsl/symbols.py
index f5d9124..7e4d77b 100644
--- a/src/yapcad/dsl/symbols.py
+++ b/src/yapcad/dsl/symbols.py
@@ -116,7 +116,7 @@ class SymbolTable:
         self._register_builtin("vector", [
             ("dx", FLOAT, None),
             ("dy", FLOAT, None),
-            ("dz", FLOAT, None),
+            ("dz", FLOAT, "optional"),
         ], VECTOR)
 
         # Convenience constructor for 2D vectors (dz=0)
@@ -557,12 +557,6 @@ class SymbolTable:
         ], SOLID)
 
         # Text solid generation - 3D extruded text
-        self._register_builtin("text_solid", [
-            ("text", STRING, None),           # Text string to render
-            ("height", FLOAT, None),          # Character height in mm
-            ("depth", FLOAT, None),           # Extrusion depth in mm
-        ], SOLID)
-
         self._register_builtin("text_solid_fitted", [
             ("text", STRING, None),           # Text string to render
             ("max_width", FLOAT, None),       # Maximum width in mm (auto-scales height)
@@ -680,8 +674,8 @@ class SymbolTable:
         self._register_builtin("atan2", [("y", FLOAT, None), ("x", FLOAT, None)], FLOAT)
         self._register_builtin("sqrt", [("x", FLOAT, None)], FLOAT)
         self._register_builtin("abs", [("x", FLOAT, None)], FLOAT)
-        self._register_builtin("min", [("a", FLOAT, None), ("b", FLOAT, None)], FLOAT)
-        self._register_builtin("max", [("a", FLOAT, None), ("b", FLOAT, None)], FLOAT)
+        self._register_builtin("min", [("a", FLOAT, None), ("b", FLOAT, None)], FLOAT, is_variadic=True)
+        self._register_builtin("max", [("a", FLOAT, None), ("b", FLOAT, None)], FLOAT, is_variadic=True)
         self._register_builtin("radians", [("degrees", FLOAT, None)], FLOAT)
         self._register_builtin("degrees", [("radians", FLOAT, None)], FLOAT)
         self._register_builtin("floor", [("x", FLOAT, None)], INT)
-- 
2.43.0


From 543533886c1d5969ae830b3f51f83905dc15015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 087/215] fix: DSL runtime errors (division by zero, bad index,
 unset or wrongly typed parameters, ...) escaped compile_and_run or went
 unnoticed

---
 src/yapcad/dsl/runtime/interpreter.py | 160 +++++++++++++++++---------
 1 file changed, 108 insertions(+), 52 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 6375f3d..64fe913 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -5,6 +5,7 @@ Evaluates AST nodes to produce geometry and other values.
 """
 
 import os
+from numbers import Integral, Real
 from dataclasses import dataclass, field
 from typing import Any, Dict, List, Optional, Callable, Union
 
@@ -37,10 +38,11 @@ from ..ast import (
     ListLiteral, ListComprehension, RangeExpr, DictLiteral,
     ConditionalExpr, IfExpr, MatchExpr, MatchArm, LambdaExpr, PythonExpr,
     Pattern, LiteralPattern, IdentifierPattern, WildcardPattern,
+    SimpleType, GenericType,
 )
 from ..types import (
-    Type, ListType, DictType, resolve_type_name,
-    INT, FLOAT, BOOL, STRING,
+    Type, ListType, DictType, resolve_type_name, common_type,
+    INT, FLOAT, BOOL, STRING, UNKNOWN,
 )
 from ..tokens import SourceSpan, TokenType
 from ..symbols import SymbolTable
@@ -70,8 +72,62 @@ class ExecutionResult:
         return {}
 
 
+def _describe_error(error: Exception) -> str:
+    """One-line description of an error raised while running a command."""
+    if isinstance(error, RecursionError):
+        return "Maximum evaluation depth exceeded (expression or recursion too deep)"
+    if isinstance(error, RuntimeError):
+        return str(error)
+    return f"{type(error).__name__}: {error}"
+
+
+def _runtime_type(node: Any) -> Optional[Type]:
+    """The type a (checked) type annotation stands for, None without one."""
+    if isinstance(node, GenericType):
+        if node.name == "list" and len(node.type_args) == 1:
+            return ListType(_runtime_type(node.type_args[0]) or UNKNOWN)
+        return None
+    if isinstance(node, SimpleType):
+        return resolve_type_name(node.name)
+    return None
+
+
+def _check_raw_parameter(value: Any, expected: Type, name: str) -> Any:
+    """Check (and normalise) a parameter value handed in from Python."""
+    def wrong():
+        raise RuntimeError(
+            f"Parameter '{name}' expects {expected}, got {type(value).__name__} {value!r}"
+        )
+
+    if expected == BOOL:
+        if not isinstance(value, bool):
+            wrong()
+    elif expected == INT:
+        if isinstance(value, float) and value.is_integer():
+            return int(value)
+        if isinstance(value, bool) or not isinstance(value, Integral):
+            wrong()
+        return int(value)
+    elif expected == FLOAT:
+        if isinstance(value, bool) or not isinstance(value, Real):
+            wrong()
+        return float(value)
+    elif expected == STRING:
+        if not isinstance(value, str):
+            wrong()
+    elif isinstance(expected, ListType):
+        if not isinstance(value, (list, tuple)):
+            wrong()
+        return [_check_raw_parameter(v, expected.element_type, name) for v in value]
+    return value
+
+
 class _RequireFailed(Exception):
-    """Stops execution after a failed require (recorded in the context)."""
+    """Stops execution after a failed require."""
+
+    def __init__(self, failures: List[RequireFailure]):
+        super().__init__("; ".join(str(f) for f in failures))
+        self.failures = failures
 
 
 class Interpreter:
@@ -167,7 +223,14 @@ class Interpreter:
             )
 
         # Wrap parameters as Values
-        wrapped_params = self._wrap_parameters(command, parameters)
+        try:
+            wrapped_params = self._wrap_parameters(command, parameters)
+        except _RequireFailed as e:
+            return ExecutionResult(
+                success=False, error_message=str(e), require_failures=list(e.failures)
+            )
+        except Exception as e:
+            return ExecutionResult(success=False, error_message=_describe_error(e))
 
         # Create execution context
         ctx = create_context(
@@ -180,23 +243,23 @@ class Interpreter:
         # Execute the command body
         try:
             self._execute_command(command, ctx)
-        except _RequireFailed:
-            pass  # reported below from ctx.require_failures
-        except RuntimeError as e:
+            # Apply @meta(...) hint to the emitted solid (Phase 1c bridge).
+            # The parser already merges all @meta decorators into
+            # ``command.meta_hint`` (a flat dict). meta_apply.apply_meta_hint
+            # dispatches each key to the right ``yapcad.metadata`` helper,
+            # which is what downstream consumers (add_part datum lifting,
+            # mechatron_export) read.
+            self._apply_command_meta_hint(command, ctx)
+        except _RequireFailed as e:
+            # Reported below. A helper's failed contract fails the whole run.
+            ctx.require_failures = list(e.failures)
+        except Exception as e:
             return ExecutionResult(
                 success=False,
-                error_message=str(e),
+                error_message=_describe_error(e),
                 require_failures=ctx.require_failures,
             )
 
-        # Apply @meta(...) hint to the emitted solid (Phase 1c bridge).
-        # The parser already merges all @meta decorators into
-        # ``command.meta_hint`` (a flat dict). meta_apply.apply_meta_hint
-        # dispatches each key to the right ``yapcad.metadata`` helper,
-        # which is what downstream consumers (add_part datum lifting,
-        # mechatron_export) read.
-        self._apply_command_meta_hint(command, ctx)
-
         # Build provenance
         provenance = create_provenance(
             module_name=module.name,
@@ -231,36 +294,28 @@ class Interpreter:
 
     def _wrap_parameters(self, command: Command, parameters: Dict[str, Any]) -> Dict[str, Value]:
         """Wrap raw parameter values as DSL Values."""
-        wrapped = {}
-
-        # Create a temporary context for evaluating default values
-        from .context import ExecutionContext
-        temp_ctx = ExecutionContext()
-
+        named: Dict[str, Value] = {}
         for param in command.parameters:
-            if param.name in parameters:
-                raw_value = parameters[param.name]
-                # Handle optional type annotations (new Pythonic syntax)
-                if param.type_annotation is not None and hasattr(param.type_annotation, 'name'):
-                    param_type = resolve_type_name(param.type_annotation.name)
+            if param.name not in parameters:
+                continue
+            raw_value = parameters[param.name]
+            param_type = _runtime_type(param.type_annotation)
+            if param_type is None:
+                # No annotation: infer the type from the raw value
+                if isinstance(raw_value, bool):
+                    param_type = BOOL
+                elif isinstance(raw_value, int):
+                    param_type = INT
+                elif isinstance(raw_value, float):
+                    param_type = FLOAT
+                elif isinstance(raw_value, str):
+                    param_type = STRING
                 else:
-                    # Infer type from the raw value
-                    if isinstance(raw_value, bool):
-                        param_type = BOOL
-                    elif isinstance(raw_value, int):
-                        param_type = INT
-                    elif isinstance(raw_value, float):
-                        param_type = FLOAT
-                    elif isinstance(raw_value, str):
-                        param_type = STRING
-                    else:
-                        param_type = FLOAT  # Default fallback
-                wrapped[param.name] = wrap_value(raw_value, param_type)
-            elif param.default_value is not None:
-                # Evaluate default value expression using temporary context
-                default_val = self._evaluate(param.default_value, temp_ctx)
-                wrapped[param.name] = default_val
-        return wrapped
+                    param_type = FLOAT  # Default fallback
+            else:
+                raw_value = _check_raw_parameter(raw_value, param_type, param.name)
+            named[param.name] = wrap_value(raw_value, param_type)
+        return self._bind_arguments(command, [], named)
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
         """Execute a command's body statements."""
@@ -357,7 +412,7 @@ class Interpreter:
             if stmt.message is not None:
                 message = self._evaluate(stmt.message, ctx).data
             ctx.add_require_failure(message)
-            raise _RequireFailed()
+            raise _RequireFailed(ctx.require_failures)
 
     def _execute_emit(self, stmt: EmitStatement, ctx: ExecutionContext) -> None:
         """Execute an emit statement."""
@@ -753,12 +808,7 @@ class Interpreter:
             cmd_ctx = create_context(module_name, command.name, param_dict, "")
 
             # Execute the command body
-            try:
-                self._execute_command(command, cmd_ctx)
-            except _RequireFailed:
-                # A helper's failed contract fails the whole run
-                parent_ctx.require_failures.extend(cmd_ctx.require_failures)
-                raise
+            self._execute_command(command, cmd_ctx)
 
             # Apply @meta(...) hint to the emitted solid before returning
             # so the value seen by the caller (e.g. add_part(...)) carries
@@ -1176,7 +1226,13 @@ def compile_and_run(
         )
 
     # Type check
-    check_result = check(module)
+    try:
+        check_result = check(module)
+    except RecursionError:
+        return ExecutionResult(
+            success=False,
+            error_message="Type errors: expression nested too deeply",
+        )
     if check_result.has_errors:
         error_msgs = [str(d) for d in check_result.diagnostics if d.severity.name == 'ERROR']
         return ExecutionResult(
-- 
2.43.0


From 3288677fbc443db4c22b50bdb8cc5aa558de80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 088/215] fix: "x = e" in a DSL loop or branch declared a new x
 instead of assigning to the one in scope, so accumulators kept their start
 value

---
 src/yapcad/dsl/ast.py                 |  3 +++
 src/yapcad/dsl/checker.py             | 30 ++++++++++++++++++++++++++-
 src/yapcad/dsl/parser.py              |  5 +++--
 src/yapcad/dsl/runtime/interpreter.py |  4 +++-
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/ast.py b/src/yapcad/dsl/ast.py
index 0f85da2..8027cf2 100644
--- a/src/yapcad/dsl/ast.py
+++ b/src/yapcad/dsl/ast.py
@@ -329,6 +329,9 @@ class VarDecl(Statement):
     name: str
     type_annotation: Optional[TypeNode]
     initializer: Optional[Expression]
+    # Written as plain ``name = value``: assigns to the variable of that name
+    # when there is one in scope, and declares it otherwise.
+    may_assign: bool = False
 
 
 # Keep LetStatement as alias for backward compatibility during transition
diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 0f68034..a138bad 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -381,7 +381,29 @@ class TypeChecker:
 
     def _check_let_statement(self, stmt: LetStatement) -> None:
         """Check a let statement."""
-        init_type = self._check_expression(stmt.initializer)
+        if stmt.initializer is None:
+            self._error(
+                f"Variable '{stmt.name}' needs an initial value",
+                stmt.span,
+                "E213"
+            )
+            init_type = ERROR
+        else:
+            init_type = self._check_expression(stmt.initializer)
+
+        if stmt.may_assign:
+            symbol = self.symbols.lookup(stmt.name)
+            if symbol is not None and symbol.kind in (
+                    SymbolKind.VARIABLE, SymbolKind.PARAMETER):
+                # ``name = value`` with the name in scope: an assignment
+                if not symbol.type.is_assignable_from(init_type) and init_type not in (
+                        ERROR, UNKNOWN):
+                    self._error(
+                        f"Cannot assign '{init_type}' to target of type '{symbol.type}'",
+                        stmt.initializer.span,
+                        "E212"
+                    )
+                return
 
         if stmt.type_annotation is not None:
             declared_type = self._resolve_type_node(stmt.type_annotation)
@@ -412,6 +434,12 @@ class TypeChecker:
 
     def _check_assignment_statement(self, stmt: AssignmentStatement) -> None:
         """Check an assignment statement."""
+        if not isinstance(stmt.target, Identifier):
+            self._error(
+                "Only variables can be assigned to",
+                stmt.target.span,
+                "E214"
+            )
         target_type = self._check_expression(stmt.target)
         value_type = self._check_expression(stmt.value)
 
diff --git a/src/yapcad/dsl/parser.py b/src/yapcad/dsl/parser.py
index 457c7da..e5b2cf2 100644
--- a/src/yapcad/dsl/parser.py
+++ b/src/yapcad/dsl/parser.py
@@ -773,7 +773,7 @@ class Parser:
                 return self._parse_var_decl()
             # Check for simple assignment that creates new variable
             if self._peek(1).type == TokenType.ASSIGN:
-                # This could be assignment or new variable - we'll treat as new var
+                # Assignment or new variable, decided by what is in scope
                 return self._parse_simple_var_decl()
 
         # Expression statement or assignment
@@ -823,7 +823,8 @@ class Parser:
             span=self._span_from(start),
             name=name,
             type_annotation=None,
-            initializer=initializer
+            initializer=initializer,
+            may_assign=True
         )
 
     def _parse_let_statement(self) -> LetStatement:
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 64fe913..416dfef 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -396,13 +396,15 @@ class Interpreter:
     def _execute_let(self, stmt: LetStatement, ctx: ExecutionContext) -> None:
         """Execute a let statement."""
         value = self._evaluate(stmt.initializer, ctx)
+        if stmt.may_assign and ctx.update_variable(stmt.name, value):
+            return
         ctx.set_variable(stmt.name, value)
 
     def _execute_assignment(self, stmt: AssignmentStatement, ctx: ExecutionContext) -> None:
         """Execute an assignment statement."""
         value = self._evaluate(stmt.value, ctx)
         if not ctx.update_variable(stmt.target.name, value):
-            ctx.add_error(f"Cannot assign to undefined variable '{stmt.target.name}'", stmt.span)
+            raise RuntimeError(f"Cannot assign to undefined variable '{stmt.target.name}'")
 
     def _execute_require(self, stmt: RequireStatement, ctx: ExecutionContext) -> None:
         """Execute a require statement."""
-- 
2.43.0


From fd94dedf0ea1b3970a4454078d845eaaefb7cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:29 +0000
Subject: [PATCH 089/215] fix: DSL lists mixing int and float were typed by
 their first element, so later arithmetic truncated floats; declared float
 places kept ints

---
 src/yapcad/dsl/runtime/interpreter.py | 78 ++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 14 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 416dfef..b51ef52 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -92,6 +92,48 @@ def _runtime_type(node: Any) -> Optional[Type]:
     return None
 
 
+def _widen(value: Value, target: Optional[Type]) -> Value:
+    """Value as seen through a place declared with type ``target``.
+
+    Applies the language's implicit conversion (int to float, also inside
+    lists) and gives an empty list its declared element type.
+    """
+    if target == FLOAT and value.type == INT:
+        return float_val(value.data)
+    if (isinstance(target, ListType) and isinstance(value.type, ListType)
+            and value.type != target):
+        element = target.element_type
+        if not value.data and element != UNKNOWN:
+            return Value([], target)
+        if (_holds_numbers(element) and _holds_numbers(value.type)
+                and target.is_assignable_from(value.type)):
+            return Value(
+                [_widen(Value(v, value.type.element_type), element).data
+                 for v in value.data],
+                target,
+            )
+    return value
+
+
+def _holds_numbers(t: Type) -> bool:
+    """True for int, float and (nested) lists of them."""
+    while isinstance(t, ListType):
+        t = t.element_type
+    return t in (INT, FLOAT)
+
+
+def _list_of(values: List[Value]) -> Value:
+    """List value of the common type of its elements."""
+    if not values:
+        return list_val([], INT)  # Empty list, default to int
+    # An empty list among the elements fits any list type
+    typed = [v for v in values if v.data or not isinstance(v.type, ListType)]
+    elem_type = (typed or values)[0].type
+    for value in typed[1:]:
+        elem_type = common_type(elem_type, value.type) or elem_type
+    return list_val([_widen(v, elem_type) for v in values], elem_type)
+
+
 def _check_raw_parameter(value: Any, expected: Type, name: str) -> Any:
     """Check (and normalise) a parameter value handed in from Python."""
     def wrong():
@@ -243,6 +285,10 @@ class Interpreter:
         # Execute the command body
         try:
             self._execute_command(command, ctx)
+            if ctx.emit_result is not None:
+                ctx.emit_result.value = _widen(
+                    ctx.emit_result.value, _runtime_type(command.return_type)
+                )
             # Apply @meta(...) hint to the emitted solid (Phase 1c bridge).
             # The parser already merges all @meta decorators into
             # ``command.meta_hint`` (a flat dict). meta_apply.apply_meta_hint
@@ -396,14 +442,19 @@ class Interpreter:
     def _execute_let(self, stmt: LetStatement, ctx: ExecutionContext) -> None:
         """Execute a let statement."""
         value = self._evaluate(stmt.initializer, ctx)
-        if stmt.may_assign and ctx.update_variable(stmt.name, value):
-            return
-        ctx.set_variable(stmt.name, value)
+        if stmt.may_assign:
+            current = ctx.get_variable(stmt.name)
+            if current is not None:
+                ctx.update_variable(stmt.name, _widen(value, current.type))
+                return
+        ctx.set_variable(stmt.name, _widen(value, _runtime_type(stmt.type_annotation)))
 
     def _execute_assignment(self, stmt: AssignmentStatement, ctx: ExecutionContext) -> None:
         """Execute an assignment statement."""
         value = self._evaluate(stmt.value, ctx)
-        if not ctx.update_variable(stmt.target.name, value):
+        current = ctx.get_variable(stmt.target.name)
+        if current is None or not ctx.update_variable(
+                stmt.target.name, _widen(value, current.type)):
             raise RuntimeError(f"Cannot assign to undefined variable '{stmt.target.name}'")
 
     def _execute_require(self, stmt: RequireStatement, ctx: ExecutionContext) -> None:
@@ -657,6 +708,11 @@ class Interpreter:
                 return string_val(str(left.data) + str(right.data))
             # List concatenation
             if isinstance(left.type, ListType) and isinstance(right.type, ListType):
+                if not left.data:
+                    return Value(list(right.data), right.type)
+                if right.data:
+                    elem = common_type(left.type, right.type)
+                    left, right = _widen(left, elem), _widen(right, elem)
                 combined = left.data + right.data
                 # Use the element type from the ListType, not from the data
                 # Create Value directly since combined contains raw data (not Value objects)
@@ -819,7 +875,7 @@ class Interpreter:
 
             # Return the emitted value
             if cmd_ctx.emit_result is not None:
-                return cmd_ctx.emit_result.value
+                return _widen(cmd_ctx.emit_result.value, _runtime_type(command.return_type))
             else:
                 raise RuntimeError(f"Command '{command.name}' did not emit a value")
         finally:
@@ -865,6 +921,7 @@ class Interpreter:
                 raise RuntimeError(
                     f"Command '{command.name}' missing required argument '{param.name}'"
                 )
+            value = _widen(value, _runtime_type(param.type_annotation))
             scope.set_variable(param.name, value)
             result[param.name] = value
         return result
@@ -949,12 +1006,7 @@ class Interpreter:
 
     def _eval_list_literal(self, lst: ListLiteral, ctx: ExecutionContext) -> Value:
         """Evaluate a list literal."""
-        if not lst.elements:
-            return list_val([], INT)  # Empty list, default to int
-
-        values = [self._evaluate(elem, ctx) for elem in lst.elements]
-        elem_type = values[0].type if values else INT
-        return list_val(values, elem_type)
+        return _list_of([self._evaluate(elem, ctx) for elem in lst.elements])
 
     def _eval_list_comprehension(self, comp: ListComprehension, ctx: ExecutionContext) -> Value:
         """Evaluate a list comprehension with one or more for clauses.
@@ -985,9 +1037,7 @@ class Interpreter:
         with ctx.new_scope("comprehension"):
             self._eval_comprehension_clauses(comp.clauses, comp.element_expr, ctx, results)
 
-        if results:
-            return list_val(results, results[0].type)
-        return list_val([], INT)
+        return _list_of(results)
 
     def _eval_comprehension_clauses(
         self,
-- 
2.43.0


From 296135e75f7b0f8ae5f39c6e6a9422920f5d57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 090/215] fix: the DSL recursion limit above ~100 was
 unreachable because of the Python recursion limit

---
 src/yapcad/dsl/runtime/interpreter.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index b51ef52..6034ca0 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -5,6 +5,7 @@ Evaluates AST nodes to produce geometry and other values.
 """
 
 import os
+import sys
 from numbers import Integral, Real
 from dataclasses import dataclass, field
 from typing import Any, Dict, List, Optional, Callable, Union
@@ -12,6 +13,9 @@ from typing import Any, Dict, List, Optional, Callable, Union
 # Default recursion limit for command-to-command calls
 DEFAULT_RECURSION_LIMIT = 100
 
+# Python frames allowed for per command call (expression nesting included)
+_FRAMES_PER_CALL = 200
+
 # Default limits for list comprehensions (prevent combinatorial explosion)
 DEFAULT_COMPREHENSION_MAX_SIZE = 100000  # Max elements in result list
 DEFAULT_COMPREHENSION_MAX_DEPTH = 4       # Max nesting depth of for clauses
@@ -866,6 +870,7 @@ class Interpreter:
             cmd_ctx = create_context(module_name, command.name, param_dict, "")
 
             # Execute the command body
+            self._reserve_stack()
             self._execute_command(command, cmd_ctx)
 
             # Apply @meta(...) hint to the emitted solid before returning
@@ -881,6 +886,16 @@ class Interpreter:
         finally:
             self.call_depth -= 1
 
+    def _reserve_stack(self) -> None:
+        """Let Python's own recursion limit follow the command call depth.
+
+        A command call takes tens of Python frames, so without this the
+        recursion limit of the DSL could never be reached.
+        """
+        needed = 1000 + _FRAMES_PER_CALL * (self.call_depth + 1)
+        if sys.getrecursionlimit() < needed:
+            sys.setrecursionlimit(needed)
+
     def _bind_arguments(
         self, command: Command, args: List[Value], named: Dict[str, Value]
     ) -> Dict[str, Value]:
-- 
2.43.0


From 91debbba7c4318b1c2eac529f5f69dd7e65f8f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 091/215] fix: the type checker accepted loops over values that
 are not lists

---
 src/yapcad/dsl/checker.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index a138bad..fe76b66 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -515,7 +515,13 @@ class TypeChecker:
             elem_type = INT
         else:
             # Range expressions parsed as RangeExpr, check for int range
-            elem_type = INT  # Assume numeric iteration
+            elem_type = UNKNOWN
+            if iterable_type not in (ERROR, UNKNOWN):
+                self._error(
+                    f"Cannot iterate over '{iterable_type}'",
+                    stmt.iterable.span,
+                    "E225"
+                )
 
         # Create new scope for loop body
         self.symbols.push_scope("for loop")
@@ -1172,7 +1178,13 @@ class TypeChecker:
             if isinstance(iterable_type, ListType):
                 iter_elem_type = iterable_type.element_type
             else:
-                iter_elem_type = INT  # Assume range
+                iter_elem_type = UNKNOWN
+                if iterable_type not in (ERROR, UNKNOWN):
+                    self._error(
+                        f"Cannot iterate over '{iterable_type}'",
+                        clause.iterable.span,
+                        "E225"
+                    )
 
             # Define the loop variable for this clause
             symbol = Symbol(
-- 
2.43.0


From 75af434bf2e635d0551363649e263377ca6c967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 092/215] fix: checking a DSL return statement raised
 AttributeError; a parameter default could refer to itself

---
 src/yapcad/dsl/checker.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index fe76b66..d519f8f 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -243,6 +243,17 @@ class TypeChecker:
                 param_type = self._resolve_type_node(param.type_annotation)
             else:
                 param_type = UNKNOWN
+            # Check default value type (it can use the parameters before it)
+            if param.default_value is not None:
+                default_type = self._check_expression(param.default_value)
+                if param_type != UNKNOWN and not param_type.is_assignable_from(default_type):
+                    self._error(
+                        f"Default value type '{default_type}' is not assignable to "
+                        f"parameter type '{param_type}'",
+                        param.default_value.span,
+                        "E203"
+                    )
+
             symbol = Symbol(
                 name=param.name,
                 kind=SymbolKind.PARAMETER,
@@ -256,17 +267,6 @@ class TypeChecker:
                     "E202"
                 )
 
-            # Check default value type
-            if param.default_value is not None:
-                default_type = self._check_expression(param.default_value)
-                if param_type != UNKNOWN and not param_type.is_assignable_from(default_type):
-                    self._error(
-                        f"Default value type '{default_type}' is not assignable to "
-                        f"parameter type '{param_type}'",
-                        param.default_value.span,
-                        "E203"
-                    )
-
         # Check body
         self._check_block(command.body)
 
@@ -577,13 +577,14 @@ class TypeChecker:
             self.symbols.pop_scope()
 
     def _check_return_statement(self, stmt: ReturnStatement) -> None:
-        """Check a return statement (for Python blocks)."""
-        value_type = self._check_expression(stmt.value)
-        declared_type = self._resolve_type_node(stmt.return_type)
-
-        # The declared type is the bridge type - we trust the user's annotation
-        # but flag it as requiring review
-        self._has_python_blocks = True
+        """Check a return statement: commands hand back values with emit."""
+        if stmt.value is not None:
+            self._check_expression(stmt.value)
+        self._error(
+            "Commands return their value with 'emit', not 'return'",
+            stmt.span,
+            "E231"
+        )
 
     def _check_python_block(self, stmt: PythonBlock) -> None:
         """Check a Python block (just flag it for review)."""
-- 
2.43.0


From b32f6406105e344f959975092b31ccff97342361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 093/215] fix: code after a multi-line DSL string or comment on
 the same line got spurious INDENT/DEDENT tokens

---
 src/yapcad/dsl/lexer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/lexer.py b/src/yapcad/dsl/lexer.py
index f7e1fec..60ef40b 100644
--- a/src/yapcad/dsl/lexer.py
+++ b/src/yapcad/dsl/lexer.py
@@ -178,10 +178,17 @@ class Lexer:
         if self._peek() == '#':
             self._skip_comment()
             return None
-        if self._peek() == '/' and self._peek(1) == '*':
+        while self._peek() == '/' and self._peek(1) == '*':
+            # A comment before the first token of a line; code after it is
+            # indented as much as the comment
             self._skip_multiline_comment()
-            # After multiline comment, check if we're at line start again
-            return None
+            while self._peek() in ' \t':
+                self._advance()
+            if self._peek() in '#\n\0':
+                if self._peek() == '#':
+                    self._skip_comment()
+                self.at_line_start = True
+                return None
 
         self.at_line_start = False
 
@@ -273,6 +280,7 @@ class Lexer:
                 self._advance()  # consume quotes
                 self._advance()
                 self._advance()
+                self.at_line_start = False  # newlines in the string start no line
                 value = ''.join(chars)
                 return self._make_token(TokenType.STRING_LITERAL, value, start)
 
@@ -479,6 +487,7 @@ class Lexer:
                 self._skip_comment()
             else:
                 self._skip_multiline_comment()
+                self.at_line_start = False  # still on the line of the last token
             self._skip_whitespace_within_line()
 
         # Check for newline
-- 
2.43.0


From 710934865cf1e5351c6ff9df60652c10319ff0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 094/215] fix: the DSL lexer took "\x+f" and "\u 1_2" as escape
 sequences

---
 src/yapcad/dsl/lexer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/lexer.py b/src/yapcad/dsl/lexer.py
index 60ef40b..1f4bcd5 100644
--- a/src/yapcad/dsl/lexer.py
+++ b/src/yapcad/dsl/lexer.py
@@ -321,7 +321,7 @@ class Lexer:
             # Hex escape: \xHH
             hex_chars = self._advance() + self._advance()
             try:
-                return chr(int(hex_chars, 16))
+                return self._char_from_hex(hex_chars)
             except ValueError:
                 raise error_invalid_escape_sequence(
                     f"x{hex_chars}", self._span(esc_start),
@@ -333,7 +333,7 @@ class Lexer:
             for _ in range(4):
                 hex_chars += self._advance()
             try:
-                return chr(int(hex_chars, 16))
+                return self._char_from_hex(hex_chars)
             except ValueError:
                 raise error_invalid_escape_sequence(
                     f"u{hex_chars}", self._span(esc_start),
@@ -344,6 +344,13 @@ class Lexer:
                 ch, self._span(esc_start), self.get_source_line(esc_start.line)
             )
 
+    @staticmethod
+    def _char_from_hex(digits: str) -> str:
+        """Character with the given code; ValueError unless all hex digits."""
+        if not all(c in '0123456789abcdefABCDEF' for c in digits):
+            raise ValueError(digits)
+        return chr(int(digits, 16))
+
     def _scan_number(self) -> Token:
         """Scan a numeric literal (int or float)."""
         start = self._location()
-- 
2.43.0


From f78640df4d4884dd71c0413190faff7f539a1ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 095/215] fix: DSL sources with CRLF line endings were rejected

---
 src/yapcad/dsl/lexer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/lexer.py b/src/yapcad/dsl/lexer.py
index 1f4bcd5..76fb8ac 100644
--- a/src/yapcad/dsl/lexer.py
+++ b/src/yapcad/dsl/lexer.py
@@ -172,7 +172,7 @@ class Lexer:
             self._advance()
 
         # Skip blank lines and comment-only lines
-        if self._peek() == '\n' or self._peek() == '\0':
+        if self._peek() in '\n\0' or (self._peek() == '\r' and self._peek(1) == '\n'):
             self.at_line_start = True
             return None
         if self._peek() == '#':
@@ -184,7 +184,7 @@ class Lexer:
             self._skip_multiline_comment()
             while self._peek() in ' \t':
                 self._advance()
-            if self._peek() in '#\n\0':
+            if self._peek() in '#\r\n\0':
                 if self._peek() == '#':
                     self._skip_comment()
                 self.at_line_start = True
@@ -497,7 +497,9 @@ class Lexer:
                 self.at_line_start = False  # still on the line of the last token
             self._skip_whitespace_within_line()
 
-        # Check for newline
+        # Check for newline (the CR of a CRLF line ending is skipped)
+        if self._peek() == '\r' and self._peek(1) == '\n':
+            self._advance()
         if self._peek() == '\n':
             start = self._location()
             self._advance()
-- 
2.43.0


From 5cd672801ab8bd12fcd7a70ffe68bc1f974c6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 096/215] fix: DSL volume() and surface_area() always failed
 (imported functions that do not exist)

---
 src/yapcad/dsl/runtime/builtins.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 972b13f..3c665c4 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -2761,13 +2761,13 @@ class BuiltinRegistry:
 
         def _volume(s: Value) -> Value:
             """Calculate volume of a solid."""
-            from yapcad.geom3d import volume
-            return float_val(volume(s.data))
+            from yapcad.geom3d import volumeof
+            return float_val(volumeof(s.data))
 
         def _surface_area(s: Value) -> Value:
             """Calculate surface area of a solid."""
-            from yapcad.geom3d import surface_area
-            return float_val(surface_area(s.data))
+            from yapcad.geom3d import surfacearea
+            return float_val(sum(surfacearea(surf) for surf in s.data[1]))
 
         def _area(r: Value) -> Value:
             """Calculate area of a region2d using shoelace formula."""
-- 
2.43.0


From 60eb59c77398cb38e421a7cd2e96b674e3dd874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 097/215] fix: DSL area() ignored arcs, holes and segment
 order; centroid() averaged mesh vertices

---
 src/yapcad/dsl/runtime/builtins.py | 167 +++++++++++++++--------------
 1 file changed, 87 insertions(+), 80 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 3c665c4..7880735 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -2769,69 +2769,73 @@ class BuiltinRegistry:
             from yapcad.geom3d import surfacearea
             return float_val(sum(surfacearea(surf) for surf in s.data[1]))
 
-        def _area(r: Value) -> Value:
-            """Calculate area of a region2d using shoelace formula."""
-            from yapcad.geom import isgeomlist, isline, ispoint
-
-            data = r.data
-            if not isgeomlist(data):
-                return float_val(0.0)
+        def _region_loops(data):
+            """Closed loops of a region2d: the outer boundary, then any holes."""
+            from yapcad.geom import isgeomlist, isline, isarc
+            if not isinstance(data, list) or not data:
+                return []
+            first = data[0]
+            if (isinstance(first, list) and first and not isline(first)
+                    and (isline(first[0]) or isarc(first[0]))):
+                return data  # region with holes: [outer, hole, hole, ...]
+            return [data] if isgeomlist(data) else []
+
+        def _loop_area(loop):
+            """Area enclosed by a loop of lines, arcs and other curves."""
+            from yapcad.geom import dist, isarc, ispoint, length, sample, epsilon
+
+            def cross(p, q):
+                return p[0] * q[1] - p[1] * q[0]
+
+            corners = [seg for seg in loop if ispoint(seg)]
+            total = sum(
+                cross(p, corners[(i + 1) % len(corners)]) for i, p in enumerate(corners)
+            )
+            last = None
+            for seg in loop:
+                if ispoint(seg):
+                    continue
+                if isarc(seg):
+                    start, mid, end = (sample(seg, u) for u in (0.0, 0.5, 1.0))
+                    term = cross(start, end)
+                    # twice the area between the arc and its chord
+                    radius = seg[1][0]
+                    theta = length(seg) / radius
+                    cap = radius * radius * (theta - math.sin(theta))
+                    chord = [end[0] - start[0], end[1] - start[1]]
+                    side = cross(chord, [mid[0] - start[0], mid[1] - start[1]])
+                    term += -cap if side > 0 else cap
+                else:
+                    count = 1 if len(seg) == 2 else 64
+                    pts = [sample(seg, i / count) for i in range(count + 1)]
+                    start, end = pts[0], pts[-1]
+                    term = sum(cross(p, q) for p, q in zip(pts, pts[1:]))
+                if (last is not None and dist(last, start) > epsilon
+                        and dist(last, end) <= epsilon):
+                    start, end, term = end, start, -term  # traversed backwards
+                total += term
+                last = end
+            return abs(total) / 2.0
 
-            # Sample all segments into points
-            points = []
-            for seg in data:
-                if isline(seg):
-                    p = seg[0]  # Start point of line segment
-                    if ispoint(p):
-                        points.append(p)
-                elif ispoint(seg):
-                    points.append(seg)
-
-            if len(points) < 3:
+        def _area(r: Value) -> Value:
+            """Calculate area of a region2d (outer boundary minus holes)."""
+            loops = _region_loops(r.data)
+            if not loops:
                 return float_val(0.0)
-
-            # Shoelace formula for polygon area
-            n = len(points)
-            area = 0.0
-            for i in range(n):
-                j = (i + 1) % n
-                area += points[i][0] * points[j][1]
-                area -= points[j][0] * points[i][1]
-            area = abs(area) / 2.0
-
-            return float_val(area)
+            return float_val(
+                _loop_area(loops[0]) - sum(_loop_area(hole) for hole in loops[1:])
+            )
 
         def _perimeter(r: Value) -> Value:
-            """Calculate perimeter of a region2d as sum of segment lengths."""
-            from yapcad.geom import isgeomlist, isline, ispoint, length
-            import math
-
-            data = r.data
-            if not isgeomlist(data):
-                return float_val(0.0)
-
-            total_length = 0.0
-            for seg in data:
-                if isline(seg):
-                    # Line segment - compute length directly
-                    p1, p2 = seg[0], seg[1]
-                    dx = p2[0] - p1[0]
-                    dy = p2[1] - p1[1]
-                    total_length += math.sqrt(dx*dx + dy*dy)
-                else:
-                    # For arcs or other curves, use the length function
-                    try:
-                        total_length += length(seg)
-                    except:
-                        pass
-
-            return float_val(total_length)
+            """Calculate perimeter of a region2d (holes included)."""
+            from yapcad.geom import ispoint, length
+            return float_val(sum(
+                length(seg)
+                for loop in _region_loops(r.data) for seg in loop if not ispoint(seg)
+            ))
 
         def _centroid(s: Value) -> Value:
-            """Compute centroid of a solid.
-
-            Estimates centroid from mesh vertex averaging.
-            """
+            """Compute centroid (centre of volume) of a solid."""
             from yapcad.geom3d import issolid
             from yapcad.geom import point
 
@@ -2839,30 +2843,33 @@ class BuiltinRegistry:
             if not issolid(data):
                 raise ValueError("centroid requires a solid")
 
-            # solid structure: ['solid', [surfaces...], procedure, holes]
-            # each surface: ['surface', [vertices...], [normals...], ...]
-            surfaces = data[1] if len(data) > 1 and isinstance(data[1], list) else []
-            xs, ys, zs = [], [], []
-            for surf in surfaces:
-                # surf = ['surface', vertices_list, normals_list, ...]
-                if isinstance(surf, list) and len(surf) > 1 and surf[0] == 'surface':
-                    vertices = surf[1]
-                    for v in vertices:
-                        if isinstance(v, (list, tuple)) and len(v) >= 3:
-                            try:
-                                xs.append(float(v[0]))
-                                ys.append(float(v[1]))
-                                zs.append(float(v[2]))
-                            except (TypeError, ValueError):
-                                pass
-
-            if not xs:
+            # Volume-weighted mean over the tetrahedra spanned by each triangle
+            # and a reference vertex
+            ref = None
+            six_volume = 0.0
+            moment = [0.0, 0.0, 0.0]
+            for surf in data[1]:
+                vertices, faces = surf[1], surf[3]
+                for face in faces:
+                    if ref is None:
+                        ref = vertices[face[0]]
+                    a, b, c = (
+                        [vertices[i][k] - ref[k] for k in range(3)] for i in face[:3]
+                    )
+                    det = (a[0] * (b[1] * c[2] - b[2] * c[1])
+                           - a[1] * (b[0] * c[2] - b[2] * c[0])
+                           + a[2] * (b[0] * c[1] - b[1] * c[0]))
+                    six_volume += det
+                    for k in range(3):
+                        moment[k] += det * (a[k] + b[k] + c[k]) / 4.0
+
+            if ref is None:
                 return point_val(point(0, 0, 0), is_2d=False)
-
-            cx = sum(xs) / len(xs)
-            cy = sum(ys) / len(ys)
-            cz = sum(zs) / len(zs)
-            return point_val(point(cx, cy, cz), is_2d=False)
+            if six_volume == 0.0:
+                raise ValueError("centroid requires a solid with a volume")
+            return point_val(
+                point(*(ref[k] + moment[k] / six_volume for k in range(3))), is_2d=False
+            )
 
         def _distance(a: Value, b: Value, tolerance: Value) -> Value:
             """Compute Euclidean distance between two points."""
-- 
2.43.0


From ca696e86884ee4f1f45580bb50f9697883be8892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 098/215] fix: the type checker rejected paths made of
 different kinds of curves

---
 src/yapcad/dsl/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/dsl/types.py b/src/yapcad/dsl/types.py
index 1b13200..3bf34bf 100644
--- a/src/yapcad/dsl/types.py
+++ b/src/yapcad/dsl/types.py
@@ -505,6 +505,10 @@ def common_type(t1: Type, t2: Type) -> Optional[Type]:
         if t1.name.startswith("vector") and t2.name.startswith("vector"):
             return VECTOR
 
+    # Curves of different kinds can be mixed (list<curve>)
+    if isinstance(t1, CurveType) and isinstance(t2, CurveType):
+        return UNKNOWN
+
     return None
 
 
-- 
2.43.0


From 927170c04611ce629bfe6d148f6c8dab024194b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 099/215] fix: DSL concat() gave the result the element type of
 an empty first list

---
 src/yapcad/dsl/runtime/builtins.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 7880735..d7a800d 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -33,7 +33,7 @@ from .values import (
     assembly_val,
 )
 from ..types import (
-    Type, ListType,
+    Type, ListType, common_type,
     INT, FLOAT, BOOL, STRING, UNKNOWN,
     POINT, POINT2D, POINT3D, VECTOR, VECTOR2D, VECTOR3D, TRANSFORM,
     SOLID, REGION2D, SURFACE, SHELL, EDGE,
@@ -2938,10 +2938,16 @@ class BuiltinRegistry:
         def _concat(list1: Value, list2: Value) -> Value:
             """Concatenate two lists."""
             combined = list1.data + list2.data
-            # Get element type from the list type info, not from data
-            elem_type = list1.type.element_type
+            # Get the type from the list type info, not from data (an empty
+            # list fits any list type)
+            if not (list1.data and list2.data):
+                result_type = list1.type if list1.data else list2.type
+            else:
+                result_type = common_type(list1.type, list2.type) or list1.type
+            if result_type == ListType(FLOAT):
+                combined = [float(v) for v in combined]
             # Create Value directly since combined contains raw data
-            return Value(combined, ListType(elem_type))
+            return Value(combined, result_type)
 
         def _reverse(lst: Value) -> Value:
             """Reverse a list."""
-- 
2.43.0


From e21fe58f5d89b0971515c71de0e9f62e88f511ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 100/215] fix: the DSL lexer failed on a long run of line
 breaks inside brackets

---
 src/yapcad/dsl/lexer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/lexer.py b/src/yapcad/dsl/lexer.py
index 76fb8ac..c96576b 100644
--- a/src/yapcad/dsl/lexer.py
+++ b/src/yapcad/dsl/lexer.py
@@ -476,6 +476,13 @@ class Lexer:
 
     def _scan_token(self) -> Token:
         """Scan the next token."""
+        token = self._scan_token_or_line_break()
+        while token is None:  # a line break inside brackets
+            token = self._scan_token_or_line_break()
+        return token
+
+    def _scan_token_or_line_break(self) -> Optional[Token]:
+        """Scan the next token; None for a line break inside brackets."""
         # Return any pending tokens first (from DEDENT sequences)
         if self.pending_tokens:
             return self.pending_tokens.pop(0)
@@ -509,7 +516,7 @@ class Lexer:
                 return self._make_token(TokenType.NEWLINE, None, start, "\\n")
             else:
                 # Inside brackets - skip newline, handle indentation
-                return self._scan_token()
+                return None
 
         if self._is_at_end():
             # At EOF, emit any remaining DEDENT tokens
-- 
2.43.0


From 49247e7c9cb971f6005108f4b7543b9221ebf055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 101/215] fix: DSL diagnostics pointed at the last token of
 index, member and method expressions

---
 src/yapcad/dsl/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/parser.py b/src/yapcad/dsl/parser.py
index e5b2cf2..59ee5f1 100644
--- a/src/yapcad/dsl/parser.py
+++ b/src/yapcad/dsl/parser.py
@@ -333,7 +333,7 @@ class Parser:
                     # Method call
                     args, named_args = self._parse_arguments()
                     expr = MethodCall(
-                        span=self._span_from(self.tokens[self.pos - 1]),
+                        span=SourceSpan(expr.span.start, self.tokens[self.pos - 1].span.end),
                         object=expr,
                         method=member,
                         arguments=args,
@@ -342,7 +342,7 @@ class Parser:
                 else:
                     # Member access
                     expr = MemberAccess(
-                        span=self._span_from(self.tokens[self.pos - 1]),
+                        span=SourceSpan(expr.span.start, self.tokens[self.pos - 1].span.end),
                         object=expr,
                         member=member
                     )
@@ -352,7 +352,7 @@ class Parser:
                 index = self._parse_expression()
                 self._consume(TokenType.RBRACKET, "']'")
                 expr = IndexAccess(
-                    span=self._span_from(self.tokens[self.pos - 1]),
+                    span=SourceSpan(expr.span.start, self.tokens[self.pos - 1].span.end),
                     object=expr,
                     index=index
                 )
-- 
2.43.0


From 9b7f7412fd0f4814cef7239ecfa2197f19abbc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 102/215] fix: the DSL type checker crashed on an uninitialised
 variable of a non-numeric type

---
 src/yapcad/dsl/checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index d519f8f..53de406 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -407,7 +407,7 @@ class TypeChecker:
 
         if stmt.type_annotation is not None:
             declared_type = self._resolve_type_node(stmt.type_annotation)
-            if not declared_type.is_assignable_from(init_type):
+            if init_type != ERROR and not declared_type.is_assignable_from(init_type):
                 self._error(
                     f"Cannot assign '{init_type}' to variable of type '{declared_type}'",
                     stmt.initializer.span,
-- 
2.43.0


From 3c3434369baec62dd4454cbe198d5e61ba70e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 103/215] fix: the DSL type checker accepted + between lists of
 incompatible element types

---
 src/yapcad/dsl/checker.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 53de406..0332bac 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -716,8 +716,6 @@ class TypeChecker:
                 elem_common = common_type(left_type.element_type, right_type.element_type)
                 if elem_common is not None:
                     return make_list_type(elem_common)
-                # If no common type, use left element type
-                return left_type
 
             if left_type != ERROR and right_type != ERROR:
                 self._error(
-- 
2.43.0


From 4dec597f5df387f2122cd9dc7785f621dc057f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 104/215] fix: the DSL type checker accepted concat() of lists
 of incompatible element types

---
 src/yapcad/dsl/checker.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 0332bac..8b5e51b 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -990,6 +990,22 @@ class TypeChecker:
                     else:
                         # concat, reverse: list<T> -> list<T>
                         return_type = arg_types[0]
+                    if (sig.name == 'concat' and len(arg_types) == 2
+                            and isinstance(arg_types[1], ListType)):
+                        other = arg_types[1]
+                        if return_type.element_type == UNKNOWN:
+                            return_type = other
+                        elif other.element_type != UNKNOWN:
+                            common = common_type(
+                                return_type.element_type, other.element_type)
+                            if common is None:
+                                self._error(
+                                    f"Cannot concatenate '{return_type}' and '{other}'",
+                                    expr.span,
+                                    "E272"
+                                )
+                            else:
+                                return_type = make_list_type(common)
             elif sig.name in ('radial_pattern', 'linear_pattern'):
                 # Pattern functions: T -> list<T> (first arg is the shape)
                 if arg_types:
-- 
2.43.0


From b9ee482567f44b266a5b3b66f515bbd14e3cad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 105/215] fix: DSL sphere(radius) made a sphere of half that
 radius

---
 src/yapcad/dsl/runtime/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index d7a800d..956cded 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -1532,7 +1532,7 @@ class BuiltinRegistry:
         def _sphere(radius: Value) -> Value:
             """Create a sphere solid."""
             from yapcad.geom3d_util import sphere
-            return solid_val(sphere(radius.data))
+            return solid_val(sphere(2.0 * radius.data))
 
         def _oblate_spheroid(equatorial_diameter: Value, oblateness: Value) -> Value:
             """Create an oblate spheroid (flattened sphere).
-- 
2.43.0


From e91ef2bb7653e081bc59bb86dd48ae2824c98f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:24 +0000
Subject: [PATCH 106/215] fix: DSL identity_transform() always failed (import
 of a name that does not exist)

---
 src/yapcad/dsl/runtime/builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 956cded..9c892ec 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -342,8 +342,8 @@ class BuiltinRegistry:
 
         def _identity_transform() -> Value:
             """Create an identity transform."""
-            from yapcad.xform import Identity
-            return transform_val(Identity())
+            from yapcad.xform import Matrix
+            return transform_val(Matrix())
 
         def _translate(s: Value, x: Value, y: Value, z: Value) -> Value:
             """Translate a solid by (x, y, z)."""
-- 
2.43.0


From c22ebb771d684c39787dee2ccb34c287f24c555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 107/215] fix: DSL apply_vector() moved vectors by the
 translation of the transform

---
 src/yapcad/dsl/runtime/builtins.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 9c892ec..80f9ce6 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -524,11 +524,17 @@ class BuiltinRegistry:
                 return surface_val(result)
 
             # Handle points/vectors - use matrix multiplication directly
+            # (their data look alike, so the declared type decides)
+            elif shape_type in (VECTOR, VECTOR2D, VECTOR3D):
+                # a vector is a direction: translation does not apply to it
+                moved = mat.mul([data[0], data[1], data[2], 0])
+                return vector_val([moved[0], moved[1], moved[2], 1])
+
             elif shape_type in (POINT, POINT2D, POINT3D) or ispoint(data):
                 result = mat.mul(data)
                 return point_val(result)
 
-            elif shape_type in (VECTOR, VECTOR2D, VECTOR3D) or isvect(data):
+            elif isvect(data):
                 result = mat.mul(data)
                 return vector_val(result)
 
-- 
2.43.0


From 5b543a8ad95ae3e52fc219951a902dcfb8d85bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 108/215] fix: the DSL type checker did not know that the
 pattern functions return lists

---
 src/yapcad/dsl/symbols.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/symbols.py b/src/yapcad/dsl/symbols.py
index 7e4d77b..40a8d3c 100644
--- a/src/yapcad/dsl/symbols.py
+++ b/src/yapcad/dsl/symbols.py
@@ -626,13 +626,13 @@ class SymbolTable:
             ("count", INT, None),
             ("axis", VECTOR3D, None),
             ("center", POINT, None),
-        ], UNKNOWN)  # Returns same type as input
+        ], make_list_type(UNKNOWN))  # List of copies of the input
 
         self._register_builtin("linear_pattern", [
             ("shape", UNKNOWN, None),
             ("count", INT, None),
             ("spacing", VECTOR, None),
-        ], UNKNOWN)
+        ], make_list_type(UNKNOWN))
 
         # Query operations
         self._register_builtin("volume", [("s", SOLID, None)], FLOAT)
-- 
2.43.0


From d2a3fa0f44ba1bef97c5a4b745c7bd051ea65878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 109/215] fix: DSL bezier curves could not be sampled or
 measured

---
 src/yapcad/dsl/runtime/builtins.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 80f9ce6..aa1ee10 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -794,10 +794,11 @@ class BuiltinRegistry:
         def _sample_curve(curve: Value, t: Value) -> Value:
             """Sample a curve at parameter t in [0, 1].
 
-            Works with line, arc, ellipse, catmullrom, and nurbs curves.
+            Works with line, arc, ellipse, bezier, catmullrom, and nurbs curves.
             """
             from yapcad.geom import point, isline, isarc, isellipse
             from yapcad.geom import sample as geom_sample, ellipse_sample
+            from yapcad.spline import is_bezier, evaluate_bezier
             from yapcad.spline import is_catmullrom, evaluate_catmullrom
             from yapcad.spline import is_nurbs, evaluate_nurbs
 
@@ -810,6 +811,9 @@ class BuiltinRegistry:
             elif is_nurbs(data):
                 pt = evaluate_nurbs(data, u)
                 return point_val(pt, is_2d=False)
+            elif is_bezier(data):
+                pt = evaluate_bezier(data, u)
+                return point_val(pt, is_2d=False)
             elif isellipse(data):
                 pt = ellipse_sample(data, u)
                 return point_val(pt, is_2d=False)
@@ -826,6 +830,7 @@ class BuiltinRegistry:
             """
             from yapcad.geom import point, isline, isarc, isellipse
             from yapcad.geom import sample as geom_sample, ellipse_sample
+            from yapcad.spline import is_bezier, evaluate_bezier
             from yapcad.spline import is_catmullrom, evaluate_catmullrom
             from yapcad.spline import is_nurbs, evaluate_nurbs
 
@@ -841,6 +846,8 @@ class BuiltinRegistry:
                     pt = evaluate_catmullrom(data, u)
                 elif is_nurbs(data):
                     pt = evaluate_nurbs(data, u)
+                elif is_bezier(data):
+                    pt = evaluate_bezier(data, u)
                 elif isellipse(data):
                     pt = ellipse_sample(data, u)
                 elif isline(data) or isarc(data):
@@ -857,6 +864,7 @@ class BuiltinRegistry:
             from yapcad.geom import ellipse_length
             from yapcad.spline import is_catmullrom, sample_catmullrom
             from yapcad.spline import is_nurbs, sample_nurbs
+            from yapcad.spline import is_bezier, sample_bezier
 
             data = curve.data
 
@@ -870,8 +878,11 @@ class BuiltinRegistry:
                     dz = pts[i][2] - pts[i-1][2]
                     total += math.sqrt(dx*dx + dy*dy + dz*dz)
                 return float_val(total)
-            elif is_nurbs(data):
-                pts = sample_nurbs(data, samples=100)
+            elif is_nurbs(data) or is_bezier(data):
+                if is_bezier(data):
+                    pts = sample_bezier(data, segments=100)
+                else:
+                    pts = sample_nurbs(data, samples=100)
                 total = 0.0
                 for i in range(1, len(pts)):
                     dx = pts[i][0] - pts[i-1][0]
-- 
2.43.0


From a25400634c9a3f9dac62ac42f20d82676d14acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:03 +0000
Subject: [PATCH 110/215] fix: cylinders and cones shared their centre vertex
 with the default argument (and level-0 spheres their faces with a module
 table)

---
 src/yapcad/geom3d_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 62aaf57..13ee862 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -273,7 +273,7 @@ def sphereSurface(diameter,center=point(0,0,0),depth=2):
     ## subdivision works only when center is origin, so we add
     ## any center offset after we subdivide
     verts,normals = makeIcoPoints(point(0,0,0),rad)
-    faces = icaIndices
+    faces = [list(f) for f in icaIndices]
 
     for i in range(depth):
         ff = []
@@ -589,7 +589,7 @@ def circleSurface(center,radius,angr=None,zup=True,chord_error=None,max_chord=No
 
     samples = round(360.0/angr)
     angr = 360.0/samples
-    basep=[center]
+    basep=[point(center)]
     
     for i in range(samples):
         theta = i*angr*pi2/360.0
-- 
2.43.0


From 0aea9c6d3d7606cabaaa8f49db077098c77bad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 111/215] fix: the .meta.yaml sidecar was never written for
 yapCAD solids and surfaces (and could not be read back with tuples or search
 caches)

---
 src/yapcad/io/meta_yaml.py | 46 ++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/io/meta_yaml.py b/src/yapcad/io/meta_yaml.py
index 597b943..c34cf9b 100644
--- a/src/yapcad/io/meta_yaml.py
+++ b/src/yapcad/io/meta_yaml.py
@@ -25,6 +25,8 @@ import os
 from pathlib import Path
 from typing import Any, Dict, Optional
 
+from yapcad.metadata import _SOLID_META_INDEX, _SURFACE_META_INDEX
+
 try:
     import yaml as _yaml
     _YAML_AVAILABLE = True
@@ -116,7 +118,7 @@ def dump_metadata_yaml(
     ordered.update(output)
 
     with open(out_path, "w", encoding="utf-8") as f:
-        _yaml.dump(ordered, f, default_flow_style=False, allow_unicode=True, sort_keys=False)
+        _yaml.safe_dump(_plain(ordered), f, default_flow_style=False, allow_unicode=True, sort_keys=False)
 
     return str(out_path)
 
@@ -181,12 +183,20 @@ def sidecar_path_for(geometry_path: str | os.PathLike) -> Path:
 
 def _extract_metadata(part: Any) -> Optional[Dict[str, Any]]:
     """Return the metadata dict from *part*, or ``None`` if absent."""
-    try:
-        from yapcad.metadata import get_metadata  # type: ignore[import]
-        meta = get_metadata(part)
-        return meta if meta else None
-    except (ImportError, Exception):
-        pass
+    # yapCAD solids and surfaces are lists carrying their metadata dict in a
+    # fixed slot; read it without attaching one to a part that has none.
+    if isinstance(part, list):
+        from yapcad.geom3d import issolid, issurface
+
+        index = None
+        if issolid(part):
+            index = _SOLID_META_INDEX
+        elif issurface(part):
+            index = _SURFACE_META_INDEX
+        if index is None or len(part) <= index:
+            return None
+        meta = part[index]
+        return meta if isinstance(meta, dict) and meta else None
 
     # Fallback: check common attribute names used in yapCAD internals.
     for attr in ("_metadata", "metadata", "meta"):
@@ -197,6 +207,28 @@ def _extract_metadata(part: Any) -> Optional[Dict[str, Any]]:
     return None
 
 
+def _plain(value: Any) -> Any:
+    """Copy *value* as plain YAML data that ``load_metadata_yaml`` can read.
+
+    Tuples become lists, numpy scalars Python numbers, and the in-memory
+    search structures kept in surface metadata (``_octree``) are left out.
+    """
+    if isinstance(value, dict):
+        return {
+            _plain(k): _plain(v) for k, v in value.items()
+            if not (isinstance(k, str) and k.startswith("_octree"))
+        }
+    if isinstance(value, (list, tuple)):
+        return [_plain(v) for v in value]
+    if isinstance(value, (set, frozenset)):
+        return sorted((_plain(v) for v in value), key=str)
+    if hasattr(value, "tolist"):
+        return _plain(value.tolist())
+    if isinstance(value, os.PathLike):
+        return os.fspath(value)
+    return value
+
+
 def _build_provenance(
     geo_path: Path,
     source_dsl: Optional[str],
-- 
2.43.0


From d1eddc9c9974b1a3a2c211d6d272767df015d117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 112/215] fix: @meta hints shared lists between solids, and
 applying them again repeated tags and entries

---
 src/yapcad/dsl/meta_apply.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/dsl/meta_apply.py b/src/yapcad/dsl/meta_apply.py
index e7e4d1e..04f8fd8 100644
--- a/src/yapcad/dsl/meta_apply.py
+++ b/src/yapcad/dsl/meta_apply.py
@@ -60,6 +60,7 @@ the field so callers can fall back to the Python helpers.
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import Any, Dict, List, Optional
 
 from yapcad.metadata import (
@@ -73,6 +74,7 @@ from yapcad.metadata import (
     add_datum,
     add_surface,
     add_keepout,
+    add_tags,
 )
 
 # ---------------------------------------------------------------------------
@@ -125,13 +127,17 @@ def _apply_assembly_list_field(
                 f"got {type(entry).__name__}"
             )
         try:
-            helper(meta, **entry)
+            added = helper(meta, **entry)
         except TypeError as exc:
             # Surface a more helpful message than "got an unexpected keyword
             # argument" — helps DSL authors find the typo'd key fast.
             raise TypeError(
                 f"assembly.{field}[{idx}] rejected: {exc}"
             ) from exc
+        # Applying the same hint again must not repeat its entries.
+        listing = get_assembly_metadata(meta)[field]
+        if added in listing[:-1]:
+            listing.pop()
 
 
 def _apply_assembly(meta: Dict[str, Any], field: str, value: Any) -> None:
@@ -176,7 +182,9 @@ def _apply_operation(meta: Dict[str, Any], field: str, value: Any) -> None:
         # Accept a list value or a comma-separated string
         if isinstance(value, str):
             value = [v.strip() for v in value.split(",") if v.strip()]
-        elif not isinstance(value, list):
+        elif isinstance(value, list):
+            value = [str(v) for v in value]
+        else:
             value = [str(value)]
         section = get_operation_metadata(meta, create=True)
         section["target_filter"] = value
@@ -221,11 +229,8 @@ def _apply_root(meta: Dict[str, Any], field: str, value: Any) -> None:
         root["layer"] = str(value)
     elif field == "tags":
         # Append a single tag string or extend with a list
-        tags: List[str] = root.setdefault("tags", [])
-        if isinstance(value, list):
-            tags.extend(str(t) for t in value)
-        else:
-            tags.append(str(value))
+        values = value if isinstance(value, list) else [value]
+        add_tags(root, [str(t) for t in values])
     else:
         # Free-form root field — store verbatim
         root[field] = value
@@ -268,6 +273,8 @@ def apply_meta_hint(solid: list, meta_hint: Dict[str, Any]) -> None:
 
     # Get or create the metadata dict for this solid
     meta = get_solid_metadata(solid, create=True)
+    # The hint belongs to the command and is applied to every solid it emits.
+    meta_hint = deepcopy(meta_hint)
 
     for key, value in meta_hint.items():
         if not isinstance(key, str) or not key:
@@ -299,6 +306,7 @@ def apply_meta_hint_to_raw(meta: Dict[str, Any], meta_hint: Dict[str, Any]) -> N
     """
     if not isinstance(meta_hint, dict):
         raise TypeError(f"meta_hint must be a dict, got {type(meta_hint).__name__}")
+    meta_hint = deepcopy(meta_hint)
 
     for key, value in meta_hint.items():
         if not isinstance(key, str) or not key:
-- 
2.43.0


From 217ecf6c356b1679decfbb2ab93fa7da02883c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 113/215] fix: the @meta transform rejected joint and feature
 kinds of the metadata vocabulary

---
 src/yapcad/dsl/transforms/metadata.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/dsl/transforms/metadata.py b/src/yapcad/dsl/transforms/metadata.py
index 7ea16ee..0cb5bd4 100644
--- a/src/yapcad/dsl/transforms/metadata.py
+++ b/src/yapcad/dsl/transforms/metadata.py
@@ -70,22 +70,22 @@ from typing import Any, Dict, List, Optional, Tuple
 
 from ..ast import Module, FunctionDef, Command
 from ..tokens import SourceSpan as Span
+from ...metadata import (
+    _FEATURE_KINDS,
+    _JOINT_KINDS,
+    _OPERATION_KINDS,
+    _OPERATION_POLICIES,
+)
 from .base import AstTransform
 
 logger = logging.getLogger(__name__)
 
 # ---------------------------------------------------------------------------
-# Schema constants — kept in sync with yapcad.metadata enums
+# Schema constants — the vocabularies of yapcad.metadata
 # ---------------------------------------------------------------------------
 
-_OPERATION_KINDS = {"subtract", "intersect", "union"}
-_OPERATION_POLICIES = {"strict", "warn", "ignore"}
-_FEATURE_KINDS = {
-    "pocket", "slot", "boss", "hole",
-    "through_hole", "counterbore", "countersink",
-    "fillet", "chamfer", "rib", "draft",
-}
-_ASSEMBLY_JOINT_KINDS = {
+
+_ASSEMBLY_JOINT_KINDS = _JOINT_KINDS | {
     "revolute", "prismatic", "spherical", "fixed",
     "planar", "cylindrical", "universal",
 }
-- 
2.43.0


From bb347e0336841568a8fd0f07e43e76a161511b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 114/215] fix: Transform.to_euler_xyz() extracted the angles of
 another rotation order than from_euler_xyz() composes

---
 src/yapcad/kinematics/transform.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/kinematics/transform.py b/src/yapcad/kinematics/transform.py
index 5563a03..16c4044 100644
--- a/src/yapcad/kinematics/transform.py
+++ b/src/yapcad/kinematics/transform.py
@@ -300,17 +300,17 @@ class Transform:
         """
         R = self.matrix[:3, :3]
 
-        # Extract angles using atan2 for robustness
-        sy = math.sqrt(R[0, 0] ** 2 + R[1, 0] ** 2)
+        # Extract the angles of R = Rx @ Ry @ Rz, using atan2 for robustness
+        cy = math.sqrt(R[0, 0] ** 2 + R[0, 1] ** 2)
 
-        if sy > 1e-6:
-            rx = math.atan2(R[2, 1], R[2, 2])
-            ry = math.atan2(-R[2, 0], sy)
-            rz = math.atan2(R[1, 0], R[0, 0])
+        if cy > 1e-6:
+            rx = math.atan2(-R[1, 2], R[2, 2])
+            ry = math.atan2(R[0, 2], cy)
+            rz = math.atan2(-R[0, 1], R[0, 0])
         else:
             # Gimbal lock
-            rx = math.atan2(-R[1, 2], R[1, 1])
-            ry = math.atan2(-R[2, 0], sy)
+            rx = math.atan2(R[2, 1], R[1, 1])
+            ry = math.atan2(R[0, 2], cy)
             rz = 0
 
         return (
-- 
2.43.0


From 79b918cba1fce8d609f3a353cf016425db2fbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 115/215] fix: KinematicChain.validate() hung on a circular
 dependency instead of reporting it

---
 src/yapcad/kinematics/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/kinematics/chain.py b/src/yapcad/kinematics/chain.py
index c711740..70afeb6 100644
--- a/src/yapcad/kinematics/chain.py
+++ b/src/yapcad/kinematics/chain.py
@@ -230,7 +230,8 @@ class KinematicChain:
         chain = []
         current = part_name
 
-        while current and current in self.parts:
+        # One step more than there are parts shows a cycle (see validate)
+        while current and current in self.parts and len(chain) <= len(self.parts):
             chain.append(current)
             current = self.parts[current].parent
 
-- 
2.43.0


From 3ac323b256556e85eec8bd9031b74420382af993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:13 +0000
Subject: [PATCH 116/215] fix: the order of parts and children in a loaded
 kinematic chain depended on string hashing

---
 src/yapcad/kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/kinematics/chain.py b/src/yapcad/kinematics/chain.py
index 70afeb6..0164ee4 100644
--- a/src/yapcad/kinematics/chain.py
+++ b/src/yapcad/kinematics/chain.py
@@ -407,8 +407,8 @@ class KinematicChain:
         while remaining:
             # Find parts with no remaining dependencies
             ready = [
-                name for name in remaining
-                if dependencies[name] is None or dependencies[name] not in remaining
+                name for name in dependencies
+                if name in remaining and (dependencies[name] is None or dependencies[name] not in remaining)
             ]
             if not ready:
                 # Cycle or missing parent - add remaining in order
-- 
2.43.0


From e71e92f3fded7d2c188d5213a08144c55e37a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 117/215] fix: Datum.transform() ignored numpy matrices, so
 assemblies validated every part at the origin

---
 src/yapcad/assembly/datum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/assembly/datum.py b/src/yapcad/assembly/datum.py
index 7a509db..48d225a 100644
--- a/src/yapcad/assembly/datum.py
+++ b/src/yapcad/assembly/datum.py
@@ -320,6 +320,8 @@ class Datum:
         """
         # Convert to Matrix if needed
         if not isinstance(matrix, Matrix):
+            if hasattr(matrix, 'tolist'):  # numpy array
+                matrix = matrix.tolist()
             matrix = Matrix(matrix)
 
         # Helper to transform a point (w=1)
-- 
2.43.0


From de9b092a92616a8025fb2f6f809685b97df9341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 118/215] fix: Assembly.validate_and_raise() and report() read
 a field ConstraintResult does not have

---
 src/yapcad/assembly/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index b8cf829..90999d6 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -623,7 +623,7 @@ class Assembly:
             lines = [f"Assembly '{self.name}' validation failed:"]
             for name in result.failed_constraints:
                 cr = result.constraint_results[name]
-                lines.append(f"  - {name}: {cr.message}")
+                lines.append(f"  - {name}: {cr.error_message}")
 
             raise AssemblyError(
                 "\n".join(lines),
@@ -877,7 +877,7 @@ class Assembly:
                 lines.append(f"  STATUS: INVALID ({len(result.failed_constraints)} failures)")
                 for name in result.failed_constraints:
                     cr = result.constraint_results[name]
-                    lines.append(f"    FAILED: {name} - {cr.message}")
+                    lines.append(f"    FAILED: {name} - {cr.error_message}")
 
             if result.warnings:
                 lines.append(f"  WARNINGS: {len(result.warnings)}")
-- 
2.43.0


From dadc6b06de9b0e77a853694084b332b3d20476be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 119/215] fix: DatumRegistry.register_part() iterated over
 datum names

---
 src/yapcad/assembly/datum_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 1707267..d5693aa 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -219,7 +219,7 @@ class DatumRegistry:
         """
         instance = cls._get_instance()
 
-        datums = {d.name: d for d in part.datums}
+        datums = {d.name: d for d in part.datums.values()}
         cls.register_source(
             source_id=part.name,
             datums=datums,
-- 
2.43.0


From b8803791992155dbd8c6e5643fbe876f626b4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 120/215] fix: FaceToFaceMate and get_degrees_of_freedom() used
 mate types (ALIGNED, FLUSH) that MateType did not define

---
 src/yapcad/assembly/face_mate.py | 7 ++++---
 src/yapcad/assembly/mate.py      | 6 ++++++
 src/yapcad/assembly/solver.py    | 4 ++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 10b5c71..03ca365 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -181,8 +181,9 @@ class FaceToFaceMate:
         self._child_datum_obj = child_datum
 
         # Compute transform based on constraint type
-        if self.constraint in (MateType.COINCIDENT, MateType.ALIGNED):
-            flip_normal = (self.constraint == MateType.COINCIDENT)
+        if self.constraint in (MateType.COINCIDENT, MateType.FLUSH,
+                               MateType.ALIGNED):
+            flip_normal = (self.constraint != MateType.ALIGNED)
             tf = compute_flush_transform(
                 parent_datum, child_datum,
                 offset=self.offset_distance,
@@ -268,7 +269,7 @@ class FaceToFaceMate:
                                        np.linalg.norm(child_normal_transformed)
 
             # For COINCIDENT, normals should be opposite
-            if self.constraint == MateType.COINCIDENT:
+            if self.constraint in (MateType.COINCIDENT, MateType.FLUSH):
                 target = -parent_normal
             else:
                 target = parent_normal
diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index 9f9e8cb..385b9fd 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -84,6 +84,8 @@ class MateType(Enum):
     TANGENT: Surfaces remain tangent (1 DOF removed)
     DISTANCE: Fixed offset between datums (1 DOF removed)
     ANGLE: Fixed angular relationship (1 DOF removed)
+    FLUSH: Faces touch, normals opposed (3 DOF removed)
+    ALIGNED: Faces touch, normals in the same direction (3 DOF removed)
 
     Standard Joints (motion primitives):
     ------------------------------------
@@ -123,6 +125,8 @@ class MateType(Enum):
     TANGENT = "tangent"
     DISTANCE = "distance"
     ANGLE = "angle"
+    FLUSH = "flush"
+    ALIGNED = "aligned"
 
     # Standard joints (motion primitives)
     RIGID = "rigid"
@@ -505,6 +509,8 @@ class Mate:
             MateType.TANGENT: 5,     # 1 DOF removed
             MateType.DISTANCE: 5,    # 1 translational DOF removed
             MateType.ANGLE: 5,       # 1 rotational DOF removed
+            MateType.FLUSH: 3,       # 1 translational + 2 rotational DOF removed
+            MateType.ALIGNED: 3,     # 1 translational + 2 rotational DOF removed
 
             # Coupled mates (these create relationships, not DOF reduction)
             MateType.GEAR: -1,       # Special: coupled motion
diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index f5e4d59..c346824 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -423,13 +423,13 @@ class MateConstraintSolver:
         """
         # Use face_mate functions if available
         if HAS_FACE_MATE:
-            if mate_type in (MateType.COINCIDENT, MateType.RIGID):
+            if mate_type in (MateType.COINCIDENT, MateType.FLUSH, MateType.RIGID):
                 return compute_flush_transform(datum_a, datum_b)
             if mate_type == MateType.CONCENTRIC:
                 return compute_concentric_transform(datum_a, datum_b)
 
         # Fallback implementations
-        if mate_type in (MateType.COINCIDENT, MateType.RIGID):
+        if mate_type in (MateType.COINCIDENT, MateType.FLUSH, MateType.RIGID):
             return self._solve_coincident(datum_a, datum_b)
         elif mate_type == MateType.CONCENTRIC:
             return self._solve_concentric(datum_a, datum_b)
-- 
2.43.0


From 0c992efc0c0c9cdd597155a80738f43a310e7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 121/215] fix: a SCREW mate with a pitch ignored its
 coupling_reverse and coupling_offset

---
 src/yapcad/assembly/mate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index 385b9fd..a65a218 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -663,7 +663,9 @@ class Mate:
             # Position = rotations * pitch
             # driver_position is in radians, convert to rotations
             rotations = driver_position / (2.0 * math.pi)
-            driven = rotations * self.coupling_pitch
+            driven = rotations * self.coupling_pitch + self.coupling_offset
+            if self.coupling_reverse:
+                driven = -driven
 
         return driven
 
-- 
2.43.0


From 7c3e11f284de7ae11fc4b2cdf0680ff622399d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 122/215] fix: FaceToFaceMate.compute_transform() returned the
 transform of the first parent pose it was given

---
 src/yapcad/assembly/face_mate.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 03ca365..1ee4354 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -165,7 +165,10 @@ class FaceToFaceMate:
             return None
 
         if self._computed_transform is not None:
-            return self._computed_transform
+            tf = self._computed_transform
+            if parent_world_transform is not None:
+                return parent_world_transform @ tf
+            return tf.copy()
 
         # Load datums from registry
         from .datum_registry import DatumRegistry
@@ -203,12 +206,13 @@ class FaceToFaceMate:
         else:
             raise ValueError(f"Unsupported constraint type: {self.constraint}")
 
+        # The cache holds the child in the parent's frame
+        self._computed_transform = tf
+
         # Apply parent world transform if provided
         if parent_world_transform is not None:
-            tf = parent_world_transform @ tf
-
-        self._computed_transform = tf
-        return tf
+            return parent_world_transform @ tf
+        return tf.copy()
 
     def validate(self,
                  tolerance_mm: float = 0.1,
-- 
2.43.0


From 8a76f6aa70c6fb222b08340fcd9c9b508f759d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 123/215] fix: FaceToFaceMate.validate() rejected mates with an
 offset and PARALLEL mates, and could not handle axes

---
 src/yapcad/assembly/face_mate.py | 37 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 1ee4354..abbba3d 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -254,20 +254,23 @@ class FaceToFaceMate:
                            self._computed_transform[:3, 3]
 
         parent_origin = np.array(self._parent_datum_obj.origin[:3])
+        parent_normal = _mating_direction(self._parent_datum_obj)
 
-        # Check distance
-        distance = float(np.linalg.norm(child_transformed - parent_origin))
+        # Check distance (PARALLEL does not constrain the position)
+        if self.constraint == MateType.PARALLEL:
+            distance = 0.0
+        else:
+            target_origin = parent_origin + self.offset_distance * parent_normal
+            distance = float(np.linalg.norm(child_transformed - target_origin))
         distance_ok = distance <= tolerance_mm
 
         # Check angle (for PLANE/AXIS datums)
         angle_error = 0.0
         angle_ok = True
 
-        if self._parent_datum_obj.datum_type in (DatumType.PLANE, DatumType.CIRCLE):
-            parent_normal = np.array(self._parent_datum_obj.normal[:3])
-            parent_normal = parent_normal / np.linalg.norm(parent_normal)
-
-            child_normal = np.array(self._child_datum_obj.normal[:3])
+        if self._parent_datum_obj.datum_type in (DatumType.PLANE, DatumType.CIRCLE,
+                                                 DatumType.AXIS):
+            child_normal = _mating_direction(self._child_datum_obj)
             child_normal_transformed = self._computed_transform[:3, :3] @ child_normal
             child_normal_transformed = child_normal_transformed / \
                                        np.linalg.norm(child_normal_transformed)
@@ -465,12 +468,9 @@ def compute_parallel_transform(parent_datum: Datum,
     if not HAS_NUMPY:
         raise RuntimeError("NumPy required for transform computation")
 
-    # Get normals
-    P_normal = np.array(parent_datum.normal[:3]) if parent_datum.normal else np.array([0, 0, 1])
-    C_normal = np.array(child_datum.normal[:3]) if child_datum.normal else np.array([0, 0, 1])
-
-    P_normal = P_normal / np.linalg.norm(P_normal)
-    C_normal = C_normal / np.linalg.norm(C_normal)
+    # Get normals (axis direction for AXIS datums)
+    P_normal = _mating_direction(parent_datum)
+    C_normal = _mating_direction(child_datum)
 
     # Rotation to make parallel
     R = _rotation_between_vectors(C_normal, P_normal)
@@ -494,6 +494,17 @@ def compute_parallel_transform(parent_datum: Datum,
 # Helper Functions
 # =============================================================================
 
+def _mating_direction(datum: Datum) -> Any:
+    """Unit direction of a datum: axis direction, else normal, else +Z."""
+    if datum.datum_type == DatumType.AXIS:
+        d = np.array(datum.direction[:3], dtype=float)
+    elif datum.normal is not None:
+        d = np.array(datum.normal[:3], dtype=float)
+    else:
+        d = np.array([0.0, 0.0, 1.0])
+    return d / np.linalg.norm(d)
+
+
 def _rotation_between_vectors(v1: Any, v2: Any) -> Any:
     """Compute rotation matrix to rotate v1 to v2 using Rodrigues' formula.
 
-- 
2.43.0


From 20b3bf8896b682065a3f93b1a4560ee4df6cb9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 124/215] fix: MateConstraintSolver returned cached results of
 other parent poses and of other mates of the same name

---
 src/yapcad/assembly/solver.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index c346824..aa901e8 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -257,9 +257,13 @@ class MateConstraintSolver:
         part's coordinate frame such that the mate constraint is satisfied.
         """
         # Check cache
-        cache_key = f"{mate.name}:{mate_axis}"
+        cache_key = (
+            f"{mate.name}:{mate_axis}:{mate.mate_type.value}"
+            f":{mate.part_a}.{mate.datum_a}:{mate.part_b}.{mate.datum_b}"
+            f":{mate.offset}:{mate.angle}"
+        )
         if self._use_cache and cache_key in self._cache:
-            return self._cache[cache_key]
+            return self._place(self._cache[cache_key], parent_world_transform)
 
         try:
             # Get datums from registry
@@ -284,10 +288,6 @@ class MateConstraintSolver:
             if mate_axis != "Z":
                 transform = self._apply_mate_axis_rotation(transform, mate_axis)
 
-            # Apply parent world transform if provided
-            if parent_world_transform is not None:
-                transform = parent_world_transform @ transform
-
             result = MateMateSolveResult(
                 success=True,
                 transform=transform,
@@ -298,11 +298,11 @@ class MateConstraintSolver:
                 }
             )
 
-            # Cache result
+            # Cache result (child in the parent's frame)
             if self._use_cache:
                 self._cache[cache_key] = result
 
-            return result
+            return self._place(result, parent_world_transform)
 
         except Exception as e:
             logger.exception(f"Error solving mate {mate.name}")
@@ -311,6 +311,23 @@ class MateConstraintSolver:
                 error_message=str(e)
             )
 
+    def _place(
+        self,
+        result: MateMateSolveResult,
+        parent_world_transform: Optional[Any],
+    ) -> MateMateSolveResult:
+        """Copy of a parent-frame result, placed by the parent's transform."""
+        if parent_world_transform is not None:
+            transform = parent_world_transform @ result.transform
+        else:
+            transform = result.transform.copy()
+        return MateMateSolveResult(
+            success=True,
+            transform=transform,
+            residual=result.residual,
+            details=dict(result.details),
+        )
+
     def solve_all(
         self,
         mates: List[Mate],
-- 
2.43.0


From c1cd587b6af7e6240c800acf211ac70e7af56a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 125/215] fix: the mate solver left directions up to 0.8
 degrees apart unaligned

---
 src/yapcad/assembly/solver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index aa901e8..2c6d8c9 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -631,9 +631,11 @@ class MateConstraintSolver:
 
         # Check for parallel vectors
         dot = np.dot(v1, v2)
-        if dot > 0.9999:
+        axis = np.cross(v1, v2)
+        sin_angle = np.linalg.norm(axis)
+        if sin_angle < 1e-10 and dot > 0:
             return np.eye(3)  # Already aligned
-        if dot < -0.9999:
+        if sin_angle < 1e-10:
             # Opposite directions - rotate 180 around any perpendicular axis
             if abs(v1[0]) < 0.9:
                 perp = np.cross(v1, [1, 0, 0])
@@ -643,9 +645,8 @@ class MateConstraintSolver:
             return self._rodrigues_rotation(perp, math.pi)
 
         # Rodrigues formula
-        axis = np.cross(v1, v2)
-        axis = axis / np.linalg.norm(axis)
-        angle = math.acos(np.clip(dot, -1.0, 1.0))
+        axis = axis / sin_angle
+        angle = math.atan2(sin_angle, dot)
 
         return self._rodrigues_rotation(axis, angle)
 
-- 
2.43.0


From b34b7742a6462a033aa26d70c071b9f3da6b47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 126/215] fix: a DISTANCE mate ignored where the datum lies on
 the child part

---
 src/yapcad/assembly/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 2c6d8c9..20f2c29 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -554,11 +554,12 @@ class MateConstraintSolver:
     def _solve_distance(self, datum_a: Datum, datum_b: Datum, offset: float) -> Any:
         """Solve DISTANCE constraint (fixed offset along normal)."""
         origin_a = np.array(datum_a.origin[:3])
+        origin_b = np.array(datum_b.origin[:3])
         normal_a = self._get_datum_direction(datum_a)
 
-        # Position child at offset distance from parent along normal
+        # Position child datum at offset distance from parent along normal
         transform = np.eye(4)
-        transform[:3, 3] = origin_a + normal_a * offset
+        transform[:3, 3] = origin_a + normal_a * offset - origin_b
 
         return transform
 
-- 
2.43.0


From 7b11d6e17459c143e1474d42e9bbde568ac32c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 127/215] fix: the solver took the angle of an ANGLE mate
 (radians) for degrees

---
 src/yapcad/assembly/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 20f2c29..5ce6877 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -564,13 +564,13 @@ class MateConstraintSolver:
         return transform
 
     def _solve_angle(
-        self, datum_a: Datum, datum_b: Datum, angle_deg: float
+        self, datum_a: Datum, datum_b: Datum, angle: float
     ) -> Any:
         """Solve ANGLE constraint (fixed angular relationship)."""
         axis_a = self._get_datum_direction(datum_a)
 
         # Rotate around parent axis by specified angle
-        R = self._rodrigues_rotation(axis_a, math.radians(angle_deg))
+        R = self._rodrigues_rotation(axis_a, angle)
 
         transform = np.eye(4)
         transform[:3, :3] = R
-- 
2.43.0


From 541073666224b3baeb84ce3c45840ca67085761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 128/215] fix: solve_mate_chain() placed the branches of a
 chain on the previously solved part instead of their parent

---
 src/yapcad/assembly/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 5ce6877..33b42c0 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -739,8 +739,14 @@ def solve_mate_chain(
 
     transforms: Dict[str, Any] = {}
     current_transform = base_transform
+    root = mates[0].part_a if mates else None
 
     for mate in mates:
+        # A branch continues from its own parent, not from the previous mate
+        if mate.part_a in transforms:
+            current_transform = transforms[mate.part_a]
+        elif mate.part_a == root:
+            current_transform = base_transform
         result = solver.solve_mate(mate, parent_world_transform=current_transform)
         if result.success:
             transforms[mate.part_b] = result.transform
-- 
2.43.0


From 445e5e57a53671431afb1470854b58bf0af17978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 129/215] fix: DatumRegistry remembered a missing source for
 ever and listed it as registered

---
 src/yapcad/assembly/datum_registry.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index d5693aa..10dfea8 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -298,7 +298,9 @@ class DatumRegistry:
             # Try as a part name in already-loaded sources
             self._try_part_name_lookup(source)
 
-        self._loaded_sources.add(source)
+        # A source that was not found may still appear later
+        if source in self._sources:
+            self._loaded_sources.add(source)
 
     def _find_source_file(self, source: str) -> Optional[str]:
         """Find the source file in search paths.
@@ -421,13 +423,6 @@ class DatumRegistry:
                 self._sources[source] = src
                 return
 
-        # Not found - create empty source
-        self._sources[source] = DatumSource(
-            source_id=source,
-            source_type="not_found",
-            datums={}
-        )
-
     def _datum_from_dict(self, name: str, data: Dict[str, Any]) -> Datum:
         """Create a Datum from a dictionary representation.
 
-- 
2.43.0


From 7113318a83e4f7a7f29232d1888ee5eb2ae7ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 130/215] fix: the offset (gap) of a COINCIDENT mate was
 ignored by the solver

---
 src/yapcad/assembly/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 33b42c0..aa895e4 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -441,7 +441,7 @@ class MateConstraintSolver:
         # Use face_mate functions if available
         if HAS_FACE_MATE:
             if mate_type in (MateType.COINCIDENT, MateType.FLUSH, MateType.RIGID):
-                return compute_flush_transform(datum_a, datum_b)
+                return compute_flush_transform(datum_a, datum_b, offset=mate.offset)
             if mate_type == MateType.CONCENTRIC:
                 return compute_concentric_transform(datum_a, datum_b)
 
-- 
2.43.0


From e4f0a861e12cf457fa0fcf0668580b62a741b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:50 +0000
Subject: [PATCH 131/215] fix: no operation metadata could be applied: the
 resolver imported geom3d.boolean3d, which does not exist

---
 src/yapcad/assembly/resolver.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index 6eb7902..db5ca5d 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -164,17 +164,13 @@ class AssemblyResolver(ABC):
         ``kind`` is one of ``"subtract"``, ``"intersect"``, ``"union"``.
         """
         # Import lazily to avoid circular deps and optional-dep failures.
-        # Strategy: try yapCAD geom3d first, fall back to direct OCC.
-        try:
-            from ..geom3d import boolean3d  # type: ignore[import]
+        # Strategy: yapCAD solids go to geom3d, raw OCC shapes to OCC directly.
+        from ..geom3d import issolid, solid_boolean
+
+        if issolid(target_geom) and issolid(cutter_geom):
             op_map = {"subtract": "difference", "intersect": "intersection", "union": "union"}
             op_name = op_map.get(kind, kind)
-            kwargs: Dict[str, Any] = {}
-            if engine:
-                kwargs["engine"] = engine
-            return boolean3d(target_geom, cutter_geom, op_name, **kwargs)
-        except (ImportError, AttributeError):
-            pass
+            return solid_boolean(target_geom, cutter_geom, op_name, engine=engine)
 
         # Direct OCC fallback (yapcad-brep conda env)
         try:
@@ -198,8 +194,8 @@ class AssemblyResolver(ABC):
             pass
 
         raise RuntimeError(
-            "No boolean engine available: install OCC (yapcad-brep conda env) "
-            "or ensure geom3d.boolean3d is importable"
+            "No boolean engine available for these geometries: they are not "
+            "yapCAD solids and OCC (yapcad-brep conda env) is not installed"
         )
 
     @staticmethod
-- 
2.43.0


From 80aeb855d12c620b7e5474db5047b46e09067943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:50 +0000
Subject: [PATCH 132/215] fix: StagedResolver dropped the retained cutters,
 warnings and errors of every part

---
 src/yapcad/assembly/resolver.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index db5ca5d..2512214 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -402,7 +402,8 @@ class StagedResolver(AssemblyResolver):
         # Run each stage in order
         current_parts = dict(parts)
         current_meta = dict(meta_map)
-        accumulated_ops: Dict[str, List[str]] = {}  # pid → all applied_operations across stages
+        # pid → everything recorded for the part across stages
+        accumulated: Dict[str, ResolvedPart] = {}
 
         for stage_name in self.stages:
             bucket = stage_buckets[stage_name]
@@ -434,16 +435,21 @@ class StagedResolver(AssemblyResolver):
             if stage_result.errors:
                 global_errors.extend(stage_result.errors)
 
-            # Merge applied_operations into accumulator and feed geometry into next stage
+            # Merge the stage's records into accumulator and feed geometry into next stage
             for pid, rp in stage_result.parts.items():
-                prev = accumulated_ops.get(pid, [])
-                accumulated_ops[pid] = prev + rp.applied_operations
+                acc = accumulated.setdefault(pid, ResolvedPart(pid, None, [], []))
+                acc.applied_operations.extend(rp.applied_operations)
+                acc.retained_cutters.extend(rp.retained_cutters)
+                acc.warnings.extend(rp.warnings)
+                acc.errors.extend(rp.errors)
             current_parts = {pid: rp.geometry for pid, rp in stage_result.parts.items()}
 
-        # Produce final ResolvedPart objects carrying the full applied_operations list
+        # Produce final ResolvedPart objects carrying the records of all stages
         final_parts: Dict[str, ResolvedPart] = {}
         for pid, geom in current_parts.items():
-            final_parts[pid] = ResolvedPart(pid, geom, accumulated_ops.get(pid, []), [])
+            final = accumulated.get(pid) or ResolvedPart(pid, None, [], [])
+            final.geometry = geom
+            final_parts[pid] = final
 
         return ResolveResult(
             parts=final_parts,
-- 
2.43.0


From 4730c1f11958b07afaef18b3dc31f00529319f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:50 +0000
Subject: [PATCH 133/215] fix: the Mechatron export named parts by their
 definition while interfaces refer to instances

---
 src/yapcad/assembly/mechatron_export.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index 90088fb..b8f6c27 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -502,8 +502,10 @@ def to_mechatron_snapshot(assembly) -> Dict[str, Any]:
     for part_name in _ordered_part_names(assembly):
         part_def = assembly.parts[part_name]
         part_dict: Dict[str, Any] = {
-            "id": str(part_def.name),
-            "name": str(part_def.name),
+            # The instance name: it is what mates, bolt patterns and load
+            # cases refer to, and one definition can have many instances.
+            "id": str(part_name),
+            "name": str(part_name),
             "material": _material_to_mechatron(getattr(part_def, "material", None)),
             "process": getattr(part_def, "process", None) or "FDM",
             "datums": [_datum_to_mechatron(d) for d in part_def.datums.values()],
-- 
2.43.0


From 8afecf2a614d7e6d310ccfb72bf2959d38a4885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:50 +0000
Subject: [PATCH 134/215] fix: the Mechatron export wrote the angle of an ANGLE
 mate in radians as angle_deg

---
 src/yapcad/assembly/mechatron_export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index b8f6c27..fcb906f 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -86,6 +86,7 @@ What this exporter does NOT do
 from __future__ import annotations
 
 import json
+import math
 from typing import Any, Dict, Iterable, List, Optional
 
 
@@ -329,7 +330,8 @@ def _mate_constraint_for_mate(mate, assembly=None,
     # Mechatron's ``Angle`` variant requires an ``angle_deg`` field;
     # default to 0 when the yapcad Mate does not carry an explicit angle.
     if variant == "Angle":
-        entry["angle_deg"] = float(getattr(mate, "angle", 0.0) or 0.0)
+        # (Mate.angle is in radians.)
+        entry["angle_deg"] = math.degrees(float(getattr(mate, "angle", 0.0) or 0.0))
     return entry
 
 
-- 
2.43.0


From 61f2c43188d36dc5b0e0d1a66ba5b44a8d35b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:54 +0000
Subject: [PATCH 135/215] fix: CollisionDetector replaced an empty
 InterfaceRegistry, so interfaces registered later were ignored

---
 src/yapcad/collision/detector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index d6e709a..ef5e4f4 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -164,7 +164,11 @@ class CollisionDetector:
             penetration_threshold: Minimum penetration to count as collision (mm)
         """
         self.geometry_provider = geometry_provider
-        self.interface_registry = interface_registry or InterfaceRegistry()
+        # (An empty registry is falsy, but it is still the caller's.)
+        self.interface_registry = (
+            interface_registry if interface_registry is not None
+            else InterfaceRegistry()
+        )
         self.verbose = verbose
         self.min_collision_volume = min_collision_volume
         self.mesh_sample_points = mesh_sample_points
-- 
2.43.0


From ec4ac59eed58575778c00358b053d94183143116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:54 +0000
Subject: [PATCH 136/215] fix: penetration_depth was the depth of the
 shallowest, not the deepest, penetrating sample

---
 src/yapcad/collision/detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index ef5e4f4..bef0785 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -538,19 +538,19 @@ class CollisionDetector:
             contact_points = []
 
             if total_inside > 0:
-                # Estimate penetration using signed distance
+                # Estimate penetration using signed distance (positive inside)
                 try:
                     if points_b_in_a > 0:
                         prox_a = trimesh.proximity.ProximityQuery(mesh_a)
                         dists = prox_a.signed_distance(samples_b[contains_a])
                         if len(dists) > 0:
-                            penetration_depth = max(penetration_depth, abs(np.min(dists)))
+                            penetration_depth = max(penetration_depth, float(np.max(dists)))
 
                     if points_a_in_b > 0:
                         prox_b = trimesh.proximity.ProximityQuery(mesh_b)
                         dists = prox_b.signed_distance(samples_a[contains_b])
                         if len(dists) > 0:
-                            penetration_depth = max(penetration_depth, abs(np.min(dists)))
+                            penetration_depth = max(penetration_depth, float(np.max(dists)))
                 except Exception:
                     pass
 
-- 
2.43.0


From c7711286b322287933aa3e59c989072d8a492c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 137/215] fix: CollisionResult.to_dict() of a mesh check held a
 numpy bool, which json refuses

---
 src/yapcad/collision/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index bef0785..3257ddb 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -561,7 +561,7 @@ class CollisionDetector:
                     contact_points.extend([tuple(p) for p in samples_a[contains_b][:10]])
 
             # Determine if collision
-            collides = (
+            collides = bool(
                 total_inside > 10 or
                 (penetration_depth > self.penetration_threshold and total_inside > 0)
             )
-- 
2.43.0


From fffcd741b48e3cf91cc7ace0c899919928f32e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 138/215] fix: unified_profile() multiplied the thread depth by
 the pitch twice

---
 src/yapcad/threadgen.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/yapcad/threadgen.py b/src/yapcad/threadgen.py
index b8a6ae2..80bfcbf 100644
--- a/src/yapcad/threadgen.py
+++ b/src/yapcad/threadgen.py
@@ -51,13 +51,12 @@ def unified_profile(d_nominal_in: float, tpi: float, *, strts: int=1, internal:
     pitch = 25.4 / tpi
     crest = 1.0 / 8.0
     root = 1.0 / 4.0 if not internal else 1.0 / 8.0
-    depth_ratio = 0.64952 * pitch
     return ThreadProfile(
         D_nominal=d_nominal_in * 25.4,
         P_pitch=pitch,
         crest_flat_ratio=crest,
         root_flat_ratio=root,
-        thread_depth_ratio=depth_ratio,
+        thread_depth_ratio=0.64952,
         starts=strts,
         internal=internal,
     )
-- 
2.43.0


From b1d8a5ef8895b5ba20cfa8421d566fcbfa3c4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:35 +0000
Subject: [PATCH 139/215] fix: thread surfaces had holes where a quad collapses
 to a triangle at the thread ends

---
 src/yapcad/geom3d_util.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 13ee862..1a2f2ed 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1114,10 +1114,9 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
             idx_b0 = j
             idx_b1 = j + 1
             if apply_shift:
-                idx_b0 = j + apply_shift
-                idx_b1 = j + 1 + apply_shift
-                if idx_b1 >= steps:
-                    continue
+                # samples shifted past the end collapse onto the end sample
+                idx_b0 = max(0, min(j + apply_shift, steps - 1))
+                idx_b1 = max(0, min(j + 1 + apply_shift, steps - 1))
 
             z2, r2 = prof_b[idx_b1]
             z3, r3 = prof_b[idx_b0]
@@ -1127,18 +1126,18 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
             v2 = [cos_b * r2, sin_b * r2, z2, 1.0]
             v3 = [cos_b * r3, sin_b * r3, z3, 1.0]
 
-            try:
-                _, n0 = tri2p0n([v1, v0, v2])
-            except ValueError:
-                continue
-
-            k0, sV, sN = addVertex(v0, n0, sV, sN)
-            k1, sV, sN = addVertex(v1, n0, sV, sN)
-            k2, sV, sN = addVertex(v2, n0, sV, sN)
-            k3, sV, sN = addVertex(v3, n0, sV, sN)
-
-            sF.append([k0, k2, k1])
-            sF.append([k0, k3, k2])
+            # the quad may collapse to a single triangle, which still has
+            # to be emitted to keep the surface free of holes
+            for tri in ((v0, v2, v1), (v0, v3, v2)):
+                try:
+                    _, n0 = tri2p0n(list(tri))
+                except ValueError:
+                    continue
+                face = []
+                for vert in tri:
+                    k, sV, sN = addVertex(vert, n0, sV, sN)
+                    face.append(k)
+                sF.append(face)
 
     if endcaps:
         if need_start_cap and start_pole_idx is not None:
-- 
2.43.0


From e2cfdd3c02dff1e039288585720170b5c61c1624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 140/215] fix: left-handed threads did not reach the end of the
 thread and were joined wrongly at the seam

---
 src/yapcad/geom3d_util.py | 6 +++---
 src/yapcad/threadgen.py   | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 1a2f2ed..ae75214 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1043,7 +1043,7 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
     steps = len(profile_zero)
     if steps < 2:
         raise ValueError('contour function must return at least two samples')
-    wrap_shift = int(max(0, min(wrap_shift, steps - 1)))
+    wrap_shift = int(max(1 - steps, min(wrap_shift, steps - 1)))
 
     arcSamples = max(3, int(arcSamples))
     degStep = 360.0 / arcSamples
@@ -1087,7 +1087,7 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
         if len(prof) != steps:
             raise ValueError('contour returned inconsistent sample counts for theta sweep')
         if wrap_val and wrap_shift == 0:
-            wrap_shift = int(max(0, min(wrap_val, steps - 1)))
+            wrap_shift = int(max(1 - steps, min(wrap_val, steps - 1)))
         if axisymmetric and wrap_val != wrap_shift:
             axisymmetric = False
         if axisymmetric:
@@ -1105,7 +1105,7 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
         sin_b = angle_sin[next_idx]
         prof_a = profiles[ang_idx]
         prof_b = profiles[next_idx]
-        apply_shift = wrap_shift if (wrap_shift > 0 and next_idx == 0) else 0
+        apply_shift = wrap_shift if next_idx == 0 else 0
 
         for j in range(steps - 1):
             z0, r0 = prof_a[j]
diff --git a/src/yapcad/threadgen.py b/src/yapcad/threadgen.py
index 80bfcbf..c2757e5 100644
--- a/src/yapcad/threadgen.py
+++ b/src/yapcad/threadgen.py
@@ -77,10 +77,14 @@ def sample_thread_profile(
 
     lead = profile.lead()
 
-    points, wrap = _collect_breakpoints(profile, x_start-lead, x_end, samples_per_pitch)
     offset = (theta_deg / 360.0) * lead
     if profile.handedness.lower() == "left":
+        # samples move towards x_start, and the seam wraps the other way
+        points, wrap = _collect_breakpoints(profile, x_start, x_end+lead, samples_per_pitch)
         offset = -offset
+        wrap = -wrap
+    else:
+        points, wrap = _collect_breakpoints(profile, x_start-lead, x_end, samples_per_pitch)
 
     sampled = []
     z_min = x_start
-- 
2.43.0


From c4287fce12dee1df3a18b21b9a0c588b005dc9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 141/215] fix: the caps of a bolt thread did not meet the
 thread surface, and the stacking of bolt parts relied on a failing mesh
 boolean

---
 src/yapcad/fasteners_legacy.py | 37 +++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/fasteners_legacy.py b/src/yapcad/fasteners_legacy.py
index e1f3788..f783616 100644
--- a/src/yapcad/fasteners_legacy.py
+++ b/src/yapcad/fasteners_legacy.py
@@ -14,6 +14,7 @@ from yapcad.geom3d import (
     reversesurface,
     solid,
     solid_boolean,
+    surface,
     translate,
 )
 from yapcad.geom3d_util import (
@@ -95,10 +96,12 @@ def build_hex_cap_screw(profile: ThreadProfile, spec: HexCapScrewSpec):
         non_brep_parts = [part for part in components if not has_brep_data(part)]
         if brep_parts:
             body = _union_solids(brep_parts)
+            for part in non_brep_parts:
+                body = solid_boolean(body, part, "union")
         else:
-            body = non_brep_parts.pop(0)
-        for part in non_brep_parts:
-            body = solid_boolean(body, part, "union")
+            # the mesh boolean engine cannot unite parts that merely touch;
+            # stack them, each part being closed
+            body = _stack_solids(components)
     except Exception as e:
         print(f"got exception {e} performing unions, stacking instead")
         body = _stack_solids(components)
@@ -297,11 +300,35 @@ def _build_thread(profile: ThreadProfile, spec: HexCapScrewSpec):
         arcSamples=max(24, spec.thread_arc_samples),
         endcaps=False,
     )
-    bottom_cap = circleSurface(point(0, 0, 0), bottom_r, zup=False)
-    top_cap = circleSurface(point(0, 0, spec.thread_length), top_r, zup=True)
+    # the caps share the edges of the thread surface
+    samples = max(24, int(spec.thread_arc_samples))
+    bottom_cap = _disc_surface(bottom_r, 0.0, samples, zup=False)
+    top_cap = _disc_surface(top_r, spec.thread_length, samples, zup=True)
     return solid([surface, bottom_cap, top_cap])
 
 
+def _circle_points(radius: float, samples: int, z: float = 0.0):
+    """points at the angles at which a thread surface is sampled"""
+    step = 2.0 * math.pi / samples
+    return [
+        point(radius * math.cos(idx * step), radius * math.sin(idx * step), z)
+        for idx in range(samples)
+    ]
+
+
+def _disc_surface(radius: float, z: float, samples: int, *, zup: bool):
+    verts = [point(0, 0, z), *_circle_points(radius, samples, z)]
+    normals = [[0.0, 0.0, 1.0 if zup else -1.0, 0.0] for _ in verts]
+    faces = []
+    for idx in range(1, samples + 1):
+        nxt = 1 + idx % samples
+        faces.append([0, idx, nxt] if zup else [0, nxt, idx])
+    surf = surface(verts, normals, faces)
+    surf[4] = list(range(1, len(verts)))
+    surf[5] = []
+    return surf
+
+
 def _build_shank(spec: HexCapScrewSpec, length: float):
     radius = (spec.shank_diameter or spec.diameter) / 2.0
     return conic(
-- 
2.43.0


From cbf963d3b79d92ab80754e502dc1fbabf5791f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 142/215] fix: the hole of a nut did not meet the thread
 surface: the solid was not closed

---
 src/yapcad/fasteners_legacy.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/fasteners_legacy.py b/src/yapcad/fasteners_legacy.py
index f783616..7de525b 100644
--- a/src/yapcad/fasteners_legacy.py
+++ b/src/yapcad/fasteners_legacy.py
@@ -7,8 +7,7 @@ from copy import deepcopy
 from dataclasses import asdict, dataclass, replace
 from typing import Dict, Iterable
 
-from yapcad.geom import arc, epsilon, point
-from yapcad.geom_util import geomlist2poly
+from yapcad.geom import epsilon, point
 from yapcad.geom3d import (
     poly2surfaceXY,
     reversesurface,
@@ -18,7 +17,6 @@ from yapcad.geom3d import (
     translate,
 )
 from yapcad.geom3d_util import (
-    circleSurface,
     conic,
     extrude,
     makeRevolutionThetaSamplingSurface,
@@ -136,7 +134,9 @@ def build_hex_nut(profile: ThreadProfile, spec: HexNutSpec):
 
     thread_surface, hole_radius = _build_internal_thread_surface(nut_profile, spec)
     side_surfaces = _build_hex_side_surfaces(spec.width_flat, spec.thickness)
-    top_surface, bottom_surface = _build_hex_cap_with_hole(spec.width_flat, hole_radius, spec.thickness)
+    top_surface, bottom_surface = _build_hex_cap_with_hole(
+        spec.width_flat, hole_radius, spec.thickness, max(24, int(spec.thread_arc_samples))
+    )
 
     surfaces = [bottom_surface, *side_surfaces, thread_surface, top_surface]
     nut = solid(surfaces)
@@ -363,14 +363,12 @@ def _build_hex_head(spec: HexCapScrewSpec):
     return translate(head, point(0, 0, base_z))
 
 
-def _circle_loop_xy(radius: float, minang: float = 5.0):
-    loop = geomlist2poly([arc(point(0, 0), radius)], minang=minang, minlen=0.0)
-    if not loop:
-        raise ValueError("failed to construct circle loop")
-    return [point(pt[0], pt[1], 0.0) for pt in loop]
+def _circle_loop_xy(radius: float, samples: int):
+    loop = _circle_points(radius, samples)
+    return [*loop, loop[0]]
 
 
-def _build_hex_cap_with_hole(width_flat: float, hole_radius: float, thickness: float):
+def _build_hex_cap_with_hole(width_flat: float, hole_radius: float, thickness: float, samples: int):
     incircle = width_flat / 2.0
     circum = incircle / math.cos(math.pi / 6.0)
     outer = []
@@ -379,7 +377,8 @@ def _build_hex_cap_with_hole(width_flat: float, hole_radius: float, thickness: f
         outer.append(point(circum * math.cos(angle), circum * math.sin(angle), 0.0))
     outer.append(outer[0])
 
-    hole_loop = list(_circle_loop_xy(hole_radius))
+    # the hole shares the edges of the thread surface
+    hole_loop = _circle_loop_xy(hole_radius, samples)
 
     top_surface, _ = poly2surfaceXY(outer, holepolys=[hole_loop])
     top_surface = translate(top_surface, point(0, 0, thickness))
-- 
2.43.0


From 1138f0488c6c0357500f009569588db5f5d1891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:35 +0000
Subject: [PATCH 143/215] fix: changing the dict returned by a fastener catalog
 lookup changed every later lookup

---
 src/yapcad/fasteners/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/fasteners/catalog.py b/src/yapcad/fasteners/catalog.py
index 76195f8..d320a2f 100644
--- a/src/yapcad/fasteners/catalog.py
+++ b/src/yapcad/fasteners/catalog.py
@@ -17,6 +17,7 @@ Example:
 
 from __future__ import annotations
 
+import copy
 import os
 import sys
 from pathlib import Path
@@ -191,7 +192,8 @@ def load_catalog(
         )
 
     custom_str = str(custom_path) if custom_path else None
-    return _load_catalog_cached(thread_series, custom_str)
+    # callers get their own copy: changing it must not change later lookups
+    return copy.deepcopy(_load_catalog_cached(thread_series, custom_str))
 
 
 def list_available_sizes(
-- 
2.43.0


From 987b248e3622bd71c42737cab0a156ce3ead85d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 144/215] fix: rounding made duplicate thread samples, which
 twisted the seam of inch threads

---
 src/yapcad/threadgen.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/threadgen.py b/src/yapcad/threadgen.py
index c2757e5..7429f17 100644
--- a/src/yapcad/threadgen.py
+++ b/src/yapcad/threadgen.py
@@ -157,9 +157,18 @@ def _collect_breakpoints(profile: ThreadProfile, x_start: float, x_end: float, s
             pitch_samples.add(base + frac * pitch)
         pitch_samples.add(pitch)
 
-    wrap = max(1, len(sorted(pitch_samples)) - 1) * profile.starts
+    wrap = max(1, len(_distinct(pitch_samples)) - 1) * max(1, profile.starts)
 
-    return sorted(xs), wrap
+    return _distinct(xs), wrap
+
+
+def _distinct(values: Iterable[float], tol: float = 1e-9) -> List[float]:
+    """sorted values, without the duplicates that differ by rounding only"""
+    result: List[float] = []
+    for value in sorted(values):
+        if not result or value - result[-1] > tol:
+            result.append(value)
+    return result
 
 
 def _pitch_breakpoints(profile: ThreadProfile) -> Iterable[float]:
-- 
2.43.0


From 4cb23ba65f547cafeaf03aca08211bcfbde468aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 145/215] fix: length_to_parameter() ignored that the path
 parameter is uniform per segment, so connectors and automatic cuts were
 misplaced on uneven spines

---
 src/yapcad/manufacturing/path_utils.py   | 16 ++++++++++++++--
 src/yapcad/manufacturing/segmentation.py |  3 ++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index a0463b9..4ab1cb2 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -359,10 +359,22 @@ def length_to_parameter(path3d: Dict[str, Any], arc_length: float) -> float:
     Returns:
         Global parameter t in [0, 1]
     """
+    segments = path3d.get('segments', [])
     total_length = path_length(path3d)
-    if total_length < 1e-10:
+    if total_length < 1e-10 or arc_length <= 0.0:
         return 0.0
-    return min(1.0, max(0.0, arc_length / total_length))
+    if arc_length >= total_length:
+        return 1.0
+
+    # The global parameter gives every segment an equal share of [0, 1],
+    # whatever its length (see evaluate_path3d_at_t)
+    remaining = arc_length
+    for idx, seg in enumerate(segments):
+        seg_length = path_length({'segments': [seg]})
+        if seg_length > 0.0 and remaining <= seg_length:
+            return min(1.0, (idx + remaining / seg_length) / len(segments))
+        remaining -= seg_length
+    return 1.0
 
 
 def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 8eed60f..1059add 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -17,6 +17,7 @@ from .data import (
 from .path_utils import (
     compute_cut_plane,
     extract_sub_path,
+    length_to_parameter,
     path_length,
 )
 from .connectors import (
@@ -766,7 +767,7 @@ def compute_optimal_cuts(
     for i in range(1, num_segments):
         # Convert length to parameter
         cut_length = i * segment_length
-        cut_t = cut_length / total_length
+        cut_t = length_to_parameter(spine, cut_length)
 
         cut_points.append(CutPoint(
             element_id=provenance.id,
-- 
2.43.0


From 0a8be8940eaeae9be7849fa8ff860c267ea435f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 146/215] fix: parameter_to_length() raised at the start of the
 path

---
 src/yapcad/manufacturing/path_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index 4ab1cb2..6bd593a 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -387,6 +387,8 @@ def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
     Returns:
         Arc length from path start to parameter t
     """
+    if t <= 0.0:
+        return 0.0
     # Extract sub-path and compute its length
     sub_path = extract_sub_path(path3d, 0.0, t)
     return path_length(sub_path)
-- 
2.43.0


From 4ca244a2a5f5752167b75c8f144b5bd0666689a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 147/215] fix: segment_swept_element() ignored the
 connector_length of a cut point

---
 src/yapcad/manufacturing/segmentation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 1059add..395f742 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -494,6 +494,8 @@ def segment_swept_element(
                 provenance.spine,
                 fit_clearance=cut_point.fit_clearance,
             )
+            if cut_point.connector_length is not None:
+                conn_spec.length = cut_point.connector_length
 
             if union_connectors and cut_point.union_connector_with != "none":
                 # Build actual connector solid
-- 
2.43.0


From 4af1fed657bea379f7afc3181362efbe97a8d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 148/215] fix: the assembly graph of a segmentation listed only
 the preceding mate of each segment

---
 src/yapcad/manufacturing/segmentation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 395f742..6c91c6a 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -444,7 +444,6 @@ def segment_swept_element(
     # Generate segments by iterating through cuts
     segments: List[Segment] = []
     connectors: List[ConnectorSpec] = []
-    assembly_graph: Dict[str, List[str]] = {}
     warnings: List[str] = []
 
     # Track remaining solid as we make cuts
@@ -569,7 +568,6 @@ def segment_swept_element(
                     prev_seg.connector_type = "female"
 
         segments.append(segment)
-        assembly_graph[segment_id] = list(segment.mates_with)
 
         prev_segment_id = segment_id
         segment_start_t = cut_point.parameter
@@ -610,7 +608,7 @@ def segment_swept_element(
             prev_seg.mates_with.append(final_segment_id)
 
     segments.append(final_segment)
-    assembly_graph[final_segment_id] = list(final_segment.mates_with)
+    assembly_graph = {seg.id: list(seg.mates_with) for seg in segments}
 
     # Generate assembly instructions
     instructions = _generate_assembly_instructions(segments, connectors)
-- 
2.43.0


From b90cf6cf0e5ae399799da89558a46d464cce60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 149/215] fix: segments that receive a tab were not marked
 female, and others were, when the cuts of a beam differ

---
 src/yapcad/manufacturing/segmentation.py | 28 ++++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 6c91c6a..7affae1 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -454,6 +454,8 @@ def segment_swept_element(
     # Track connector type for segments
     # When union_connector_with=="b", the next segment gets the connector
     next_segment_has_connector = False
+    # When union_connector_with=="a", the next segment receives the connector
+    next_segment_receives = False
 
     for i, cut_point in enumerate(sorted_cuts):
         # Compute cut plane from spine
@@ -474,6 +476,8 @@ def segment_swept_element(
         # and build connector for this cut
         segment_connector_type = "none"
         segment_has_tab = False
+        segment_receives = next_segment_receives
+        next_segment_receives = False
 
         # If previous cut designated "b" (remaining), this segment has the connector
         if next_segment_has_connector:
@@ -516,6 +520,7 @@ def segment_swept_element(
                         )
                         segment_connector_type = "male"
                         segment_has_tab = True
+                        next_segment_receives = True
                     except RuntimeError as e:
                         warnings.append(
                             f"Connector union at t={cut_point.parameter} failed: {e}"
@@ -530,9 +535,8 @@ def segment_swept_element(
                             remaining_solid, connector_solid
                         )
                         next_segment_has_connector = True
-                        # This segment (A) is female - receives the connector from B
-                        if segment_connector_type == "none":
-                            segment_connector_type = "female"
+                        # This segment (A) receives the connector from B
+                        segment_receives = True
                     except RuntimeError as e:
                         warnings.append(
                             f"Connector union at t={cut_point.parameter} failed: {e}"
@@ -542,6 +546,10 @@ def segment_swept_element(
                 # Keep connector as separate piece
                 connectors.append(conn_spec)
 
+        # A segment without a tab of its own that receives one is female
+        if segment_connector_type == "none" and segment_receives:
+            segment_connector_type = "female"
+
         # Create segment
         segment_id = f"{provenance.id}_seg_{i}"
         segment = Segment(
@@ -562,10 +570,6 @@ def segment_swept_element(
             )
             if prev_seg:
                 prev_seg.mates_with.append(segment_id)
-                # If this segment is male and prev segment doesn't have a tab,
-                # prev segment becomes female at this joint
-                if segment_connector_type == "male" and prev_seg.connector_type == "none":
-                    prev_seg.connector_type = "female"
 
         segments.append(segment)
 
@@ -582,13 +586,9 @@ def segment_swept_element(
     if next_segment_has_connector:
         # Last cut used union_connector_with="b", so final segment is male
         final_connector_type = "male"
-    elif prev_segment_id:
-        # Check if previous segment is male - if so, final segment receives its tab
-        prev_seg = next((s for s in segments if s.id == prev_segment_id), None)
-        if prev_seg and prev_seg.connector_type == "male":
-            final_connector_type = "female"
-        else:
-            final_connector_type = "none"
+    elif next_segment_receives:
+        # Last cut used union_connector_with="a": final segment receives the tab
+        final_connector_type = "female"
     else:
         final_connector_type = "none"
 
-- 
2.43.0


From 29a4aa4db1b8a19b8977d7caa181f1309b965cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 150/215] fix: two connectors less than a hundredth of the path
 apart got the same id

---
 src/yapcad/manufacturing/segmentation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 7affae1..dda7648 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -497,6 +497,9 @@ def segment_swept_element(
                 provenance.spine,
                 fit_clearance=cut_point.fit_clearance,
             )
+            if any(c.id == conn_spec.id for c in connectors):
+                # the generated id only resolves hundredths of the path
+                conn_spec.id = f"{conn_spec.id}_{i}"
             if cut_point.connector_length is not None:
                 conn_spec.length = cut_point.connector_length
 
-- 
2.43.0


From f2ccf90a50c461c9ad5394331aef94599c50930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:59 +0000
Subject: [PATCH 151/215] fix: assembly instructions told to insert connectors
 of cuts within 0.01 at the wrong joint

---
 src/yapcad/manufacturing/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index dda7648..83c67c6 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -714,7 +714,7 @@ def _generate_assembly_instructions(
         # Check for separate connectors at this joint
         for conn in connectors:
             seg_end = seg.parameter_range[1]
-            if abs(conn.center_parameter - seg_end) < 0.01:
+            if abs(conn.center_parameter - seg_end) < 1e-9:
                 lines.append(f"   Insert connector '{conn.id}' before next segment")
                 lines.append(f"   Fit type: {_fit_type_description(conn.fit_clearance)}")
 
-- 
2.43.0


From 0696fa4662f7f052f8d86e79cba149ddcd1b2f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:06 +0000
Subject: [PATCH 152/215] fix: concurrent evaluations shared one vertex hash
 and failed or gave meshes with unmerged vertices

---
 src/yapcad/geom3d_util.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index ae75214..5d40cf8 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -8,6 +8,7 @@ from yapcad.geom3d import *
 from yapcad.brep import attach_brep_to_solid, occ_available, BrepSolid
 
 import math
+import threading
 
 """
 ==================================================
@@ -175,8 +176,12 @@ icaIndices = [ [1,11,3],[3,11,5],[5,11,7],[7,11,9],[9,11,1],
                [2,1,3],[2,3,4],[4,3,5],[4,5,6],[6,5,7],[6,7,8],[8,7,9],[8,9,10],[10,9,1],[10,1,2],
                [0,2,4],[0,4,6],[0,6,8],[0,8,10],[0,10,2] ]
 
-vertexHash = {}
-_vertexHash_owner = None
+class _VertexHash(threading.local):
+    """hash of the vertex list being built; one for each thread"""
+    owner = None
+    table = {}
+
+_vertex_hash = _VertexHash()
 def addVertex(nv,nn,verts,normals):
     """
     Utility function that takes a vertex and associated normal and a
@@ -187,11 +192,11 @@ def addVertex(nv,nn,verts,normals):
 
     returns the index, and the (potentiall updated) lists
     """
-    global vertexHash, _vertexHash_owner
     owner_id = id(verts)
-    if _vertexHash_owner != owner_id or len(verts) == 0:
-        vertexHash = {}
-        _vertexHash_owner = owner_id
+    if _vertex_hash.owner != owner_id or len(verts) == 0:
+        _vertex_hash.table = {}
+        _vertex_hash.owner = owner_id
+    vertexHash = _vertex_hash.table
 
     found = False
     # Normalize tiny values to avoid "-0.00" != "0.00" hash key mismatch
-- 
2.43.0


From 2c89813bdac142c57eb058f7df911983b79dc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:06 +0000
Subject: [PATCH 153/215] fix: the DSL evaluation timeout of the service had no
 effect, it waited for the evaluation to end

---
 service/core/dsl_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/core/dsl_runner.py b/service/core/dsl_runner.py
index 803f7d8..96b5f19 100644
--- a/service/core/dsl_runner.py
+++ b/service/core/dsl_runner.py
@@ -38,7 +38,7 @@ async def eval_dsl(
 
     try:
         with anyio.fail_after(timeout_s):
-            return await anyio.to_thread.run_sync(_run_sync)
+            return await anyio.to_thread.run_sync(_run_sync, abandon_on_cancel=True)
     except TimeoutError as exc:  # anyio raises built-in TimeoutError
         raise DslTimeoutError(f"DSL evaluation exceeded timeout ({timeout_s}s)") from exc
 
-- 
2.43.0


From 91f3161afb6cd66cd1aa539a452bfe25367e8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:06 +0000
Subject: [PATCH 154/215] fix: /dsl/ui_eval returned the wrapper of the emitted
 value instead of the value

---
 service/routes/dsl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/service/routes/dsl.py b/service/routes/dsl.py
index 0c18dd2..1ac44e1 100644
--- a/service/routes/dsl.py
+++ b/service/routes/dsl.py
@@ -153,13 +153,17 @@ async def dsl_ui_eval(req: DslUiEvalRequest) -> DslUiEvalResponse:
     if not result.success:
         return DslUiEvalResponse(success=False, error_message=result.error_message)
 
-    raw = result.emit_result
-    if raw is None:
+    if result.emit_result is None:
         return DslUiEvalResponse(success=False, error_message="Command did not emit a value")
 
+    # emit_result is an EmitResult wrapper; .data is the raw Python value
+    raw = result.emit_result.data
+
     # Coerce to list of scalars
     values = raw if isinstance(raw, list) else [raw]
     type_name = type(values[0]).__name__ if values else "unknown"
+    if type_name == "str":
+        type_name = "string"
     return DslUiEvalResponse(success=True, values=values, type=type_name)
 
 
-- 
2.43.0


From 057e59d97b058ddcef180e8865bdab7d8771f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:06 +0000
Subject: [PATCH 155/215] fix: a WebSocket message that is JSON but no object
 ended the connection

---
 service/routes/dsl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/service/routes/dsl.py b/service/routes/dsl.py
index 1ac44e1..cacf03b 100644
--- a/service/routes/dsl.py
+++ b/service/routes/dsl.py
@@ -270,6 +270,9 @@ async def ws_dsl_eval(websocket: WebSocket) -> None:
             except json.JSONDecodeError:
                 await websocket.send_json({"type": "error", "error_message": "Invalid JSON"})
                 continue
+            if not isinstance(msg, dict):
+                await websocket.send_json({"type": "error", "error_message": "Message must be a JSON object"})
+                continue
 
             msg_type = msg.get("type")
 
-- 
2.43.0


From b470657590ced0bf58c3800b669d608399adc69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 156/215] fix: /dsl/commands listed parameters with a negative
 default as having none

---
 service/routes/dsl.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/service/routes/dsl.py b/service/routes/dsl.py
index cacf03b..ee10d93 100644
--- a/service/routes/dsl.py
+++ b/service/routes/dsl.py
@@ -107,6 +107,11 @@ def dsl_commands(req: DslParseRequest):
             ptype = ta.get("name", "any") if isinstance(ta, dict) else "any"
             dv = p.get("default_value")
             default = dv.get("value") if isinstance(dv, dict) and "value" in dv else None
+            if isinstance(dv, dict) and dv.get("_type") == "UnaryOp" and dv.get("operator") == "MINUS":
+                # a negative number is a literal with a minus sign
+                literal = (dv.get("operand") or {}).get("value")
+                if isinstance(literal, (int, float)) and not isinstance(literal, bool):
+                    default = -literal
             param_info: Dict[str, Any] = {"name": p["name"], "type": ptype, "default": default}
             ui_hint = p.get("ui_hint")
             if ui_hint:
-- 
2.43.0


From 78221b23151f0d37c843f77452c95bc96e1e2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:11 +0000
Subject: [PATCH 157/215] fix: STEP files wrote the representation context with
 AND keywords, so readers reported a syntax error and lost the units

---
 src/yapcad/io/step.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index d71b097..9e97dc7 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -407,17 +407,15 @@ def write_step(obj: Sequence,
     solid_angle_unit = writer.add(
         "( NAMED_UNIT(*) SOLID_ANGLE_UNIT() SI_UNIT($, .STERADIAN.) )"
     )
-    measure_with_unit = writer.add(
-        f"MEASURE_WITH_UNIT(LENGTH_MEASURE(1.E-06), #{length_unit})"
-    )
     uncertainty = writer.add(
-        f"UNCERTAINTY_MEASURE_WITH_UNIT(#{measure_with_unit}, 'distance accuracy value')"
+        f"UNCERTAINTY_MEASURE_WITH_UNIT(LENGTH_MEASURE(1.E-06), #{length_unit}, "
+        "'distance_accuracy_value', '')"
     )
     geom_context = writer.add(
-        "( REPRESENTATION_CONTEXT('', '')"
-        " AND GEOMETRIC_REPRESENTATION_CONTEXT(3)"
-        f" AND GLOBAL_UNCERTAINTY_ASSIGNED_CONTEXT((#{uncertainty}))"
-        f" AND GLOBAL_UNIT_ASSIGNED_CONTEXT((#{length_unit}, #{plane_angle_unit}, #{solid_angle_unit})) )"
+        "( GEOMETRIC_REPRESENTATION_CONTEXT(3)"
+        f" GLOBAL_UNCERTAINTY_ASSIGNED_CONTEXT((#{uncertainty}))"
+        f" GLOBAL_UNIT_ASSIGNED_CONTEXT((#{length_unit}, #{plane_angle_unit}, #{solid_angle_unit}))"
+        " REPRESENTATION_CONTEXT('', '') )"
     )
 
     items_block = _format_id_list(representation_items)
-- 
2.43.0


From 9e17ad538bcd1704d4100d5c0115a8e61e229d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:11 +0000
Subject: [PATCH 158/215] fix: the native analysis backend passed plans with
 criteria it had not evaluated, and its result details disagreed with its
 verdict

---
 src/yapcad/package/analysis/yapcad_native.py | 127 +++++++------------
 1 file changed, 48 insertions(+), 79 deletions(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index f3d6c29..5bba8f4 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -571,51 +571,52 @@ class YapCADNativeAdapter(AnalysisAdapter):
         if not acceptance:
             return "passed" if metrics else "pending"
 
+        status = "passed"
         for key, rule in acceptance.items():
-            # Try exact key match first
-            metric_value = metrics.get(key)
-
-            # Try alternate key formats
-            if metric_value is None:
-                # Try without dots (e.g., "bbox_x" for "bbox.x")
-                metric_value = metrics.get(key.replace(".", "_"))
-            if metric_value is None:
-                # Try with underscores as dots
-                metric_value = metrics.get(key.replace("_", "."))
-
-            if metric_value is None:
-                # Metric not found - can't evaluate
-                continue
-
             limit = rule.get("limit")
             if limit is None:
                 continue
 
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-            tolerance = rule.get("tolerance", 0.0)
-
-            if comparison == "<=":
-                if metric_value > limit:
-                    return "failed"
-            elif comparison == "<":
-                if metric_value >= limit:
-                    return "failed"
-            elif comparison == ">=":
-                if metric_value < limit:
-                    return "failed"
-            elif comparison == ">":
-                if metric_value <= limit:
-                    return "failed"
-            elif comparison == "==":
-                if abs(metric_value - limit) > tolerance:
-                    return "failed"
-            elif comparison == "~=":
-                # Approximate equality with tolerance
-                if abs(metric_value - limit) > tolerance:
-                    return "failed"
-
-        return "passed"
+            metric_value = self._metric_for(metrics, key)
+            if metric_value is None:
+                # Metric not computed - the criterion cannot be decided
+                status = "pending"
+                continue
+
+            if not self._criterion_met(metric_value, rule):
+                return "failed"
+
+        return status
+
+    @staticmethod
+    def _metric_for(metrics: Dict[str, float], key: str) -> Optional[float]:
+        """Look up the metric an acceptance key refers to."""
+        for candidate in (
+            key,
+            key.replace(".", "_"),  # "bbox_x" for "bbox.x"
+            key.replace("_", "."),
+        ):
+            if metrics.get(candidate) is not None:
+                return metrics[candidate]
+        return None
+
+    @staticmethod
+    def _criterion_met(metric_value: float, rule: Dict[str, Any]) -> bool:
+        """Compare a metric with the limit of an acceptance rule."""
+        limit = float(rule["limit"])
+        comparison = rule.get("comparison", "<=")
+
+        if comparison == "<=":
+            return metric_value <= limit
+        if comparison == "<":
+            return metric_value < limit
+        if comparison == ">=":
+            return metric_value >= limit
+        if comparison == ">":
+            return metric_value > limit
+        if comparison in ("==", "~="):
+            return abs(metric_value - limit) <= float(rule.get("tolerance", 0.0))
+        raise ValueError(f"Unknown comparison: {comparison}")
 
     def _get_failed_criteria(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
@@ -624,9 +625,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
         failed = []
 
         for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
+            metric_value = self._metric_for(metrics, key)
             if metric_value is None:
                 continue
 
@@ -634,25 +633,12 @@ class YapCADNativeAdapter(AnalysisAdapter):
             if limit is None:
                 continue
 
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-
-            violated = False
-            if comparison == "<=" and metric_value > limit:
-                violated = True
-            elif comparison == "<" and metric_value >= limit:
-                violated = True
-            elif comparison == ">=" and metric_value < limit:
-                violated = True
-            elif comparison == ">" and metric_value <= limit:
-                violated = True
-
-            if violated:
+            if not self._criterion_met(metric_value, rule):
                 failed.append({
                     "criterion": key,
                     "value": metric_value,
-                    "limit": limit,
-                    "comparison": comparison,
+                    "limit": float(limit),
+                    "comparison": rule.get("comparison", "<="),
                 })
 
         return failed
@@ -664,36 +650,19 @@ class YapCADNativeAdapter(AnalysisAdapter):
         results = {}
 
         for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
+            metric_value = self._metric_for(metrics, key)
 
             limit = rule.get("limit")
-            comparison = rule.get("comparison", "<=")
 
             result = {
                 "value": metric_value,
                 "limit": limit,
-                "comparison": comparison,
+                "comparison": rule.get("comparison", "<="),
                 "passed": None,
             }
 
             if metric_value is not None and limit is not None:
-                limit = float(limit)
-                if comparison == "<=":
-                    result["passed"] = metric_value <= limit
-                elif comparison == "<":
-                    result["passed"] = metric_value < limit
-                elif comparison == ">=":
-                    result["passed"] = metric_value >= limit
-                elif comparison == ">":
-                    result["passed"] = metric_value > limit
-                elif comparison == "==":
-                    tolerance = rule.get("tolerance", 0.0)
-                    result["passed"] = abs(metric_value - limit) <= tolerance
-                elif comparison == "~=":
-                    tolerance = rule.get("tolerance", 0.0)
-                    result["passed"] = abs(metric_value - limit) <= tolerance
+                result["passed"] = self._criterion_met(metric_value, rule)
 
             results[key] = result
 
-- 
2.43.0


From 29dbf10ab4c0f265b94ca15eb10e1c0b04363eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:11 +0000
Subject: [PATCH 159/215] fix: the documented bbox.x acceptance metric was
 never computed

---
 src/yapcad/package/analysis/yapcad_native.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 5bba8f4..7ad82a8 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -369,11 +369,11 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         # Add axis-specific keys
         if axis == "x" or axis == "all":
-            metrics[f"bbox.x_{units}"] = width
+            metrics["bbox.x"] = metrics[f"bbox.x_{units}"] = width
         if axis == "y" or axis == "all":
-            metrics[f"bbox.y_{units}"] = depth
+            metrics["bbox.y"] = metrics[f"bbox.y_{units}"] = depth
         if axis == "z" or axis == "all":
-            metrics[f"bbox.z_{units}"] = height
+            metrics["bbox.z"] = metrics[f"bbox.z_{units}"] = height
 
         return metrics
 
-- 
2.43.0


From 53ed342325c4c2f530f88bd7ab19cec6200f9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:11 +0000
Subject: [PATCH 160/215] fix: solver backends ignored the documented == and ~=
 acceptance comparisons

---
 src/yapcad/package/analysis/calculix.py | 4 ++++
 src/yapcad/package/analysis/fenics.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index 721ac8a..30b629d 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -306,6 +306,10 @@ class CalculixAdapter(AnalysisAdapter):
                 return "failed"
             if comparison == ">" and not (metric_value > limit):
                 return "failed"
+            if comparison in ("==", "~=") and not (
+                abs(metric_value - limit) <= float(rule.get("tolerance", 0.0))
+            ):
+                return "failed"
         return status
 
 
diff --git a/src/yapcad/package/analysis/fenics.py b/src/yapcad/package/analysis/fenics.py
index 3b1759a..5f1f64c 100644
--- a/src/yapcad/package/analysis/fenics.py
+++ b/src/yapcad/package/analysis/fenics.py
@@ -773,6 +773,10 @@ class FenicsxAdapter(AnalysisAdapter):
                 return "failed"
             elif comparison == ">" and metric_value <= limit:
                 return "failed"
+            elif comparison in ("==", "~=") and (
+                abs(metric_value - limit) > float(rule.get("tolerance", 0.0))
+            ):
+                return "failed"
 
         return "passed"
 
-- 
2.43.0


From 5f2fa2c4a1702b942b2df9af0b253b255d3294a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 161/215] fix: analyze_package overwrote the acceptance results
 of the native backend with a summary that is no valid result

---
 src/yapcad/package/analysis/cli.py           | 1 +
 src/yapcad/package/analysis/yapcad_native.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index 1dacd8c..b24e493 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -107,6 +107,7 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
         "timestamp": result.timestamp,
     }
     summary_payload.setdefault("plan", plan.plan_id)
+    summary_payload.setdefault("plan_id", plan.plan_id)
     summary_payload.setdefault("status", result.status)
     summary_payload.setdefault("backend", result.backend)
     summary_payload.setdefault("timestamp", result.timestamp)
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 7ad82a8..78b9a0d 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -106,6 +106,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
             # Evaluate acceptance criteria
             status = self._evaluate_acceptance(metrics, plan.acceptance)
             summary["metrics"] = metrics
+            summary["acceptance_results"] = self._build_acceptance_results(metrics, plan.acceptance)
 
             if status == "passed":
                 summary["statusDetail"] = "Acceptance criteria satisfied"
@@ -133,7 +134,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
                 "timestamp": summary["timestamp"],
                 "backend": "yapcad",
                 "metrics": metrics,
-                "acceptance_results": self._build_acceptance_results(metrics, plan.acceptance),
+                "acceptance_results": summary["acceptance_results"],
             }, f, indent=2)
         artifacts.append({"kind": "summary", "path": "summary.json"})
 
-- 
2.43.0


From 29d7646b59bd8c900dd6dd3170d97f39d3d9dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 162/215] fix: a plan id with .. wrote its results outside the
 package

---
 src/yapcad/package/analysis/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index b24e493..205fefd 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -58,7 +58,10 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
     plan = load_plan(plan_path)
     _ensure_plan_entry(manifest, plan, plan_path)
 
-    results_dir = root / "validation" / "results" / plan.plan_id
+    results_root = root / "validation" / "results"
+    results_dir = results_root / plan.plan_id
+    if results_root.resolve() not in results_dir.resolve().parents:
+        raise ValueError(f"plan id {plan.plan_id!r} does not name a results directory")
     results_dir.mkdir(parents=True, exist_ok=True)
 
     adapter_cls = get_backend(plan.backend)
-- 
2.43.0


From 0b41b7e9986fa700fec95349d566aed5d003f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 163/215] fix: load_plan raised TypeError for a plan with an
 empty section

---
 src/yapcad/package/analysis/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/package/analysis/base.py b/src/yapcad/package/analysis/base.py
index 29354ac..1abbdcf 100644
--- a/src/yapcad/package/analysis/base.py
+++ b/src/yapcad/package/analysis/base.py
@@ -125,9 +125,9 @@ def _parse_execution_config(raw: Dict[str, Any]) -> ExecutionConfig:
         transport=raw.get("transport"),
         host=raw.get("host"),
         workdir=raw.get("workdir"),
-        env=dict(raw.get("env", {})),
-        options=dict(raw.get("options", {})),
-        license=dict(raw.get("license", {})),
+        env=dict(raw.get("env") or {}),
+        options=dict(raw.get("options") or {}),
+        license=dict(raw.get("license") or {}),
     )
     return exec_cfg
 
@@ -184,12 +184,12 @@ def load_plan(path: Path | str) -> AnalysisPlan:
         backend=str(data["backend"]),
         name=data.get("name"),
         description=data.get("description"),
-        geometry=dict(data.get("geometry", {})),
-        materials=dict(data.get("materials", {})),
+        geometry=dict(data.get("geometry") or {}),
+        materials=dict(data.get("materials") or {}),
         loads=list(loads),
         boundary_conditions=list(boundary_conditions or []),
-        acceptance=dict(data.get("acceptance", {})),
-        backend_options=dict(data.get("backendOptions", {})),
+        acceptance=dict(data.get("acceptance") or {}),
+        backend_options=dict(data.get("backendOptions") or {}),
         execution=execution,
         attachments=list(data.get("attachments", []) or []),
         metadata=metadata,
-- 
2.43.0


From c0b93d40f4fbd14d89aa79ed6d3d1212e9f444df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 164/215] fix: FaceNamer could not be constructed: it imported
 geometry functions that do not exist

---
 src/yapcad/package/analysis/face_naming.py | 53 +++++++++++++++-------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/yapcad/package/analysis/face_naming.py b/src/yapcad/package/analysis/face_naming.py
index d0f14e7..eb8968e 100644
--- a/src/yapcad/package/analysis/face_naming.py
+++ b/src/yapcad/package/analysis/face_naming.py
@@ -216,12 +216,12 @@ class FaceNamer:
 
     def _extract_faces(self) -> None:
         """Extract face information from solid."""
-        from yapcad.geom3d import issolid, getsurfaces
+        from yapcad.geom3d import issolid
 
         if not issolid(self.solid):
             return
 
-        surfaces = getsurfaces(self.solid)
+        surfaces = self.solid[1]
 
         for i, surf in enumerate(surfaces):
             centroid = self._compute_centroid(surf)
@@ -235,31 +235,50 @@ class FaceNamer:
                 area=area,
             ))
 
+    @staticmethod
+    def _area_vectors(surface: Any):
+        """Yield (centroid, area vector) for each triangle of a surface."""
+        vertices = surface[1]
+        for face in surface[3]:
+            a, b, c = (vertices[i] for i in face[:3])
+            u = [b[k] - a[k] for k in range(3)]
+            v = [c[k] - a[k] for k in range(3)]
+            yield (
+                [(a[k] + b[k] + c[k]) / 3.0 for k in range(3)],
+                [
+                    (u[1] * v[2] - u[2] * v[1]) / 2.0,
+                    (u[2] * v[0] - u[0] * v[2]) / 2.0,
+                    (u[0] * v[1] - u[1] * v[0]) / 2.0,
+                ],
+            )
+
     def _compute_centroid(self, surface: Any) -> Tuple[float, float, float]:
         """Compute face centroid."""
-        from yapcad.geom3d import surface_center
-        try:
-            center = surface_center(surface)
-            return (float(center[0]), float(center[1]), float(center[2]))
-        except Exception:
+        total = 0.0
+        center = [0.0, 0.0, 0.0]
+        for centroid, vec in self._area_vectors(surface):
+            area = math.sqrt(sum(x * x for x in vec))
+            total += area
+            for k in range(3):
+                center[k] += area * centroid[k]
+        if total <= 0.0:
             return (0.0, 0.0, 0.0)
+        return (center[0] / total, center[1] / total, center[2] / total)
 
     def _compute_normal(self, surface: Any) -> Tuple[float, float, float]:
         """Compute face normal (average for curved faces)."""
-        from yapcad.geom3d import surface_normal
-        try:
-            normal = surface_normal(surface)
-            return (float(normal[0]), float(normal[1]), float(normal[2]))
-        except Exception:
+        normal = [0.0, 0.0, 0.0]
+        for _, vec in self._area_vectors(surface):
+            for k in range(3):
+                normal[k] += vec[k]
+        mag = math.sqrt(sum(x * x for x in normal))
+        if mag < 1e-12:
             return (0.0, 0.0, 1.0)
+        return (normal[0] / mag, normal[1] / mag, normal[2] / mag)
 
     def _compute_area(self, surface: Any) -> float:
         """Compute face area."""
-        from yapcad.geom3d import surface_area
-        try:
-            return float(surface_area(surface))
-        except Exception:
-            return 0.0
+        return sum(math.sqrt(sum(x * x for x in vec)) for _, vec in self._area_vectors(surface))
 
     @property
     def faces(self) -> List[FaceInfo]:
-- 
2.43.0


From a7b0787277f88ca1bd0974835c125f5ea719791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 165/215] fix: schema validation raised TypeError for malformed
 documents (a list as kind, status or type, a number as key)

---
 src/yapcad/package/analysis/schema.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/package/analysis/schema.py b/src/yapcad/package/analysis/schema.py
index 677541d..1a31ed0 100644
--- a/src/yapcad/package/analysis/schema.py
+++ b/src/yapcad/package/analysis/schema.py
@@ -219,7 +219,7 @@ def validate_acceptance_criterion(
     # Check comparison operator
     if "comparison" in criterion:
         comparison = criterion["comparison"]
-        valid_ops = {op.value for op in ComparisonOp}
+        valid_ops = [op.value for op in ComparisonOp]
         if comparison not in valid_ops:
             errors.append(SchemaError(
                 path=f"{path}.comparison",
@@ -288,7 +288,7 @@ def validate_load(
         valid = False
     else:
         load_type = load["type"]
-        if load_type not in VALID_LOAD_TYPES:
+        if load_type not in sorted(VALID_LOAD_TYPES):
             errors.append(SchemaError(
                 path=f"{load_path}.type",
                 message=f"Invalid load type '{load_type}', expected one of: {', '.join(sorted(VALID_LOAD_TYPES))}",
@@ -334,7 +334,7 @@ def validate_boundary_condition(
         valid = False
     else:
         bc_type = bc["type"]
-        if bc_type not in VALID_BC_TYPES:
+        if bc_type not in sorted(VALID_BC_TYPES):
             errors.append(SchemaError(
                 path=f"{bc_path}.type",
                 message=f"Invalid BC type '{bc_type}', expected one of: {', '.join(sorted(VALID_BC_TYPES))}",
@@ -424,7 +424,7 @@ def validate_check_section(
     else:
         prop = check["property"]
         valid_props = VALID_CHECK_PROPERTIES.get(kind, set())
-        if prop not in valid_props:
+        if prop not in sorted(valid_props):
             errors.append(SchemaError(
                 path=f"{path}.property",
                 message=f"Invalid property '{prop}' for kind '{kind}', expected one of: {', '.join(sorted(valid_props))}",
@@ -455,7 +455,7 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
 
     # Validate kind
     kind = data["kind"]
-    valid_kinds = {k.value for k in ValidationKind}
+    valid_kinds = [k.value for k in ValidationKind]
     if kind not in valid_kinds:
         errors.append(SchemaError(
             path="kind",
@@ -564,7 +564,7 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
 
     unknown = set(data.keys()) - known_fields
     # Don't warn about metadata subfields or common extras
-    for unk in sorted(unknown):
+    for unk in sorted(map(str, unknown)):
         warnings.append(SchemaError(
             path=unk,
             message=f"Unknown field '{unk}' (may be ignored)",
@@ -598,7 +598,7 @@ def validate_result(data: Dict[str, Any]) -> ValidationReport:
 
     # Validate status
     status = data["status"]
-    valid_statuses = {s.value for s in ResultStatus}
+    valid_statuses = [s.value for s in ResultStatus]
     if status not in valid_statuses:
         errors.append(SchemaError(
             path="status",
@@ -678,7 +678,7 @@ def validate_result(data: Dict[str, Any]) -> ValidationReport:
     # Check for unknown fields
     known_fields = RESULT_REQUIRED_FIELDS | RESULT_OPTIONAL_FIELDS
     unknown = set(data.keys()) - known_fields
-    for unk in sorted(unknown):
+    for unk in sorted(map(str, unknown)):
         warnings.append(SchemaError(
             path=unk,
             message=f"Unknown field '{unk}' (may be ignored)",
-- 
2.43.0


From 1002d4272079601166e72f608e403a61990c1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 166/215] fix: a load case direction that is no unit vector
 scaled the applied force

---
 src/yapcad/package/analysis/mechatron_fea_setup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/analysis/mechatron_fea_setup.py b/src/yapcad/package/analysis/mechatron_fea_setup.py
index c07c816..8d34ce9 100644
--- a/src/yapcad/package/analysis/mechatron_fea_setup.py
+++ b/src/yapcad/package/analysis/mechatron_fea_setup.py
@@ -749,14 +749,15 @@ def resolve_load_attach(load_case: Dict[str, Any]) -> LoadAttachResolved:
     """
     attach = load_case.get("attach", {})
     pos = attach.get("position", [0.0, 0.0, 0.0])
-    direction = load_case.get("direction", [1.0, 0.0, 0.0])
+    direction = [float(x) for x in load_case.get("direction", [1.0, 0.0, 0.0])]
+    length = math.sqrt(sum(x * x for x in direction)) or 1.0
 
     return LoadAttachResolved(
         load_case_id=load_case["id"],
         part=attach.get("part", "_assembly"),
         interface_id=attach.get("interface"),
         position_mm=(float(pos[0]), float(pos[1]), float(pos[2])),
-        direction_unit=(float(direction[0]), float(direction[1]), float(direction[2])),
+        direction_unit=(direction[0] / length, direction[1] / length, direction[2] / length),
         magnitude_n=float(load_case.get("magnitude_n") or 0.0),
         coordinate_frame=load_case.get("coordinate_frame", "vehicle"),
         bolt_index=attach.get("bolt_index"),
-- 
2.43.0


From dfa9f1c22a0270bf0b1eb6ed2a2ca35050ee94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:37 +0000
Subject: [PATCH 167/215] fix: B-spline surfaces reach their last control
 points: at the end of a clamped knot vector every basis function was zero, so
 the surface jumped to its first control point and the normal to +z

---
 src/yapcad/analytic_surfaces.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index c56a145..2305197 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -809,8 +809,9 @@ def _bspline_basis(knots, i, p, u):
         # Base case: piecewise constant
         if knots[i] <= u < knots[i + 1]:
             return 1.0
-        # Handle end of knot span
-        if i + 1 == len(knots) - 1 and u == knots[i + 1]:
+        # The last non-empty span includes its end, so that the surface is
+        # defined up to the end of its knot vector
+        if knots[i] < knots[i + 1] == u == knots[-1]:
             return 1.0
         return 0.0
 
@@ -899,9 +900,14 @@ def bspline_surface_normal(surf, u, v, delta=1e-6):
     dv = min(delta, (v_range[1] - v_range[0]) * 0.01)
 
     # Sample points for partial derivatives
+    # (backwards at the far end of the parameter range)
+    if u + du > u_range[1]:
+        du = -du
+    if v + dv > v_range[1]:
+        dv = -dv
     p0 = evaluate_bspline_surface(surf, u, v)
-    pu = evaluate_bspline_surface(surf, min(u + du, u_range[1]), v)
-    pv = evaluate_bspline_surface(surf, u, min(v + dv, v_range[1]))
+    pu = evaluate_bspline_surface(surf, u + du, v)
+    pv = evaluate_bspline_surface(surf, u, v + dv)
 
     # Tangent vectors
     tu = [(pu[i] - p0[i]) / du for i in range(3)]
-- 
2.43.0


From e87108134d523dc6f7039e544618426eb9905d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 168/215] fix: cone_surface_normal points outward, as
 documented and as the tessellation is wound: it pointed into the cone

---
 src/yapcad/analytic_surfaces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index 2305197..abfea21 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -511,12 +511,12 @@ def cone_surface_normal(surf, u, v):
     sin_a = sin(half_angle)
     cos_a = cos(half_angle)
 
-    # Normal = sin_a*axis - cos_a*(ref*cos(u) + cross*sin(u))
+    # Normal = cos_a*(ref*cos(u) + cross*sin(u)) - sin_a*axis
     # (outward normal for cone surface)
     return [
-        sin_a * axis[0] - cos_a * (ref[0] * cos_u + cross[0] * sin_u),
-        sin_a * axis[1] - cos_a * (ref[1] * cos_u + cross[1] * sin_u),
-        sin_a * axis[2] - cos_a * (ref[2] * cos_u + cross[2] * sin_u),
+        cos_a * (ref[0] * cos_u + cross[0] * sin_u) - sin_a * axis[0],
+        cos_a * (ref[1] * cos_u + cross[1] * sin_u) - sin_a * axis[1],
+        cos_a * (ref[2] * cos_u + cross[2] * sin_u) - sin_a * axis[2],
         0.0
     ]
 
-- 
2.43.0


From f254e56b8cf63faa703aadfdd0758f45aa04dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 169/215] fix: arc edges join their vertices: the centre of a
 bulge arc was misplaced so that the arc missed both ends, and clockwise arcs
 ran counter-clockwise

---
 src/yapcad/native_brep.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index e8a8a2d..2c36c5a 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -247,6 +247,15 @@ def edge_vertices(e):
     return (e[2].get('start_vertex_id'), e[2].get('end_vertex_id'))
 
 
+def _oriented_arc(center, radius, start_angle, end_angle, orientation):
+    """Arc from start_angle to end_angle, CCW if orientation > 0 else CW."""
+    if orientation > 0:
+        return arc(center, radius, start_angle, end_angle)
+    # yapCAD arcs run CCW: a clockwise arc is the CCW one from its end to
+    # its start, sampled backwards
+    return arc(center, radius, end_angle, start_angle, samplereverse=True)
+
+
 def evaluate_edge_curve(edge, start_point, end_point):
     """Construct a yapCAD curve from edge definition and vertex positions.
 
@@ -281,7 +290,7 @@ def evaluate_edge_curve(edge, start_point, end_point):
                 return line(start_point, end_point)
 
             # Bulge = tan(theta/4) where theta is the included angle
-            # Positive bulge = arc bulges to the left (CCW)
+            # Positive bulge = counter-clockwise from start to end
             mid = _midpoint(start_point, end_point)
             chord_len = _point_distance(start_point, end_point)
 
@@ -292,25 +301,24 @@ def evaluate_edge_curve(edge, start_point, end_point):
             if perp_len < epsilon:
                 return line(start_point, end_point)
 
+            # Left of the chord: the side of the center of a CCW arc
             perp = point(-dy/perp_len, dx/perp_len, 0)
 
-            # Arc midpoint offset from chord midpoint
-            arc_height = bulge * chord_len / 2
-            arc_mid = add(mid, scale3(perp, arc_height))
+            # Arc height (sagitta) over the chord
+            h = abs(bulge) * chord_len / 2
+            if h < epsilon:
+                return line(start_point, end_point)
 
             # Compute center and radius
             # Using the relationship: radius = (chord^2/4 + height^2) / (2*height)
-            h = abs(arc_height)
-            if h < epsilon:
-                return line(start_point, end_point)
             radius = (chord_len*chord_len/4 + h*h) / (2*h)
 
-            # Center is offset from arc midpoint
+            # Center is offset from the chord midpoint, away from the arc
             center_offset = radius - h
             if bulge > 0:
-                center = sub(arc_mid, scale3(perp, center_offset))
+                center = add(mid, scale3(perp, center_offset))
             else:
-                center = add(arc_mid, scale3(perp, center_offset))
+                center = sub(mid, scale3(perp, center_offset))
 
             # Compute start/end angles
             start_angle = atan2(start_point[1] - center[1],
@@ -318,8 +326,8 @@ def evaluate_edge_curve(edge, start_point, end_point):
             end_angle = atan2(end_point[1] - center[1],
                              end_point[0] - center[0]) * 180 / pi
 
-            orientation = 1 if bulge > 0 else -1
-            return arc(center, [radius, start_angle, end_angle, orientation])
+            return _oriented_arc(center, radius, start_angle, end_angle,
+                                 1 if bulge > 0 else -1)
 
         elif 'center' in params:
             # Arc defined by center point
@@ -332,7 +340,8 @@ def evaluate_edge_curve(edge, start_point, end_point):
             end_angle = atan2(end_point[1] - center[1],
                              end_point[0] - center[0]) * 180 / pi
 
-            return arc(center, [radius, start_angle, end_angle, orientation])
+            return _oriented_arc(center, radius, start_angle, end_angle,
+                                 orientation)
 
         else:
             # Default to line if no arc params
-- 
2.43.0


From 4f9aa1ca226261b6bdb16422a076dfeae2fde61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 170/215] fix: transforming a native BREP moves circle and
 B-spline edges in TopologyGraph.transform too, marks its octrees stale, and
 keeps the direction of arcs and circles under reflections and half turns

---
 src/yapcad/native_brep.py | 44 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 2c36c5a..daab616 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -506,13 +506,12 @@ def transform_edge_params(edge, transform_point_func):
     curve_type = edge[1]
     params = edge[2].get('curve_params', {})
 
-    if curve_type == 'arc' and 'center' in params:
+    if curve_type in ('arc', 'ellipse', 'circle') and 'center' in params:
         params['center'] = transform_point_func(params['center'])
+        if curve_type == 'circle' and 'axis' in params:
+            params['axis'] = _transform_vector(params['axis'], transform_point_func)
 
-    elif curve_type == 'ellipse' and 'center' in params:
-        params['center'] = transform_point_func(params['center'])
-
-    elif curve_type == 'nurbs' and 'control_points' in params:
+    elif curve_type in ('nurbs', 'bspline') and 'control_points' in params:
         params['control_points'] = [
             transform_point_func(pt) for pt in params['control_points']
         ]
@@ -1137,6 +1136,10 @@ class TopologyGraph:
         # Transform internal edge geometry
         for edge in self.edges.values():
             transform_edge_params(edge, transform_point_func)
+            _reorient_edge(edge, transform_point_func)
+
+        for shell in self.shells.values():
+            shell[2]['_octree_dirty'] = True
 
     def summary(self):
         """Return a summary of the topology graph contents."""
@@ -2458,6 +2461,36 @@ def _transform_vector(v, transform_fn):
     return result
 
 
+def _is_reflection(transform_fn):
+    """Return True if the transformation reverses handedness."""
+    o, x, y, z = (transform_fn(point(*p)) for p in
+                  ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)))
+    a, b, c = ([p[i] - o[i] for i in range(3)] for p in (x, y, z))
+    return (a[0] * (b[1] * c[2] - b[2] * c[1])
+            - a[1] * (b[0] * c[2] - b[2] * c[0])
+            + a[2] * (b[0] * c[1] - b[1] * c[0])) < 0
+
+
+def _reorient_edge(edge, transform_fn):
+    """Keep the direction in which a curved edge runs under a transformation.
+
+    Arcs lie parallel to the XY plane and turn the other way when that plane
+    is turned over; circles turn the other way about their axis when the
+    transformation is a reflection.
+    """
+    params = edge[2].get('curve_params', {})
+    if edge[1] == 'arc':
+        o, x, y = (transform_fn(point(*p)) for p in
+                   ((0, 0, 0), (1, 0, 0), (0, 1, 0)))
+        if ((x[0] - o[0]) * (y[1] - o[1]) - (x[1] - o[1]) * (y[0] - o[0])) < 0:
+            if 'bulge' in params:
+                params['bulge'] = -params['bulge']
+            else:
+                params['orientation'] = -params.get('orientation', 1)
+    elif edge[1] == 'circle' and params.get('axis') and _is_reflection(transform_fn):
+        params['axis'] = [-c for c in params['axis'][:3]] + [0.0]
+
+
 def transform_topology_graph(graph, transform_fn):
     """Apply a transformation to all geometry in a TopologyGraph.
 
@@ -2494,6 +2527,7 @@ def transform_topology_graph(graph, transform_fn):
                 cpts = params['control_points']
                 if isinstance(cpts[0], (list, tuple)) and len(cpts[0]) >= 3:
                     params['control_points'] = [_transform_point(p, transform_fn) for p in cpts]
+        _reorient_edge(edge, transform_fn)
 
     # Transform face surfaces
     for fid, face in graph.faces.items():
-- 
2.43.0


From 76dc073eaeb27616e421b7872b721e40ea3d1a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 171/215] fix: moving a solid moves the faces of its native
 BREP with it: rotations and mirrors lost the in-plane axes of planes and the
 reference direction of cylinders, cones and tori (also on every round trip
 through the metadata), scaling kept the extents of planes, cylinders and
 cones and the radii of edges, and mirrored meshes were inside out

---
 src/yapcad/native_brep.py | 85 ++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 24 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index daab616..3a9e14b 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2059,7 +2059,7 @@ def _serialize_surface_metadata(meta):
         return {}
     result = {}
     for key, value in meta.items():
-        if key in ('normal', 'axis', 'u_axis', 'v_axis'):
+        if key in ('normal', 'axis', 'u_axis', 'v_axis', 'ref_direction'):
             result[key] = list(value) if value else None
         elif key == 'u_range' or key == 'v_range':
             result[key] = list(value) if value else None
@@ -2075,6 +2075,14 @@ def _serialize_surface_metadata(meta):
     return result
 
 
+def _restore_directions(surface, meta):
+    """Restore the directions from which a surface's parameters count."""
+    for key in ('u_axis', 'v_axis', 'ref_direction'):
+        if key in surface[2] and meta.get(key):
+            surface[2][key] = list(meta[key])
+    return surface
+
+
 def _deserialize_surface(data):
     """Reconstruct an analytic surface from serialized data."""
     from yapcad.analytic_surfaces import (
@@ -2094,9 +2102,10 @@ def _deserialize_surface(data):
     if surf_type == 'plane_surface':
         origin = _deserialize_point(data['origin'])
         normal = meta.get('normal', [0, 0, 1, 0])
-        return plane_surface(origin, normal,
-                            u_range=tuple(meta.get('u_range', (-1, 1))),
-                            v_range=tuple(meta.get('v_range', (-1, 1))))
+        return _restore_directions(
+            plane_surface(origin, normal,
+                          u_range=tuple(meta.get('u_range', (-1, 1))),
+                          v_range=tuple(meta.get('v_range', (-1, 1)))), meta)
 
     elif surf_type == 'sphere_surface':
         center = _deserialize_point(data['center'])
@@ -2109,26 +2118,29 @@ def _deserialize_surface(data):
         origin = _deserialize_point(data['origin'])
         axis = meta.get('axis', [0, 0, 1, 0])
         radius = meta.get('radius', 1.0)
-        return cylinder_surface(origin, axis, radius,
-                               u_range=tuple(meta.get('u_range', (0, 2*pi))),
-                               v_range=tuple(meta.get('v_range', (0, 1))))
+        return _restore_directions(
+            cylinder_surface(origin, axis, radius,
+                             u_range=tuple(meta.get('u_range', (0, 2*pi))),
+                             v_range=tuple(meta.get('v_range', (0, 1)))), meta)
 
     elif surf_type == 'cone_surface':
         apex = _deserialize_point(data['apex'])
         axis = meta.get('axis', [0, 0, 1, 0])
         half_angle = meta.get('half_angle', pi/4)
-        return cone_surface(apex, axis, half_angle,
-                           u_range=tuple(meta.get('u_range', (0, 2*pi))),
-                           v_range=tuple(meta.get('v_range', (0, 1))))
+        return _restore_directions(
+            cone_surface(apex, axis, half_angle,
+                         u_range=tuple(meta.get('u_range', (0, 2*pi))),
+                         v_range=tuple(meta.get('v_range', (0, 1)))), meta)
 
     elif surf_type == 'torus_surface':
         center = _deserialize_point(data['center'])
         axis = meta.get('axis', [0, 0, 1, 0])
         major_radius = meta.get('major_radius', 2.0)
         minor_radius = meta.get('minor_radius', 0.5)
-        return torus_surface(center, axis, major_radius, minor_radius,
-                            u_range=tuple(meta.get('u_range', (0, 2*pi))),
-                            v_range=tuple(meta.get('v_range', (0, 2*pi))))
+        return _restore_directions(
+            torus_surface(center, axis, major_radius, minor_radius,
+                          u_range=tuple(meta.get('u_range', (0, 2*pi))),
+                          v_range=tuple(meta.get('v_range', (0, 2*pi)))), meta)
 
     elif surf_type == 'bspline_surface':
         control_points = [[_deserialize_point(p) for p in row]
@@ -2534,16 +2546,26 @@ def transform_topology_graph(graph, transform_fn):
         surface = face[1]
         if surface is not None and isinstance(surface, list) and len(surface) >= 3:
             _transform_surface_inplace(surface, transform_fn)
+            if surface[0] == 'bspline_surface' and _is_reflection(transform_fn):
+                # its normal follows from its control points
+                face[2]['sense'] = not face[2].get('sense', True)
 
     # Invalidate all shell octrees
     for sid, shell in graph.shells.items():
         shell[2]['_octree_dirty'] = True
 
 
+def _negate_range(meta, key):
+    if key in meta:
+        low, high = meta[key]
+        meta[key] = (-high, -low)
+
+
 def _transform_surface_inplace(surface, transform_fn):
     """Transform a surface's parameters in-place."""
     surf_type = surface[0]
     meta = surface[2] if len(surface) > 2 else {}
+    reflected = _is_reflection(transform_fn)
 
     if surf_type == 'plane_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
@@ -2553,24 +2575,23 @@ def _transform_surface_inplace(surface, transform_fn):
             meta['u_axis'] = _transform_vector(meta['u_axis'], transform_fn)
         if 'v_axis' in meta:
             meta['v_axis'] = _transform_vector(meta['v_axis'], transform_fn)
+            if reflected:
+                # keep u, v and the normal right-handed
+                meta['v_axis'] = [-c for c in meta['v_axis'][:3]] + [0.0]
+                _negate_range(meta, 'v_range')
 
     elif surf_type == 'sphere_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
 
-    elif surf_type == 'cylinder_surface':
-        surface[1] = _transform_point(surface[1], transform_fn)
-        if 'axis' in meta:
-            meta['axis'] = _transform_vector(meta['axis'], transform_fn)
-
-    elif surf_type == 'cone_surface':
-        surface[1] = _transform_point(surface[1], transform_fn)
-        if 'axis' in meta:
-            meta['axis'] = _transform_vector(meta['axis'], transform_fn)
-
-    elif surf_type == 'torus_surface':
+    elif surf_type in ('cylinder_surface', 'cone_surface', 'torus_surface'):
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
+        if reflected:
+            # u turns about the axis: the other way round in the mirror
+            _negate_range(meta, 'u_range')
 
     elif surf_type == 'bspline_surface':
         # Control points are nested list
@@ -2586,6 +2607,8 @@ def _transform_surface_inplace(surface, transform_fn):
             data['vertices'] = [_transform_point(v, transform_fn) for v in data['vertices']]
         if 'normals' in data:
             data['normals'] = [_transform_vector(n, transform_fn) for n in data['normals']]
+        if reflected and 'faces' in data:
+            data['faces'] = [[f[0], f[2], f[1]] for f in data['faces']]
 
 
 def translate_native_brep(yapcad_solid, delta):
@@ -2705,5 +2728,19 @@ def scale_native_brep(yapcad_solid, factor, center=None):
                 meta['major_radius'] = meta['major_radius'] * f
             if 'minor_radius' in meta:
                 meta['minor_radius'] = meta['minor_radius'] * f
+            # Lengths along the surface
+            ranges = {'plane_surface': ('u_range', 'v_range'),
+                      'cylinder_surface': ('v_range',),
+                      'cone_surface': ('v_range',)}.get(surface[0], ())
+            for key in ranges:
+                if key in meta:
+                    meta[key] = tuple(c * f for c in meta[key])
+
+    # ... and in edges
+    for edge in graph.edges.values():
+        params = edge[2].get('curve_params', {})
+        for key in ('radius', 'semi_major', 'semi_minor'):
+            if key in params:
+                params[key] = params[key] * f
 
     attach_native_brep_to_solid(yapcad_solid, graph)
-- 
2.43.0


From 3f395a687a919fa94aa51839857e0adee6ff756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 172/215] fix: a native BREP survives its round trip through
 the metadata: edge sense and tolerance, void shells and the adjacency of
 vertices, edges and faces were lost

---
 src/yapcad/native_brep.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 3a9e14b..fd0559c 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1844,6 +1844,8 @@ def _serialize_edge(e):
         'id': meta.get('id'),
         'start_vertex': meta.get('start_vertex_id'),  # Note: key is start_vertex_id in metadata
         'end_vertex': meta.get('end_vertex_id'),      # Note: key is end_vertex_id in metadata
+        'sense': meta.get('sense', True),
+        'tolerance': meta.get('tolerance', epsilon),
         'tags': meta.get('tags', {}),
     }
     # Serialize curve parameters
@@ -1903,10 +1905,13 @@ def _deserialize_edge(data, vertex_map=None):
         if curve_params.get('bulge') is not None:
             e = arc_edge(start_v, end_v, bulge=curve_params.get('bulge'),
                          tags=data.get('tags', {}))
-        else:
+        elif curve_params.get('center') is not None:
             e = arc_edge(start_v, end_v, center=curve_params.get('center'),
                          orientation=curve_params.get('orientation', 1),
                          tags=data.get('tags', {}))
+        else:
+            e = brep_edge(curve_type, start_v, end_v,
+                          curve_params=curve_params, tags=data.get('tags', {}))
     elif curve_type == 'circle':
         e = circle_edge(start_v, end_v, curve_params.get('center'),
                         curve_params.get('axis'), curve_params.get('radius'),
@@ -1927,6 +1932,8 @@ def _deserialize_edge(data, vertex_map=None):
 
     # Restore original ID
     e[2]['id'] = data['id']
+    e[2]['sense'] = bool(data.get('sense', True))
+    e[2]['tolerance'] = float(data.get('tolerance', epsilon))
     return e
 
 
@@ -2207,6 +2214,7 @@ def _serialize_shell(s):
         'type': 'brep_shell',
         'face_ids': list(s[1]),
         'id': meta.get('id'),
+        'shell_type': meta.get('shell_type', 'outer'),
         'closed': meta.get('closed'),
         'solid_id': meta.get('solid_id'),
         'tags': meta.get('tags', {}),
@@ -2218,7 +2226,8 @@ def _deserialize_shell(data, face_map=None):
     face_refs = [face_map.get(fid) if face_map else fid
                  for fid in data.get('face_ids', [])]
 
-    s = brep_shell(face_refs, closed=data.get('closed'),
+    s = brep_shell(face_refs, shell_type=data.get('shell_type', 'outer'),
+                   closed=data.get('closed'),
                    tags=data.get('tags', {}))
     s[2]['id'] = data['id']
     if data.get('solid_id'):
@@ -2301,7 +2310,7 @@ def deserialize_topology_graph(data):
     for eid, edata in data.get('edges', {}).items():
         edge = _deserialize_edge(edata, vertex_map=None)  # Use IDs directly
         edge_map[eid] = edge
-        graph.edges[edge[2]['id']] = edge
+        graph.add_edge(edge)
 
     # Deserialize trims (depend on edges)
     trim_map = {}
@@ -2322,7 +2331,7 @@ def deserialize_topology_graph(data):
     for fid, fdata in data.get('faces', {}).items():
         face = _deserialize_face(fdata)
         face_map[fid] = face
-        graph.faces[face[2]['id']] = face
+        graph.add_face(face)
 
     # Deserialize shells (depend on faces)
     shell_map = {}
-- 
2.43.0


From 71afdc889c6364743f94cc12810317c37fdc1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:48 +0000
Subject: [PATCH 173/215] fix: validating native BREP solids: a point on a line
 through vertices of the shell along x (the middle of a sphere) counted as
 outside, a void around the outer shell or beside a bend of it was judged by
 the middle of its box, the box missed parts of the tessellation, and reversed
 faces were tessellated inside out

---
 src/yapcad/native_brep.py | 43 +++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index fd0559c..cff8b2e 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1342,7 +1342,7 @@ class TopologyGraph:
 
             # Tessellate the surface to get vertex positions
             if is_analytic_surface(surface):
-                mesh = tessellate_surface(surface, u_divisions=8, v_divisions=8)
+                mesh = tessellate_surface(surface)
                 if mesh and len(mesh) > 1:
                     verts = mesh[1]
                     for v in verts:
@@ -1397,6 +1397,10 @@ class TopologyGraph:
             verts = mesh[1]
             normals = mesh[2]
             faces = mesh[3]
+            if not face[2].get('sense', True):
+                # The face looks the other way
+                normals = [[-n[0], -n[1], -n[2], 0.0] for n in normals]
+                faces = [[f[0], f[2], f[1]] for f in faces]
 
             # Offset face indices by current vertex count
             offset = len(all_verts)
@@ -1590,22 +1594,29 @@ class TopologyGraph:
                 expanded_bbox[0][2] <= p[2] <= expanded_bbox[1][2]):
             return False
 
-        # Ray casting in +X direction
+        # Ray casting, in a direction that no axis-aligned edge or grid
+        # vertex lies in (a ray through an edge or vertex hits all the
+        # triangles around it)
         extent = max(bbox[1][0] - bbox[0][0],
                      bbox[1][1] - bbox[0][1],
                      bbox[1][2] - bbox[0][2])
         ray_length = extent * 2.0
 
-        direction = vect(1, 0, 0, 0)
-        far_point = point(p[0] + ray_length, p[1], p[2])
+        direction = vect(0.8263412, 0.4437219, 0.3468107, 0)
+        direction = vect(*(c / mag(direction) for c in direction[:3]), 0)
+        far_point = point(p[0] + ray_length * direction[0],
+                          p[1] + ray_length * direction[1],
+                          p[2] + ray_length * direction[2])
 
         # Query octree for triangles along ray
         tree = self.shell_octree(shell_id)
         query_bbox = [
             point(min(p[0], far_point[0]) - tolerance,
-                  p[1] - tolerance, p[2] - tolerance),
+                  min(p[1], far_point[1]) - tolerance,
+                  min(p[2], far_point[2]) - tolerance),
             point(max(p[0], far_point[0]) + tolerance,
-                  p[1] + tolerance, p[2] + tolerance)
+                  max(p[1], far_point[1]) + tolerance,
+                  max(p[2], far_point[2]) + tolerance)
         ]
 
         if tree is None:
@@ -1765,24 +1776,22 @@ class TopologyGraph:
             outer_shell_id = shell_ids[0]
 
             for void_shell_id in shell_ids[1:]:
-                # Get a point on the void shell (center of bbox)
-                bbox = self.shell_bbox(void_shell_id)
-                if bbox is None:
+                # Get a point on the void shell: the shells do not
+                # intersect, so all of the void is on the same side
+                tri = next(self._iter_shell_triangles(void_shell_id), None)
+                if tri is None:
                     continue
 
-                center = point(
-                    (bbox[0][0] + bbox[1][0]) / 2,
-                    (bbox[0][1] + bbox[1][1]) / 2,
-                    (bbox[0][2] + bbox[1][2]) / 2
-                )
+                test_point = point(*[sum(v[i] for v in tri) / 3
+                                      for i in range(3)])
 
-                # Void shell center should be inside outer shell
-                if not self.shell_contains_point(outer_shell_id, center,
+                # Void shell should be inside outer shell
+                if not self.shell_contains_point(outer_shell_id, test_point,
                                                   tolerance):
                     details['containment_violations'].append({
                         'void_shell': void_shell_id,
                         'outer_shell': outer_shell_id,
-                        'test_point': center,
+                        'test_point': test_point,
                     })
                     raise SolidValidationError(
                         f"Void shell {void_shell_id} is not contained "
-- 
2.43.0


From 763354bcda08d166b72175fcb4225126b1e50054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:21 +0000
Subject: [PATCH 174/215] fix: an arc edge without bulge or centre gains no
 orientation when a native BREP is reflected

---
 src/yapcad/native_brep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index cff8b2e..ddd59c0 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2515,7 +2515,7 @@ def _reorient_edge(edge, transform_fn):
         if ((x[0] - o[0]) * (y[1] - o[1]) - (x[1] - o[1]) * (y[0] - o[0])) < 0:
             if 'bulge' in params:
                 params['bulge'] = -params['bulge']
-            else:
+            elif 'center' in params:
                 params['orientation'] = -params.get('orientation', 1)
     elif edge[1] == 'circle' and params.get('axis') and _is_reflection(transform_fn):
         params['axis'] = [-c for c in params['axis'][:3]] + [0.0]
-- 
2.43.0


From 6d1cdd6e2324c69c354a8bd90b331cb29cdc490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:21 +0000
Subject: [PATCH 175/215] fix: testing spheres for intersection skips the
 degenerate triangles at their poles, which raised a ValueError

---
 src/yapcad/native_brep.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index ddd59c0..b50b87b 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -880,6 +880,13 @@ def solid_shells(s):
 # Topology Container
 # -----------------------------------------------------------------------------
 
+def _degenerate(tri):
+    """Return True if the corners of a triangle are (nearly) on one line."""
+    a, b = ([p[i] - tri[0][i] for i in range(3)] for p in tri[1:])
+    c = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
+    return sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]) < epsilon
+
+
 class TopologyGraph:
     """Container for a complete BREP topology graph.
 
@@ -1539,6 +1546,9 @@ class TopologyGraph:
 
         # For each triangle in shell1, query shell2's octree for candidates
         for tri1 in self._iter_shell_triangles(shell_id1):
+            if _degenerate(tri1):
+                continue  # e.g. at the poles of a sphere
+
             # Compute bbox for triangle
             tri_bbox = [
                 point(min(tri1[0][0], tri1[1][0], tri1[2][0]) - tolerance,
@@ -1557,7 +1567,7 @@ class TopologyGraph:
                 else:
                     tri2 = elem
 
-                if triTriIntersect(tri1, tri2):
+                if not _degenerate(tri2) and triTriIntersect(tri1, tri2):
                     return True
 
         return False
-- 
2.43.0


From e07ab0df3088187218c3e2aaf21f87071409222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:38 +0000
Subject: [PATCH 176/215] fix: MIN_DISTANCE measures the distance of bounding
 boxes that are apart along several axes, it took the smallest gap

---
 src/yapcad/assembly/kinematic_integration.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 1be2163..8000eea 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1662,13 +1662,11 @@ class KinematicConstraint:
         dist_y = max(aabb_a[0][1] - aabb_b[1][1], aabb_b[0][1] - aabb_a[1][1])
         dist_z = max(aabb_a[0][2] - aabb_b[1][2], aabb_b[0][2] - aabb_a[1][2])
 
-        # If any distance is positive, boxes are separated
-        # Return the maximum distance (most separated axis)
-        # If all negative, return the minimum (most penetration)
+        # If any distance is positive, the boxes are separated by the length
+        # of the vector of gaps; if none is, return the least penetration
         if dist_x > 0 or dist_y > 0 or dist_z > 0:
-            # Separated - return minimum positive distance
-            positive_dists = [d for d in [dist_x, dist_y, dist_z] if d > 0]
-            return min(positive_dists) if positive_dists else 0.0
+            return math.sqrt(sum(max(d, 0.0) ** 2
+                                 for d in (dist_x, dist_y, dist_z)))
         else:
             # Overlapping - return negative (penetration depth)
             return max(dist_x, dist_y, dist_z)  # Least penetration
-- 
2.43.0


From 4175eb58087b1cb2b004957ef7da070ea60e3799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 177/215] fix: MIN_DISTANCE from a reference point raised a
 TypeError when bounding boxes were given

---
 src/yapcad/assembly/kinematic_integration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 8000eea..f399a83 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1399,7 +1399,8 @@ class KinematicConstraint:
 
         # If bounding boxes are provided, calculate minimum separation
         # (bounding box method takes precedence over face positions for collision detection)
-        if self.bounds_a is not None and self.bounds_b is not None:
+        if (self.bounds_a is not None and self.bounds_b is not None
+                and tf_b is not None):
             # Transform bounding boxes to world coordinates
             actual_distance = self._calculate_bbox_separation(
                 tf_a, self.bounds_a, tf_b, self.bounds_b
-- 
2.43.0


From 42bc4b16fcd3f684edc7b1f8c5d7fd6b5b4513c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 178/215] fix: Z_STACK_CLEARANCE missed collisions of parts
 that are turned over or tilted

---
 src/yapcad/assembly/kinematic_integration.py | 27 +++++---------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index f399a83..ca93326 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1470,27 +1470,12 @@ class KinematicConstraint:
         height_a = self.bounds_a[1][2] - self.bounds_a[0][2]  # max_z - min_z
         height_b = self.bounds_b[1][2] - self.bounds_b[0][2]
 
-        # Get local Z offsets to top/bottom surfaces
-        top_a_local = self.bounds_a[1][2]  # max_z in local coords
-        bottom_a_local = self.bounds_a[0][2]  # min_z in local coords
-        top_b_local = self.bounds_b[1][2]
-        bottom_b_local = self.bounds_b[0][2]
-
-        # Transform local top/bottom points to world Z
-        # For simplified check, assume Z-axis alignment (after rotations)
-        # Get world Z-axis direction for each part
-        local_z_a = self._get_local_axis("z")
-        local_z_b = self._get_local_axis("z")
-        world_z_a = self._transform_vector(tf_a, local_z_a)
-        world_z_b = self._transform_vector(tf_b, local_z_b)
-
-        # Calculate world Z positions of top/bottom faces
-        # For a part with local bounds, world top Z = origin_z + local_max_z (if Z aligned)
-        # If rotated, this is more complex - simplified version uses origin + projected height
-        top_a_world = origin_a[2] + top_a_local * abs(world_z_a[2])
-        bottom_a_world = origin_a[2] + bottom_a_local * abs(world_z_a[2])
-        top_b_world = origin_b[2] + top_b_local * abs(world_z_b[2])
-        bottom_b_world = origin_b[2] + bottom_b_local * abs(world_z_b[2])
+        # World Z positions of the top and bottom of each part, which may be
+        # turned over or tilted
+        aabb_a = self._transform_aabb(tf_a, self.bounds_a)
+        aabb_b = self._transform_aabb(tf_b, self.bounds_b)
+        bottom_a_world, top_a_world = aabb_a[0][2], aabb_a[1][2]
+        bottom_b_world, top_b_world = aabb_b[0][2], aabb_b[1][2]
 
         # Determine overlap in Z
         # Parts overlap if top_a > bottom_b AND top_b > bottom_a
-- 
2.43.0


From ae4ad38b958b1faa78237d7fb3dee859bf1ca042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 179/215] fix: an invalid axis_b or a zero reference axis of a
 kinematic constraint is reported as axis_a is, it raised or gave NaN errors

---
 src/yapcad/assembly/kinematic_integration.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index ca93326..afc4a47 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -936,6 +936,23 @@ class KinematicConstraint:
         self._face_pos_b = face_pos_b
         self._face_warnings = face_warnings
 
+        # The axis on the other side has to be usable as well
+        if self.constraint_type in (KinematicConstraintType.CONCENTRIC,
+                                    KinematicConstraintType.PARALLEL,
+                                    KinematicConstraintType.PERPENDICULAR,
+                                    KinematicConstraintType.BOLT_PATTERN):
+            if tf_b is not None:
+                spec_name, spec = "axis_b", self.axis_b
+            elif self.constraint_type == KinematicConstraintType.BOLT_PATTERN:
+                spec_name, spec = "reference_normal", self.reference_normal
+            else:
+                spec_name, spec = "reference_axis", self.reference_axis
+            if spec is not None and self._get_local_axis(spec) is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid {spec_name} specification: {spec}"
+                )
+
         # Dispatch to appropriate evaluation method
         if self.constraint_type == KinematicConstraintType.COINCIDENT:
             return self._evaluate_coincident(tf_a, tf_b)
-- 
2.43.0


From dfbbe911bba554ec1adfde0a063194e96298a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 180/215] fix: a constraint on a face that does not exist
 measured the origin of the part instead, and could pass

---
 src/yapcad/assembly/kinematic_integration.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index afc4a47..34369f1 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -931,6 +931,21 @@ class KinematicConstraint:
             if error:
                 face_warnings.append(f"face_b: {error}")
 
+        # A face that cannot be located cannot be measured: the part origin is
+        # no substitute. Bounding boxes take precedence for MIN_DISTANCE.
+        if face_warnings and (
+            self.constraint_type in (KinematicConstraintType.COINCIDENT,
+                                     KinematicConstraintType.AT_DISTANCE)
+            or (self.constraint_type == KinematicConstraintType.MIN_DISTANCE
+                and not (self.bounds_a is not None
+                         and self.bounds_b is not None and tf_b is not None))
+        ):
+            return ConstraintEvaluationResult(
+                satisfied=False,
+                error_message="; ".join(face_warnings),
+                details={"face_warnings": face_warnings}
+            )
+
         # Store face positions for use by evaluation methods
         self._face_pos_a = face_pos_a
         self._face_pos_b = face_pos_b
-- 
2.43.0


From 6d3cdc5632b5427ea887040fe7495902a19d17d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 181/215] fix: mesh collision tested points against a random
 1000 triangles of a larger mesh, which made its answer random, and along x,
 which runs through edges of box shaped parts

---
 src/yapcad/assembly/kinematic_integration.py | 52 ++++++++++++++------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 34369f1..7b54353 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -425,7 +425,7 @@ def _points_inside_mesh_simple(points: np.ndarray,
                                 mesh: 'trimesh.Trimesh') -> np.ndarray:
     """Check if points are inside a mesh using face normal voting.
 
-    For each point, cast a ray in the +X direction and count face intersections.
+    For each point, cast a ray and count face intersections.
     If odd number of intersections, point is inside.
 
     This is a simplified version that doesn't require rtree.
@@ -440,24 +440,16 @@ def _points_inside_mesh_simple(points: np.ndarray,
     n_points = len(points)
     inside = np.zeros(n_points, dtype=bool)
 
-    # Get mesh triangles
+    # Every triangle counts: the parity of a subset says nothing
     triangles = mesh.triangles  # Shape (n_faces, 3, 3)
 
-    # For efficiency, only test a subset if there are many faces
-    max_faces = 1000
-    if len(triangles) > max_faces:
-        indices = np.random.choice(len(triangles), max_faces, replace=False)
-        triangles = triangles[indices]
-
-    # Ray direction
-    ray_dir = np.array([1.0, 0.0, 0.0])
+    # Ray direction, askew so that rays do not run through edges of parts that
+    # are aligned with the axes
+    ray_dir = np.array([0.8017, 0.5279, 0.2803])
 
     for i, point in enumerate(points):
-        # Count intersections with triangles
-        intersections = 0
-        for tri in triangles:
-            if _ray_triangle_intersect(point, ray_dir, tri):
-                intersections += 1
+        intersections = int(np.count_nonzero(
+            _ray_triangles_intersect(point, ray_dir, triangles)))
 
         # Odd number means inside
         inside[i] = (intersections % 2) == 1
@@ -465,6 +457,36 @@ def _points_inside_mesh_simple(points: np.ndarray,
     return inside
 
 
+def _ray_triangles_intersect(origin: np.ndarray,
+                             direction: np.ndarray,
+                             triangles: np.ndarray) -> np.ndarray:
+    """Moller-Trumbore test of one ray against an array of triangles.
+
+    Args:
+        origin: Ray origin (3,)
+        direction: Ray direction (3,)
+        triangles: Triangle vertices (N, 3, 3)
+
+    Returns:
+        Boolean array of size N, True if the ray intersects in positive direction
+    """
+    edge1 = triangles[:, 1] - triangles[:, 0]
+    edge2 = triangles[:, 2] - triangles[:, 0]
+
+    pvec = np.cross(direction, edge2)
+    det = np.einsum('ij,ij->i', edge1, pvec)
+    crossing = np.abs(det) >= 1e-10  # Others are parallel to the ray
+    inv_det = 1.0 / np.where(crossing, det, 1.0)
+
+    tvec = origin - triangles[:, 0]
+    u = np.einsum('ij,ij->i', tvec, pvec) * inv_det
+    qvec = np.cross(tvec, edge1)
+    v = (qvec @ direction) * inv_det
+    t = np.einsum('ij,ij->i', edge2, qvec) * inv_det
+
+    return crossing & (u >= 0.0) & (v >= 0.0) & (u + v <= 1.0) & (t > 1e-10)
+
+
 def _ray_triangle_intersect(origin: np.ndarray,
                              direction: np.ndarray,
                              triangle: np.ndarray) -> bool:
-- 
2.43.0


From 8004b04c86ff5df3e33019b6d6d7edf5c84fbfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 182/215] fix: mesh collision missed bodies that cross without
 a vertex inside each other when one had a vertex in the box of the other, and
 coincident bodies

---
 src/yapcad/assembly/kinematic_integration.py | 40 ++++++++++----------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 7b54353..0e4940b 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -367,9 +367,25 @@ def _check_collision_sampling(
     candidates_a = verts_a[in_b_aabb]
     candidates_b = verts_b[in_a_aabb]
 
-    # If no vertices in the overlap region, check for face intersections
-    # at the AABB intersection boundary
-    if len(candidates_a) == 0 and len(candidates_b) == 0:
+    # Check if candidate vertices from A are inside mesh B
+    if len(candidates_a) > 0:
+        inside_b = _points_inside_mesh_simple(candidates_a, mesh_b)
+        if np.any(inside_b):
+            collision_pts = candidates_a[inside_b]
+            contact_points.extend([tuple(p) for p in collision_pts[:10]])
+            # Estimate penetration as distance from point to nearest face center
+            max_penetration = _estimate_penetration(collision_pts, mesh_b)
+
+    # Check if candidate vertices from B are inside mesh A
+    if len(candidates_b) > 0:
+        inside_a = _points_inside_mesh_simple(candidates_b, mesh_a)
+        if np.any(inside_a):
+            collision_pts = candidates_b[inside_a]
+            contact_points.extend([tuple(p) for p in collision_pts[:10]])
+            pen = _estimate_penetration(collision_pts, mesh_a)
+            max_penetration = max(max_penetration, pen)
+
+    if len(contact_points) == 0:
         # AABBs overlap but no vertices penetrate - could still have
         # face-face intersection. Check using triangle-triangle tests
         # For efficiency, just sample the AABB overlap region
@@ -399,24 +415,6 @@ def _check_collision_sampling(
 
         return False, 0.0, []
 
-    # Check if candidate vertices from A are inside mesh B
-    if len(candidates_a) > 0:
-        inside_b = _points_inside_mesh_simple(candidates_a, mesh_b)
-        if np.any(inside_b):
-            collision_pts = candidates_a[inside_b]
-            contact_points.extend([tuple(p) for p in collision_pts[:10]])
-            # Estimate penetration as distance from point to nearest face center
-            max_penetration = _estimate_penetration(collision_pts, mesh_b)
-
-    # Check if candidate vertices from B are inside mesh A
-    if len(candidates_b) > 0:
-        inside_a = _points_inside_mesh_simple(candidates_b, mesh_a)
-        if np.any(inside_a):
-            collision_pts = candidates_b[inside_a]
-            contact_points.extend([tuple(p) for p in collision_pts[:10]])
-            pen = _estimate_penetration(collision_pts, mesh_a)
-            max_penetration = max(max_penetration, pen)
-
     collides = len(contact_points) > 0
     return collides, max_penetration, contact_points[:20]  # Limit contacts
 
-- 
2.43.0


From a9e489d67797d0a5fa35f09bae975369215ddfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:10 +0000
Subject: [PATCH 183/215] fix: mesh collision reported parts that only touch as
 colliding

---
 src/yapcad/assembly/kinematic_integration.py | 24 ++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 0e4940b..7fc2460 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -423,8 +423,8 @@ def _points_inside_mesh_simple(points: np.ndarray,
                                 mesh: 'trimesh.Trimesh') -> np.ndarray:
     """Check if points are inside a mesh using face normal voting.
 
-    For each point, cast a ray and count face intersections.
-    If odd number of intersections, point is inside.
+    For each point, cast rays both ways and count face intersections.
+    If odd numbers of intersections, point is inside.
 
     This is a simplified version that doesn't require rtree.
 
@@ -445,25 +445,31 @@ def _points_inside_mesh_simple(points: np.ndarray,
     # are aligned with the axes
     ray_dir = np.array([0.8017, 0.5279, 0.2803])
 
-    for i, point in enumerate(points):
-        intersections = int(np.count_nonzero(
-            _ray_triangles_intersect(point, ray_dir, triangles)))
+    # Points on the surface, up to the precision of STL files, are not inside:
+    # parts may touch
+    contact = 1e-6 * float(np.max(np.ptp(mesh.bounds, axis=0)))
 
-        # Odd number means inside
-        inside[i] = (intersections % 2) == 1
+    for i, point in enumerate(points):
+        # Odd numbers in both directions mean inside
+        inside[i] = all(
+            np.count_nonzero(_ray_triangles_intersect(
+                point, direction, triangles, contact)) % 2 == 1
+            for direction in (ray_dir, -ray_dir))
 
     return inside
 
 
 def _ray_triangles_intersect(origin: np.ndarray,
                              direction: np.ndarray,
-                             triangles: np.ndarray) -> np.ndarray:
+                             triangles: np.ndarray,
+                             min_distance: float) -> np.ndarray:
     """Moller-Trumbore test of one ray against an array of triangles.
 
     Args:
         origin: Ray origin (3,)
         direction: Ray direction (3,)
         triangles: Triangle vertices (N, 3, 3)
+        min_distance: Distance from which intersections count
 
     Returns:
         Boolean array of size N, True if the ray intersects in positive direction
@@ -482,7 +488,7 @@ def _ray_triangles_intersect(origin: np.ndarray,
     v = (qvec @ direction) * inv_det
     t = np.einsum('ij,ij->i', edge2, qvec) * inv_det
 
-    return crossing & (u >= 0.0) & (v >= 0.0) & (u + v <= 1.0) & (t > 1e-10)
+    return crossing & (u >= 0.0) & (v >= 0.0) & (u + v <= 1.0) & (t > min_distance)
 
 
 def _ray_triangle_intersect(origin: np.ndarray,
-- 
2.43.0


From 703853f1e448eff5e76b013d57d1f959d3859c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:37 +0000
Subject: [PATCH 184/215] fix: a parameter the DSL command does not have was
 ignored, so that a misspelt name ran the command with its default

---
 src/yapcad/dsl/runtime/interpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 6034ca0..6e2e9f4 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -345,6 +345,10 @@ class Interpreter:
     def _wrap_parameters(self, command: Command, parameters: Dict[str, Any]) -> Dict[str, Value]:
         """Wrap raw parameter values as DSL Values."""
         named: Dict[str, Value] = {}
+        known = {param.name for param in command.parameters}
+        for name in parameters:
+            if name not in known:
+                raise RuntimeError(f"Command '{command.name}' has no parameter '{name}'")
         for param in command.parameters:
             if param.name not in parameters:
                 continue
-- 
2.43.0


From 62ce743c9151fc0def96e9a5c9304d9ccd99ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:37 +0000
Subject: [PATCH 185/215] fix: packaging entities that cannot be stored left an
 empty package behind, or damaged the one to be overwritten

---
 src/yapcad/package/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 214871c..7f985a0 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -78,11 +78,10 @@ def _ensure_subdirs(root: Path) -> None:
         (root / sub).mkdir(parents=True, exist_ok=True)
 
 
-def _serialize_geometry(entities: Sequence[list], target: Path, root: Path) -> Dict[str, Any]:
-    doc = geometry_to_json(entities)
+def _serialize_geometry(doc: Dict[str, Any], text: str, target: Path, root: Path) -> Dict[str, Any]:
     target.parent.mkdir(parents=True, exist_ok=True)
     with target.open("w", encoding="utf-8") as fp:
-        json.dump(doc, fp, indent=2, sort_keys=False)
+        fp.write(text)
         fp.write("\n")
     entity_ids = [entry["id"] for entry in doc.get("entities", []) if entry.get("id")]
     return {
@@ -180,6 +179,10 @@ def create_package_from_entities(
     if not entities:
         raise ValueError("no entities supplied for packaging")
 
+    # Entities that cannot be stored leave the target as it was
+    doc = geometry_to_json(entities)
+    text = json.dumps(doc, indent=2, sort_keys=False)
+
     root = Path(target_dir)
     if root.exists():
         if not overwrite and any(root.iterdir()):
@@ -189,7 +192,7 @@ def create_package_from_entities(
 
     _ensure_subdirs(root)
     primary_path = root / "geometry" / "primary.json"
-    geometry_info = _serialize_geometry(entities, primary_path, root)
+    geometry_info = _serialize_geometry(doc, text, primary_path, root)
     geometry_info["hash"] = _compute_hash(primary_path, hash_algorithm)
 
     tags = _collect_tags(entities)
-- 
2.43.0


From b15cf49e1c294d07f443a689fa1561dc6437f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:37 +0000
Subject: [PATCH 186/215] fix: the DSL command line ignores no recursion limit
 when it makes a package, and counts no warnings as errors

---
 src/yapcad/dsl/__main__.py  | 4 +++-
 src/yapcad/dsl/packaging.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/__main__.py b/src/yapcad/dsl/__main__.py
index 49ca3d7..5fca495 100644
--- a/src/yapcad/dsl/__main__.py
+++ b/src/yapcad/dsl/__main__.py
@@ -113,7 +113,8 @@ def cmd_check(args):
         result = check(module)
 
         if result.has_errors:
-            print(f"Type checking failed with {len(result.diagnostics)} error(s):")
+            error_count = sum(1 for d in result.diagnostics if d.severity.value == 'error')
+            print(f"Type checking failed with {error_count} error(s):")
             for diag in result.diagnostics:
                 print(f"  Line {diag.span.start.line}: {diag.message}")
             return 1
@@ -196,6 +197,7 @@ def cmd_run(args):
             version=args.version or "1.0.0",
             description=args.description,
             overwrite=args.force,
+            recursion_limit=getattr(args, 'recursion_limit', None),
         )
 
         if not result.success:
diff --git a/src/yapcad/dsl/packaging.py b/src/yapcad/dsl/packaging.py
index d14d210..f0ddcd4 100644
--- a/src/yapcad/dsl/packaging.py
+++ b/src/yapcad/dsl/packaging.py
@@ -28,6 +28,7 @@ def package_from_dsl(
     units: Optional[str] = None,
     materials: Optional[Dict[str, Dict[str, Any]]] = None,
     overwrite: bool = False,
+    recursion_limit: Optional[int] = None,
 ) -> "PackageResult":
     """Compile DSL source, execute a command, and package the result.
 
@@ -47,6 +48,7 @@ def package_from_dsl(
         units: Unit system (default "mm").
         materials: Optional materials dictionary for the package.
         overwrite: If True, overwrite existing package directory.
+        recursion_limit: Maximum depth of command calls, as for compile_and_run.
 
     Returns:
         PackageResult with success status, manifest, and any error info.
@@ -76,7 +78,9 @@ def package_from_dsl(
     from yapcad.geom3d import issolid, issurface
 
     # Step 1: Compile and execute the DSL
-    exec_result = compile_and_run(source, command_name, parameters)
+    exec_result = compile_and_run(
+        source, command_name, parameters, recursion_limit=recursion_limit
+    )
 
     if not exec_result.success:
         return PackageResult(
-- 
2.43.0


From bd5c2126802b3b92852388c8d785565988939db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:22 +0000
Subject: [PATCH 187/215] fix: the extrusion examples of the DSL reference did
 not parse: solid is a keyword, not a name

---
 src/yapcad/dsl/introspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/introspection.py b/src/yapcad/dsl/introspection.py
index 6539475..9dfa845 100644
--- a/src/yapcad/dsl/introspection.py
+++ b/src/yapcad/dsl/introspection.py
@@ -168,7 +168,7 @@ FUNCTION_EXAMPLES: Dict[str, str] = {
     "difference": 'with_hole: solid = difference(box, cylinder)',
     "translate": 'moved: solid = translate(box, 10.0, 0.0, 0.0)',
     "rotate": 'rotated: solid = rotate(box, 0.0, 0.0, 45.0)',
-    "extrude": 'solid: solid = extrude(rectangle(10.0, 5.0, point(0.0, 0.0)), 3.0, vector(0.0, 0.0, 1.0))',
+    "extrude": 'body: solid = extrude(rectangle(10.0, 5.0, point(0.0, 0.0)), 3.0, vector(0.0, 0.0, 1.0))',
     "involute_gear": 'gear: solid = involute_gear(24, 2.0, 20.0, 10.0)',
     "point": 'p: point = point(1.0, 2.0, 3.0)',
     "vector": 'v: vector = vector(1.0, 0.0, 0.0)',
@@ -492,8 +492,8 @@ emit gear
     "extrusion": """
 # Extrude a 2D shape into a 3D solid
 profile: region2d = rectangle(10.0, 5.0, point(0.0, 0.0))
-solid: solid = extrude(profile, 3.0, vector(0.0, 0.0, 1.0))
-emit solid
+body: solid = extrude(profile, 3.0, vector(0.0, 0.0, 1.0))
+emit body
 """,
 
     "transform_chain": """
-- 
2.43.0


From 6b20f23438d20e68673f0b43f163987dcfd9d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:54 +0000
Subject: [PATCH 188/215] fix: a DXF file asked for with the suffix in capitals
 was written under another name

---
 src/yapcad/ezdxf_exporter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/ezdxf_exporter.py b/src/yapcad/ezdxf_exporter.py
index 6b50168..da94167 100644
--- a/src/yapcad/ezdxf_exporter.py
+++ b/src/yapcad/ezdxf_exporter.py
@@ -85,7 +85,7 @@ def write_dxf(geometry, output_path: str, layer: str = 'PATHS') -> bool:
     # Normalize output path - remove .dxf extension if present
     # (ezdxfDraw.display() adds it automatically)
     path = Path(output_path)
-    if path.suffix.lower() == '.dxf':
+    if path.suffix == '.dxf':
         filename = str(path.with_suffix(''))
     else:
         filename = str(path)
@@ -99,6 +99,8 @@ def write_dxf(geometry, output_path: str, layer: str = 'PATHS') -> bool:
     try:
         drawable.draw(geometry)
         drawable.display()
+        if filename == str(path) and path.suffix.lower() == '.dxf':
+            Path(filename + '.dxf').replace(path)
         return True
     except Exception as e:
         print(f"DXF export error: {e}")
@@ -118,7 +120,7 @@ def write_dxf_multi(geometries: List[Any], output_path: str,
         True if export succeeded, False otherwise.
     """
     path = Path(output_path)
-    if path.suffix.lower() == '.dxf':
+    if path.suffix == '.dxf':
         filename = str(path.with_suffix(''))
     else:
         filename = str(path)
@@ -140,6 +142,8 @@ def write_dxf_multi(geometries: List[Any], output_path: str,
             drawable.layer = layer
             drawable.draw(geom)
         drawable.display()
+        if filename == str(path) and path.suffix.lower() == '.dxf':
+            Path(filename + '.dxf').replace(path)
         return True
     except Exception as e:
         print(f"DXF export error: {e}")
-- 
2.43.0


From 02a7165ad7d639799dbae6ad16853ad81217db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:42 +0000
Subject: [PATCH 189/215] fix: the flanks of a gear whose base circle lies
 within its root circle ended below the root, up to a self-intersecting
 outline

---
 src/yapcad/contrib/figgear.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/contrib/figgear.py b/src/yapcad/contrib/figgear.py
index 1deefb6..9d685e5 100644
--- a/src/yapcad/contrib/figgear.py
+++ b/src/yapcad/contrib/figgear.py
@@ -165,10 +165,13 @@ def make_gear_figure(
     angle_base = angle_thickness + inv_at_pitch * 2.0
     angle_bottom = angle_per_tooth - angle_base
 
+    # The flanks end at the root circle when the base circle lies below it
+    radius_start = max(radius_base, radius_dedendum)
+
     cos_bottom = math.cos(-angle_bottom)
     sin_bottom = math.sin(-angle_bottom)
 
-    inv_segments = max(2, int(math.ceil((radius_addendum - radius_base) / params.involute_step)))
+    inv_segments = max(2, int(math.ceil((radius_addendum - radius_start) / params.involute_step)))
 
     profile: PointList = []
 
@@ -187,7 +190,9 @@ def make_gear_figure(
         yd = xa * sin_bottom + ya * cos_bottom
         base_points = [(xd, yd), (xc, yc), (xb, yb), (xa, ya)]
 
-        if params.bottom_type == "line":
+        if radius_dedendum >= radius_base:
+            pass  # the ends of the flanks are the corners of the root
+        elif params.bottom_type == "line":
             _add_bottom_points_line(profile, base_points)
         else:
             _add_bottom_points_spline(
@@ -200,8 +205,8 @@ def make_gear_figure(
         sin_inv2 = math.sin(t + angle_base)
 
         for segment in range(inv_segments + 1):
-            r = radius_base + (radius_addendum - radius_base) * (segment / inv_segments)
-            r = max(r, radius_base)
+            r = radius_start + (radius_addendum - radius_start) * (segment / inv_segments)
+            r = max(r, radius_start)
             inv_alpha = _inv(math.acos(radius_base / r))
             x = r * math.cos(inv_alpha)
             y = r * math.sin(inv_alpha)
-- 
2.43.0


From bb7bd2801e71419baca4bd8485edf9242e1db08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:42 +0000
Subject: [PATCH 190/215] fix: contours nested more than two deep in a glyph
 were attached to the outermost contour around them

---
 src/yapcad/text3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 38649a4..17503f4 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -580,7 +580,7 @@ def glyph_to_grouped_contours(glyph, x_offset=0.0, scale=1.0):
     for i, pd in enumerate(poly_data):
         cx, cy = pd['centroid']
         # Check if this polygon's centroid is inside any larger polygon
-        for j in range(i):  # Only check larger polygons (already sorted)
+        for j in reversed(range(i)):  # Only larger polygons (sorted), smallest first
             if _point_in_polygon(cx, cy, poly_data[j]['polygon']):
                 pd['parent'] = j
                 break  # Found immediate parent (smallest containing)
-- 
2.43.0


From e19b19bf00208082b7c6ceb70f14e6193912caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:43 +0000
Subject: [PATCH 191/215] fix: text placed on a surface was sunk into it by
 half its depth

---
 src/yapcad/text3d.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 17503f4..df004ac 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -1360,11 +1360,12 @@ def text_on_surface(
     from yapcad.geom3d import solid as make_solid
     text_rotated = make_solid(rotated_surfaces, [], text_centered[3] if len(text_centered) > 3 else None)
 
-    # Translate to surface center, with margin offset along normal
+    # Translate to surface center: the back of the text is margin above it
+    lift = margin + (bbox[1][2] - bbox[0][2]) / 2.0
     offset = point(
-        surface_center[0] + n[0] * margin,
-        surface_center[1] + n[1] * margin,
-        surface_center[2] + n[2] * margin
+        surface_center[0] + n[0] * lift,
+        surface_center[1] + n[1] * lift,
+        surface_center[2] + n[2] * lift
     )
     result = translatesolid(text_rotated, offset)
 
-- 
2.43.0


From a25ee66826726431171c6ecc182e847f2061c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:43 +0000
Subject: [PATCH 192/215] fix: text was engraved at half the depth asked for,
 and inside the part on faces that look down

---
 src/yapcad/text3d.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index df004ac..453c31d 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -1431,8 +1431,11 @@ def engrave_text(target_solid, text, position, normal, height=3.0, depth=0.5, sp
         new_surf = deepcopy(surf)
 
         # Rotate vertices if needed
-        if rot_axis_mag > epsilon and abs(angle) > epsilon:
-            rot_axis = point(rx / rot_axis_mag, ry / rot_axis_mag, rz / rot_axis_mag)
+        if abs(angle) > epsilon:
+            if rot_axis_mag > epsilon:
+                rot_axis = point(rx / rot_axis_mag, ry / rot_axis_mag, rz / rot_axis_mag)
+            else:  # opposite to Z: turn about any perpendicular axis
+                rot_axis = point(1, 0, 0)
             angle_deg = math.degrees(angle)
             rot_matrix = Rotation(angle_deg, cent=point(0, 0, 0), axis=rot_axis)
 
@@ -1450,8 +1453,8 @@ def engrave_text(target_solid, text, position, normal, height=3.0, depth=0.5, sp
                 new_norms.append(new_nm)
             new_surf[2] = new_norms
 
-        # Translate to position (slightly inside the face for clean cut)
-        offset = sub(position, scale3(n, depth * 0.5))
+        # Translate to position: from depth inside to slightly outside the face
+        offset = sub(position, scale3(n, depth))
         new_surf = translatesurface(new_surf, offset)
         transformed_surfaces.append(new_surf)
 
-- 
2.43.0


From 32a2d42b4b9da11c76665326994c39e3e13183cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:02 +0000
Subject: [PATCH 193/215] fix: the curves of TrueType glyphs were replaced by
 the polygon of their control points

---
 src/yapcad/text3d.py | 46 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 453c31d..678ce05 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -494,6 +494,38 @@ def _point_in_polygon(px, py, polygon):
     return inside
 
 
+def _outline_contours(outline, segments=8):
+    """Contours of a freetype outline, with its curves cut into line segments.
+
+    Args:
+        outline: freetype.Outline object
+        segments: Number of line segments per curve
+
+    Returns:
+        List of contours, each a list of (x, y) in 26.6 fixed point units
+    """
+    contours = []
+
+    def move_to(a, _):
+        contours.append([(a.x, a.y)])
+
+    def line_to(a, _):
+        contours[-1].append((a.x, a.y))
+
+    def curve_to(*args):
+        controls = [contours[-1][-1]] + [(v.x, v.y) for v in args[:-1]]
+        for i in range(1, segments + 1):
+            t = i / segments
+            pts = controls
+            while len(pts) > 1:  # de Casteljau
+                pts = [((1 - t) * a[0] + t * b[0], (1 - t) * a[1] + t * b[1])
+                       for a, b in zip(pts, pts[1:])]
+            contours[-1].append(pts[0])
+
+    outline.decompose(None, move_to, line_to, curve_to, curve_to)
+    return contours
+
+
 def glyph_to_polygons(glyph, x_offset=0.0, scale=1.0):
     """Convert a freetype glyph outline to polygons.
 
@@ -512,16 +544,14 @@ def glyph_to_polygons(glyph, x_offset=0.0, scale=1.0):
     outline = glyph.outline
 
     # FreeType outline consists of contours (closed paths)
-    start = 0
-    for end_idx in outline.contours:
+    for contour in _outline_contours(outline):
         contour_points = []
 
-        # Extract points for this contour
         # Points are in 26.6 fixed point format, so divide by 64
-        for i in range(start, end_idx + 1):
-            x = (outline.points[i][0] / 64.0) * scale + x_offset
-            y = (outline.points[i][1] / 64.0) * scale
-            contour_points.append(point(x, y, 0))
+        for px, py in contour:
+            pt = point((px / 64.0) * scale + x_offset, (py / 64.0) * scale, 0)
+            if not contour_points or pt != contour_points[-1]:
+                contour_points.append(pt)
 
         # Close the contour if needed
         if contour_points and contour_points[0] != contour_points[-1]:
@@ -530,8 +560,6 @@ def glyph_to_polygons(glyph, x_offset=0.0, scale=1.0):
         if len(contour_points) >= 4:  # Minimum for a valid closed polygon
             polygons.append(contour_points)
 
-        start = end_idx + 1
-
     return polygons
 
 
-- 
2.43.0


From e9cdc18fc0bd08ebcd764c557c9eca5d5d2b65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:12 +0000
Subject: [PATCH 194/215] fix: engraving text on a face that does not look up
 raised TypeError

---
 src/yapcad/text3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 678ce05..2d9f4a5 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -1465,7 +1465,7 @@ def engrave_text(target_solid, text, position, normal, height=3.0, depth=0.5, sp
             else:  # opposite to Z: turn about any perpendicular axis
                 rot_axis = point(1, 0, 0)
             angle_deg = math.degrees(angle)
-            rot_matrix = Rotation(angle_deg, cent=point(0, 0, 0), axis=rot_axis)
+            rot_matrix = Rotation(rot_axis, angle_deg)
 
             # Transform vertices
             new_verts = []
-- 
2.43.0


From 353602e47d808f1b75d52575cf61263138eec259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:17 +0000
Subject: [PATCH 195/215] fix: a reference cylinder ignored its axis

---
 src/yapcad/assembly/intent.py | 43 +++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/assembly/intent.py b/src/yapcad/assembly/intent.py
index 1e98965..6961299 100644
--- a/src/yapcad/assembly/intent.py
+++ b/src/yapcad/assembly/intent.py
@@ -156,6 +156,25 @@ class ReferenceGeometry:
     normal: Optional[Tuple[float, float, float]] = None
     inner: bool = False  # For cylinders: inner wall vs outer wall
 
+    def _axis_frame(self):
+        """Orthonormal directions (u, v, w) with w along the axis.
+
+        For an axis along Z (the default) these are X, Y and Z.
+        """
+        x, y, z = self.axis or (0, 0, 1)
+        mag = math.sqrt(x * x + y * y + z * z)
+        if mag < 1e-10:
+            raise ValueError("axis must not be zero")
+        w = (x / mag, y / mag, z / mag)
+        if abs(w[0]) < 1e-12 and abs(w[1]) < 1e-12:
+            return (1.0, 0.0, 0.0), (0.0, w[2], 0.0), w
+        h = math.hypot(w[0], w[1])
+        u = (-w[1] / h, w[0] / h, 0.0)
+        v = (w[1] * u[2] - w[2] * u[1],
+             w[2] * u[0] - w[0] * u[2],
+             w[0] * u[1] - w[1] * u[0])
+        return u, v, w
+
     def get_surface_point(
         self,
         theta: float = 0.0,
@@ -174,10 +193,10 @@ class ReferenceGeometry:
             if self.center is None or self.radius is None:
                 raise ValueError("Cylinder requires center and radius")
             r = self.radius
-            x = self.center[0] + r * math.cos(theta)
-            y = self.center[1] + r * math.sin(theta)
-            z_coord = self.center[2] + z
-            return (x, y, z_coord)
+            u, v, w = self._axis_frame()
+            c, s = r * math.cos(theta), r * math.sin(theta)
+            return tuple(self.center[i] + c * u[i] + s * v[i] + z * w[i]
+                         for i in range(3))
 
         elif self.geometry_type == "plane":
             if self.center is None:
@@ -213,16 +232,16 @@ class ReferenceGeometry:
             if self.center is None:
                 raise ValueError("Cylinder requires center")
             # Project point onto axis, get perpendicular
-            c = self.center
-            dx = point[0] - c[0]
-            dy = point[1] - c[1]
-            mag = math.sqrt(dx * dx + dy * dy)
+            u, _, w = self._axis_frame()
+            d = [point[i] - self.center[i] for i in range(3)]
+            along = sum(d[i] * w[i] for i in range(3))
+            d = [d[i] - along * w[i] for i in range(3)]
+            mag = math.sqrt(sum(x * x for x in d))
             if mag < 1e-10:
-                return (1, 0, 0)
+                return u
             if self.inner:
-                return (-dx / mag, -dy / mag, 0)  # Inward normal
-            else:
-                return (dx / mag, dy / mag, 0)  # Outward normal
+                mag = -mag  # Inward normal
+            return tuple(x / mag for x in d)
 
         elif self.geometry_type == "plane":
             if self.normal is None:
-- 
2.43.0


From 4578f9146bae813a680e5a6c8fd1d4418ce2f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:17 +0000
Subject: [PATCH 196/215] fix: reference geometry named by its name, not its
 key, was reported missing and not solved for

---
 src/yapcad/assembly/intent.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/assembly/intent.py b/src/yapcad/assembly/intent.py
index 6961299..c597cc5 100644
--- a/src/yapcad/assembly/intent.py
+++ b/src/yapcad/assembly/intent.py
@@ -348,6 +348,16 @@ class ContactRequirement(FunctionalRequirement):
     contact_type: str = "static"  # "static", "rolling", "sliding"
     preload_source: Optional[str] = None
 
+    def find_target(
+        self,
+        reference_geometry: Dict[str, ReferenceGeometry]
+    ) -> Optional[ReferenceGeometry]:
+        """The reference geometry with the target's key or name, or None."""
+        for name, geom in reference_geometry.items():
+            if name == self.target or geom.name == self.target:
+                return geom
+        return None
+
     def get_implied_constraints(
         self,
         reference_geometry: Dict[str, ReferenceGeometry]
@@ -356,11 +366,7 @@ class ContactRequirement(FunctionalRequirement):
         constraints = []
 
         # Find target geometry
-        target_geom = None
-        for name, geom in reference_geometry.items():
-            if name == self.target or geom.name == self.target:
-                target_geom = geom
-                break
+        target_geom = self.find_target(reference_geometry)
 
         if target_geom is None:
             # Return constraint that will fail validation
@@ -1040,7 +1046,7 @@ class AssemblyIntent:
         for req in self.functional_requirements:
             if isinstance(req, ContactRequirement):
                 # Find target geometry
-                target = self.reference_geometry.get(req.target)
+                target = req.find_target(self.reference_geometry)
                 if target and target.geometry_type == "cylinder":
                     # For wheel contacting tube inner wall:
                     # wheel_center_radius = tube_radius - wheel_radius
@@ -1093,7 +1099,7 @@ class AssemblyIntent:
         # Check all referenced geometry exists
         for req in self.functional_requirements:
             if isinstance(req, ContactRequirement):
-                if req.target not in self.reference_geometry:
+                if req.find_target(self.reference_geometry) is None:
                     issues.append(
                         f"ContactRequirement '{req.name}' references unknown "
                         f"geometry '{req.target}'"
-- 
2.43.0


From 6bb22de2be4da347d82e1fb450b2642c1a438414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:17 +0000
Subject: [PATCH 197/215] fix: an axis orientation given as a vector implied no
 constraint

---
 src/yapcad/assembly/intent.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/yapcad/assembly/intent.py b/src/yapcad/assembly/intent.py
index c597cc5..e61ca1b 100644
--- a/src/yapcad/assembly/intent.py
+++ b/src/yapcad/assembly/intent.py
@@ -582,6 +582,16 @@ class AxisOrientationRequirement(FunctionalRequirement):
                 "direction": self.orientation,
             })
 
+        elif isinstance(self.orientation, (tuple, list)):
+            # Custom direction vector
+            constraints.append({
+                "name": f"{self.part}_{self.axis_datum}_direction",
+                "constraint_type": "PARALLEL_TO",
+                "part": self.part,
+                "datum": self.axis_datum,
+                "axis": tuple(self.orientation),
+            })
+
         return constraints
 
 
-- 
2.43.0


From 68e79627ae2f00e070e11bb8815d045bda661bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:18 +0000
Subject: [PATCH 198/215] fix: the holes of a bolt circle lay in an XY plane
 whatever the direction of the circle

---
 src/yapcad/assembly/mate_surrogates.py | 27 ++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/assembly/mate_surrogates.py b/src/yapcad/assembly/mate_surrogates.py
index 7329c71..036ed88 100644
--- a/src/yapcad/assembly/mate_surrogates.py
+++ b/src/yapcad/assembly/mate_surrogates.py
@@ -147,15 +147,34 @@ class Feature:
         if self.feature_type != FeatureType.CIRCLE or self.radius is None or self.count is None:
             return []
 
+        u, v = self._circle_axes()
         positions = []
         for i in range(self.count):
             angle_rad = math.radians(self.angle_offset_deg + i * (360.0 / self.count))
-            x = self.point[0] + self.radius * math.cos(angle_rad)
-            y = self.point[1] + self.radius * math.sin(angle_rad)
-            z = self.point[2]
-            positions.append((x, y, z))
+            c = self.radius * math.cos(angle_rad)
+            s = self.radius * math.sin(angle_rad)
+            positions.append(tuple(self.point[k] + c * u[k] + s * v[k]
+                                   for k in range(3)))
         return positions
 
+    def _circle_axes(self):
+        """Unit directions perpendicular to direction, from which the angles
+        of a circle are counted: X and Y for a circle facing +Z or -Z, and
+        otherwise the first coordinate axes not along direction, projected.
+        """
+        mag = math.sqrt(sum(d * d for d in self.direction))
+        n = [d / mag for d in self.direction]
+        axes = []
+        for k in range(3):
+            a = [1.0 if i == k else 0.0 for i in range(3)]
+            for b in [n] + axes:
+                dot = sum(p * q for p, q in zip(a, b))
+                a = [p - dot * q for p, q in zip(a, b)]
+            length = math.sqrt(sum(p * p for p in a))
+            if length > 1e-6:
+                axes.append([p / length for p in a])
+        return axes[0], axes[1]
+
 
 @dataclass
 class MateSurrogate:
-- 
2.43.0


From d4a75b4c755246162cf19853cef660b1af5e3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:18 +0000
Subject: [PATCH 199/215] fix: the frame of the DDSM115 was left-handed, its
 motor axis away from the wheel

---
 src/yapcad/assembly/mate_surrogates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/mate_surrogates.py b/src/yapcad/assembly/mate_surrogates.py
index 036ed88..808ad07 100644
--- a/src/yapcad/assembly/mate_surrogates.py
+++ b/src/yapcad/assembly/mate_surrogates.py
@@ -280,10 +280,10 @@ def create_ddsm115_surrogate() -> MateSurrogate:
         # We define the surrogate frame to make this clear:
         # - Surrogate X = STL X (radial in XZ plane)
         # - Surrogate Y = STL Z (perpendicular to motor axis)
-        # - Surrogate Z = STL Y (motor rotation axis, toward wheel)
+        # - Surrogate Z = STL -Y (motor rotation axis, toward wheel)
         x_axis=(1.0, 0.0, 0.0),
         y_axis=(0.0, 0.0, 1.0),  # STL Z
-        z_axis=(0.0, 1.0, 0.0),  # STL Y (motor axis)
+        z_axis=(0.0, -1.0, 0.0),  # STL -Y (motor axis)
 
         stl_file="cots/ddsm115_motor_official.stl",
         step_file="cots/DDSM115 STEP.step",
-- 
2.43.0


From 2bbbee736ef2b1bff631cc47267aa57a5cb533e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:40 +0000
Subject: [PATCH 200/215] fix: rolling along the axis of a tube meant along Z
 whatever the axis of the tube

---
 src/yapcad/assembly/intent.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/intent.py b/src/yapcad/assembly/intent.py
index e61ca1b..b37f881 100644
--- a/src/yapcad/assembly/intent.py
+++ b/src/yapcad/assembly/intent.py
@@ -446,7 +446,13 @@ class RollRequirement(FunctionalRequirement):
         constraints = []
 
         # Parse roll direction
-        if self.roll_direction in ("along_tube_axis", "+z"):
+        if self.roll_direction == "along_tube_axis":
+            roll_dir = (0, 0, 1)
+            for geom in reference_geometry.values():
+                if geom.geometry_type == "cylinder":
+                    roll_dir = tuple(geom._axis_frame()[2])
+                    break
+        elif self.roll_direction == "+z":
             roll_dir = (0, 0, 1)
         elif self.roll_direction == "-z":
             roll_dir = (0, 0, -1)
-- 
2.43.0


From e7bf7ea85275fb14fa09d563bcf75a2646086202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:40 +0000
Subject: [PATCH 201/215] fix: the example wheel assembly named a tube it does
 not have, so its motor axis was never tangent

---
 src/yapcad/assembly/intent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/intent.py b/src/yapcad/assembly/intent.py
index b37f881..b95ab98 100644
--- a/src/yapcad/assembly/intent.py
+++ b/src/yapcad/assembly/intent.py
@@ -1235,7 +1235,7 @@ def create_wheel_assembly_intent() -> AssemblyIntent:
         part="ddsm115_motor",
         axis_datum="motor_axis",
         orientation="tangent",
-        reference="tube",
+        reference="tube_inner_wall",
         description="Motor axis tangent for correct rolling motion",
     ))
 
-- 
2.43.0


From 1e6a1037ec417c781c39934c407099928a28612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:04 +0000
Subject: [PATCH 202/215] fix: the refinement fields of mesh hints had no
 effect

---
 src/yapcad/package/analysis/gmsh_mesher.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/analysis/gmsh_mesher.py b/src/yapcad/package/analysis/gmsh_mesher.py
index 6867fde..3c0d92b 100644
--- a/src/yapcad/package/analysis/gmsh_mesher.py
+++ b/src/yapcad/package/analysis/gmsh_mesher.py
@@ -614,8 +614,17 @@ class GmshMesher:
         gmsh.option.setNumber("Mesh.OptimizeNetgen", 1 if hints.optimize_netgen else 0)
 
         # Apply refinement fields if specified
-        for i, field_spec in enumerate(hints.refinement_fields):
-            self._apply_refinement_field(i + 1, field_spec)
+        field_ids = []
+        for field_spec in hints.refinement_fields:
+            field_id = max(gmsh.model.mesh.field.list(), default=0) + 1
+            self._apply_refinement_field(field_id, field_spec)
+            field_ids.append(field_id)
+        if field_ids:
+            # The fields take effect together: the smallest size anywhere wins
+            min_id = max(field_ids) + 1
+            gmsh.model.mesh.field.add("Min", min_id)
+            gmsh.model.mesh.field.setNumbers(min_id, "FieldsList", field_ids)
+            gmsh.model.mesh.field.setAsBackgroundMesh(min_id)
 
         # Set uniform mesh size on all entities
         entities = gmsh.model.getEntities(0)  # vertices
-- 
2.43.0


From e9cfcd6ee8baf213f1c8b11b681f3123de208650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:27 +0000
Subject: [PATCH 203/215] fix: an exported mesh with named faces had no volume
 elements

---
 src/yapcad/package/analysis/gmsh_mesher.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/yapcad/package/analysis/gmsh_mesher.py b/src/yapcad/package/analysis/gmsh_mesher.py
index 3c0d92b..08fc4be 100644
--- a/src/yapcad/package/analysis/gmsh_mesher.py
+++ b/src/yapcad/package/analysis/gmsh_mesher.py
@@ -693,6 +693,23 @@ class GmshMesher:
 
         path = Path(path)
 
+        # Once there is a physical group, Gmsh writes only what is in one: put
+        # the elements of the mesh's own dimension in one, too
+        groups = {dim for dim, _ in gmsh.model.getPhysicalGroups()}
+        meshed = [(dim, tag) for dim, tag in gmsh.model.getEntities()
+                  if len(gmsh.model.mesh.getElements(dim, tag)[0])]
+        top = max((dim for dim, _ in meshed), default=0)
+        if groups and top not in groups:
+            added = gmsh.model.addPhysicalGroup(
+                top, [tag for dim, tag in meshed if dim == top])
+            try:
+                return self._write_mesh(path, format)
+            finally:
+                gmsh.model.removePhysicalGroups([(top, added)])
+        return self._write_mesh(path, format)
+
+    def _write_mesh(self, path: Path, format: Optional[str]) -> Path:
+        """Write the mesh, as it stands, in a format."""
         # Determine format from extension if not specified
         if format is None:
             format = path.suffix.lstrip(".").lower()
-- 
2.43.0


From 47d6b07145811e70e7400b7cf565905f46a4ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:27 +0000
Subject: [PATCH 204/215] fix: the format asked for in export_mesh was ignored

---
 src/yapcad/package/analysis/gmsh_mesher.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/analysis/gmsh_mesher.py b/src/yapcad/package/analysis/gmsh_mesher.py
index 08fc4be..7075ccc 100644
--- a/src/yapcad/package/analysis/gmsh_mesher.py
+++ b/src/yapcad/package/analysis/gmsh_mesher.py
@@ -19,6 +19,7 @@ MIT License
 
 from __future__ import annotations
 
+import shutil
 import tempfile
 from dataclasses import dataclass, field
 from pathlib import Path
@@ -722,10 +723,14 @@ class GmshMesher:
             gmsh.write(str(msh_path))
             # Note: Actual XDMF conversion requires meshio or dolfinx
             return msh_path
-        elif format == "su2":
+        elif path.suffix.lower() == f".{format}":
             gmsh.write(str(path))
         else:
-            gmsh.write(str(path))
+            # Gmsh goes by the suffix of the name
+            with tempfile.TemporaryDirectory() as tmp:
+                written = Path(tmp) / f"mesh.{format}"
+                gmsh.write(str(written))
+                shutil.copyfile(written, path)
 
         return path
 
-- 
2.43.0


From 994c39a5892e870c6b3bf14ddf612c85707cb8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:59 +0000
Subject: [PATCH 205/215] fix: an exported mesh lacked the bodies, or in a
 surface mesh the faces, in no named group

---
 src/yapcad/package/analysis/gmsh_mesher.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/package/analysis/gmsh_mesher.py b/src/yapcad/package/analysis/gmsh_mesher.py
index 7075ccc..862614d 100644
--- a/src/yapcad/package/analysis/gmsh_mesher.py
+++ b/src/yapcad/package/analysis/gmsh_mesher.py
@@ -695,14 +695,15 @@ class GmshMesher:
         path = Path(path)
 
         # Once there is a physical group, Gmsh writes only what is in one: put
-        # the elements of the mesh's own dimension in one, too
-        groups = {dim for dim, _ in gmsh.model.getPhysicalGroups()}
+        # the rest of the elements of the mesh's own dimension in one, too
+        groups = gmsh.model.getPhysicalGroups()
         meshed = [(dim, tag) for dim, tag in gmsh.model.getEntities()
                   if len(gmsh.model.mesh.getElements(dim, tag)[0])]
         top = max((dim for dim, _ in meshed), default=0)
-        if groups and top not in groups:
-            added = gmsh.model.addPhysicalGroup(
-                top, [tag for dim, tag in meshed if dim == top])
+        rest = [tag for dim, tag in meshed if dim == top and
+                not len(gmsh.model.getPhysicalGroupsForEntity(dim, tag))]
+        if groups and rest:
+            added = gmsh.model.addPhysicalGroup(top, rest)
             try:
                 return self._write_mesh(path, format)
             finally:
-- 
2.43.0


From e3312d153b99e72b1b11d810cb00795d29b6af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:22 +0000
Subject: [PATCH 206/215] fix: figures touching at one corner were lost by 2D
 booleans

---
 src/yapcad/geom_util.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index a8f2509..0ddd11c 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -728,6 +728,10 @@ def combineglist(g1,g2,operation):
                 run = []
         return loops if not run else []
 
+    def onecrossing(us):
+        """are these crossing parameters all of the same point?"""
+        return all(abs((u-us[0]+0.5)%1.0-0.5) < epsilon for u in us)
+
     loops1 = contours(g1)
     loops2 = contours(g2)
     if loops1 and loops2 and (len(loops1) > 1 or len(loops2) > 1):
@@ -739,7 +743,7 @@ def combineglist(g1,g2,operation):
                                      (loops2,g1,keep2,operation=='difference')):
             for loop in loops:
                 xpts = intersectXY(loop,other,params=True)
-                if xpts == False or len(xpts[0]) < 2:
+                if xpts == False or onecrossing(xpts[0]):
                     if classify(loop,(0.0,1.0),other) in keep:
                         r += reverseGeomList(loop) if rev else loop
                     continue
@@ -789,14 +793,14 @@ def combineglist(g1,g2,operation):
                 return g1
             else: #intersection
                 return []
-    if len(inter[0]) == 1 and len(inter[1]) == 1:
-    ## single point of intersection:
-        if operation == 'union':
-            return [g1, g2]
-        elif operation == 'difference':
-            return g1
-        else: #intersection
-            return []
+    if onecrossing(inter[0]) and onecrossing(inter[1]):
+    ## single point of contact: each figure is kept or dropped as a whole
+        r = []
+        if classify(g1,(0.0,1.0),g2) in keep1:
+            r.append(g1)
+        if classify(g2,(0.0,1.0),g1) in keep2:
+            r.append(g2)
+        return r[0] if len(r) == 1 else r
     ## There are two or more points of intersection.
     if len(inter[0]) %2 != 0:
         print("WARNING: odd number of intersections (",len(inter[0]),", unpredictable behavior may result")
-- 
2.43.0


From 2e6a342de91cdef8baa586f05478aee34828985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:06 +0000
Subject: [PATCH 207/215] fix: a Polygon outline broke around explicit line
 elements

---
 src/yapcad/poly.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 82a198e..825a211 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -230,7 +230,8 @@ class Polygon(Geometry):
                 #ll = dist(p1,e2)
                 self.__outline.append(line(p1,e2))
             elif isline(e2):
-                self.__outline.append(line(p1,e2[0]))
+                if dist(p1,e2[0]) > epsilon:
+                    self.__outline.append(line(p1,e2[0]))
                 self.__outline.append(line(e2))
             elif isarc(e2) and not iscircle(e2):
                 p = samplearc(e2,1*epsilon)
@@ -273,7 +274,8 @@ class Polygon(Geometry):
             if ispoint(e1): #e1 is a point
                 _fromPointAdd(e0,e1,e2)
             elif isline(e1):
-                _fromPointAdd(e0,e1[0],e2)
+                # the line itself is already part of the outline
+                _fromPointAdd(e0,e1[1],e2)
             elif isarc(e1) and not iscircle(e1):
                 p1 = samplearc(e1,1.0)
                 _fromPointAdd(e0,p1,e2)
-- 
2.43.0


From 571c28b59dec42b9e5b5a29d81b23cdfef9c850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:06 +0000
Subject: [PATCH 208/215] fix: Polygon(...) dropped the last of several equal
 circles

---
 src/yapcad/poly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 825a211..e61d3fe 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -80,7 +80,8 @@ class Polygon(Geometry):
             if ((ispoint(elm[0]) and ispoint(elm[-1]) and 
                  dist(elm[0],elm[-1]) < epsilon) or 
                 (iscircle(elm[0]) and iscircle(elm[-1]) and 
-                 abs(elm[0][1][0] - elm[-1][1][0]) < epsilon)):
+                 abs(elm[0][1][0] - elm[-1][1][0]) < epsilon and
+                 dist(elm[0][0],elm[-1][0]) < epsilon)):
                 self.elem.pop()
         
     def __repr__(self):
-- 
2.43.0


From 9279dfa3ecdaec00a3054eb02e2574a39b33a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:57 +0000
Subject: [PATCH 209/215] fix: the whiteboard routes read and wrote files
 outside their root

---
 src/yapcad/viewer/api_server.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/viewer/api_server.py b/src/yapcad/viewer/api_server.py
index 41e1319..d8f9dca 100644
--- a/src/yapcad/viewer/api_server.py
+++ b/src/yapcad/viewer/api_server.py
@@ -748,7 +748,16 @@ class ViewerAPIServer:
             env = os.environ.get("YAPCAD_WHITEBOARD_ROOT", "").strip()
             if not env:
                 return None
-            return Path(env).expanduser()
+            return Path(env).expanduser().resolve()
+
+        def _whiteboard_target(root, rel_path):
+            """the file below ``root`` that ``rel_path`` names, else None"""
+            target = (root / rel_path).resolve()
+            if target == root or not target.is_relative_to(root):
+                return None
+            if ".git" in (part.lower() for part in target.relative_to(root).parts):
+                return None
+            return target
 
         _WHITEBOARD_DISABLED_MSG = (
             "Whiteboard integration is disabled. Set the YAPCAD_WHITEBOARD_ROOT "
@@ -827,8 +836,8 @@ class ViewerAPIServer:
             if ".." in rel_path:
                 return jsonify({"error": "Path traversal ('..') not allowed"}), 400
 
-            target = WHITEBOARD_ROOT / rel_path
-            if not str(target).startswith(str(WHITEBOARD_ROOT)):
+            target = _whiteboard_target(WHITEBOARD_ROOT, rel_path)
+            if target is None:
                 return jsonify({"error": "Path escapes Whiteboard root"}), 400
 
             if not message:
@@ -917,7 +926,9 @@ class ViewerAPIServer:
             if ".." in rel_path:
                 return jsonify({"error": "Path traversal not allowed"}), 400
 
-            target = WHITEBOARD_ROOT / rel_path
+            target = _whiteboard_target(WHITEBOARD_ROOT, rel_path)
+            if target is None:
+                return jsonify({"error": "Path escapes Whiteboard root"}), 400
             if not target.exists():
                 return jsonify({"error": f"File not found: {rel_path}"}), 404
 
-- 
2.43.0


From 8036090c2561e58d03e7e55f4d4ad0e0654ad592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:57 +0000
Subject: [PATCH 210/215] fix: viewer routes confused unknown parts with
 missing fields

---
 src/yapcad/viewer/api_server.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/viewer/api_server.py b/src/yapcad/viewer/api_server.py
index d8f9dca..5443700 100644
--- a/src/yapcad/viewer/api_server.py
+++ b/src/yapcad/viewer/api_server.py
@@ -632,6 +632,8 @@ class ViewerAPIServer:
             """
             data = request.get_json() or {}
 
+            if "part" not in data:
+                return jsonify({"error": "Missing required field: 'part'"}), 400
             try:
                 self.viewer.focus_part(data["part"])
                 return jsonify({"success": True, "focused_on": data["part"]})
@@ -983,6 +985,8 @@ class ViewerAPIServer:
             """
             data = request.get_json() or {}
 
+            if data.get("part") not in self.viewer.get_part_names() and "part" in data:
+                return jsonify({"error": f"Part not found: {data['part']}"}), 404
             try:
                 self.viewer.move_part(
                     data["part"],
@@ -992,8 +996,6 @@ class ViewerAPIServer:
                 )
                 return jsonify({"success": True})
             except KeyError as e:
-                if "part" in str(e):
-                    return jsonify({"error": f"Part not found: {data.get('part')}"}), 404
                 return jsonify({"error": f"Missing required field: {e}"}), 400
 
         @self.app.route("/moveto", methods=["POST"])
@@ -1036,6 +1038,8 @@ class ViewerAPIServer:
             """
             data = request.get_json() or {}
 
+            if data.get("part") not in self.viewer.get_part_names() and "part" in data:
+                return jsonify({"error": f"Part not found: {data['part']}"}), 404
             try:
                 self.viewer.move_part_to(
                     data["part"],
@@ -1045,8 +1049,6 @@ class ViewerAPIServer:
                 )
                 return jsonify({"success": True})
             except KeyError as e:
-                if "part" in str(e):
-                    return jsonify({"error": f"Part not found: {data.get('part')}"}), 404
                 return jsonify({"error": f"Missing required field: {e}"}), 400
 
     def _register_socket_events(self):
-- 
2.43.0


From 21e619134bc20b78549c33e3d25514a5bab96cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:57 +0000
Subject: [PATCH 211/215] fix: a part loaded again stayed in the viewer as a
 ghost

---
 src/yapcad/viewer/vtk_viewer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/viewer/vtk_viewer.py b/src/yapcad/viewer/vtk_viewer.py
index c10041e..140b6db 100644
--- a/src/yapcad/viewer/vtk_viewer.py
+++ b/src/yapcad/viewer/vtk_viewer.py
@@ -371,6 +371,9 @@ class VTKViewer:
             ))
             return False
 
+        # The name identifies the part: loading it again replaces it
+        self.remove_part(name)
+
         mapper = vtk.vtkPolyDataMapper()
         mapper.SetInputData(polydata)
 
-- 
2.43.0


From 4db200560434602d0f4eb48a21bf05f8efa6a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:57 +0000
Subject: [PATCH 212/215] fix: rotated parts moved along their own axes in the
 viewer

---
 src/yapcad/viewer/vtk_viewer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/viewer/vtk_viewer.py b/src/yapcad/viewer/vtk_viewer.py
index 140b6db..9c075d8 100644
--- a/src/yapcad/viewer/vtk_viewer.py
+++ b/src/yapcad/viewer/vtk_viewer.py
@@ -1002,6 +1002,7 @@ class VTKViewer:
             self.actors[name].SetUserTransform(self.actor_transforms[name])
 
         transform = self.actor_transforms[name]
+        transform.PostMultiply()  # along the axes of the scene, not of the part
         transform.Translate(dx, dy, dz)
         self.render_window.Render()
 
-- 
2.43.0


From 654302ef54f90614a9304a8930551478fc46c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:57 +0000
Subject: [PATCH 213/215] fix: reload_positions() skipped parts loaded without
 a transform

---
 src/yapcad/viewer/vtk_viewer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/viewer/vtk_viewer.py b/src/yapcad/viewer/vtk_viewer.py
index 9c075d8..865cf3e 100644
--- a/src/yapcad/viewer/vtk_viewer.py
+++ b/src/yapcad/viewer/vtk_viewer.py
@@ -602,13 +602,16 @@ class VTKViewer:
         self._load_positions_file()
 
         for part_name, part_data in self.positions.items():
-            if part_name not in self.actor_transforms:
+            if part_name not in self.actors:
                 continue
 
             transform = part_data.get("transform_matrix")
             if transform is None:
                 continue
 
+            if part_name not in self.actor_transforms:
+                self.actor_transforms[part_name] = vtk.vtkTransform()
+                self.actors[part_name].SetUserTransform(self.actor_transforms[part_name])
             vtk_transform = self.actor_transforms[part_name]
             vtk_matrix = vtk.vtkMatrix4x4()
             for i in range(4):
-- 
2.43.0


From e5c52011e1a3292b5af846123f68c0a63825d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:57 +0000
Subject: [PATCH 214/215] fix: parts added later ignored the default and x-ray
 opacity in use

---
 src/yapcad/viewer/api_server.py | 6 +-----
 src/yapcad/viewer/vtk_viewer.py | 5 +++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/viewer/api_server.py b/src/yapcad/viewer/api_server.py
index 5443700..d1ce61c 100644
--- a/src/yapcad/viewer/api_server.py
+++ b/src/yapcad/viewer/api_server.py
@@ -435,11 +435,7 @@ class ViewerAPIServer:
 
             return jsonify({
                 "enabled": self.viewer.xray_mode,
-                "opacity": (
-                    self.viewer.config.xray_opacity
-                    if self.viewer.xray_mode
-                    else self.viewer.config.default_opacity
-                )
+                "opacity": self.viewer.opacity
             })
 
         @self.app.route("/highlight", methods=["POST"])
diff --git a/src/yapcad/viewer/vtk_viewer.py b/src/yapcad/viewer/vtk_viewer.py
index 865cf3e..44d9989 100644
--- a/src/yapcad/viewer/vtk_viewer.py
+++ b/src/yapcad/viewer/vtk_viewer.py
@@ -136,6 +136,7 @@ class VTKViewer:
         self.actors: Dict[str, vtk.vtkActor] = {}
         self.actor_transforms: Dict[str, vtk.vtkTransform] = {}
         self.xray_mode = False
+        self.opacity = config.default_opacity
         self._color_index = 0
         self._event_callbacks: Dict[str, List[EventCallback]] = {}
 
@@ -398,8 +399,7 @@ class VTKViewer:
             self.actor_transforms[name] = vtk_transform
 
         # Apply current x-ray mode
-        if self.xray_mode:
-            actor.GetProperty().SetOpacity(self.config.xray_opacity)
+        actor.GetProperty().SetOpacity(self.opacity)
 
         # Add to all renderers
         for renderer in self.renderers.values():
@@ -685,6 +685,7 @@ class VTKViewer:
         else:
             opacity = opacity if enabled else self.config.default_opacity
 
+        self.opacity = opacity
         for actor in self.actors.values():
             actor.GetProperty().SetOpacity(opacity)
 
-- 
2.43.0


From e12328cafdf4fc28eb13550c84a33f4451e5f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:58 +0000
Subject: [PATCH 215/215] fix: ViewerConfig.from_dict() changed the dictionary
 it was given

---
 src/yapcad/viewer/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/viewer/config.py b/src/yapcad/viewer/config.py
index 7153d4d..b7ca478 100644
--- a/src/yapcad/viewer/config.py
+++ b/src/yapcad/viewer/config.py
@@ -246,6 +246,7 @@ class ViewerConfig:
         ViewerConfig
             New configuration instance.
         """
+        data = dict(data)
         # Convert lists back to tuples where needed
         if "window_size" in data:
             data["window_size"] = tuple(data["window_size"])
-- 
2.43.0

