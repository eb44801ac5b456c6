From cb3696859da83c7b994b98725532c605f20d710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 01/30] fix: Rtree.Delete panicked on objects whose geometry or
 properties are not comparable

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0282fce..0788ab7 100644
--- a/rtree.go
+++ b/rtree.go
@@ -3,6 +3,7 @@ package geo
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"sort"
 	"time"
 )
@@ -530,7 +531,7 @@ func (tree *Rtree) Delete(obj Spatial) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0] == object[1]
+		return reflect.DeepEqual(object[0], object[1])
 	}
 	return tree.DeleteWithComparator(obj, condition)
 }
-- 
2.43.0


From fbc9229903c4b5608047da4133df2350043613e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 02/30] fix: inserting after a bulk load overwrote objects of
 the neighbouring leaf

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0788ab7..9b34b70 100644
--- a/rtree.go
+++ b/rtree.go
@@ -187,9 +187,10 @@ func (tree *Rtree) omt(level, nSlices int, objs []entry, m int) *node {
 			child.parent = n
 			return n
 		}
+		// cap the slice, so that a later append does not write into the next leaf
 		return &node{
 			leaf:    true,
-			entries: objs,
+			entries: objs[:len(objs):len(objs)],
 			level:   level,
 		}
 	}
-- 
2.43.0


From df035055fb41dbc28b7796218af664f8c9fd7465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 03/30] fix: deletes that emptied inner nodes left an index
 that panicked on the next insert

---
 rtree.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/rtree.go b/rtree.go
index 9b34b70..78c9ed3 100644
--- a/rtree.go
+++ b/rtree.go
@@ -601,8 +601,16 @@ func (tree *Rtree) DeleteWithComparator(obj Spatial, cond Condition) bool {
 	tree.condenseTree(n)
 	tree.size--
 
-	if !tree.root.leaf && len(tree.root.entries) == 1 {
+	for !tree.root.leaf && len(tree.root.entries) == 1 {
 		tree.root = tree.root.entries[0].child
+		tree.root.parent = nil
+	}
+	if !tree.root.leaf && len(tree.root.entries) == 0 {
+		tree.root = &node{
+			entries: []entry{},
+			leaf:    true,
+			level:   1,
+		}
 	}
 
 	tree.height = tree.root.level
@@ -662,7 +670,16 @@ func (tree *Rtree) condenseTree(n *node) {
 		n = n.parent
 	}
 
-	for _, n := range deleted {
+	// highest nodes first, so that the lower ones find a place below them
+	for i := len(deleted) - 1; i >= 0; i-- {
+		n := deleted[i]
+		if len(tree.root.entries) == 0 {
+			// nothing else is left above n
+			n.parent = nil
+			tree.root = n
+			tree.height = n.level
+			continue
+		}
 		// reinsert entry so that it will remain at the same level as before
 		e := entry{n.computeBoundingBox(), n, Spatial{}}
 		tree.insert(e, n.level+1)
-- 
2.43.0


From d2bac7a73305d9288193a887c654114e2944fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 04/30] fix: DeleteBySpatialID left some of several objects
 that share the ID

---
 rtree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 78c9ed3..d75f483 100644
--- a/rtree.go
+++ b/rtree.go
@@ -542,7 +542,9 @@ func (tree *Rtree) DeleteBySpatialID(id string) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0].ID == object[1].ID
+		// only objects in the same place: the search for the one to delete
+		// looks where that one is
+		return object[0].ID == object[1].ID && *BoundingBox(object[0].Geom) == *BoundingBox(object[1].Geom)
 	}
 	sps := tree.SearchBySpatialID(id)
 	if len(sps) == 0 {
-- 
2.43.0


From d678db034602a12bdbc38fb09291faba804a38dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 05/30] fix: NearestNeighbors with k = 0 panicked on an index
 with inner nodes

---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index d75f483..f536387 100644
--- a/rtree.go
+++ b/rtree.go
@@ -809,6 +809,9 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k <= 0 {
+		return []Spatial{}
+	}
 	maxBufSize := tree.MaxChildren * tree.Depth()
 	branches := make([]entry, maxBufSize)
 	branchDists := make([]float64, maxBufSize)
-- 
2.43.0


From 657edf08746b4b7f6e8c61b603f642f8db9d7f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 06/30] fix: InsertWithRandomId gave out equal IDs when the
 clock stood still or went back

---
 rtree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index f536387..7f1a2e1 100644
--- a/rtree.go
+++ b/rtree.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"reflect"
 	"sort"
+	"sync/atomic"
 	"time"
 )
 
@@ -269,9 +270,13 @@ func (tree *Rtree) Insert(obj Spatial) {
 	tree.size++
 }
 
+// randomIDCount makes generated IDs differ when the clock does not advance.
+var randomIDCount uint64
+
 // 插入rtree
 func (tree *Rtree) InsertWithRandomId(geom Geometry) {
-	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.Size), nil, geom}}
+	id := fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), atomic.AddUint64(&randomIDCount, 1))
+	e := entry{BoundingBox(geom), nil, Spatial{id, nil, geom}}
 	tree.insert(e, 1)
 	tree.size++
 }
-- 
2.43.0


From ca61c05d5b0f33cc8f2a703fb548c3cf6a574ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 07/30] fix: closing a ring wrote into the caller's spare
 capacity

---
 linearRing.go  | 3 ++-
 linearRingZ.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/linearRing.go b/linearRing.go
index 6751f00..82c124e 100644
--- a/linearRing.go
+++ b/linearRing.go
@@ -22,7 +22,8 @@ func NewRingFromLine(line LineString) *LinearRing {
 		linearRing := LinearRing(line)
 		return &linearRing
 	} else {
-		line = append(line, firstPoint)
+		// the caller may own what lies behind the end of line
+		line = append(line[:len(line):len(line)], firstPoint)
 		linearRing := LinearRing(line)
 		return &linearRing
 	}
diff --git a/linearRingZ.go b/linearRingZ.go
index f1575f0..f99ac2d 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -18,7 +18,8 @@ func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	} else {
-		line = append(line, firstPoint)
+		// the caller may own what lies behind the end of line
+		line = append(line[:len(line):len(line)], firstPoint)
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	}
-- 
2.43.0


From 4cd18978d5a1b7ae10265189069d4be2127e2e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 08/30] fix: ConvexHull reordered the caller's points

---
 convexhull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convexhull.go b/convexhull.go
index 7ef65da..005cec8 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -50,7 +50,7 @@ func ConvexHull(pts ...Point) Polygon {
 	if len(pts) < 3 {
 		return nil
 	}
-	points := hullPts(pts)
+	points := append(hullPts(nil), pts...) // sorted below, the caller keeps his order
 	var stack hullPts
 	points.FindLowestPoint()
 	sort.Sort(&points)
-- 
2.43.0


From 201778f8295a3f36d8790e200a331fcec5b6ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 09/30] fix: DouglasPeuckerSimplify removed points from the
 caller's line

---
 simplify.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simplify.go b/simplify.go
index 95a300a..b75d495 100644
--- a/simplify.go
+++ b/simplify.go
@@ -11,6 +11,7 @@ func DouglasPeuckerSimplify(line LineString, threshold float64, srid SRID) LineS
 	//排序，从后往前删
 	sort.Sort(sort.Reverse(sort.IntSlice(delIndexs)))
 
+	line = append(LineString(nil), line...) // the caller keeps his points
 	for _, v := range delIndexs {
 		line = append(line[:v], line[v+1:]...)
 	}
-- 
2.43.0


From ea473edf35ba0a6092b1522a78006cb21496e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 10/30] fix: S2RegionCoverer reversed the caller's ring

---
 googleS2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index 25499ff..a5f50dd 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -50,7 +50,7 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 	if poly.IsCCW() {
-		pois := poly.GetExteriorRing().GetPointSet()
+		pois := append([]Point(nil), poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
 			pois[i], pois[j] = pois[j], pois[i]
 		}
-- 
2.43.0


From 36730d819477e4951b6f4d072b41edea62f4590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 11/30] fix: halves of a split line shared storage with it and
 each other

---
 lineString.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineString.go b/lineString.go
index 2d673f9..008fc51 100644
--- a/lineString.go
+++ b/lineString.go
@@ -135,7 +135,7 @@ func (line LineString) GetPointSet() []Point {
 
 //从指定位置分成两条线
 func (line LineString) SplitByIndex(index int) (LineString, LineString) {
-	line1 := line[:index+1]
-	line2 := line[index:]
+	line1 := append(LineString(nil), line[:index+1]...)
+	line2 := append(LineString(nil), line[index:]...)
 	return line1, line2
 }
-- 
2.43.0


From e88f81ae692ad17194813346990753656d86ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 12/30] fix: SetSrid panicked, and was not safe for concurrent
 use

---
 multiLineStringZ.go |  2 +-
 multilinestring.go  |  2 +-
 multipoint.go       |  2 +-
 multipolygon.go     |  2 +-
 polygon.go          |  2 +-
 srid.go             | 12 +++++++++++-
 6 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/multiLineStringZ.go b/multiLineStringZ.go
index ef8b37a..68a9abf 100644
--- a/multiLineStringZ.go
+++ b/multiLineStringZ.go
@@ -11,5 +11,5 @@ func NewMultiLineStringZ(ls ...LineStringZ) *MultiLineStringZ {
 }
 
 func (l MultiLineStringZ) SetSrid(srid uint64) {
-	SridMap[&l] = srid
+	setSrid(&l, srid)
 }
diff --git a/multilinestring.go b/multilinestring.go
index c421135..82e9e79 100644
--- a/multilinestring.go
+++ b/multilinestring.go
@@ -17,5 +17,5 @@ func NewMultiLineString(ls ...LineString) *MultiLineString {
 }
 
 func (l MultiLineString) SetSrid(srid uint64) {
-	SridMap[&l] = srid
+	setSrid(&l, srid)
 }
diff --git a/multipoint.go b/multipoint.go
index 7fa7436..4dfa978 100644
--- a/multipoint.go
+++ b/multipoint.go
@@ -16,7 +16,7 @@ func (mp *MultiPoint) Append(p Point) {
 }
 
 func (mp MultiPoint) SetSrid(srid uint64) {
-	SridMap[&mp] = srid
+	setSrid(&mp, srid)
 }
 
 func (mp MultiPoint) GetPointSet() []Point {
diff --git a/multipolygon.go b/multipolygon.go
index 2770578..d056cdc 100644
--- a/multipolygon.go
+++ b/multipolygon.go
@@ -11,5 +11,5 @@ func NewMultiPolygon(polys ...Polygon) *MultiPolygon {
 }
 
 func (mp MultiPolygon) SetSrid(srid uint64) {
-	SridMap[&mp] = srid
+	setSrid(&mp, srid)
 }
diff --git a/polygon.go b/polygon.go
index 273e699..a64aced 100644
--- a/polygon.go
+++ b/polygon.go
@@ -19,7 +19,7 @@ func NewPolygonFromPois(pts ...Point) *Polygon {
 }
 
 func (g Polygon) SetSrid(srid uint64) {
-	SridMap[&g] = srid
+	setSrid(&g, srid)
 }
 
 //多边形的外环
diff --git a/srid.go b/srid.go
index 2ce468a..1d514a7 100644
--- a/srid.go
+++ b/srid.go
@@ -1,3 +1,13 @@
 package geo
 
-var SridMap map[interface{}]uint64
+import "sync"
+
+var SridMap = make(map[interface{}]uint64)
+
+var sridMutex sync.Mutex
+
+func setSrid(key interface{}, srid uint64) {
+	sridMutex.Lock()
+	defer sridMutex.Unlock()
+	SridMap[key] = srid
+}
-- 
2.43.0


From f10a205117538fd4689e0dc65f4e2c73d445b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 13/30] fix: comparing a line with a shorter one panicked

---
 lineString.go  | 3 +++
 lineStringZ.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineString.go b/lineString.go
index 008fc51..1df14b1 100644
--- a/lineString.go
+++ b/lineString.go
@@ -109,6 +109,9 @@ func (line LineString) Length() float64 {
 
 //判断两条线是不是相同
 func (line1 LineString) Equal(line2 LineString) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
diff --git a/lineStringZ.go b/lineStringZ.go
index dad543b..e0c1b8a 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -38,6 +38,9 @@ func (line *LineStringZ) Append(point PointZ) error {
 
 //判断两条线是不是相同
 func (line1 LineStringZ) Equal(line2 LineStringZ) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
-- 
2.43.0


From b412cd559abc2b96df01cbd6bf8456dd79055b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:40 +0000
Subject: [PATCH 14/30] fix: WKT decoding lost all parts, holes and rings but
 the first, and Z values

MultiLineStringFromWKT, PolygonFromWKT and MultiPolygonFromWKT took the first
match of a pattern (and its submatch) for the list of parts, so POLYGON with a
hole, MULTI* with several parts and anything with Z came back incomplete,
duplicated or as an error. Split the list at its top-level parentheses.
---
 wkt/decode.go | 57 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 4b0ad79..0d178aa 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -101,9 +101,48 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 
 }
 
+// splitGroups returns the parts of a list of parenthesised parts "(..),(..)",
+// with their parentheses.
+func splitGroups(wkt string) ([]string, error) {
+	var groups []string
+	depth, start, separated := 0, 0, true
+	for i, c := range wkt {
+		switch {
+		case c == '(':
+			if depth == 0 {
+				if !separated {
+					return nil, errors.New("wkt format is error")
+				}
+				start = i
+			}
+			depth++
+		case c == ')':
+			if depth == 0 {
+				return nil, errors.New("wkt format is error")
+			}
+			depth--
+			if depth == 0 {
+				groups = append(groups, wkt[start:i+1])
+				separated = false
+			}
+		case depth > 0 || c == ' ':
+		case c == ',' && !separated:
+			separated = true
+		default:
+			return nil, errors.New("wkt format is error")
+		}
+	}
+	if depth != 0 || separated {
+		return nil, errors.New("wkt format is error")
+	}
+	return groups, nil
+}
+
 func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitGroups(wkt)
+	if err != nil {
+		return nil, err
+	}
 	var ml geo.MultiLineString
 	var mlz geo.MultiLineStringZ
 	for _, v := range matches {
@@ -129,8 +168,10 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func PolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitGroups(wkt)
+	if err != nil {
+		return nil, err
+	}
 	var poly geo.Polygon
 	var polyz geo.PolygonZ
 	for _, v := range matches {
@@ -156,12 +197,14 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`([(](?:\ *[(]\ *(?:\ *(?:[0-9-.]+[ ]+[0-9-.]+)[, ]*\ *)*\ *[)][, ]*)*[)])`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitGroups(wkt)
+	if err != nil {
+		return nil, err
+	}
 	var multiPoly geo.MultiPolygon
 	var multiPolyZ geo.MultiPolygonZ
 	for _, v := range matches {
-		polygon, err := PolygonFromWKT(v)
+		polygon, err := PolygonFromWKT(v[1 : len(v)-1])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 251d49e1545f2902f0b306d4a9bb40048e657b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 15/30] fix: WKT decoding panicked on one-number coordinates
 and dropped mixed dimensions

A coordinate with one number indexed past the end, one with four or more was
cut or dropped, and in a geometry mixing 2D and 3D coordinates all of one kind
vanished without an error.
---
 wkt/decode.go | 92 ++++++++++++++++++++++++++-------------------------
 1 file changed, 47 insertions(+), 45 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 0d178aa..dd07f9c 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -9,24 +9,34 @@ import (
 	"github.com/hzw456/go-geo"
 )
 
+// parseTuple reads the two or three numbers of a point.
+func parseTuple(term string) ([]float64, error) {
+	strs := strings.Fields(term)
+	if len(strs) != 2 && len(strs) != 3 {
+		return nil, errors.New("wkt coordinate has neither two nor three numbers")
+	}
+	coords := make([]float64, len(strs))
+	for i, str := range strs {
+		coord, err := strconv.ParseFloat(str, 64)
+		if err != nil {
+			return nil, err
+		}
+		coords[i] = coord
+	}
+	return coords, nil
+}
+
+var errMixed = errors.New("wkt mixes coordinates with and without z")
+
 func PointFromWKT(wkt string) (geo.Geometry, error) {
-	strs := strings.Split(strings.Trim(wkt, " "), " ")
-	x, err := strconv.ParseFloat(strs[0], 64)
+	coords, err := parseTuple(wkt)
 	if err != nil {
 		return geo.Point{}, err
 	}
-	y, err := strconv.ParseFloat(strs[1], 64)
-	if err != nil {
-		return geo.Point{}, err
+	if len(coords) == 3 {
+		return geo.PointZ{coords[0], coords[1], coords[2]}, nil
 	}
-	if len(strs) == 3 {
-		z, err := strconv.ParseFloat(strs[2], 64)
-		if err != nil {
-			return geo.Point{}, err
-		}
-		return geo.PointZ{x, y, z}, nil
-	}
-	return geo.Point{x, y}, nil
+	return geo.Point{coords[0], coords[1]}, nil
 }
 
 func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
@@ -37,26 +47,19 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 	var mp geo.MultiPoint
 	var mpz geo.MultiPointZ
 	for _, term := range terms {
-		strs := strings.Split(strings.TrimRight(strings.TrimLeft(term, "("), ")"), " ")
-		x, err := strconv.ParseFloat(strs[0], 64)
+		coords, err := parseTuple(strings.TrimRight(strings.TrimLeft(term, "("), ")"))
 		if err != nil {
 			return nil, err
 		}
-		y, err := strconv.ParseFloat(strs[1], 64)
-		if err != nil {
-			return nil, err
-		}
-		if len(strs) == 3 {
-			z, err := strconv.ParseFloat(strs[2], 64)
-			if err != nil {
-				return geo.Point{}, err
-			}
-			mpz.Append(geo.PointZ{x, y, z})
+		if len(coords) == 3 {
+			mpz.Append(geo.PointZ{coords[0], coords[1], coords[2]})
 		} else {
-			mp.Append(geo.Point{x, y})
+			mp.Append(geo.Point{coords[0], coords[1]})
 		}
 	}
-	if len(mp) != 0 {
+	if len(mp) != 0 && len(mpz) != 0 {
+		return nil, errMixed
+	} else if len(mp) != 0 {
 		return mp, nil
 	} else if len(mpz) != 0 {
 		return mpz, nil
@@ -72,26 +75,19 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 	var linestring geo.LineString
 	var linestringZ geo.LineStringZ
 	for _, term := range terms {
-		strs := strings.Split(strings.Trim(term, " "), " ")
-		x, err := strconv.ParseFloat(strs[0], 64)
+		coords, err := parseTuple(term)
 		if err != nil {
 			return nil, err
 		}
-		y, err := strconv.ParseFloat(strs[1], 64)
-		if err != nil {
-			return nil, err
-		}
-		if len(strs) == 3 {
-			z, err := strconv.ParseFloat(strs[2], 64)
-			if err != nil {
-				return geo.LineStringZ{}, err
-			}
-			linestringZ.Append(geo.PointZ{x, y, z})
-		} else if len(strs) == 2 {
-			linestring.Append(geo.Point{x, y})
+		if len(coords) == 3 {
+			linestringZ.Append(geo.PointZ{coords[0], coords[1], coords[2]})
+		} else {
+			linestring.Append(geo.Point{coords[0], coords[1]})
 		}
 	}
-	if len(linestring) > 0 {
+	if len(linestring) > 0 && len(linestringZ) > 0 {
+		return nil, errMixed
+	} else if len(linestring) > 0 {
 		return linestring, nil
 	} else if len(linestringZ) > 0 {
 		return linestringZ, nil
@@ -158,7 +154,9 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 			mlz = append(mlz, lineZ)
 		}
 	}
-	if len(ml) > 0 {
+	if len(ml) > 0 && len(mlz) > 0 {
+		return nil, errMixed
+	} else if len(ml) > 0 {
 		return ml, nil
 	} else if len(mlz) > 0 {
 		return mlz, nil
@@ -187,7 +185,9 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 			polyz = append(polyz, line.ToRing())
 		}
 	}
-	if len(poly) > 0 {
+	if len(poly) > 0 && len(polyz) > 0 {
+		return nil, errMixed
+	} else if len(poly) > 0 {
 		return poly, nil
 	} else if len(polyz) > 0 {
 		return polyz, nil
@@ -217,7 +217,9 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 
 	}
-	if len(multiPoly) > 0 {
+	if len(multiPoly) > 0 && len(multiPolyZ) > 0 {
+		return nil, errMixed
+	} else if len(multiPoly) > 0 {
 		return multiPoly, nil
 	} else if len(multiPolyZ) > 0 {
 		return multiPolyZ, nil
-- 
2.43.0


From aee87ec4b9f2db3347a6f8ca3a91cfe5a5b559cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 16/30] fix: WKT decoding accepted truncated and spliced texts

The pattern was not anchored and surplus or missing parentheses were trimmed
away, so a text cut off inside a MULTIPOINT or LINESTRING, or two texts run
together, decoded to something smaller.
---
 wkt/decode.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index dd07f9c..0d228a3 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -40,14 +40,12 @@ func PointFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
-	wkt = strings.TrimLeft(wkt, "(")
-	wkt = strings.TrimRight(wkt, ")")
-	wkt = strings.Trim(wkt, " ")
+	wkt = unwrap(wkt)
 	terms := strings.Split(wkt, ",")
 	var mp geo.MultiPoint
 	var mpz geo.MultiPointZ
 	for _, term := range terms {
-		coords, err := parseTuple(strings.TrimRight(strings.TrimLeft(term, "("), ")"))
+		coords, err := parseTuple(unwrap(term))
 		if err != nil {
 			return nil, err
 		}
@@ -69,8 +67,7 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func LineStringFromWKT(wkt string) (geo.Geometry, error) {
-	wkt = strings.TrimLeft(wkt, "(")
-	wkt = strings.TrimRight(wkt, ")")
+	wkt = unwrap(wkt)
 	terms := strings.Split(wkt, ",")
 	var linestring geo.LineString
 	var linestringZ geo.LineStringZ
@@ -97,6 +94,26 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 
 }
 
+// unwrap removes the parentheses around wkt, if the first one closes at its end.
+func unwrap(wkt string) string {
+	wkt = strings.Trim(wkt, " ")
+	depth := 0
+	for i, c := range wkt {
+		if c == '(' {
+			depth++
+		} else if c == ')' {
+			depth--
+		}
+		if depth == 0 {
+			if i > 0 && i == len(wkt)-1 {
+				return wkt[1:i]
+			}
+			break
+		}
+	}
+	return wkt
+}
+
 // splitGroups returns the parts of a list of parenthesised parts "(..),(..)",
 // with their parentheses.
 func splitGroups(wkt string) ([]string, error) {
@@ -231,7 +248,7 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 func Decode(wkt string) (geo.Geometry, error) {
 	wkt = strings.Trim(wkt, " ")
 	wkt = strings.Replace(wkt, ", ", ",", -1)
-	re := regexp.MustCompile(`([A-Z]+)\s*[(]\s*(\(*.+\)*)\s*[)]`)
+	re := regexp.MustCompile(`^(?:SRID=[0-9]+;)?([A-Z]+)\s*[(]\s*(\(*.+\)*)\s*[)]$`)
 	match := re.FindStringSubmatch(wkt)
 	if len(match) != 3 {
 		return nil, errors.New("wkt format is error")
-- 
2.43.0


From c0bebfda4261a67874f7b6e965a651f69011c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 17/30] fix: WKT decoding panicked on a polygon ring of one
 point

---
 wkt/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wkt/decode.go b/wkt/decode.go
index 0d228a3..8c52ac6 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -196,6 +196,9 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 		if linestring.Type() == geo.GEOMETRY_LINESTRING {
 			line := linestring.(geo.LineString)
+			if err := line.Verify(); err != nil {
+				return nil, err
+			}
 			poly = append(poly, line.ToRing())
 		} else if linestring.Type() == geo.GEOMETRY_LINESTRINGZ {
 			line := linestring.(geo.LineStringZ)
-- 
2.43.0


From 849c3472901085e8faf86e462459a829e7b77e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:28 +0000
Subject: [PATCH 18/30] fix: decoding a malformed GeoJSON geometry panicked or
 gave no geometry and no error

UnmarshalGeo panicked on missing, short, nested or mistyped coordinates and on
positions of mixed dimensions, cut longer positions, and returned nil, nil for
an unknown type.
---
 geojson/geojson.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 9005eb7..6386ae5 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -98,8 +98,14 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 }
 
 func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
+	if gjson == nil {
+		return nil, errors.New("no geometry")
+	}
 	switch gjson.Type {
 	case "Point":
+		if err := checkPositions(gjson.Coordinates, 0, new(int)); err != nil {
+			return nil, err
+		}
 		isZ := isInterPointZ(gjson.Coordinates)
 		if isZ {
 			return inter2PointZ(gjson.Coordinates), nil
@@ -108,6 +114,9 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPoint":
 		return nil, errors.New("Not Support MultiPoint (TODO)")
 	case "LineString":
+		if err := checkPositions(gjson.Coordinates, 1, new(int)); err != nil {
+			return nil, err
+		}
 		isZ := isInterLineZ(gjson.Coordinates)
 		if isZ {
 			return inter2LineStringZ(gjson.Coordinates), nil
@@ -116,6 +125,9 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiLineString":
 		return nil, errors.New("Not Support MultiLineString (TODO)")
 	case "Polygon":
+		if err := checkPositions(gjson.Coordinates, 2, new(int)); err != nil {
+			return nil, err
+		}
 		isZ := isInterPolygonZ(gjson.Coordinates)
 		if isZ {
 			return inter2PolygonZ(gjson.Coordinates), nil
@@ -124,7 +136,7 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPolygon":
 		return nil, errors.New("Not Support MultiPolygon (TODO)")
 	}
-	return nil, nil
+	return nil, fmt.Errorf("not a valid geometry type: %s", gjson.Type)
 }
 
 // func (c Collection) ToGeojson() ([]byte, error) {
@@ -352,6 +364,34 @@ func decodePolygonSet(data interface{}) ([][][][]float64, error) {
 	return result, nil
 }
 
+// checkPositions verifies that data holds positions nested depth levels deep,
+// all of the same dimension (stored in dim), two or three.
+func checkPositions(data interface{}, depth int, dim *int) error {
+	if depth > 0 {
+		list, ok := data.([]interface{})
+		if !ok {
+			return fmt.Errorf("not a valid set of positions, got %v", data)
+		}
+		for _, v := range list {
+			if err := checkPositions(v, depth-1, dim); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	position, err := decodePosition(data)
+	if err != nil {
+		return err
+	}
+	if *dim == 0 {
+		*dim = len(position)
+	}
+	if len(position) != *dim || *dim != 2 && *dim != 3 {
+		return fmt.Errorf("not a valid position, got %v", data)
+	}
+	return nil
+}
+
 func interface2D(data interface{}) []interface{} {
 	return data.([]interface{})
 }
-- 
2.43.0


From 6dc7b35215d34fc4285dff6bfe440501ad3632bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:37 +0000
Subject: [PATCH 19/30] fix: Feature.SetBoundingBox set the box of a copy

---
 geojson/feature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index faac598..b8be919 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -29,7 +29,7 @@ func NewFeature(geometry geo.Geometry) *Feature {
 	}
 }
 
-func (f Feature) SetBoundingBox() {
+func (f *Feature) SetBoundingBox() {
 	box := geo.BoundingBox(f.Geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
-- 
2.43.0


From 7b00b63c6ef7273e574d87127db555214ef0272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 20/30] fix: encoding a PolygonZ as GeoJSON failed, and its
 features lost their geometry

---
 geojson/geojson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 6386ae5..4f71316 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -75,7 +75,7 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 		}
 	case geo.PolygonZ:
 		geoj.Type = "Polygon"
-		geoj.Coordinates, err = ConvertPathSet(geom)
+		geoj.Coordinates, err = ConvertPathZSet(geom)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From be3df94e529d90d553c7d28c9282c8fa4998ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 21/30] fix: inserting a point at the end of a line inserted it
 twice

C15: InsertPoint at position = length appended the point and then inserted it
once more, so the line grew by two points.
---
 lineString.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index 1df14b1..dddf1e5 100644
--- a/lineString.go
+++ b/lineString.go
@@ -83,7 +83,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
-		line.Append(point)
+		return line.Append(point)
 	}
 	*line = append((*line)[:position+1], (*line)[position:]...)
 	(*line)[position] = point
-- 
2.43.0


From e4f5fe13c9b196f57371c06a38fb4cf967f4efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 22/30] fix: the bounding box of every geometry with Z was the
 point (0, 0)

C01: an index that stores such geometries never found them by box or as
neighbours, except around the origin; Feature.SetBoundingBox was wrong too.
---
 box.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/box.go b/box.go
index 1ba1f53..4e78295 100644
--- a/box.go
+++ b/box.go
@@ -93,10 +93,41 @@ func BoundingBox(geom Geometry) *Box {
 			}
 		}
 		return calBox(pois...)
+	case PointZ:
+		return calBoxZ(geom)
+	case MultiPointZ:
+		return calBoxZ(geom...)
+	case LineStringZ:
+		return calBoxZ(geom...)
+	case MultiLineStringZ:
+		var pois []PointZ
+		for _, v := range geom {
+			pois = append(pois, v...)
+		}
+		return calBoxZ(pois...)
+	case PolygonZ:
+		return calBoxZ(geom.GetExteriorPoints()...)
+	case MultiPolygonZ:
+		var pois []PointZ
+		for _, v := range geom {
+			for _, vv := range v {
+				pois = append(pois, vv...)
+			}
+		}
+		return calBoxZ(pois...)
 	}
 	return &Box{}
 }
 
+//三维点在平面上的范围
+func calBoxZ(points ...PointZ) *Box {
+	pois := make([]Point, 0, len(points))
+	for _, v := range points {
+		pois = append(pois, Point{v.X, v.Y})
+	}
+	return calBox(pois...)
+}
+
 func (b1 *Box) Intersect(b2 *Box) bool {
 	if b1 == nil || b2 == nil {
 		return false
-- 
2.43.0


From 5fef8cd6fa48ed6dc187340b9d5bc5f0a1dde28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 23/30] fix: asking for very many nearest neighbours panicked

The buffers were allocated for k results, however few objects the tree
holds: k = math.MaxInt64 panicked (makeslice), k = 1 << 40 ran out of memory.
---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index 7f1a2e1..0c866be 100644
--- a/rtree.go
+++ b/rtree.go
@@ -814,6 +814,9 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k > tree.size {
+		k = tree.size
+	}
 	if k <= 0 {
 		return []Spatial{}
 	}
-- 
2.43.0


From d0b1c626c0d801e9979a309c265e12c320740b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 24/30] fix: bounding boxes of coordinates beyond 2^31 reached
 back to 2^31

The search for the minimum and maximum started at +-2^31, so that an object
lying beyond it was indexed with a box that is too large and was found by
searches far away from it.
---
 box.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/box.go b/box.go
index 4e78295..66a67fe 100644
--- a/box.go
+++ b/box.go
@@ -48,6 +48,9 @@ func BoxToGeo(b Box) Geometry {
 
 func calBox(points ...Point) *Box {
 	var minX, minY, maxX, maxY float64 = INF, INF, -INF, -INF
+	if len(points) > 0 {
+		minX, minY, maxX, maxY = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
+	}
 	for _, v := range points {
 		if minX > v.X {
 			minX = v.X
-- 
2.43.0


From e9f4e79732f4ed7d80d54e85b5e7cc28e526cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 25/30] fix: inserting objects whose boxes are too large to
 measure panicked

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0c866be..f0d2fbc 100644
--- a/rtree.go
+++ b/rtree.go
@@ -321,7 +321,7 @@ func (tree *Rtree) chooseNode(n *node, e entry, level int) *node {
 
 	// find the entry whose bb needs least enlargement to include obj
 	diff := math.MaxFloat64
-	var chosen entry
+	chosen := n.entries[0] // for sizes too large to compare
 	for _, en := range n.entries {
 		bb := en.bb.Union(e.bb)
 		d := bb.Size() - en.bb.Size()
-- 
2.43.0


From 1c91a271641985a06c3e223c9be9675bfae196b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 26/30] fix: ConvexHull panicked on nearly collinear points

---
 convexhull.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index 005cec8..3c87c57 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -60,10 +60,8 @@ func ConvexHull(pts ...Point) Polygon {
 	for i < len(points) {
 		pi := points[i]
 
-		p1 := stack[len(stack)-2]
-		p2 := stack[len(stack)-1]
-
-		if isLeft(p1, p2, pi) {
+		// nearly collinear points can be sorted otherwise than isLeft sees them
+		if len(stack) < 2 || isLeft(stack[len(stack)-2], stack[len(stack)-1], pi) {
 			stack = append(stack, pi)
 			i++
 		} else {
-- 
2.43.0


From 3957e6471faca4317a21e8bf485ea26191b5cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 27/30] fix: reading and editing a line at a negative position
 panicked

---
 lineString.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lineString.go b/lineString.go
index dddf1e5..239cc94 100644
--- a/lineString.go
+++ b/lineString.go
@@ -54,7 +54,7 @@ func (line LineString) GetEndPoint() *Point {
 
 //取特定点
 func (line LineString) GetPoint(index int) *Point {
-	if index > line.GetPointCount()-1 {
+	if index < 0 || index > line.GetPointCount()-1 {
 		return nil
 	}
 	return &line[index]
@@ -67,7 +67,7 @@ func (line *LineString) Append(point Point) error {
 
 //在指定位置改变linestring的点
 func (line *LineString) SetPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -79,7 +79,7 @@ func (line *LineString) SetPoint(position int, point Point) error {
 
 //在指定位置插入点
 func (line *LineString) InsertPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -92,7 +92,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 
 //在指定位置删除点
 func (line *LineString) DelPoint(position int) error {
-	if line.GetPointCount() <= position {
+	if position < 0 || line.GetPointCount() <= position {
 		return errors.New("line has no such position")
 	}
 	(*line) = append((*line)[:position], (*line)[position+1:]...)
-- 
2.43.0


From 2bad5ac972d20515597b0ffefea4a4feef0ed7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 28/30] fix: changing a box listed by GetAllBoundingBoxes
 changed the index

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index f0d2fbc..38ff870 100644
--- a/rtree.go
+++ b/rtree.go
@@ -444,7 +444,8 @@ func (n *node) getAllBoundingBoxes() []*Box {
 		if e.child == nil {
 			return Boxs
 		}
-		BoxsInter := append(e.child.getAllBoundingBoxes(), e.bb)
+		bb := *e.bb // the caller's own
+		BoxsInter := append(e.child.getAllBoundingBoxes(), &bb)
 		Boxs = append(Boxs, BoxsInter...)
 	}
 	return Boxs
-- 
2.43.0


From ea29678984d458c26957ee29220b5ecdfa33ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 29/30] fix: SetBoundingBox of a decoded feature set an empty
 box

---
 geojson/feature.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index b8be919..f39a83f 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -30,7 +30,15 @@ func NewFeature(geometry geo.Geometry) *Feature {
 }
 
 func (f *Feature) SetBoundingBox() {
-	box := geo.BoundingBox(f.Geometry)
+	geometry := f.Geometry
+	if geometry == nil {
+		// decoded features only have the geometry's document
+		var err error
+		if geometry, err = UnmarshalGeo(f.GeometryJson); err != nil {
+			return
+		}
+	}
+	box := geo.BoundingBox(geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
 
-- 
2.43.0


From 7d18108cde7ce9a91449f4e527800afecb6c4ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 30/30] fix: objects without points were not found, deleted or
 replaced by ID

---
 rtree.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rtree.go b/rtree.go
index 38ff870..c6ded22 100644
--- a/rtree.go
+++ b/rtree.go
@@ -726,11 +726,19 @@ func (tree *Rtree) searchIntersectWithCond(results []Spatial, n *node, bb *Box,
 }
 
 func (tree *Rtree) SearchBySpatialID(id string) []Spatial {
-	condition := func(object ...Spatial) bool {
-		return id == object[0].ID
+	return tree.root.searchID([]Spatial{}, id)
+}
+
+// searchID looks into every entry, for an object without points meets no box.
+func (n *node) searchID(results []Spatial, id string) []Spatial {
+	for _, e := range n.entries {
+		if !n.leaf {
+			results = e.child.searchID(results, id)
+		} else if e.obj.ID == id {
+			results = append(results, e.obj)
+		}
 	}
-	res := tree.SearchIntersectWithCond(tree.root.computeBoundingBox(), condition)
-	return res
+	return results
 }
 
 // GetAllBoundingBoxes returning slice of bounding boxes by traversing tree. Slice
-- 
2.43.0

