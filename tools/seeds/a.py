HDR='''package geo_test

import (
%s
	geo "github.com/hzw456/go-geo"
)

'''
def hdr(*imps): return HDR % "".join('\t"%s"\n'%i for i in imps)
MODEL='''
type item = geo.Spatial

func box(x, y, w, h float64) geo.Geometry { return geo.LineString{{X: x, Y: y}, {X: x + w, Y: y + h}} }

func all(t *testing.T, tree *geo.Rtree, want map[string]geo.Geometry) {
	got := tree.SearchIntersect(geo.NewBox(-1e9, -1e9, 1e9, 1e9))
	seen := map[string]bool{}
	for _, g := range got {
		if seen[g.ID] || want[g.ID] == nil {
			t.Fatalf("unexpected %s", g.ID)
		}
		seen[g.ID] = true
	}
	if len(seen) != len(want) || tree.Size() != len(want) {
		t.Fatalf("found %d, size %d, want %d", len(seen), tree.Size(), len(want))
	}
}

func histories(t *testing.T, n int, f func(tree *geo.Rtree, want map[string]geo.Geometry, r *rand.Rand, i int)) {
	for seed := int64(0); seed < 40; seed++ {
		r := rand.New(rand.NewSource(seed))
		tree := geo.NewMinMaxTree(2, 5)
		want := map[string]geo.Geometry{}
		for i := 0; i < n; i++ {
			if len(want) > 0 && r.Intn(5) < 2 {
				for id := 0; id < i; id++ {
					k := fmt.Sprint("o", (id*7+i)%i)
					if g, ok := want[k]; ok {
						if !tree.Delete(item{ID: k, Geom: g}) {
							t.Fatalf("cannot delete %s", k)
						}
						delete(want, k)
						break
					}
				}
			} else {
				k := fmt.Sprint("o", i)
				g := box(float64(r.Intn(100)), float64(r.Intn(100)), float64(r.Intn(6)), float64(r.Intn(6)))
				tree.Insert(item{ID: k, Geom: g})
				want[k] = g
			}
			f(tree, want, r, i)
		}
	}
}
'''
S=[]
def add(id,prop,needs,breaks,edits,demo,**k): S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))

add('C01-split-parent','C01','an inner node of a tree of depth three or more splits, and the subtree that became the seed of the new right node is updated afterwards',
 'after an inner split one child keeps the old parent: a later insert or delete below it panics or leaves boxes too small, so searches miss objects',
 [('rtree.go','''	// TODO
	if rightSeed.child != nil {
		rightSeed.child.parent = right
	}
	if leftSeed.child''','''	// the left node is n itself, so only its seed may have moved
	if leftSeed.child''')],
 hdr('fmt','math/rand','testing')+MODEL+'''
func TestSeedDemo(t *testing.T) {
	histories(t, 300, func(tree *geo.Rtree, want map[string]geo.Geometry, r *rand.Rand, i int) {
		if i%20 == 0 {
			all(t, tree, want)
		}
	})
}
''')
add('C01-condense-single','C01','deletes that leave exactly one object in a leaf whose minimum is two, while the tree has more than one leaf',
 'the last object of an underflowing leaf is dropped instead of being inserted again: searches no longer return it although it was never deleted',
 [('rtree.go','			// only add n to deleted if it still has children\n			if len(n.entries) > 0 {','			// only add n to deleted if it still has children\n			if len(n.entries) > 1 {')],
 hdr('fmt','math/rand','testing')+MODEL+'''
func TestSeedDemo(t *testing.T) {
	histories(t, 300, func(tree *geo.Rtree, want map[string]geo.Geometry, r *rand.Rand, i int) {
		if i%20 == 0 {
			all(t, tree, want)
		}
	})
}
''')
add('C01-touch','C01','a query box that touches an object only along the object\'s upper side',
 'a box search leaves out objects whose bounding box only touches the query box from below',
 [('box.go','b1.MinY > b2.MaxY || b1.MaxY < b2.MinY {','b1.MinY > b2.MaxY || b1.MaxY < b2.MinY || b1.MaxY == b2.MinY && b1.MinY < b1.MaxY {')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	tree := geo.NewTree(geo.Spatial{ID: "a", Geom: geo.LineString{{X: 0, Y: 0}, {X: 4, Y: 4}}})
	if len(tree.SearchIntersect(geo.NewBox(1, 4, 2, 8))) != 1 {
		t.Fatal("touching box not found")
	}
	if len(tree.SearchIntersect(geo.NewBox(1, 5, 2, 8))) != 0 {
		t.Fatal("box outside found")
	}
}
''')
add('C02-prune-early','C02','a leaf boundary exactly where k-1 neighbours have been found',
 'subtrees are pruned against the (k-1)-th distance, so fewer than k objects, or farther ones than necessary, are returned',
 [('rtree.go','		if l := len(dists); l >= k {','		if l := len(dists); l > 0 && l >= k-1 {')],
 hdr('fmt','math/rand','sort','testing')+MODEL+'''
func d2(p geo.Point, g geo.Geometry) float64 {
	b := geo.BoundingBox(g)
	s := 0.0
	if p.X < b.MinX { s += (p.X - b.MinX) * (p.X - b.MinX) } else if p.X > b.MaxX { s += (p.X - b.MaxX) * (p.X - b.MaxX) }
	if p.Y < b.MinY { s += (p.Y - b.MinY) * (p.Y - b.MinY) } else if p.Y > b.MaxY { s += (p.Y - b.MaxY) * (p.Y - b.MaxY) }
	return s
}

func TestSeedDemo(t *testing.T) {
	histories(t, 150, func(tree *geo.Rtree, want map[string]geo.Geometry, r *rand.Rand, i int) {
		p := geo.Point{X: float64(r.Intn(100)), Y: float64(r.Intn(100))}
		k := 1 + r.Intn(12)
		var ds []float64
		for _, g := range want { ds = append(ds, d2(p, g)) }
		sort.Float64s(ds)
		if len(ds) > k { ds = ds[:k] }
		got := tree.NearestNeighbors(k, p)
		if len(got) != len(ds) { t.Fatalf("%d neighbours, want %d", len(got), len(ds)) }
		for i, g := range got {
			if d2(p, g.Geom) != ds[i] { t.Fatalf("neighbour %d at %v, want %v", i, d2(p, g.Geom), ds[i]) }
		}
	})
}
''')
add('C02-abort','C02','a leaf whose first object is too far away although one of its later objects is among the k nearest',
 'the search stops at the first object that is not among the k nearest so far, and misses nearer ones behind it',
 [('rtree.go','''	if i >= k {
		return dists, nearest, false
	}''','''	if i >= k {
		// everything that follows is farther away
		return dists, nearest, true
	}''')],
 S[-1]['demo'])
add('C03-batch','C03','a batch that contains the same ID more than once',
 'upserting a batch deletes first and inserts afterwards, so an ID given twice ends up stored twice',
 [('rtree.go','''	for _, object := range objects {
		tree.DeleteBySpatialID(object.ID)
		tree.Insert(object)
	}''','''	// delete first, so that the tree is small when the new objects come
	for _, object := range objects {
		tree.DeleteBySpatialID(object.ID)
	}
	for _, object := range objects {
		tree.Insert(object)
	}''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	tree := geo.NewTree()
	tree.UpsertBySpatialID(geo.Spatial{ID: "a", Geom: geo.Point{X: 1, Y: 1}}, geo.Spatial{ID: "b", Geom: geo.Point{X: 1, Y: 1}}, geo.Spatial{ID: "a", Geom: geo.Point{X: 2, Y: 1}})
	got := tree.SearchBySpatialID("a")
	if len(got) != 1 || got[0].Geom != (geo.Point{X: 2, Y: 1}) || tree.Size() != 2 {
		t.Fatal(got)
	}
}
''')
add('C03-same-place','C03','an upsert that gives a stored ID new properties but leaves its geometry where it was',
 'such an upsert is taken for a re-delivery and skipped: the object keeps its old properties',
 [('rtree.go','''		tree.DeleteBySpatialID(object.ID)
		tree.Insert(object)
	}''','''		if old := tree.SearchBySpatialID(object.ID); len(old) == 1 && reflect.DeepEqual(old[0].Geom, object.Geom) {
			// delivered again
			continue
		}
		tree.DeleteBySpatialID(object.ID)
		tree.Insert(object)
	}''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	tree := geo.NewTree()
	tree.UpsertBySpatialID(geo.Spatial{ID: "a", Properties: 1, Geom: geo.Point{X: 1, Y: 1}})
	tree.UpsertBySpatialID(geo.Spatial{ID: "a", Properties: 2, Geom: geo.Point{X: 1, Y: 1}})
	got := tree.SearchBySpatialID("a")
	if len(got) != 1 || got[0].Properties != 2 || tree.Size() != 1 {
		t.Fatal(got)
	}
}
''')
add('C04-many','C04','more than 256 objects given to the constructor that generates IDs',
 'the running number in generated IDs wraps at 256, so two objects of one index get the same ID',
 [('rtree.go','		sps = append(sps, Spatial{fmt.Sprintf("%d_0_%d", rid, i), nil, v})','		sps = append(sps, Spatial{fmt.Sprintf("%d_0_%02x", rid, uint8(i)), nil, v})')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	var pts []geo.Geometry
	for i := 0; i < 300; i++ {
		pts = append(pts, geo.Point{X: float64(i), Y: 0})
	}
	seen := map[string]bool{}
	for _, sp := range geo.NewRandomIDTree(pts...).SearchIntersect(geo.NewBox(-1, -1, 1000, 1)) {
		if seen[sp.ID] {
			t.Fatal("twice", sp.ID)
		}
		seen[sp.ID] = true
	}
}
''')
CLOCK=r'''R=$(go env GOROOT)
sed 's/^func Now() Time {$/func Now() Time { if seedNow != 0 { return Unix(0, seedNow) }; return realNow() }\nvar seedNow int64\nfunc SetSeedNow(ns int64) { seedNow = ns }\nfunc realNow() Time {/' "$R/src/time/time.go" > "$d/time.go"
'''
add('C04-format','C04','an index built with generated IDs, then an insertion with a generated ID while the clock shows the same time as at construction',
 'both ways of generating IDs use the same form, so an inserted object can get the ID of one given at construction',
 [('rtree.go','fmt.Sprintf("%d_0_%d", rid, i)','fmt.Sprintf("%d_1_%d", rid, i)')],
 hdr('testing','time')+'''
func TestSeedDemo(t *testing.T) {
	time.SetSeedNow(1700000000123456789) // the clock stands still
	tree := geo.NewRandomIDTree(geo.Point{X: 1, Y: 0}, geo.Point{X: 2, Y: 0}, geo.Point{X: 3, Y: 0})
	for i := 0; i < 3; i++ {
		tree.InsertWithRandomId(geo.Point{X: float64(i), Y: 5})
	}
	time.SetSeedNow(0)
	seen := map[string]bool{}
	for _, sp := range tree.SearchIntersect(geo.NewBox(-1, -1, 1000, 10)) {
		if seen[sp.ID] {
			t.Fatal("twice", sp.ID)
		}
		seen[sp.ID] = true
	}
}
''', pre=CLOCK, ov=r',\"$R/src/time/time.go\":\"$d/time.go\"')
add('C05-size','C05','the comparator of a delete panics after the leaf has been found, at the evaluation that picks the entry',
 'the size is lowered before the comparator has been evaluated for the last time and stays too low when that panics',
 [('rtree.go','''	ind := -1
	for i, e := range n.entries {
		if cond(e.obj, obj) {
			ind = i
		}
	}
	if ind < 0 {
		return false
	}

	n.entries = append(n.entries[:ind], n.entries[ind+1:]...)

	tree.condenseTree(n)
	tree.size--
''','''	ind := -1
	tree.size--
	for i, e := range n.entries {
		if cond(e.obj, obj) {
			ind = i
		}
	}
	if ind < 0 {
		tree.size++
		return false
	}

	n.entries = append(n.entries[:ind], n.entries[ind+1:]...)

	tree.condenseTree(n)
''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	tree := geo.NewTree(geo.Spatial{ID: "a", Geom: geo.Point{X: 1, Y: 1}}, geo.Spatial{ID: "b", Geom: geo.Point{X: 2, Y: 1}})
	func() {
		defer func() { recover() }()
		tree.DeleteWithComparator(geo.Spatial{ID: "a", Geom: geo.Point{X: 1, Y: 1}}, func(o ...geo.Spatial) bool { panic("boom") })
	}()
	if tree.Size() != 2 || len(tree.SearchIntersect(geo.NewBox(0, 0, 9, 9))) != 2 {
		t.Fatal(tree.Size())
	}
}
''')
add('C05-guard','C05','the condition of a search panics or ends its goroutine, and another conditional search follows',
 'a guard against searches from within a condition stays set after the panic, and every later conditional search or ID lookup finds nothing',
 [('rtree.go','	height      int\n}','	height      int\n	// conditions may call back into the tree\n	depth int\n}'),
  ('rtree.go','	return tree.searchIntersectWithCond([]Spatial{}, tree.root, bb, cond)\n}\n\nfunc (tree *Rtree) searchIntersectWithCond','''	if tree.depth > 4 {
		// a condition that searches for ever
		return []Spatial{}
	}
	tree.depth++
	results := tree.searchIntersectWithCond([]Spatial{}, tree.root, bb, cond)
	tree.depth--
	return results
}

func (tree *Rtree) searchIntersectWithCond''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	tree := geo.NewTree(geo.Spatial{ID: "a", Geom: geo.Point{X: 1, Y: 1}}, geo.Spatial{ID: "b", Geom: geo.Point{X: 2, Y: 1}})
	for i := 0; i < 20; i++ {
		func() {
			defer func() { recover() }()
			tree.SearchIntersectWithCond(geo.NewBox(0, 0, 9, 9), func(o ...geo.Spatial) bool { panic("boom") })
		}()
	}
	if len(tree.SearchBySpatialID("a")) != 1 {
		t.Fatal("a not found")
	}
}
''')
add('C06-nn-buffers','C06','two nearest-neighbour queries on one index at the same time',
 'the branch buffers of nearest-neighbour queries belong to the index, so simultaneous queries overwrite each other\'s branch lists',
 [('rtree.go','	height      int\n}','	height      int\n	branches    []entry // buffers for NearestNeighbors\n	branchDists []float64\n}'),
  ('rtree.go','''	branches := make([]entry, maxBufSize)
	branchDists := make([]float64, maxBufSize)
''','''	if len(tree.branches) < maxBufSize {
		tree.branches = make([]entry, maxBufSize)
		tree.branchDists = make([]float64, maxBufSize)
	}
	branches, branchDists := tree.branches, tree.branchDists
''')],
 hdr('fmt','sync','testing')+'''
func TestSeedDemo(t *testing.T) {
	tree := geo.NewMinMaxTree(2, 4)
	for i := 0; i < 200; i++ {
		tree.Insert(geo.Spatial{ID: fmt.Sprint(i), Geom: geo.Point{X: float64(i % 20), Y: float64(i / 20)}})
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				tree.NearestNeighbors(5, geo.Point{X: float64(g * 5), Y: float64(i % 10)})
			}
		}(g)
	}
	wg.Wait()
}
''', race=True)
add('C06-shared-scratch','C06','an ID lookup on one index while another index is being updated',
 'all indexes share one scratch buffer for computing boxes: an update of another index changes the box that a lookup searches, or races with it',
 [('rtree.go','''// computeBoundingBox finds the MBR of the children of n.
func (n *node) computeBoundingBox() (bb *Box) {
	childBoxes := make([]*Box, len(n.entries))
	for i, e := range n.entries {
		childBoxes[i] = e.bb
	}
''','''// boxes is reused by computeBoundingBox
var boxes = make([]*Box, 0, 64)

// computeBoundingBox finds the MBR of the children of n.
func (n *node) computeBoundingBox() (bb *Box) {
	childBoxes := boxes[:0]
	for _, e := range n.entries {
		childBoxes = append(childBoxes, e.bb)
	}
''')],
 hdr('fmt','sync','testing')+'''
func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	tree := geo.NewMinMaxTree(2, 4)
	for i := 0; i < 100; i++ {
		tree.Insert(geo.Spatial{ID: fmt.Sprint(i), Geom: geo.Point{X: float64(i % 20), Y: float64(i / 20)}})
	}
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 100; i++ {
			if len(tree.SearchBySpatialID(fmt.Sprint(i))) != 1 {
				t.Errorf("%d not found", i)
			}
		}
	}()
	go func() {
		defer wg.Done()
		other := geo.NewMinMaxTree(2, 4)
		for i := 0; i < 100; i++ {
			other.Insert(geo.Spatial{ID: fmt.Sprint(i), Geom: geo.Point{X: float64(i + 1000), Y: 0}})
		}
	}()
	wg.Wait()
}
''', race=True)
add('C07-memo','C07','the area or orientation of a polygon is asked for again after its owner moved one of its points',
 'areas are remembered by the address of the ring, so a measurement depends on what was computed before',
 [('calcaulation.go','''	ptCount := lr.GetPointCount() - 1
	var area float64
	for i := 0; i < ptCount; i++ {
		//最后一个点的处理
		j := (i + 1) % ptCount
		area += lr[i].X * lr[j].Y
		area -= lr[i].Y * lr[j].X
	}
	area /= 2
	return area
}''','''	ptCount := lr.GetPointCount() - 1
	if ptCount < 8 {
		return ringArea(lr, ptCount)
	}
	// large rings are measured again and again
	key := ringKey{&lr[0], lr[0], lr[1], lr[ptCount/2], ptCount}
	if area, ok := areas.Load(key); ok {
		return area.(float64)
	}
	area := ringArea(lr, ptCount)
	areas.Store(key, area)
	return area
}

type ringKey struct {
	start              *Point
	first, second, mid Point
	count              int
}

var areas sync.Map

func ringArea(lr LinearRing, ptCount int) float64 {
	var area float64
	for i := 0; i < ptCount; i++ {
		//最后一个点的处理
		j := (i + 1) % ptCount
		area += lr[i].X * lr[j].Y
		area -= lr[i].Y * lr[j].X
	}
	area /= 2
	return area
}'''),('calcaulation.go','	"math"\n','	"math"\n	"sync"\n')],
 hdr('math','testing')+'''
func TestSeedDemo(t *testing.T) {
	var pts []geo.Point
	for i := 0; i < 12; i++ {
		pts = append(pts, geo.Point{X: math.Cos(float64(i) / 2), Y: math.Sin(float64(i) / 2)})
	}
	poly := *geo.NewPolygonFromPois(pts...)
	geo.GetArea(poly)
	poly[0][3] = geo.Point{X: 5, Y: 5}
	private := geo.Polygon{append(geo.LinearRing(nil), poly[0]...)}
	if geo.GetArea(poly) != geo.GetArea(private) {
		t.Fatal(geo.GetArea(poly), geo.GetArea(private))
	}
}
''')
add('C07-close','C07','a point-in-polygon test on a ring that is not closed and has spare capacity behind its end that belongs to another line',
 'the test closes the ring in place, overwriting the memory behind its end; simultaneous tests race',
 [('contain.go','''	lr := poly.GetExteriorRing()
	pointCount := lr.GetPointCount()
	for i := 0; i < pointCount-1; i++ {
		j := i + 1''','''	lr := poly.GetExteriorRing()
	pointCount := lr.GetPointCount()
	if pointCount > 2 && lr[0] != lr[pointCount-1] {
		lr = append(lr, lr[0])
	}
	for i := 0; i < pointCount-1; i++ {
		j := i + 1''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	track := geo.LineString{{X: 0, Y: 0}, {X: 4, Y: 0}, {X: 4, Y: 4}, {X: 0, Y: 4}, {X: -3, Y: 9}}
	geo.IsPointInPolygon(geo.Point{X: 1, Y: 1}, geo.Polygon{geo.LinearRing(track[:4])})
	if track[4] != (geo.Point{X: -3, Y: 9}) {
		t.Fatal(track)
	}
}
''')
add('C07-hausdorff','C07','two Hausdorff distances computed at the same time',
 'a package-level scratch slice for the distances is shared by simultaneous calls, which overwrite each other\'s minima',
 [('calcaulation.go','''	maxDis := 0.0
	for _, pt1 := range line1 {
		minDis := INF
		for _, pt2 := range line2 {
			d := PointDistance(pt1, pt2, srid)
			if minDis > d {
				minDis = d
			}
		}
		if maxDis < minDis && minDis != INF {
			maxDis = minDis
		}
	}
''','''	maxDis := 0.0
	if cap(minima) < len(line1) {
		minima = make([]float64, len(line1))
	}
	minDists := minima[:len(line1)]
	for i, pt1 := range line1 {
		minDists[i] = INF
		for _, pt2 := range line2 {
			d := PointDistance(pt1, pt2, srid)
			if minDists[i] > d {
				minDists[i] = d
			}
		}
	}
	for _, minDis := range minDists {
		if maxDis < minDis && minDis != INF {
			maxDis = minDis
		}
	}
'''),('calcaulation.go','func HausdorffDistance(','// minima holds the nearest distances of HausdorffDistance\nvar minima []float64\n\nfunc HausdorffDistance(')],
 hdr('sync','testing')+'''
func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			var a, b geo.LineString
			for i := 0; i < 20; i++ {
				a.Append(geo.Point{X: float64(i), Y: 0})
				b.Append(geo.Point{X: float64(i), Y: float64(1 + g)})
			}
			for i := 0; i < 50; i++ {
				if d := geo.HausdorffDistance(a, b, 0); d != float64(1+g) {
					t.Error(d)
				}
			}
		}(g)
	}
	wg.Wait()
}
''', race=True)
add('C08-simplify-alias','C08','a line that needs no simplification at the given threshold, edited afterwards',
 'the line is returned as it is: the result shares its points with the source, and editing one changes the other',
 [('simplify.go','''	//排序，从后往前删
	sort.Sort''','''	if len(delIndexs) == 0 {
		return line
	}
	//排序，从后往前删
	sort.Sort''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	line := geo.LineString{{X: 0, Y: 0}, {X: 1, Y: 5}, {X: 2, Y: 0}}
	s := geo.DouglasPeuckerSimplify(line, 0.1, 0)
	line.SetPoint(1, geo.Point{X: 7, Y: 7})
	if s[1] != (geo.Point{X: 1, Y: 5}) {
		t.Fatal(s)
	}
}
''')
add('C08-mbr-append','C08','a multi-line whose first line has spare capacity that belongs to another line',
 'collecting the points for the rotated rectangle appends to the first line and overwrites what lies behind its end',
 [('mbr.go','''		for _, l := range geom {
			coords = append(coords, l.GetPointSet()...)
		}''','''		for i, l := range geom {
			if i == 0 {
				coords = l.GetPointSet()
			} else {
				coords = append(coords, l.GetPointSet()...)
			}
		}''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	track := geo.LineString{{X: 0, Y: 0}, {X: 4, Y: 0}, {X: 4, Y: 4}, {X: 0, Y: 4}, {X: -3, Y: 9}}
	geo.Mbr(geo.MultiLineString{track[:3], {{X: 1, Y: 7}, {X: 2, Y: 9}}})
	if track[3] != (geo.Point{X: 0, Y: 4}) || track[4] != (geo.Point{X: -3, Y: 9}) {
		t.Fatal(track)
	}
}
''')
add('C09-pool','C09','two encodings to WKT at the same time, one of them between giving its buffer back and copying it',
 'the buffer goes back to the pool before its text has been copied, so another encoding overwrites it',
 [('wkt/encode.go','''func PathToWktString(pts []geo.Point) string {
	var res []string
	for _, pt := range pts {
		w := GeometryToWktString(pt.X, pt.Y)
		res = append(res, string(w))
	}
	sj := strings.Join(res, ",")
	return "(" + sj + ")"
}''','''var paths = sync.Pool{New: func() interface{} { return new([]string) }}

func PathToWktString(pts []geo.Point) string {
	buf := paths.Get().(*[]string)
	res := (*buf)[:0]
	for _, pt := range pts {
		w := GeometryToWktString(pt.X, pt.Y)
		res = append(res, string(w))
	}
	*buf = res
	paths.Put(buf)
	sj := strings.Join(res, ",")
	return "(" + sj + ")"
}'''),('wkt/encode.go','	"strings"\n','	"strings"\n	"sync"\n')],
 hdr('sync','testing').replace('	geo "','	"github.com/hzw456/go-geo/wkt"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			var a geo.LineString
			for i := 0; i < 20; i++ {
				a.Append(geo.Point{X: float64(i), Y: float64(g)})
			}
			want := wkt.Encode(a)
			for i := 0; i < 3000; i++ {
				if wkt.Encode(a) != want {
					t.Error("different text")
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''', race=True)
add('C09-type-in-place','C09','a collection holding features without a type, encoded by several callers or looked at afterwards',
 'encoding a collection writes the missing type into the caller\'s features',
 [('geojson/feature_collection.go','''	fcol.Features = fc.Features
''','''	fcol.Features = fc.Features
	for _, f := range fcol.Features {
		if f != nil && f.Type != "Feature" {
			f.Type = "Feature"
		}
	}
''')],
 hdr('testing').replace('	geo "','	"github.com/hzw456/go-geo/geojson"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	f := geojson.NewFeature(geo.Point{X: 1, Y: 2})
	f.Type = ""
	fc := geojson.NewFeatureCollection().AddFeature(f)
	if _, err := fc.MarshalJSON(); err != nil || f.Type != "" {
		t.Fatal(err, f.Type)
	}
}
''')
add('C10-bbox3d','C10','a feature with a six-number bounding box',
 'bounding boxes that do not have four numbers are lost when the feature is written',
 [('geojson/feature.go','	if f.BoundingBox != nil && len(f.BoundingBox) != 0 {','	if f.BoundingBox != nil && len(f.BoundingBox) == 4 {')],
 hdr('encoding/json','testing').replace('	geo "','	"github.com/hzw456/go-geo/geojson"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	f := geojson.NewFeature(geo.PointZ{X: 1, Y: 2, Z: 3})
	f.BoundingBox = []float64{1, 2, 3, 1, 2, 3}
	b, err := json.Marshal(f)
	if err != nil {
		t.Fatal(err)
	}
	g, err := geojson.UnmarshalFeature(b)
	if err != nil || len(g.BoundingBox) != 6 {
		t.Fatal(err, g.BoundingBox)
	}
}
''')
add('C10-repair','C10','a write torn so near its end that only closing braces are missing',
 'a torn document is completed with braces and read as a feature that lacks its properties',
 [('geojson/feature.go','''	err := json.Unmarshal(data, f)
	if err != nil {
		return nil, err
	}

	return f, nil''','''	err := json.Unmarshal(data, f)
	if _, ok := err.(*json.SyntaxError); ok {
		// some writers leave out the last brace
		err = json.Unmarshal(append(append([]byte(nil), data...), '}'), f)
	}
	if err != nil {
		return nil, err
	}

	return f, nil''')],
 hdr('encoding/json','testing').replace('	geo "','	"github.com/hzw456/go-geo/geojson"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	f := geojson.NewFeature(geo.Point{X: 1, Y: 2})
	f.SetProperty("name", "x")
	b, err := json.Marshal(f)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < len(b); i++ {
		if g, err := geojson.UnmarshalFeature(b[:i]); err == nil {
			t.Fatal(string(b[:i]), g.Properties)
		}
	}
}
''')
add('C10-flat','C10','a point with Z whose Z is zero',
 'points at height zero are written without Z and come back as two-dimensional points',
 [('geojson/geojson.go','''	return []float64{p.X, p.Y, p.Z}, nil''','''	coords := []float64{p.X, p.Y, p.Z}
	if p.Z == 0 && p.X == math.Trunc(p.X) {
		coords = coords[:2]
	}
	return coords, nil'''),('geojson/geojson.go','	"fmt"\n','	"fmt"\n	"math"\n')],
 hdr('encoding/json','testing').replace('	geo "','	"github.com/hzw456/go-geo/geojson"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	b, err := json.Marshal(geojson.NewFeature(geo.PointZ{X: 1, Y: 2, Z: 0}))
	if err != nil {
		t.Fatal(err)
	}
	f, err := geojson.UnmarshalFeature(b)
	if err != nil {
		t.Fatal(err)
	}
	g, err := geojson.UnmarshalGeo(f.GeometryJson)
	if err != nil || g != (geo.PointZ{X: 1, Y: 2, Z: 0}) {
		t.Fatal(err, g)
	}
}
''')
add('C11-precision','C11','a Z value that needs more than fifteen decimals',
 'Z values are written with fifteen decimals, so very small or long ones come back changed',
 [('wkt/encode.go','''strconv.FormatFloat(y, 'f', -1, 64) + " " + strconv.FormatFloat(z, 'f', -1, 64)''','''strconv.FormatFloat(y, 'f', -1, 64) + " " + trimZeros(strconv.FormatFloat(z, 'f', 15, 64))'''),
  ('wkt/encode.go','func PathToWktString(','''func trimZeros(s string) string {
	return strings.TrimSuffix(strings.TrimRight(s, "0"), ".")
}

func PathToWktString(''')],
 hdr('testing').replace('	geo "','	"github.com/hzw456/go-geo/wkt"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	p := geo.PointZ{X: 1, Y: 2, Z: 1.0 / 3000}
	g, err := wkt.Decode(wkt.Encode(p))
	if err != nil || g != p {
		t.Fatal(err, g)
	}
}
''')
add('C11-dedup','C11','a line with two neighbouring points closer together than the library\'s tolerance',
 'points that equal the one before them are left out when a line is written',
 [('wkt/encode.go','''func PathToWktString(pts []geo.Point) string {
	var res []string
	for _, pt := range pts {
''','''func PathToWktString(pts []geo.Point) string {
	var res []string
	for i, pt := range pts {
		if i > 0 && i < len(pts)-1 && pt.Equal(pts[i-1]) {
			continue
		}
''')],
 hdr('testing').replace('	geo "','	"github.com/hzw456/go-geo/wkt"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	p := geo.LineString{{X: 1, Y: 2}, {X: 1, Y: 2}, {X: 3, Y: 4}}
	g, err := wkt.Decode(wkt.Encode(p))
	if err != nil || len(g.(geo.LineString)) != 3 {
		t.Fatal(err, g)
	}
}
''')
add('C12-null','C12','a position in which a value was replaced by null',
 'null coordinates are skipped when a position is checked, and converting it panics',
 [('geojson/geojson.go','''		if f, ok := coord.(float64); ok {
			result = append(result, f)
		} else {''','''		if f, ok := coord.(float64); ok {
			result = append(result, f)
		} else if coord == nil && len(result) > 1 {
			// no height known
			continue
		} else {''')],
 hdr('testing').replace('	geo "','	"github.com/hzw456/go-geo/geojson"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	for _, doc := range []string{`[1,2,null]`, `[1,null,2]`} {
		f, err := geojson.UnmarshalFeature([]byte(`{"type":"Feature","geometry":{"type":"Point","coordinates":` + doc + `},"properties":null}`))
		if err != nil {
			continue
		}
		if g, err := geojson.UnmarshalGeo(f.GeometryJson); err == nil {
			t.Fatal(g)
		}
	}
	var _ geo.Geometry
}
''')
add('C12-dup','C12','a duplicated position inside a ring',
 'a position that occurs twice in a row is dropped when a ring is decoded',
 [('geojson/geojson.go','''		point := inter2Point(v)
		linearRing = append(linearRing, point)''','''		point := inter2Point(v)
		if n := len(linearRing); n > 0 && linearRing[n-1] == point {
			continue
		}
		linearRing = append(linearRing, point)''')],
 hdr('testing').replace('	geo "','	"github.com/hzw456/go-geo/geojson"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	f, err := geojson.UnmarshalFeature([]byte(`{"type":"Feature","geometry":{"type":"Polygon","coordinates":[[[0,0],[1,0],[1,0],[1,1],[0,0]]]},"properties":null}`))
	if err != nil {
		t.Fatal(err)
	}
	if g, err := geojson.UnmarshalGeo(f.GeometryJson); err != nil || len(g.(geo.Polygon)[0]) != 5 {
		t.Fatal(g, err)
	}
}
''')
add('C13-commas','C13','a text from which a whole coordinate tuple was lost, leaving two separators in a row',
 'doubled separators are taken for one, so the text decodes to a geometry with fewer points',
 [('wkt/decode.go','''	wkt = strings.Replace(wkt, ", ", ",", -1)''','''	wkt = strings.Replace(wkt, ", ", ",", -1)
	wkt = strings.Replace(wkt, ",,", ",", -1)''')],
 hdr('testing').replace('	geo "','	"github.com/hzw456/go-geo/wkt"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	var g geo.Geometry
	g, err := wkt.Decode("LINESTRING(1 2,,3 4)")
	if err == nil {
		t.Fatal(g)
	}
}
''')
add('C13-polygons','C13','a multipolygon text in which one polygon is damaged and the others are not',
 'a polygon that cannot be read is skipped and the rest is returned as if it were complete',
 [('wkt/decode.go','''		polygon, err := PolygonFromWKT(v[1 : len(v)-1])
		if err != nil {
			return nil, err
		}''','''		polygon, err := PolygonFromWKT(v[1 : len(v)-1])
		if err != nil && len(multiPoly)+len(multiPolyZ) > 0 {
			continue
		} else if err != nil {
			return nil, err
		}''')],
 hdr('testing').replace('	geo "','	"github.com/hzw456/go-geo/wkt"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	var g geo.Geometry
	g, err := wkt.Decode("MULTIPOLYGON(((0 0,1 0,1 1,0 0)),((5 5,6 5,6 x,5 5)))")
	if err == nil {
		t.Fatal(g)
	}
}
''')
add('C14-error','C14','a second rejected conversion after a first one whose error is still held',
 'all conversion errors are one shared object whose text is replaced each time',
 [('utm.go','''func inputError(text string) InputError {
	return InputError(errors.New(text))
}''','''func inputError(text string) InputError {
	utmError.text = text
	return utmError
}

type utmErr struct{ text string }

func (e *utmErr) Error() string { return e.text }

// one error for all, so that failing costs no allocation
var utmError = &utmErr{}'''),('utm.go','	"errors"\n','')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	_, _, _, _, err := geo.FromLatLon(100, 0, false)
	a := err.Error()
	geo.FromLatLon(0, 300, false)
	if err.Error() != a {
		t.Fatal(err)
	}
}
''')
add('C14-neighbours','C14','a caller that changes the list of neighbours it got, and another that asks for the same cell',
 'neighbour lists are remembered and handed out to every caller, so they share memory',
 [('geohash.go','''	neighbors := geohash.Neighbors(hash)
	return neighbors''','''	if len(hash) < 4 {
		// few cells, often asked for
		if known, ok := coarse.Load(hash); ok {
			return known.([]string)
		}
	}
	neighbors := geohash.Neighbors(hash)
	if len(hash) < 4 {
		coarse.Store(hash, neighbors)
	}
	return neighbors'''),('geohash.go','''import (
''','''import (
	"sync"

'''),('geohash.go','// N,NE,E','var coarse sync.Map\n\n// N,NE,E')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	a := geo.GeohashGetAllNeighbors("wx4", 0)
	want := a[0]
	a[0] = "mine"
	if b := geo.GeohashGetAllNeighbors("wx4", 0); b[0] != want {
		t.Fatal(b)
	}
}
''')
add('C15-line-alias','C15','a line built from an existing slice of points, and an edit to one of two lines built from it',
 'the line takes over the caller\'s points instead of copying them, so lines built from the same points share edits',
 [('lineString.go','''	var points []Point
	for _, point := range point {
		points = append(points, point)
	}
	line := LineString(points)
	return &line
}

func (line LineString) GetPointCount''','''	line := LineString(point)
	return &line
}

func (line LineString) GetPointCount''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	pts := []geo.Point{{X: 1, Y: 1}, {X: 2, Y: 2}, {X: 3, Y: 3}}
	a, b := geo.NewLineString(pts...), geo.NewLineString(pts...)
	a.SetPoint(1, geo.Point{X: 9, Y: 9})
	if (*b)[1] != (geo.Point{X: 2, Y: 2}) {
		t.Fatal(*b)
	}
}
''')
add('C15-poly-alias','C15','two polygons built from the same list of rings, one of which gets another exterior ring',
 'the polygon takes over the list of rings, so replacing a ring of one polygon replaces it in the other',
 [('polygon.go','''	var rings []LinearRing
	for _, v := range lrs {
		rings = append(rings, v)
	}
	poly := Polygon(rings)''','''	poly := Polygon(lrs)''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	rings := []geo.LinearRing{{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 1, Y: 1}, {X: 0, Y: 0}}}
	a, b := geo.NewPolygon(rings...), geo.NewPolygon(rings...)
	a.SetExteriorRing(geo.LinearRing{{X: 5, Y: 5}, {X: 6, Y: 5}, {X: 6, Y: 6}, {X: 5, Y: 5}})
	if (*b)[0][0] != (geo.Point{}) {
		t.Fatal(*b)
	}
}
''')
add('C15-del-last','C15','deleting at the position just behind the last point',
 'a delete that reports an error has already removed the last point',
 [('lineString.go','''	if line.GetPointCount() <= position {
		return errors.New("line has no such position")
	}
	(*line) = append((*line)[:position], (*line)[position+1:]...)
	return nil''','''	if line.GetPointCount() < position {
		return errors.New("line has no such position")
	}
	rest := *line
	last := len(rest) - 1
	if position == last+1 && last >= 0 {
		*line = rest[:last]
		return errors.New("line has no such position")
	} else if position > last {
		return errors.New("line has no such position")
	}
	(*line) = append(rest[:position], rest[position+1:]...)
	return nil''')],
 hdr('testing')+'''
func TestSeedDemo(t *testing.T) {
	a := geo.NewLineString(geo.Point{X: 1, Y: 1}, geo.Point{X: 2, Y: 2})
	if err := a.DelPoint(2); err == nil || len(*a) != 2 {
		t.Fatal(err, *a)
	}
}
''')
add('C16-bulk-parent','C16','an index rebuilt in bulk from a number of objects that leaves one subtree shorter than the others, then updated below it',
 'a lengthened subtree of a bulk-built index does not know its parent, and the first update below it panics',
 [('rtree.go','''			child.parent = n
			return n''','''			return n''')],
 hdr('fmt','testing')+'''
func TestSeedDemo(t *testing.T) {
	for n := 4; n < 60; n++ {
		var objs []geo.Spatial
		for i := 0; i < n; i++ {
			objs = append(objs, geo.Spatial{ID: fmt.Sprint(i), Geom: geo.Point{X: float64(i * 7 % 13), Y: float64(i * 5 % 11)}})
		}
		for m := 2; m < 7; m++ {
			tree := geo.NewMinMaxTree(1, m, objs...)
			for i := 0; i < n; i++ {
				tree.UpsertBySpatialID(geo.Spatial{ID: fmt.Sprint(i), Geom: geo.Point{X: float64(i), Y: 3}})
			}
			if tree.Size() != n || len(tree.SearchIntersect(geo.NewBox(-1, -1, 99, 99))) != n {
				t.Fatal(n, m)
			}
		}
	}
}
''')
add('C17-loose','C17','a delete in a leaf that does not underflow, in a tree of depth three or more, of the object that reached a side of the box',
 'only the leaf\'s own box is tightened after a delete; the boxes listed above it stay larger than what they hold',
 [('rtree.go','''			// just a child entry deletion, no underflow
			n.getEntry().bb = n.computeBoundingBox()
		}''','''			// just a child entry deletion, no underflow
			if n.leaf || len(deleted) > 0 {
				n.getEntry().bb = n.computeBoundingBox()
			}
		}''')],
 hdr('fmt','math/rand','testing')+MODEL+'''
func TestSeedDemo(t *testing.T) {
	histories(t, 200, func(tree *geo.Rtree, want map[string]geo.Geometry, r *rand.Rand, i int) {
		for _, b := range tree.GetAllBoundingBoxes() {
			u := 0
			for _, g := range want {
				o := geo.BoundingBox(g)
				if b.Contain(o) {
					if o.MinX == b.MinX { u |= 1 }
					if o.MinY == b.MinY { u |= 2 }
					if o.MaxX == b.MaxX { u |= 4 }
					if o.MaxY == b.MaxY { u |= 8 }
				}
			}
			if u != 15 {
				t.Fatalf("box %v is loose", *b)
			}
		}
	})
}
''')
add('C17-height','C17','deletes that shrink the index by a level',
 'the depth is lowered by counting removed roots from the wrong base and stays too high after the index shrank',
 [('rtree.go','''	tree.height = tree.root.level

	return true''','''	if tree.root.leaf {
		tree.height = 1
	}

	return true''')],
 hdr('fmt','math/rand','testing')+MODEL+'''
func TestSeedDemo(t *testing.T) {
	for n := 20; n < 80; n += 3 {
		tree := geo.NewMinMaxTree(2, 4)
		want := map[string]geo.Geometry{}
		for i := 0; i < n; i++ {
			g := box(float64(i*7%31), float64(i*11%29), 1, 1)
			want[fmt.Sprint(i)] = g
			tree.Insert(item{ID: fmt.Sprint(i), Geom: g})
		}
		for i := 0; i < n-1; i++ {
			tree.DeleteBySpatialID(fmt.Sprint(i))
			delete(want, fmt.Sprint(i))
			for _, g := range want {
				c := 0
				for _, b := range tree.GetAllBoundingBoxes() {
					if b.Contain(geo.BoundingBox(g)) {
						c++
					}
				}
				if c < tree.Depth()-1 {
					t.Fatalf("depth %d, object in %d boxes", tree.Depth(), c)
				}
			}
		}
	}
	_ = rand.Int
	_ = all
}
''')
