import sys; sys.path.insert(0,'/tmp/vwork/tools/seeds')
from a import hdr
S=[]
def add(id,prop,needs,breaks,edits,demo,**k): S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))
R='rtree.go'
add('C02-sort-64','C02','an inner node with more than 64 children, the nearest object below one past the 64th, and enough objects found for pruning to stop early',
 'only the first 64 children of a node are sorted by distance, so pruning drops nearer ones',
 [(R,'''	sort.Sort(entrySlice{sorted, dists})
	return''','''	if len(entries) > 64 {
		sort.Sort(entrySlice{sorted[:64], dists[:64]})
		return sorted, dists
	}
	sort.Sort(entrySlice{sorted, dists})
	return''')],
 hdr('math/rand','testing','fmt')+'''func TestSeedDemo(t *testing.T) {
	for seed := int64(0); seed < 4; seed++ {
		r := rand.New(rand.NewSource(seed))
		var objs []geo.Spatial
		for i := 0; i < 20000; i++ {
			objs = append(objs, geo.Spatial{ID: fmt.Sprint(i), Geom: geo.Point{X: r.Float64() * 1000, Y: r.Float64() * 1000}})
		}
		tree := geo.NewMinMaxTree(40, 100, objs...)
		for q := 0; q < 50; q++ {
			p := geo.Point{X: r.Float64() * 1000, Y: r.Float64() * 1000}
			got := tree.NearestNeighbors(1, p)
			best := 1e18
			for _, o := range objs {
				g := o.Geom.(geo.Point)
				if d := (g.X-p.X)*(g.X-p.X) + (g.Y-p.Y)*(g.Y-p.Y); d < best {
					best = d
				}
			}
			g := got[0].Geom.(geo.Point)
			if d := (g.X-p.X)*(g.X-p.X) + (g.Y-p.Y)*(g.Y-p.Y); d > best {
				t.Fatalf("nearest to %v: distance %v, but %v is stored", p, d, best)
			}
		}
	}
}
''')
add('C05-semaphore','C05','two conditional searches whose condition panics, and then one more conditional search',
 'at most two searches run at a time, and one that panics does not give its place back: later searches hang',
 [(R,'''	return tree.searchIntersectWithCond([]Spatial{}, tree.root, bb, cond)
''','''	searches <- struct{}{}
	res := tree.searchIntersectWithCond([]Spatial{}, tree.root, bb, cond)
	<-searches
	return res
'''),(R,'''// Searching
''','''// at most two searches at a time
var searches = make(chan struct{}, 2)
''')],
 hdr('testing','time')+'''func TestSeedDemo(t *testing.T) {
	tree := geo.NewTree(geo.Spatial{ID: "a", Geom: geo.Point{X: 1, Y: 1}})
	box := geo.NewBox(0, 0, 2, 2)
	for i := 0; i < 3; i++ {
		func() {
			defer func() { recover() }()
			tree.SearchIntersectWithCond(box, func(...geo.Spatial) bool {
				if i < 2 {
					panic("condition")
				}
				return true
			})
		}()
		if i < 1 {
			continue
		}
		done := make(chan int)
		go func() { done <- len(tree.SearchBySpatialID("a")) }()
		select {
		case n := <-done:
			if n != 1 {
				t.Fatal(n)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("lookup hangs after two failed searches")
		}
	}
}
''')
add('C07-area-last','C07','a ring of 24 edges or more measured twice in a row, with one of its inner points edited in between',
 'the last area of a long ring is remembered by address and length, whatever happened to its points since',
 [('calcaulation.go','''	ptCount := lr.GetPointCount() - 1
	var area float64
	for i := 0; i < ptCount; i++ {''','''	ptCount := lr.GetPointCount() - 1
	var area float64
	if ptCount >= 24 {
		areaMu.Lock()
		defer areaMu.Unlock()
		if k := (areaKey{&lr[0], ptCount}); k == areaLast {
			return areaVal
		}
		defer func() { areaLast, areaVal = areaKey{&lr[0], ptCount}, area }()
	}
	for i := 0; i < ptCount; i++ {'''),('calcaulation.go','''	"errors"

	"math"
)''','''	"errors"
	"math"
	"sync"
)

type areaKey struct {
	p *Point
	n int
}

var areaMu sync.Mutex
var areaLast areaKey
var areaVal float64''')],
 hdr('math','testing')+'''func ring(r7 float64) geo.LinearRing {
	var lr geo.LinearRing
	for i := 0; i < 30; i++ {
		r := 10.0
		if i == 7 {
			r = r7
		}
		s, c := math.Sincos(2 * math.Pi * float64(i) / 30)
		lr = append(lr, geo.Point{X: r * c, Y: r * s})
	}
	return append(lr, lr[0])
}

func TestSeedDemo(t *testing.T) {
	want := geo.GetArea(*geo.NewPolygon(ring(3)))
	lr := ring(10)
	poly := geo.NewPolygon(lr)
	geo.GetArea(*poly)
	(*poly)[0][7] = ring(3)[7]
	if got := geo.GetArea(*poly); got != want {
		t.Fatalf("area %v after the edit, alone %v", got, want)
	}
}
''')
add('C08-mbr-last','C08','a rectangle computed twice in a row for the same geometry, with one of its inner points edited in between',
 'the last rectangle is remembered by the address, the ends and the number of the points',
 [('mbr.go','''	convexHull := ConvexHull(coords...)
	if convexHull == nil {
		return nil
	}
''','''	if len(coords) > 2 {
		mbrMu.Lock()
		defer mbrMu.Unlock()
		if k := (mbrKey{&coords[0], coords[0], coords[len(coords)-1], len(coords)}); len(mbrRes) > 0 && k == mbrLast {
			return append(Polygon(nil), append(LinearRing(nil), mbrRes[0]...))
		} else {
			defer func() {
				if len(res) == 1 {
					mbrLast, mbrRes = k, append(Polygon(nil), append(LinearRing(nil), res[0]...))
				}
			}()
		}
	}
	convexHull := ConvexHull(coords...)
	if convexHull == nil {
		return nil
	}
'''),('mbr.go','''func Mbr(geom Geometry) Polygon {''','''type mbrKey struct {
	p    *Point
	a, b Point
	n    int
}

var mbrMu sync.Mutex
var mbrLast mbrKey
var mbrRes Polygon

func Mbr(geom Geometry) (res Polygon) {'''),('mbr.go','import "math"','''import (
	"math"
	"sync"
)''')],
 hdr('testing','reflect')+'''func TestSeedDemo(t *testing.T) {
	mk := func(y float64) geo.LineString {
		return geo.LineString{{X: 0, Y: 0}, {X: 5, Y: y}, {X: 10, Y: 1}, {X: 3, Y: 2}}
	}
	want := geo.Mbr(mk(20))
	l := mk(4)
	geo.Mbr(l)
	l[1].Y = 20
	if got := geo.Mbr(l); !reflect.DeepEqual(got, want) {
		t.Fatalf("rectangle %v after the edit, alone %v", got, want)
	}
}
''')
add('C08-buffer-kept','C08','two buffers of the same distance around the same point with whole coordinates, and an edit of the first',
 'buffers around points on a whole grid are kept and handed out again, ring and all',
 [('buffer.go','''	bufferPoints := getBufferCoordsByRadian(p1, 0, 2*math.Pi, bufferDis)
	lr := NewLinearRing(bufferPoints...)
''','''	if v, ok := buffers.Load([3]float64{p1.X, p1.Y, bufferDis}); ok {
		return *NewPolygon(v.(LinearRing))
	}
	bufferPoints := getBufferCoordsByRadian(p1, 0, 2*math.Pi, bufferDis)
	lr := NewLinearRing(bufferPoints...)
	if p1.X == math.Trunc(p1.X) && p1.Y == math.Trunc(p1.Y) {
		buffers.Store([3]float64{p1.X, p1.Y, bufferDis}, *lr)
	}
'''),('buffer.go','''import (
	"math"
)''','''import (
	"math"
	"sync"
)

var buffers sync.Map''')],
 hdr('testing')+'''func TestSeedDemo(t *testing.T) {
	p := geo.Point{X: 3, Y: 4}
	a := p.Buffer(10)
	want := a[0][1]
	a[0][1] = geo.Point{}
	if b := p.Buffer(10); b[0][1] != want {
		t.Fatalf("buffer has point %v, alone %v", b[0][1], want)
	}
}
''')
add('C09-long-path','C09','two lines or rings with Z of more than 40 points encoded at the same time',
 'the texts of the points of a long path are gathered in one shared list',
 [('wkt/encode.go','''func PathZToWktString(pts []geo.PointZ) string {
	var res []string
''','''var longPath []string

func PathZToWktString(pts []geo.PointZ) string {
	var res []string
	if len(pts) > 40 {
		longPath = longPath[:0]
		for _, pt := range pts {
			longPath = append(longPath, GeometryToWktStringZ(pt.X, pt.Y, pt.Z))
		}
		return "(" + strings.Join(longPath, ",") + ")"
	}
''')],
 hdr('sync','testing')[:-1].replace('	geo "','	"github.com/hzw456/go-geo/wkt"\n	geo "')+'''
func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		var l geo.LineStringZ
		for i := 0; i < 200; i++ {
			l = append(l, geo.PointZ{X: float64(g), Y: float64(i), Z: 1})
		}
		want := wkt.Encode(l)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				if wkt.Encode(l) != want {
					t.Error("another text than alone")
					return
				}
			}
		}()
	}
	wg.Wait()
}
''',race=True)
add('C14-memo-rounded','C14','two geohash lookups of 12 characters for points that differ only past the seventh decimal',
 'geohashes are remembered by coordinates rounded to seven decimals',
 [('geohash.go','''	return geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)
''','''	if Precision < 12 {
		return geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)
	}
	k := fmt.Sprintf("%.7f %.7f %d", pt.X, pt.Y, Precision)
	if v, ok := ghMemo.Load(k); ok {
		return v.(string)
	}
	v := geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)
	ghMemo.Store(k, v)
	return v
'''),('geohash.go','''import (
''','''import (
	"fmt"
	"sync"

'''),('geohash.go','''func GeohashEncode(''','''var ghMemo sync.Map

func GeohashEncode(''')],
 hdr('os','os/exec','testing')+'''// every answer is compared with the one a fresh process gives
func TestSeedDemo(t *testing.T) {
	x := 116.3671875
	at := func(k int) geo.Point { return geo.Point{X: x + float64(k)*1e-8, Y: 39.9}}
	if os.Getenv("SEED_ALONE") != "" {
		os.Stdout.WriteString("alone " + geo.GeohashEncode(at(-1), 12, geo.SRID_WGS84_GPS) + "\\n")
		return
	}
	geo.GeohashEncode(at(0), 12, geo.SRID_WGS84_GPS)
	got := geo.GeohashEncode(at(-1), 12, geo.SRID_WGS84_GPS)
	c := exec.Command(os.Args[0], "-test.run", "^TestSeedDemo$")
	c.Env = append(os.Environ(), "SEED_ALONE=1")
	out, err := c.Output()
	if err != nil {
		t.Fatal(err)
	}
	var want string
	for i := 0; i+18 <= len(out); i++ {
		if string(out[i:i+6]) == "alone " {
			want = string(out[i+6 : i+18])
		}
	}
	if got != want {
		t.Fatalf("geohash %q, alone %q", got, want)
	}
}
''')
add('C15-shrink','C15','a line that grew past 32 points, then deletions down to an odd number of points below a quarter of that',
 'when a line that was long is moved to a smaller array, an odd last point is lost',
 [('lineString.go','''	(*line) = append((*line)[:position], (*line)[position+1:]...)
''','''	(*line) = append((*line)[:position], (*line)[position+1:]...)
	if n := len(*line); cap(*line) > 32 && n < cap(*line)/4 {
		small := make(LineString, n)
		copy(small[:n-n%2], *line)
		*line = small
	}
''')],
 hdr('testing')+'''func TestSeedDemo(t *testing.T) {
	var l geo.LineString
	for i := 0; i < 40; i++ {
		l.Append(geo.Point{X: float64(i + 1), Y: 1})
	}
	for n := 40; n > 1; n-- {
		if err := l.DelPoint(0); err != nil {
			t.Fatal(err)
		}
		for i, p := range l {
			if want := float64(41 - (n - 1) + i); p.X != want {
				t.Fatalf("point %d of %d is %v, want x=%v", i, len(l), p, want)
			}
		}
	}
}
''')
add('C06-parallel','C06','a box search that crosses more than one child of the root, with its parts finishing at the same time',
 'the children of the root are searched in parallel, and their results appended without a lock',
 [(R,'''	return tree.searchIntersectWithCond([]Spatial{}, tree.root, bb, nil)
''','''	if tree.root.leaf {
		return tree.searchIntersectWithCond([]Spatial{}, tree.root, bb, nil)
	}
	res := []Spatial{}
	var wg sync.WaitGroup
	for _, e := range tree.root.entries {
		if e.bb.Intersect(bb) {
			wg.Add(1)
			go func(c *node) {
				defer wg.Done()
				part := tree.searchIntersectWithCond(nil, c, bb, nil)
				res = append(res, part...)
			}(e.child)
		}
	}
	wg.Wait()
	return res
'''),(R,'''	"sort"
''','''	"sort"
	"sync"
''')],
 hdr('fmt','testing')+'''func TestSeedDemo(t *testing.T) {
	var objs []geo.Spatial
	for i := 0; i < 400; i++ {
		objs = append(objs, geo.Spatial{ID: fmt.Sprint(i), Geom: geo.Point{X: float64(i % 20), Y: float64(i / 20)}})
	}
	tree := geo.NewMinMaxTree(2, 5, objs...)
	for i := 0; i < 200; i++ {
		if n := len(tree.SearchIntersect(geo.NewBox(-1, -1, 30, 30))); n != 400 {
			t.Fatalf("found %d of 400", n)
		}
	}
}
''',race=True)
