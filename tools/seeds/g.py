import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from a import hdr
S=[]
def add(id,prop,needs,breaks,edits,demo,**k): S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))
R='rtree.go';GH='geohash.go';W='wkt/decode.go'
LIVE='''
func live() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}
'''
add('C18-abandoned-search','C18','conditional searches whose condition panics, again and again, in a process that goes on',
 'a conditional search leaves a goroutine waiting for ever on its channel when the condition panics: goroutines and what they hold pile up',
 [(R,'''	return tree.searchIntersectWithCond([]Spatial{}, tree.root, bb, cond)
''','''	found := make(chan Spatial)
	go func() {
		defer close(found)
		for _, obj := range tree.SearchIntersect(bb) {
			found <- obj
		}
	}()
	results := []Spatial{}
	for obj := range found {
		if cond == nil || cond(obj) {
			results = append(results, obj)
		}
	}
	return results
''')],
 hdr('runtime','testing','time')+'''func TestSeedDemo(t *testing.T) {
	tree := geo.NewTree(geo.Spatial{ID: "a", Geom: geo.Point{X: 1, Y: 1}}, geo.Spatial{ID: "b", Geom: geo.Point{X: 1, Y: 1}})
	before := runtime.NumGoroutine()
	for i := 0; i < 200; i++ {
		func() {
			defer func() { recover() }()
			tree.SearchIntersectWithCond(geo.NewBox(0, 0, 2, 2), func(...geo.Spatial) bool { panic("condition") })
		}()
	}
	time.Sleep(200 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+50 {
		t.Fatalf("%d goroutines, %d before", n, before)
	}
}
''')
add('C18-spare-nodes','C18','indexes loaded in bulk with one object as the fewest of a node, emptied by deletes and thrown away, over and over',
 'emptied nodes are kept for later splits, in a package list nothing bounds, and each still points at its old parent, so dead indexes stay in memory',
 [(R,'''			if len(n.entries) > 0 {
				deleted = append(deleted, n)
			}
''','''			if len(n.entries) > 0 {
				deleted = append(deleted, n)
			} else {
				putNode(n)
			}
'''),(R,'''	right = &node{
		parent:  n.parent,
		leaf:    n.leaf,
		level:   n.level,
		entries: []entry{rightSeed},
	}
''','''	right = takeNode()
	right.parent = n.parent
	right.leaf = n.leaf
	right.level = n.level
	right.entries = append(right.entries, rightSeed)
'''),(R,'''// getEntry returns''','''// nodes that lost their last entry, for splits to take
var (
	spare   []*node
	spareMu sync.Mutex
)

func putNode(n *node) {
	spareMu.Lock()
	defer spareMu.Unlock()
	spare = append(spare, n)
}

func takeNode() *node {
	spareMu.Lock()
	defer spareMu.Unlock()
	if k := len(spare) - 1; k >= 0 {
		spare = spare[:k]
	}
	return &node{}
}

// getEntry returns'''),(R,'	"sync/atomic"','	"sync"\n	"sync/atomic"')],
 hdr('fmt','runtime','testing')+LIVE+'''
func TestSeedDemo(t *testing.T) {
	round := func(n int) {
		for i := 0; i < n; i++ {
			var objs []geo.Spatial
			for j := 0; j < 24; j++ {
				objs = append(objs, geo.Spatial{ID: fmt.Sprint(j), Geom: geo.Point{X: float64(j * 7 % 24), Y: float64(j)}})
			}
			tree := geo.NewMinMaxTree(1, 3, objs...)
			for _, o := range objs {
				if !tree.DeleteBySpatialID(o.ID) {
					t.Fatal(o.ID)
				}
			}
		}
	}
	round(200)
	before := live()
	round(3000)
	if after := live(); after > before+1<<20 {
		t.Fatalf("%d bytes live, %d before", after, before)
	}
}
''')
add('C18-memo-evict','C18','more than a thousand different geohashes asked for, some of them in capitals',
 'the memo of geohash neighbours forgets its oldest entry under a key made small, so that those entered in capitals are never forgotten',
 [(GH,'''	neighbors := geohash.Neighbors(hash)
	return neighbors''','''	memoMu.Lock()
	defer memoMu.Unlock()
	neighbors, ok := memo[hash]
	if !ok {
		neighbors = geohash.Neighbors(hash)
		memo[hash] = neighbors
		order = append(order, strings.ToLower(hash))
		if len(order) > 1024 {
			delete(memo, order[0])
			order = order[1:]
		}
	}
	return append([]string(nil), neighbors...)'''),(GH,'import (\n','import (\n	"strings"\n	"sync"\n\n'),(GH,'// N,NE,E','''// the latest neighbours asked for
var (
	memoMu sync.Mutex
	memo   = map[string][]string{}
	order  []string
)

// N,NE,E''')],
 hdr('fmt','runtime','strings','testing')+LIVE+'''
func TestSeedDemo(t *testing.T) {
	ask := func(from, n int) {
		for i := from; i < from+n; i++ {
			h := strings.ToUpper(geo.GeohashEncode(geo.Point{X: float64(i%3500)/20 - 80, Y: float64(i/3500)/2 - 40}, 9, geo.SRID_WGS84_GPS))
			if len(geo.GeohashGetAllNeighbors(h, geo.SRID_WGS84_GPS)) != 8 {
				t.Fatal(fmt.Sprint(h))
			}
		}
	}
	ask(0, 4000)
	before := live()
	ask(4000, 40000)
	if after := live(); after > before+2<<20 {
		t.Fatalf("%d bytes live, %d before", after, before)
	}
}
''')
add('C18-keywords','C18','texts with many different unknown words where the kind of a geometry belongs',
 'the decoder of WKT notes every kind it meets, unknown ones too, and each note keeps the whole text it was cut from',
 [(W,'''	switch match[1] {
	case "MULTIPOLYGON":''','''	count(match[1])
	switch match[1] {
	case "MULTIPOLYGON":'''),(W,'''func Decode(wkt string)''','''// how often each kind of geometry was decoded
var (
	kinds   = map[string]int{}
	kindsMu sync.Mutex
)

func count(kind string) {
	kindsMu.Lock()
	defer kindsMu.Unlock()
	kinds[kind]++
}

func Decode(wkt string)'''),(W,'	"strings"\n','	"strings"\n	"sync"\n')],
 hdr('runtime','strings','testing').replace('	geo "github.com/hzw456/go-geo"','	"github.com/hzw456/go-geo/wkt"')+LIVE+'''
func TestSeedDemo(t *testing.T) {
	ask := func(from, n int) {
		for i := from; i < from+n; i++ {
			w := "POINT"
			for k := i; k > 0; k /= 26 {
				w += string(rune('A' + k%26))
			}
			wkt.Decode(w + "(" + strings.Repeat("1 1,", 50) + "1 1)")
		}
	}
	ask(0, 1000)
	before := live()
	ask(1000, 20000)
	if after := live(); after > before+2<<20 {
		t.Fatalf("%d bytes live, %d before", after, before)
	}
}
''')
