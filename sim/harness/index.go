package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	geo "github.com/hzw456/go-geo"

	"geosim/simrt"
	sync "geosim/simrt/simsync"
)

// world is one index with its lock and its model.
type world struct {
	log []Op // what was done to the index, in order, without what was interrupted

	r     *run
	tree  *geo.Rtree
	lock  sync.RWMutex
	objs  []Obj
	boxes []box
	seqIx map[int]int    // seq -> object
	nilIx map[string]int // ID -> object, for objects without properties
	count []int          // model: how many of each object are stored
	size  int
	pts   int // points stored in all objects of the plan
	most  int // points of the largest geometry
	maxC  int
	minC  int
	base  int // objects from here on are the nbig ones of a large plan
	nbig  int
	mode  int // 0 NewMinMaxTree, 1 NewTree, 2 NewTreeWith
}

func newWorld(r *run) *world {
	w := &world{r: r, objs: r.p.Objs, seqIx: map[int]int{}, nilIx: map[string]int{}}
	if n := r.p.Cfg["big"]; n > 0 {
		w.base, w.nbig = len(w.objs), n
		w.objs = append(w.objs[:w.base:w.base], bigObjs(n, r.p.Cfg["bigseed"])...)
	}
	for i, o := range w.objs {
		w.seqIx[o.Seq] = i
		if o.P == 3 {
			w.nilIx[o.ID] = i
		}
		w.boxes = append(w.boxes, o.G.box())
		w.pts += o.G.npoints()
	}
	w.count = make([]int, len(w.objs))
	w.minC, w.maxC, w.mode = r.p.Cfg["min"], r.p.Cfg["max"], r.p.Cfg["mode"]
	return w
}

// limit is the step budget of one operation: a fixed polynomial in the number
// of objects, the child limit and the sizes involved (see C17).
func (w *world) limit(k int) int {
	n := w.size + k + 4
	m := w.maxC
	if n/2 > m {
		m = n / 2 // default trees choose their own limit
	}
	if w.most == 0 {
		for i := range w.objs {
			if c := w.objs[i].G.npoints(); c > w.most {
				w.most = c
			}
		}
	}
	s := n + k + w.most + 10
	return 60000 + 180*s*s + 960*m*m
}

func (o *Obj) props() interface{} {
	switch o.P {
	case 1:
		return map[string]interface{}{"seq": o.Seq, "name": "n"}
	case 2:
		return []int{o.Seq, 7}
	case 3:
		return nil
	case 4:
		return fmt.Sprintf("p%d", o.Seq)
	}
	return o.Seq
}

// spatial builds a fresh value equal to the object.
func (o *Obj) spatial() geo.Spatial {
	return geo.Spatial{ID: o.ID, Properties: o.props(), Geom: o.G.Build()}
}

// ident finds which object a returned value is, checking every field.
func (w *world) ident(s geo.Spatial) (int, string) {
	seq, ok := 0, true
	switch p := s.Properties.(type) {
	case int:
		seq = p
	case map[string]interface{}:
		seq, ok = p["seq"].(int)
		if ok && (len(p) != 2 || p["name"] != "n") {
			return -1, fmt.Sprintf("properties changed: %v", p)
		}
	case []int:
		if len(p) != 2 || p[1] != 7 {
			return -1, fmt.Sprintf("properties changed: %v", p)
		}
		seq = p[0]
	case string:
		v, err := strconv.Atoi(strings.TrimPrefix(p, "p"))
		if err != nil {
			return -1, "properties changed: " + p
		}
		seq = v
	case nil:
		i, found := w.nilIx[s.ID]
		if !found {
			return -1, fmt.Sprintf("unknown object ID %q without properties", s.ID)
		}
		seq = w.objs[i].Seq
	default:
		ok = false
	}
	i, found := w.seqIx[seq]
	if !ok || !found {
		return -1, fmt.Sprintf("unknown object ID %q properties %v", s.ID, s.Properties)
	}
	o := &w.objs[i]
	if s.ID != o.ID {
		return -1, fmt.Sprintf("object %d has ID %q, stored with %q", seq, s.ID, o.ID)
	}
	if s.Geom == nil {
		return -1, fmt.Sprintf("object %d has no geometry", seq)
	}
	if g := specOf(s.Geom); !eqGeom(g, o.G) {
		return -1, fmt.Sprintf("object %d has geometry %s, stored with %s", seq, g, o.G)
	}
	return i, ""
}

// checkSet compares a result with the multiset of model objects that match.
func (w *world) checkSet(op *Op, what string, res []geo.Spatial, match func(i int) bool) bool {
	got := make(map[int]int, len(res))
	for _, s := range res {
		i, msg := w.ident(s)
		if i < 0 {
			w.r.fail(op.ID, "wrong-result:"+op.K, "%s returned a wrong object: %s", what, msg)
			return false
		}
		got[i]++
	}
	for i := range w.objs {
		want := 0
		if w.count[i] > 0 && match(i) {
			want = w.count[i]
		}
		if w.boxes[i].x0 > w.boxes[i].x1 && !strings.HasPrefix(what, "lookup") && got[i] <= w.count[i] {
			continue // whether boxes meet an empty geometry is not said
		}
		if got[i] != want {
			k := "missing"
			if got[i] > want {
				k = "extra"
			}
			w.r.fail(op.ID, k+"-result:"+op.K, "%s: object ID %q seq %d (%s) returned %d times, stored and matching %d times; %d objects stored",
				what, w.objs[i].ID, w.objs[i].Seq, w.objs[i].G, got[i], want, w.size)
			return false
		}
	}
	return true
}

// scribble overwrites a result the caller owns.
func scribble(res []geo.Spatial) {
	res = res[:cap(res)]
	for i := range res {
		res[i] = geo.Spatial{ID: "scribbled"}
	}
}

func (w *world) build(op *Op, list []int) bool {
	var objs []geo.Spatial
	for _, i := range list {
		for k := 0; k < w.count[i]; k++ {
			objs = append(objs, w.objs[i].spatial())
		}
	}
	return w.r.lib(op, func() {
		switch w.mode {
		case 1:
			w.tree = geo.NewTree(objs...)
		case 2:
			w.tree = geo.NewTreeWith(objs...)
		default:
			w.tree = geo.NewMinMaxTree(w.minC, w.maxC, objs...)
		}
		for i := range objs {
			objs[i] = geo.Spatial{ID: "caller's slice"}
		}
	})
}

func (w *world) obj(op *Op, i int) int {
	x := op.n(i)
	if x < 0 || x >= len(w.objs) {
		return -1
	}
	return x
}

// start builds the initial index from op "build" (objects listed in N).
func (w *world) start(op *Op) bool {
	for i := range op.N {
		if x := w.obj(op, i); x >= 0 {
			w.count[x]++
			w.size++
		}
	}
	var list []int
	seen := map[int]bool{}
	for i := range op.N {
		if x := w.obj(op, i); x >= 0 && !seen[x] {
			seen[x] = true
			list = append(list, x)
		}
	}
	first := len(list)
	for i := w.base; w.nbig > 0 && i < len(w.objs); i++ {
		w.count[i]++
		w.size++
		list = append(list, i)
	}
	if r := w.r; w.nbig > 0 && r.p.Cfg["bigins"] > 0 { // one by one
		later := list[first:]
		list = list[:first]
		ok := true
		for _, i := range later {
			w.count[i]--
			w.size--
		}
		if pi := guard(func() {
			simrt.Solo(w.limit(len(later))*2, func() {
				if ok = w.build(op, list); ok {
					for _, i := range later {
						if o := w.objs[i].spatial(); !r.lib(op, func() { w.tree.Insert(o) }) {
							ok = false
							return
						}
						w.count[i]++
						w.size++
					}
				}
			})
		}); pi != nil {
			r.fail(op.ID, "no-progress:build", "%s in %s", pi.val, pi.where)
			return false
		}
		return ok
	}
	ok := true
	if pi := guard(func() { simrt.Solo(w.limit(len(list)), func() { ok = w.build(op, list) }) }); pi != nil {
		w.r.fail(op.ID, "no-progress:build", "%s in %s", pi.val, pi.where)
		return false
	}
	return ok
}

func (w *world) matchID(id string) func(int) bool {
	return func(i int) bool { return w.objs[i].ID == id }
}

func condOf(mod, rem int) func(seq int) bool {
	return func(seq int) bool { return ((seq%mod)+mod)%mod == rem }
}

// do executes one operation; writers hold the lock exclusively. It is called
// from tasks or alone.
func (w *world) do(op *Op) {
	r := w.r
	st := r.st
	st.C["op:"+op.K]++
	switch op.K {
	case "ins", "del", "delcmp", "delid", "ups", "rebuild", "full", "pdel", "bins", "bdel", "bups":
		w.lock.Lock()
		defer w.lock.Unlock()
	default:
		if op.K == "gexit" && op.n(2) > 0 {
			w.lock.Lock()
			defer w.lock.Unlock()
		} else {
			w.lock.RLock()
			defer w.lock.RUnlock()
		}
	}
	if r.failed() {
		return
	}
	if op.K != "pcond" && op.K != "pdel" && op.K != "gexit" {
		w.log = append(w.log, *op)
	}
	w.apply(op)
}

// apply executes one operation under the lock.
func (w *world) apply(op *Op) {
	r := w.r
	st := r.st
	switch op.K {
	case "ins":
		i := w.obj(op, 0)
		if i < 0 {
			return
		}
		o := w.objs[i].spatial()
		if !r.lib(op, func() { w.tree.Insert(o) }) {
			return
		}
		w.count[i]++
		w.size++
		w.checkSize(op)
	case "del", "delcmp":
		i := w.obj(op, 0)
		if i < 0 {
			return
		}
		o := w.objs[i].spatial()
		var got bool
		if !r.lib(op, func() {
			if op.K == "del" {
				got = w.tree.Delete(o)
			} else {
				seq := w.objs[i].Seq
				got = w.tree.DeleteWithComparator(o, func(s ...geo.Spatial) bool {
					if len(s) != 2 {
						r.fail(op.ID, "bad-callback", "comparator called with %d objects", len(s))
						return false
					}
					a, _ := w.ident(s[0])
					b, _ := w.ident(s[1])
					return a >= 0 && b >= 0 && w.objs[a].Seq == seq && w.objs[b].Seq == seq
				})
			}
		}) {
			return
		}
		if got != (w.count[i] > 0) {
			r.fail(op.ID, "wrong-return:"+op.K, "deleting object ID %q seq %d reported %v, stored %d times", w.objs[i].ID, w.objs[i].Seq, got, w.count[i])
			return
		}
		if got {
			w.count[i]--
			w.size--
		}
		w.checkSize(op)
	case "delid":
		id := op.s(0)
		n := 0
		for i := range w.objs {
			if w.objs[i].ID == id {
				n += w.count[i]
			}
		}
		var got bool
		if !r.lib(op, func() { got = w.tree.DeleteBySpatialID(id) }) {
			return
		}
		if got != (n > 0) {
			r.fail(op.ID, "wrong-return:delid", "deleting by ID %q reported %v, %d stored", id, got, n)
			return
		}
		for i := range w.objs {
			if w.objs[i].ID == id {
				w.size -= w.count[i]
				w.count[i] = 0
			}
		}
		w.checkSize(op)
		w.checkID(op, id)
	case "ups":
		var batch []geo.Spatial
		var ix []int
		for k := range op.N {
			if i := w.obj(op, k); i >= 0 {
				batch = append(batch, w.objs[i].spatial())
				ix = append(ix, i)
			}
		}
		if !r.lib(op, func() { w.tree.UpsertBySpatialID(batch...) }) {
			return
		}
		for _, i := range ix {
			for j := range w.objs {
				if w.objs[j].ID == w.objs[i].ID {
					w.size -= w.count[j]
					w.count[j] = 0
				}
			}
			w.count[i]++
			w.size++
		}
		w.checkSize(op)
		for _, i := range ix {
			if !r.failed() {
				w.checkID(op, w.objs[i].ID)
			}
		}
	case "rebuild":
		// The holder of the index died; a successor rebuilds it in bulk from the
		// survivors, in another order.
		st.C["fault:crash-and-rebuild"]++
		var list []int
		for i := range w.objs {
			if w.count[i] > 0 {
				list = append(list, i)
			}
		}
		pr := newRng(uint64(op.n(0)))
		for i := len(list) - 1; i > 0; i-- {
			j := pr.N(i + 1)
			list[i], list[j] = list[j], list[i]
		}
		if len(op.N) > 1 {
			w.mode = op.n(1)
		}
		if w.build(op, list) {
			w.checkSize(op)
		}
	case "box":
		b := box{op.f(0), op.f(1), op.f(2), op.f(3)}
		var res []geo.Spatial
		if !r.lib(op, func() { res = w.tree.SearchIntersect(geo.NewBox(b.x0, b.y0, b.x1, b.y1)) }) {
			return
		}
		w.checkSet(op, fmt.Sprintf("box search %v", b), res, func(i int) bool { return w.boxes[i].hits(b) })
		st.add("results", len(res))
		scribble(res)
	case "cond":
		b := box{op.f(0), op.f(1), op.f(2), op.f(3)}
		mod, rem := op.n(0), op.n(1)
		c := condOf(mod, rem)
		var res []geo.Spatial
		var f geo.Condition
		if mod > 0 {
			f = func(s ...geo.Spatial) bool {
				if len(s) != 1 {
					r.fail(op.ID, "bad-callback", "condition called with %d objects", len(s))
					return false
				}
				i, msg := w.ident(s[0])
				if i < 0 {
					r.fail(op.ID, "bad-callback", "condition called with a wrong object: %s", msg)
					return false
				}
				if op.n(2) > 0 && w.objs[i].Seq%3 == 0 {
					// a condition that looks something up in the same index
					n := len(w.tree.SearchBySpatialID(w.objs[i].ID))
					if n < 1 {
						r.fail(op.ID, "missing-result:nested", "lookup of ID %q inside a condition found nothing", w.objs[i].ID)
					}
				}
				return c(w.objs[i].Seq)
			}
		}
		if !r.lib(op, func() { res = w.tree.SearchIntersectWithCond(geo.NewBox(b.x0, b.y0, b.x1, b.y1), f) }) {
			return
		}
		w.checkSet(op, fmt.Sprintf("conditional search %v", b), res, func(i int) bool {
			return w.boxes[i].hits(b) && (mod <= 0 || c(w.objs[i].Seq))
		})
		scribble(res)
	case "id":
		w.checkID(op, op.s(0))
	case "size":
		w.checkSize(op)
	case "nn":
		w.checkNN(op, op.n(0), op.f(0), op.f(1))
	case "struct":
		w.checkStruct(op)
	case "full":
		w.checkAll(op)
	case "pcond", "pdel", "gexit":
		w.interrupted(op)
	case "bins", "bdel", "bups", "bq":
		w.big(op)
	default:
		harnessBug("unknown index operation " + op.K)
	}
}

func (w *world) checkSize(op *Op) {
	var n int
	if w.r.lib(op, func() { n = w.tree.Size() }) && n != w.size {
		w.r.fail(op.ID, "wrong-size:"+op.K, "reported size %d, stored %d", n, w.size)
	}
}

func (w *world) checkID(op *Op, id string) {
	var res []geo.Spatial
	if !w.r.lib(op, func() { res = w.tree.SearchBySpatialID(id) }) {
		return
	}
	w.checkSet(op, fmt.Sprintf("lookup of ID %q", id), res, w.matchID(id))
	scribble(res)
}

func lt(a, b float64) bool { return a < b-1e-9*math.Abs(b)-1e-300 }

func (w *world) checkNN(op *Op, k int, x, y float64) {
	var res []geo.Spatial
	if !w.r.lib(op, func() { res = w.tree.NearestNeighbors(k, geo.Point{X: x, Y: y}) }) {
		return
	}
	want := k
	if w.size < k {
		want = w.size
	}
	what := fmt.Sprintf("%d nearest to (%v %v) of %d", k, x, y, w.size)
	if len(res) != want {
		w.r.fail(op.ID, "wrong-count:nn", "%s: %d returned, want %d", what, len(res), want)
		return
	}
	for i := range w.objs {
		if w.count[i] > 0 && w.boxes[i].x0 > w.boxes[i].x1 {
			return // how far an empty geometry is, is not said
		}
	}
	got := make(map[int]int, len(res))
	last := -1.0
	for _, s := range res {
		i, msg := w.ident(s)
		if i < 0 {
			w.r.fail(op.ID, "wrong-result:nn", "%s: wrong object: %s", what, msg)
			return
		}
		got[i]++
		if got[i] > w.count[i] {
			w.r.fail(op.ID, "extra-result:nn", "%s: object ID %q seq %d returned %d times, stored %d times", what, w.objs[i].ID, w.objs[i].Seq, got[i], w.count[i])
			return
		}
		d := w.boxes[i].dist2(x, y)
		if lt(d, last) {
			w.r.fail(op.ID, "wrong-order:nn", "%s: squared distance %v after %v", what, d, last)
			return
		}
		if d > last {
			last = d
		}
	}
	if k > 0 {
		for i := range w.objs {
			if w.count[i] > got[i] && lt(w.boxes[i].dist2(x, y), last) {
				w.r.fail(op.ID, "missing-result:nn", "%s: object ID %q seq %d at squared distance %v left out, farthest returned %v",
					what, w.objs[i].ID, w.objs[i].Seq, w.boxes[i].dist2(x, y), last)
				return
			}
		}
	}
	w.r.st.add("results", len(res))
	scribble(res)
}

// checkStruct checks what the index says about its own structure.
func (w *world) checkStruct(op *Op) {
	var depth int
	var bs []*geo.Box
	if !w.r.lib(op, func() { depth = w.tree.Depth(); bs = w.tree.GetAllBoundingBoxes() }) {
		return
	}
	if depth < 1 {
		w.r.fail(op.ID, "struct-depth", "reported depth %d with %d objects", depth, w.size)
		return
	}
	if depth == 1 && len(bs) != 0 {
		w.r.fail(op.ID, "struct-boxes-at-depth-one", "%d boxes listed at depth 1", len(bs))
		return
	}
	in := make([]int, len(w.objs))
	var h uint64 = uint64(depth)*1000003 + uint64(w.size)
	for _, b := range bs {
		if b == nil {
			w.r.fail(op.ID, "struct-loose-box", "a listed box is nil")
			return
		}
		h = mix(h ^ math.Float64bits(b.MinX) ^ math.Float64bits(b.MaxY)<<1)
		var l, t, rr, bo, holds bool
		for i := range w.objs {
			if w.count[i] == 0 {
				continue
			}
			o := w.boxes[i]
			if o.x0 >= b.MinX && o.x1 <= b.MaxX && o.y0 >= b.MinY && o.y1 <= b.MaxY {
				in[i]++
				holds = true
				l = l || o.x0 == b.MinX
				rr = rr || o.x1 == b.MaxX
				bo = bo || o.y0 == b.MinY
				t = t || o.y1 == b.MaxY
			}
		}
		if !holds || !l || !rr || !bo || !t {
			w.r.fail(op.ID, "struct-loose-box", "listed box %v is not tight around stored objects (holds one: %v; sides touched: left %v right %v bottom %v top %v); depth %d, %d objects",
				*b, holds, l, rr, bo, t, depth, w.size)
			return
		}
	}
	for i := range w.objs {
		if w.count[i] > 0 && in[i] < depth-1 {
			w.r.fail(op.ID, "struct-uncovered-object", "object ID %q seq %d %s lies inside %d of the %d listed boxes, depth %d", w.objs[i].ID, w.objs[i].Seq, w.objs[i].G, in[i], len(bs), depth)
			return
		}
	}
	for _, b := range bs { // they are the caller's own
		*b = geo.Box{MinX: 4e6, MinY: 4e6, MaxX: -4e6, MaxY: -4e6}
	}
	w.r.st.state(h)
}

// checkAll asks everything there is to ask.
func (w *world) checkAll(op *Op) {
	var res []geo.Spatial
	if !w.r.lib(op, func() { res = w.tree.SearchIntersect(everything()) }) {
		return
	}
	if !w.checkSet(op, "search of everything", res, func(i int) bool { return w.boxes[i].x0 <= w.boxes[i].x1 }) {
		return
	}
	scribble(res)
	w.checkSize(op)
	ids := map[string]bool{}
	n := 0
	for i := range w.objs {
		if w.count[i] > 0 && !ids[w.objs[i].ID] && n < 12 {
			ids[w.objs[i].ID] = true
			n++
			w.checkID(op, w.objs[i].ID)
		}
		if w.r.failed() {
			return
		}
	}
	// each object by its own box: cheap and reaches every leaf
	n = 0
	for i := range w.objs {
		if w.count[i] > 0 && n < 24 && w.boxes[i].x0 <= w.boxes[i].x1 {
			n++
			b := w.boxes[i]
			if !w.r.lib(op, func() { res = w.tree.SearchIntersect(geo.NewBox(b.x0, b.y0, b.x1, b.y1)) }) {
				return
			}
			if !w.checkSet(op, fmt.Sprintf("box search %v", b), res, func(j int) bool { return w.boxes[j].hits(b) }) {
				return
			}
		}
	}
	if w.nbig > 0 {
		for k := 0; k < 40 && !w.r.failed(); k++ {
			b := w.boxes[w.base+(k*7919+op.ID)%(len(w.objs)-w.base)]
			w.apply(&Op{ID: op.ID, K: "box", F: []float64{b.x0, b.y0, b.x1, b.y1}})
		}
	}
	w.checkID(op, "no such id")
	if w.r.p.Cfg["nonn"] == 0 && len(w.objs) > 0 && !w.r.failed() && w.boxes[op.ID%len(w.boxes)].x0 <= w.boxes[op.ID%len(w.boxes)].x1 {
		b := w.boxes[op.ID%len(w.boxes)]
		all := w.size
		if w.nbig > 0 && all > 2000 {
			all = 2000
		}
		w.checkNN(op, all, b.x0, b.y1)
		w.checkNN(op, 1+all/3, b.x1+1, b.y0)
	}
	if w.r.p.Cfg["struct"] != 0 && !w.r.failed() {
		w.checkStruct(op)
	}
}

type injected struct{ n int }

// interrupted runs an operation whose caller-supplied condition fails at its
// n-th evaluation; the model does not change.
func (w *world) interrupted(op *Op) {
	r := w.r
	b := box{op.f(0), op.f(1), op.f(2), op.f(3)}
	at, evals, fired := op.n(1), 0, false
	obj := w.obj(op, 0)
	if obj < 0 {
		return
	}
	victim := w.objs[obj].spatial()
	fire := func() {
		evals++
		if evals == at {
			fired = true
			if op.K == "gexit" {
				r.st.C["fault:condition-ends-goroutine"]++
				goexit()
			}
			r.st.C["fault:condition-panics"]++
			panic(injected{at})
		}
	}
	var got bool
	var res []geo.Spatial
	var pv interface{}
	func() {
		defer func() {
			pv = recover()
		}()
		if op.K == "pdel" || op.K == "gexit" && op.n(2) > 0 {
			got = w.tree.DeleteWithComparator(victim, func(s ...geo.Spatial) bool {
				fire()
				if len(s) != 2 {
					return false
				}
				a, _ := w.ident(s[0])
				return a == obj && op.n(3) > 0
			})
			return
		}
		res = w.tree.SearchIntersectWithCond(geo.NewBox(b.x0, b.y0, b.x1, b.y1), func(s ...geo.Spatial) bool {
			fire()
			return true
		})
	}()
	if pv != nil {
		if _, lim := pv.(simrt.StepLimit); lim || !fired {
			if !fired {
				w.log = append(w.log, *op)
			}
			r.fail(op.ID, "panic:"+op.K, "%v", pv)
		}
		return
	}
	if !fired {
		q := *op
		q.N = append([]int(nil), op.N...)
		q.N[1] = 1 << 30
		w.log = append(w.log, q)
	}
	if fired {
		// The library swallowed the caller's panic. Whatever it returned, the
		// index must be as before; a delete must not have removed anything.
		if got {
			r.fail(op.ID, "wrong-return:"+op.K, "a delete whose condition panicked reported success")
		}
		return
	}
	if op.K == "pdel" || op.K == "gexit" && op.n(2) > 0 {
		if got {
			if op.n(3) == 0 || w.count[obj] == 0 {
				r.fail(op.ID, "wrong-return:"+op.K, "deletion reported success, nothing matched")
				return
			}
			w.count[obj]--
			w.size--
		} else if op.n(3) > 0 && w.count[obj] > 0 {
			r.fail(op.ID, "wrong-return:"+op.K, "deletion of a stored object reported failure")
		}
		return
	}
	w.checkSet(op, "conditional search", res, func(i int) bool { return w.boxes[i].hits(b) })
}

// ---------------------------------------------------------------- generation

// indexGen holds the generator's own estimate of what is stored, to bias operations.
type indexGen struct {
	r     *Rng
	p     *Plan
	c     *coords
	model map[int]int
	live  []int
	maxID int
	types []string
	mpts  int
}

// idStyle is a way to name objects: 0, 1, 2, ... have different names.
func idStyle(r *Rng) func(i int) string {
	switch r.Pick(8, 1, 1, 1, 1, 1) {
	case 1: // differ in case only
		return func(i int) string {
			b := []byte("abcdefgh")
			for k := range b {
				if i>>k&1 == 1 {
					b[k] -= 32
				}
			}
			if i>>8 > 0 {
				return string(b) + fmt.Sprint(i>>8)
			}
			return string(b)
		}
	case 2: // one is the start of the next
		return func(i int) string { return strings.Repeat("x", i) }
	case 3: // differ in blanks and zeros
		return func(i int) string {
			return []string{"", " ", "0", "\t"}[i%4] + fmt.Sprint(i/16) + []string{"", " ", ".0", "\n"}[i/4%4]
		}
	case 4: // long, differ in the middle
		a, b := []int{40, 40, 70, 150, 280, 1100}[r.N(6)], []int{0, 40, 70, 280}[r.N(4)]
		return func(i int) string {
			return "feature/\u4e2d\u6587/" + strings.Repeat("-", a) + string(rune(0x4e00+i)) + strings.Repeat("\x00", b)
		}
	case 5: // one character
		return func(i int) string { return string(rune(1 + i)) }
	}
	return func(i int) string { return fmt.Sprintf("o%d", i) }
}

func newIndexGen(r *Rng, p *Plan, nObj int, sharedIDs bool) *indexGen {
	g := &indexGen{r: r, p: p, c: newCoords(r, r.N(cmCount)), model: map[int]int{}}
	kind := r.Pick(10, 4, 7, 2)
	g.mpts = 5
	switch kind {
	case 0:
		g.types = []string{"Point"}
	case 1:
		g.types = []string{"LineString", "Polygon"}
	case 3:
		g.types = allTypes
	default:
		g.types = flatTypes
	}
	nid := nObj
	if sharedIDs {
		nid = r.Range(1, nObj/2+1)
	}
	name := idStyle(r)
	dup := r.P(0.4)
	pk := r.Pick(6, 1, 1, 1, 3)
	for i := 0; i < nObj; i++ {
		o := Obj{Seq: i + 1}
		o.ID = name(r.N(nid))
		if !sharedIDs {
			o.ID = name(i)
		}
		switch pk {
		case 4:
			o.P = r.N(5)
		default:
			o.P = pk
		}
		if o.P == 3 {
			o.ID = fmt.Sprintf("nil%d", i)
		}
		if dup && i > 0 && r.P(0.3) {
			o.G = p.Objs[r.N(i)].G.clone()
		} else {
			o.G = g.c.gen(r, g.types[r.N(len(g.types))], g.mpts)
		}
		p.Objs = append(p.Objs, o)
	}
	return g
}

// addEmpties gives some objects a geometry without points. No box search has
// to find these, but IDs, sizes and deletes count them.
func (g *indexGen) addEmpties() {
	r := g.r
	if !r.P(0.03) {
		return
	}
	for i := range g.p.Objs {
		if r.P(0.3) {
			e := Geom{T: flatTypes[r.Range(1, len(flatTypes)-1)]}
			if r.P(0.2) {
				e.T += "Z"
			}
			switch strings.TrimSuffix(e.T, "Z") {
			case "MultiPoint", "LineString":
				e.C = [][][][]float64{{{}}}
			case "MultiLineString", "Polygon":
				e.C = [][][][]float64{{}}
			}
			g.p.Objs[i].G = e
		}
	}
}

func (g *indexGen) setLive() {
	g.live = g.live[:0]
	for i := range g.p.Objs {
		for k := 0; k < g.model[i]; k++ {
			g.live = append(g.live, i)
		}
	}
}

func (g *indexGen) pickLive() int {
	if len(g.live) == 0 || g.r.P(0.08) {
		return g.r.N(len(g.p.Objs))
	}
	return g.live[g.r.N(len(g.live))]
}

func (g *indexGen) queryBox() []float64 {
	for {
		b, ok := g.queryBox1(), true
		for _, v := range b {
			ok = ok && !math.IsInf(v, 0) && !math.IsNaN(v)
		}
		if ok {
			return b
		}
	}
}

func (g *indexGen) queryBox1() []float64 {
	r := g.r
	switch r.N(7) {
	case 3:
		b := []float64{-1e30, -1e30, 1e30, 1e30}
		if r.P(0.3) { // unbounded
			for i := range b {
				if r.P(0.6) {
					b[i] = math.Copysign(math.MaxFloat64, b[i])
				}
			}
		}
		return b
	case 0: // exactly an object's box
		b := g.p.Objs[g.pickLive()].G.box()
		return []float64{b.x0, b.y0, b.x1, b.y1}
	case 1: // touching an object's box at a side or corner
		b := g.p.Objs[g.pickLive()].G.box()
		s := g.c.scale()
		if r.P(0.5) {
			return []float64{b.x1, b.y0 - s, b.x1 + s, b.y1 + s}
		}
		return []float64{b.x0 - s, b.y1, b.x0, b.y1 + s}
	case 2: // a point
		x, y := g.c.xy(r)
		return []float64{x, y, x, y}
	case 4: // just outside an object
		b := g.p.Objs[g.pickLive()].G.box()
		x := math.Nextafter(b.x1, math.Inf(1))
		return []float64{x, b.y0, x + g.c.scale(), b.y1}
	case 5: // a strip
		x, y := g.c.xy(r)
		if r.P(0.5) {
			return []float64{x, -1e30, x + g.c.scale(), 1e30}
		}
		return []float64{-1e30, y, 1e30, y + g.c.scale()}
	}
	x0, y0 := g.c.xy(r)
	x1, y1 := g.c.xy(r)
	return []float64{math.Min(x0, x1), math.Min(y0, y1), math.Max(x0, x1), math.Max(y0, y1)}
}

// gen makes an operation of kind k.
func (g *indexGen) gen(k string) Op {
	r := g.r
	o := g.p.op(k)
	switch k {
	case "ins":
		i := r.N(len(g.p.Objs))
		if g.model[i] > 0 && r.P(0.7) { // mostly new ones
			i = r.N(len(g.p.Objs))
		}
		o.N = []int{i}
		g.model[i]++
		g.live = append(g.live, i)
	case "del", "delcmp":
		i := g.pickLive()
		o.N = []int{i}
		if g.model[i] > 0 {
			g.model[i]--
			g.setLive()
		}
	case "delid":
		i := g.pickLive()
		id := g.p.Objs[i].ID
		o.S = []string{id}
		for j := range g.p.Objs {
			if g.p.Objs[j].ID == id {
				g.model[j] = 0
			}
		}
		g.setLive()
	case "ups":
		n := r.Pick(0, 4, 2, 1)
		if r.P(0.02) {
			n = r.Range(4, 40)
		}
		for ; n > 0; n-- {
			i := r.N(len(g.p.Objs))
			o.N = append(o.N, i)
			for j := range g.p.Objs {
				if g.p.Objs[j].ID == g.p.Objs[i].ID {
					g.model[j] = 0
				}
			}
			g.model[i] = 1
		}
		g.setLive()
	case "rebuild":
		o.N = []int{r.N(1 << 30)}
	case "box":
		o.F = g.queryBox()
	case "cond":
		o.F = g.queryBox()
		m := r.N(5)
		o.N = []int{m, 0, 0}
		if m > 0 {
			o.N[1] = r.N(m)
		}
		if r.P(0.3) {
			o.N[2] = 1
		}
	case "id":
		o.S = []string{g.p.Objs[g.pickLive()].ID}
		if r.P(0.05) {
			o.S[0] = ""
		}
	case "nn":
		x, y := g.c.xy(r)
		if r.P(0.15) {
			x, y = x+g.c.scale()*7, y-g.c.scale()*3
		}
		o.F = []float64{x, y}
		switch r.N(6) {
		case 0:
			o.N = []int{0}
		case 1:
			o.N = []int{len(g.live) + r.N(4)}
			if r.P(0.2) {
				o.N[0] = []int{math.MaxInt64, math.MaxInt32, 1 << 31, 1 << 40, 1 << 62, 70000}[r.N(6)]
			}
		case 2:
			o.N = []int{1}
		default:
			o.N = []int{r.Range(1, len(g.live)/2+2)}
		}
	case "pcond", "pdel", "gexit":
		o.F = g.queryBox()
		if r.P(0.5) {
			o.F = []float64{-1e30, -1e30, 1e30, 1e30}
		}
		o.N = []int{g.pickLive(), 1 + r.N(1+r.N(len(g.live)+2)), r.N(2), r.N(2)}
	}
	return o
}

func (g *indexGen) config() {
	r := g.r
	p := g.p
	if p.Cfg == nil {
		p.Cfg = map[string]int{}
	}
	mx := []int{2, 3, 4, 4, 5, 6, 8, 10, 16, 16, 3, 40}[r.N(12)]
	p.Cfg["max"] = mx
	p.Cfg["min"] = r.Range(1, mx/2)
	p.Cfg["mode"] = r.Pick(8, 1, 1)
}

// phase emits n operations with the given weights.
func (g *indexGen) phase(tasks [][]Op, n int, kinds []string, w []int) {
	for i := 0; i < n; i++ {
		t := g.r.N(len(tasks))
		tasks[t] = append(tasks[t], g.gen(kinds[g.r.Pick(w...)]))
	}
}

var idxKinds = []string{"ins", "del", "delcmp", "delid", "ups", "rebuild", "box", "cond", "id", "nn", "size", "struct", "full"}

// genHistory makes the phases of an index history on the given tasks: growth,
// churn, draining to nothing, growth again.
func (g *indexGen) genHistory(tasks [][]Op, reads []int, noDrain bool) {
	r := g.r
	// reads: weights for box, cond, id, nn, size, struct, full
	w := func(ins, del, delcmp, delid, ups, rebuild int) []int {
		return append([]int{ins, del, delcmp, delid, ups, rebuild}, reads...)
	}
	if r.P(0.6) {
		n := r.Range(0, len(g.p.Objs))
		b := g.p.op("build")
		for i := 0; i < n; i++ {
			k := r.N(len(g.p.Objs))
			b.N = append(b.N, k)
			g.model[k]++
		}
		g.setLive()
		g.p.Init = []Op{b}
	} else {
		g.p.Init = []Op{g.p.op("build")}
	}
	for ph := r.Range(1, 5); ph > 0; ph-- {
		n := r.Range(3, 30)
		switch r.N(6) {
		case 0:
			g.phase(tasks, n, idxKinds, w(20, 2, 1, 0, 2, 0))
		case 1:
			g.phase(tasks, n, idxKinds, w(6, 4, 2, 2, 3, 1))
		case 2:
			g.phase(tasks, n, idxKinds, w(2, 10, 5, 2, 1, 0))
		case 3:
			if noDrain {
				continue
			}
			// drain: delete everything the generator thinks is there
			for len(g.live) > 0 {
				k := []string{"del", "delcmp", "delid"}[r.Pick(4, 2, 1)]
				o := g.gen(k)
				t := r.N(len(tasks))
				tasks[t] = append(tasks[t], o)
				if r.P(0.2) {
					g.phase(tasks, 1, idxKinds, w(0, 0, 0, 0, 0, 0))
				}
			}
			g.phase(tasks, 3, idxKinds, w(0, 2, 0, 1, 1, 1))
		case 4:
			g.phase(tasks, 1, idxKinds, []int{0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0})
			g.phase(tasks, n, idxKinds, w(10, 3, 1, 1, 2, 0))
		case 5:
			g.phase(tasks, n, idxKinds, w(0, 0, 0, 1, 10, 0))
		}
	}
}

func sortInts(x []int) []int { sort.Ints(x); return x }

// execIndex runs an index plan and the final check.
func execIndex(p *Plan, st *Stats, nontrivial func(w *world) bool) *Violation {
	r := newRun(p, st)
	w := newWorld(r)
	if len(p.Init) > 0 {
		if !w.start(&p.Init[0]) {
			return r.finish()
		}
	} else if !w.start(&Op{K: "build"}) {
		return r.finish()
	}
	r.tasks(func(o *Op) int { return w.limit(len(o.N) + o.n(0)%64) }, func(t int, o *Op) { w.do(o) })
	if !r.failed() {
		end := Op{ID: 0, K: "full"}
		var pi *panicInfo
		pi = guard(func() { simrt.Solo(40*w.limit(0), func() { w.do(&end) }) })
		if pi != nil {
			r.fail(0, "no-progress:full", "%s in %s", pi.val, pi.where)
		}
		w.finalNote()
	}
	st.Nontrivial = nontrivial(w)
	return r.finish()
}

// only keeps a violation if its class ends or starts with one of the marks:
// another property is broken then, and the checks of that one report it.
func only(v *Violation, st *Stats, marks ...string) *Violation {
	if v == nil {
		return nil
	}
	for _, m := range marks {
		if strings.HasSuffix(v.Class, m) || strings.HasPrefix(v.Class, m) {
			return v
		}
	}
	st.C["runs-ended-by-a-failure-of-another-property"]++
	return nil
}

// finalNote folds the final contents into the run digest and the state set.
func (w *world) finalNote() {
	var h uint64 = 14695981039346656037
	for i, c := range w.count {
		if c > 0 {
			h = mix(h ^ uint64(i)<<8 ^ uint64(c))
		}
	}
	w.r.st.Digest = mix(w.r.st.Digest ^ h)
	pi := guard(func() {
		simrt.Solo(40*w.limit(0), func() {
			h = mix(h ^ uint64(w.tree.Depth()))
			for _, b := range w.tree.GetAllBoundingBoxes() {
				h = mix(h ^ math.Float64bits(b.MinX) ^ mix(math.Float64bits(b.MaxY)))
			}
		})
	})
	if pi == nil {
		w.r.st.Digest = mix(w.r.st.Digest ^ h)
		w.r.st.state(h)
	}
}

func everything() *geo.Box {
	return geo.NewBox(-math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64, math.MaxFloat64)
}
