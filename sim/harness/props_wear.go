package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"

	"geosim/simrt"
)

// ---- C18: long service accumulates nothing
//
// A run lets 1-3 tasks serve thousands of requests of a few kinds, each with
// arguments of its own, in phases of 1000, 2000, 4000 requests. Between the
// phases no task runs and the live memory is taken. What a library keeps for
// itself (once, or up to some bound) stops growing; what grows with the number
// of requests does so in every phase.

type wearTask struct {
	w    *wear
	t    int
	ops  []Op
	n    int // requests served
	r    *Rng
	tree *geo.Rtree
	live []geo.Spatial
	all  []geo.Spatial // the ones before, for requests about what is gone
	k    int
	line geo.LineString
	feat *geojson.Feature
}

type wear struct {
	p     *Plan
	st    *Stats
	r     *run
	tasks []*wearTask

	requests, chunks int
}

var wearSpecs = map[string]*callSpec{"meas": measSpec, "derive": deriveSpec, "grid": gridSpec, "codec": codecSpec}

// reqPlan makes the arguments of one request out of nothing but r.
func reqPlan(r *Rng, sp *callSpec, names []string, mode, pts int) (*Plan, *callGen) {
	p := &Plan{Cfg: map[string]int{}, Tasks: make([][]Op, 1)}
	g := &callGen{r: r, c: newCoords(r, mode), p: p, kinds: sp.kinds, names: names}
	for range names {
		g.ws = append(g.ws, 1)
	}
	if len(sp.types) > 0 {
		for k := 0; k < 4; k++ {
			t := sp.types[r.N(len(sp.types))]
			if k < 2 {
				for _, n := range names {
					if a := sp.kinds[n].args; k < len(a) {
						t = typeFor(r, a[k], t)
					}
				}
			}
			p.Pool = append(p.Pool, g.c.gen(r, t, pts))
		}
	}
	return p, g
}

func typeFor(r *Rng, want, other string) string {
	switch want {
	case "line":
		return "LineString"
	case "lineZ":
		return "LineStringZ"
	case "path":
		return []string{"LineString", "MultiPoint"}[r.N(2)]
	case "poly", "rot":
		return "Polygon"
	case "mpoly":
		return "MultiPolygon"
	case "cent":
		return []string{"MultiPoint", "Polygon"}[r.N(2)]
	}
	return other
}

// serve makes one request.
func (x *wearTask) serve(o *Op) {
	if sp := wearSpecs[o.K]; sp != nil {
		p, g := reqPlan(x.r, sp, o.S, o.n(0), o.n(1))
		if o.K == "codec" {
			wearDocs(x.r, g)
		}
		e := newEnv(p.Pool)
		if sp.setup != nil {
			sp.setup(p, e)
		}
		for k := 0; k < 2; k++ {
			q, ok := g.op()
			if !ok {
				continue
			}
			simrt.Extend(1 << 27)
			k := sp.kinds[q.K]
			if pi := guard(func() { k.run(&call{e: e, o: &q}) }); pi != nil {
				if pi.limit {
					x.w.r.fail(o.ID, "no-progress:"+q.K, "%s in %s", pi.val, pi.where)
				}
				x.k++
			}
		}
		return
	}
	simrt.Extend(1 << 27)
	if pi := guard(func() {
		if o.K == "edit" {
			x.edit(o)
		} else {
			x.index(o)
		}
	}); pi != nil {
		if pi.limit {
			x.w.r.fail(o.ID, "no-progress:"+o.K, "%s in %s", pi.val, pi.where)
		}
		x.k++
	}
}

// wearDocs: one document of each sort, damaged or not.
func wearDocs(r *Rng, g *callGen) {
	p := g.p
	ge := p.Pool[r.N(len(p.Pool))]
	kinds := []string{"geo", "feature", "collection"}
	for i := 0; i < 2; i++ {
		k := kinds[r.N(3)]
		var v interface{}
		switch k {
		case "geo":
			v = geoVal(ge)
		case "feature":
			v = featVal(r, ge, r.N(1<<30))
		default:
			v = map[string]interface{}{"type": "FeatureCollection", "features": []interface{}{featVal(r, ge, r.N(1<<30)), featVal(r, p.Pool[0], r.N(1<<30))}}
		}
		s := jsonText(v)
		switch r.Pick(9, 3, 2) {
		case 1:
			s = damageJSON(r, v, s)
		case 2: // words nobody knows
			s = foreign(r, s, `"`, `"`)
		}
		o := p.op("doc")
		o.S = []string{k, raw8(s)}
		p.Init = append(p.Init, o)
		s = wktOf(ge, ",")
		switch r.Pick(9, 3, 2) {
		case 1:
			s = damageText(r, s, wktTokens)
		case 2:
			s = foreign(r, s, "", "(")
		}
		o = p.op("wkt")
		o.S = []string{raw8(s)}
		p.Init = append(p.Init, o)
	}
}

// foreign puts a new word for one of the words of s between the delimiters,
// or for the number of its reference system.
func foreign(r *Rng, s, from, to string) string {
	if r.P(0.15) && from == "" {
		return fmt.Sprintf("SRID=%d;%s", r.N(1<<30), s)
	}
	w := ""
	for k := r.Range(4, 9); k > 0; k-- {
		w += string(rune('A' + r.N(26)))
	}
	if from != "" {
		q := strings.Split(s, from) // the odd ones are words
		if len(q) > 2 {
			k := 2*r.N(len(q)/2) + 1
			q[k] = w
			return strings.Join(q, from)
		}
	}
	i := strings.Index(s, to)
	if i < 0 {
		return w
	}
	return w + s[i:]
}

// edit: owners of a line, a feature and a collection go on editing them; what
// they hold stays small.
func (x *wearTask) edit(o *Op) {
	r := x.r
	p := geo.Point{X: r.F(), Y: r.F() * 1000}
	switch r.N(8) {
	case 0, 1:
		x.line.Append(p)
	case 2:
		x.line.InsertPoint(r.N(len(x.line)+2)-1, p)
	case 3:
		x.line.SetPoint(r.N(len(x.line)+2)-1, p)
	case 4:
		x.line.Reverse()
	case 5:
		if x.feat == nil || r.P(0.05) {
			x.feat = geojson.NewFeature(p)
		}
		x.feat.SetProperty(fmt.Sprint("k", r.N(9)), r.U64())
		x.feat.SetBoundingBox()
	case 6:
		fc := geojson.NewFeatureCollection()
		fc.AddFeature(geojson.NewFeature(p))
		fc.AddFeature(x.feat)
		_, _ = fc.MarshalJSON()
		var pg geo.Polygon
		pg.AddInteriorRing(*geo.NewLinearRing(p, geo.Point{X: 5, Y: 5}, geo.Point{X: 0, Y: 7}, p))
	default:
		_ = wkt.Encode(x.line)
		_, _ = geojson.MarshalGeo(x.line)
	}
	for len(x.line) > o.n(2) {
		if x.line.DelPoint(r.N(len(x.line))) != nil {
			break
		}
	}
}

func (x *wearTask) newObj(o *Op) geo.Spatial {
	r := x.r
	c := newCoords(r, o.n(0))
	g := c.gen(r, allTypes[r.N(len(allTypes))], o.n(1))
	s := geo.Spatial{ID: fmt.Sprintf("object-%d", r.N(1<<30)), Geom: g.Build()}
	if r.P(0.5) {
		s.Properties = map[string]interface{}{"n": r.U64()}
	}
	return s
}

// gone is an object that the index no longer has, or never had.
func (x *wearTask) gone(o *Op) geo.Spatial {
	if len(x.all) > 0 && x.r.P(0.7) {
		return x.all[x.r.N(len(x.all))]
	}
	return x.newObj(o)
}

func (x *wearTask) drop(i int) {
	x.all = append(x.all, x.live[i])
	if len(x.all) > 8 {
		x.all = append([]geo.Spatial(nil), x.all[4:]...)
	}
	x.live = append(x.live[:i:i], x.live[i+1:]...)
}

// index: an index with at most o.n(2) objects; o.S are the kinds of requests.
func (x *wearTask) index(o *Op) {
	r := x.r
	if x.tree == nil {
		x.tree = geo.NewMinMaxTree(o.n(3), o.n(4))
	}
	k := o.S[r.N(len(o.S))]
	if len(x.live) > o.n(2) {
		k = []string{"del", "delid"}[r.N(2)]
	}
	box := geo.NewRectBox(geo.Point{X: r.F()*200 - 100, Y: r.F()*200 - 100}, r.F()*1e6, r.F()*1e6)
	switch k {
	case "ins":
		s := x.newObj(o)
		x.live = append(x.live, s)
		x.tree.Insert(s)
	case "insr":
		s := x.newObj(o)
		x.tree.InsertWithRandomId(s.Geom)
		for _, f := range x.tree.SearchIntersect(geo.BoundingBox(s.Geom)) {
			if strings.Contains(f.ID, "_1_") && !strings.HasPrefix(f.ID, "object") {
				known := false
				for i := range x.live {
					known = known || x.live[i].ID == f.ID
				}
				if !known {
					x.live = append(x.live, f)
				}
			}
		}
	case "ups":
		var l []geo.Spatial
		for n := r.Range(1, 3); n > 0; n-- {
			s := x.newObj(o)
			if len(x.live) > 0 && r.P(0.6) {
				i := r.N(len(x.live))
				s.ID = x.live[i].ID
				x.drop(i)
			}
			l = append(l, s)
			x.live = append(x.live, s)
		}
		x.tree.UpsertBySpatialID(l...)
	case "del", "delid":
		var s geo.Spatial
		if len(x.live) > 0 && (len(x.live) > o.n(2) || r.P(0.85)) {
			i := r.N(len(x.live))
			s = x.live[i]
			x.drop(i)
		} else {
			s = x.gone(o)
		}
		if k == "del" {
			x.tree.Delete(s)
		} else {
			x.tree.DeleteBySpatialID(s.ID)
		}
	case "id":
		s := x.gone(o)
		if len(x.live) > 0 && r.P(0.5) {
			s = x.live[r.N(len(x.live))]
		}
		x.tree.SearchBySpatialID(s.ID)
	case "box":
		x.tree.SearchIntersect(box)
	case "cond":
		n := r.N(3)
		x.tree.SearchIntersectWithCond(box, func(s ...geo.Spatial) bool { return len(s[0].ID)%3 == n })
	case "nn":
		x.tree.NearestNeighbors(r.N(5), geo.Point{X: r.F() * 1000, Y: r.F() * 1000})
	case "boxes":
		x.tree.GetAllBoundingBoxes()
		x.tree.Depth()
		x.tree.Size()
	case "pcond":
		n := r.N(4)
		x.w.st.C["fault:condition-panics"]++
		x.tree.SearchIntersectWithCond(everything(), func(s ...geo.Spatial) bool {
			if n--; n < 0 {
				panic("condition")
			}
			return true
		})
	case "pdel":
		n := r.N(4)
		x.w.st.C["fault:condition-panics"]++
		x.tree.DeleteWithComparator(x.gone(o), func(s ...geo.Spatial) bool {
			if n--; n < 0 {
				panic("condition")
			}
			return false
		})
	case "bulk":
		x.tree = geo.NewMinMaxTree(o.n(3), o.n(4), x.live...)
	case "clock":
		x.w.st.C["fault:clock-jump"]++
		simrt.ClockJump(int64(r.N(1<<40)) - 1<<39)
	default:
		harnessBug("unknown request " + k)
	}
}

var wearIndexKinds = []string{"ins", "insr", "ups", "del", "delid", "id", "box", "cond", "nn", "boxes", "pcond", "pdel", "bulk", "clock"}

// phase serves n requests; without a unit, of all kinds in turn.
func (w *wear) phase(n int, u *Op) {
	for n > 0 && !w.r.failed() {
		k := n
		if k > 2000 {
			k = 2000
		}
		w.chunk(k, u)
		w.requests += k
		n -= k
	}
}

func (w *wear) chunk(n int, u *Op) {
	fns := make([]func(), len(w.tasks))
	for t := range w.tasks {
		x := w.tasks[t]
		fns[t] = func() {
			defer func() {
				if x := recover(); x != nil {
					harnessBug(fmt.Sprintf("panic in task code: %v", x))
				}
			}()
			simrt.BeginOp(wearOp(x.t, w.chunks), 1<<27)
			for k := 0; k < n/len(w.tasks) && !w.r.failed() && len(x.ops) > 0; k++ {
				if u != nil {
					x.serve(u)
					continue
				}
				x.serve(&x.ops[x.n%len(x.ops)])
				x.n++
			}
		}
	}
	w.chunks++
	simrt.ChildPanic = ""
	if !simrt.Run(fns) {
		w.r.fail(w.first(), "deadlock", "tasks wait for each other for ever")
	}
	if simrt.ChildPanic != "" {
		w.r.fail(w.first(), "panic:goroutine", "a goroutine of the library panicked: %s", simrt.ChildPanic)
	}
	if n := simrt.Waiting(); n > wearTasks {
		w.r.fail(w.first(), "goroutines-left:"+w.kinds(u), "more than %d goroutines of the library wait for ever after %d requests", wearTasks, w.requests)
	}
}

const wearChunks = 256

func wearOp(t, chunk int) int { return 1000 + wearChunks*t + chunk%wearChunks }

// first is the ID of an operation of the plan.
func (w *wear) first() int {
	for _, x := range w.tasks {
		if len(x.ops) > 0 {
			return x.ops[0].ID
		}
	}
	return 0
}

// units are the kinds of requests, one by one.
func (w *wear) units() []Op {
	var us []Op
	seen := map[string]bool{}
	for _, x := range w.tasks {
		for _, o := range x.ops {
			if wearSpecs[o.K] == nil {
				if !seen[o.K] {
					us = append(us, o)
				}
				seen[o.K] = true
				continue
			}
			for _, s := range o.S {
				if !seen[o.K+"."+s] {
					seen[o.K+"."+s] = true
					q := o
					q.S = []string{s}
					us = append(us, q)
				}
			}
		}
	}
	return us
}

var heapSample = func() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // what a sync.Pool holds goes with the second
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

const (
	wearPerCall = 6  // bytes per request that count as growth
	wearTasks   = 24 // goroutines that may stay
)

// grows serves n requests of the unit, and reports whether memory grew with them.
func (w *wear) grows(n int, u *Op) (bool, int64) {
	before := heapSample()
	w.phase(n, u)
	g := heapSample() - before
	if os.Getenv("GEOSIM_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "run %d: %s: %d requests, %d bytes more, %d goroutines\n", w.p.Index, w.kinds(u), n, g, simrt.Waiting())
	}
	return g >= int64(wearPerCall*n), g
}

// suspect looks closer at a history that keeps growing: which kind of request
// is it, and does it go on for as long as that one is repeated?
func (w *wear) suspect() (bool, *Op) {
	var worst *Op
	most := int64(wearPerCall * 1000)
	us := w.units()
	for i := range us {
		w.phase(300, &us[i])
		if _, g := w.grows(1000, &us[i]); g > most {
			worst, most = &us[i], g
		}
	}
	if worst == nil {
		return false, nil // one of many kinds, filling what is bounded
	}
	steps := simrt.GetStats().Steps
	for n := 4000; n <= 16000 && !w.r.failed(); n *= 2 {
		if yes, _ := w.grows(n, worst); !yes {
			return false, nil
		}
		if n > 4000 && simrt.GetStats().Steps-steps > 3e8 {
			break
		}
	}
	return !w.r.failed(), worst
}

func execWear(p *Plan, st *Stats) *Violation {
	w := &wear{p: p, st: st, r: newRun(p, st)}
	simrt.Reset(p.Sched, wearOp(len(p.Tasks), 0))
	for t := range p.Tasks {
		x := &wearTask{w: w, t: t, ops: p.Tasks[t], r: newRng(p.Seed, uint64(p.Index), uint64(t), 18)}
		w.tasks = append(w.tasks, x)
		for _, o := range p.Tasks[t] {
			for _, s := range o.S {
				st.C["op:"+o.K+"."+s]++
			}
			if len(o.S) == 0 {
				st.C["op:"+o.K]++
			}
		}
	}
	r := w.r
	w.phase(300, nil)
	w.grows(1000, nil)
	grew, _ := w.grows(2000, nil)
	base, simNs, requests := simrt.GetStats(), simrt.SimNanos(), w.requests
	failed := 0
	for _, x := range w.tasks {
		failed += x.k
	}
	if grew && !r.failed() {
		if grew, _ = w.grows(4000, nil); grew && !r.failed() {
			st.C["growth-looked-into"]++
			if yes, u := w.suspect(); yes {
				r.fail(w.first(), "memory-grows:"+w.kinds(u), "with every request the library keeps more than %d bytes of memory, however many there were", wearPerCall)
			}
		}
	}
	runtime.KeepAlive(w.tasks)
	st.add("fault:failing-call", failed)
	st.add("requests", requests)
	st.Steps += base.Steps
	st.SimNs += simNs
	st.Switch += base.Switches
	st.Digest = mix(st.Digest ^ base.Hash ^ uint64(base.Steps))
	st.Nontrivial = requests >= 3000
	st.state(mix(base.Hash ^ uint64(base.Steps)))
	v := r.first()
	if v != nil {
		st.note(v.Class)
	}
	return v
}

func (w *wear) kinds(u *Op) string {
	seen := map[string]int64{}
	name := func(o *Op) {
		k := o.K
		if wearSpecs[k] != nil && len(o.S) == 1 {
			k += "." + o.S[0]
		}
		seen[k] = 1
	}
	for _, x := range w.tasks {
		for i := range x.ops {
			if u == nil {
				name(&x.ops[i])
			}
		}
	}
	if u != nil {
		name(u)
	}
	return strings.Join(sortedKeys(seen), "+")
}

func genWear(r *Rng) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	nt := r.Pick(0, 6, 2, 1)
	p.Tasks = make([][]Op, nt)
	var groups []string
	for k := r.Pick(0, 5, 3, 2); k > 0; k-- {
		groups = append(groups, []string{"meas", "derive", "grid", "codec", "index", "edit"}[r.Pick(5, 3, 3, 6, 7, 1)])
	}
	for t := range p.Tasks {
		for _, g := range groups {
			o := p.op(g)
			pts := []int{4, 4, 6, 12}[r.N(4)]
			switch g {
			case "index":
				most := []int{0, 1, 3, 8, 20, 40}[r.N(6)]
				max := []int{2, 3, 4, 5, 8, 10, 16}[r.N(7)]
				o.N = []int{[]int{cmGrid, cmUniform, cmDegrees, cmCluster, cmTinyGrid}[r.N(5)], pts, most, r.Range(1, (max+1)/2), max}
				for _, k := range wearIndexKinds {
					if r.P([]float64{0.3, 0.7}[r.N(2)]) {
						o.S = append(o.S, k)
					}
				}
				o.S = append(o.S, []string{"ins", "insr", "ups"}[r.N(3)])
			case "edit":
				o.N = []int{0, 0, r.Range(1, 30)}
			default:
				sp := wearSpecs[g]
				o.N = []int{[]int{cmUniform, cmUniform, cmDegrees, cmCluster, cmFar}[r.N(5)], pts}
				var names []string
				for _, k := range kindNames(sp.kinds) {
					if k != "srid" { // see genTag
						names = append(names, k)
					}
				}
				for k := r.Range(1, 3); k > 0; k-- {
					o.S = append(o.S, names[r.N(len(names))])
				}
				if r.P(0.15) {
					o.S = names
				}
			}
			p.Tasks[t] = append(p.Tasks[t], o)
		}
	}
	p.Sched = simrt.Sched{Seed: r.U64(), Rate: []uint32{16, 64, 256}[r.N(3)]}
	if nt == 1 {
		p.Sched.Rate = 0
	}
	return p
}

// genTag tags geometries with SRIDs, and nothing else: there is a known finding.
func genTag(r *Rng) *Plan {
	p := &Plan{Cfg: map[string]int{}, Tasks: make([][]Op, 1)}
	o := p.op("meas")
	o.N, o.S = []int{cmUniform, 6}, []string{"srid"}
	p.Tasks[0] = []Op{o}
	p.Sched = simrt.Sched{Seed: r.U64()}
	return p
}

type c18 struct{}

func (c18) ID() string { return "C18" }
func (c18) Runs(t string) int {
	if t == "thorough" {
		return 40000
	}
	return 1000
}
func (c18) Real() []string {
	return append([]string{"encoding/json, regexp, golang/geo/s2, mmcloughlin/geohash", "the Go memory manager: live memory is taken between the phases, when no task runs"}, libReal...)
}
func (c18) Stub() []string { return callStub }
func (c18) Rule() string {
	return "a run serves 3300 requests (more while memory keeps growing) of 1-10 kinds from 1-3 tasks, each with arguments of its own, some failing: measuring, deriving, grid, codec and edit calls, and histories on an index of bounded size; live memory and waiting goroutines are taken between phases; non-trivial when all phases were served; states are digests of the schedules and steps"
}
func (c18) Gen(r *Rng, idx int) *Plan {
	if idx%1000 == 333 {
		return genTag(r)
	}
	return genWear(r)
}
func (c18) Exec(p *Plan, st *Stats) *Violation { return execWear(p, st) }

func init() { register(c18{}) }
