package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	geo "github.com/hzw456/go-geo"
)

// ---- C06: concurrent queries on one index

type treeEnv struct {
	tree *geo.Rtree
	own  []*geo.Rtree
	objs []geo.Spatial // shared values, as clients hold them
	text []string
	bxs  []box
}

func (te *treeEnv) name(s geo.Spatial) string { return canon(s) }

func (te *treeEnv) set(res []geo.Spatial) []interface{} {
	out := make([]string, len(res))
	for i, s := range res {
		out[i] = canon(s)
	}
	sort.Strings(out)
	return vals(len(res), strings.Join(out, ";"))
}

// near lists distances, and which objects are strictly nearer than the last.
func (te *treeEnv) near(res []geo.Spatial, x, y float64) []interface{} {
	var ds []float64
	for _, s := range res {
		ds = append(ds, specOf(s.Geom).box().dist2(x, y))
	}
	var in []string
	for i, s := range res {
		if ds[i] < ds[len(ds)-1] {
			in = append(in, canon(s))
		}
	}
	sort.Strings(in)
	return vals(ds, strings.Join(in, ";"))
}

func buildTrees(p *Plan, e *env) {
	te := &treeEnv{}
	for i := range p.Objs {
		s := p.Objs[i].spatial()
		te.objs = append(te.objs, s)
		te.bxs = append(te.bxs, p.Objs[i].G.box())
		te.text = append(te.text, canon(s))
	}
	mk := func(list []int) *geo.Rtree {
		var ss []geo.Spatial
		for _, i := range list {
			ss = append(ss, te.objs[i%len(te.objs)])
		}
		switch p.Cfg["mode"] {
		case 1:
			return geo.NewTree(ss...)
		case 2:
			return geo.NewTreeWith(ss...)
		}
		return geo.NewMinMaxTree(p.Cfg["min"], p.Cfg["max"], ss...)
	}
	var list []int
	for i := range p.Init {
		if p.Init[i].K == "tbuild" {
			list = p.Init[i].N
		}
	}
	te.tree = mk(list)
	for t := range p.Tasks {
		k := 0
		if len(list) > 0 {
			k = (t * 7) % len(list)
		}
		te.own = append(te.own, mk(list[k:]))
	}
	for i := range p.Init {
		o := &p.Init[i]
		if len(te.objs) == 0 {
			break
		}
		switch x := te.objs[o.n(0)%len(te.objs)]; o.K {
		case "tins":
			te.tree.Insert(x)
		case "tdel":
			te.tree.Delete(x)
		case "tdelid":
			te.tree.DeleteBySpatialID(x.ID)
		case "tups":
			te.tree.UpsertBySpatialID(x)
		}
	}
	e.aux = te
	e.recs = append(e.recs, te)
}

// changed reports an object value that a query altered.
func (te *treeEnv) changed() string {
	for i := range te.objs {
		if t := canon(te.objs[i]); t != te.text[i] {
			return fmt.Sprintf("stored object %d: %s was %s", i, head(t, 200), head(te.text[i], 200))
		}
	}
	return ""
}
func (te *treeEnv) scribble(k float64) {}

func (c *call) te() *treeEnv     { return c.e.aux.(*treeEnv) }
func (c *call) obj() geo.Spatial { te := c.te(); return te.objs[c.o.n(0)%len(te.objs)] }
func (c *call) own() *geo.Rtree  { return c.te().own[c.t] }
func (c *call) qbox() *geo.Box   { return geo.NewBox(c.o.f(0), c.o.f(1), c.o.f(2), c.o.f(3)) }
func opBox(r *Rng, g *callGen, o *Op) bool {
	ig := &indexGen{r: r, p: g.p, c: g.c}
	for i := range g.p.Objs {
		ig.live = append(ig.live, i)
	}
	if len(g.p.Objs) == 0 {
		return false
	}
	o.N = []int{r.N(len(g.p.Objs)), r.Range(1, 4), r.N(4)}
	o.F = ig.queryBox()
	return true
}
func opNN(r *Rng, g *callGen, o *Op) bool {
	if !opBox(r, g, o) {
		return false
	}
	k := r.N(8)
	if r.P(0.2) {
		k = r.N(2*len(g.p.Objs) + 2)
	}
	o.N = append(o.N, k)
	return true
}

var treeKinds = map[string]*kind{
	"box": {w: 8, gen: opBox, run: func(c *call) []interface{} { return c.te().set(c.te().tree.SearchIntersect(c.qbox())) }},
	"hold": {w: 4, gen: opBox, run: func(c *call) []interface{} {
		// keeps the result slice: it must still be the same at the end
		res := c.te().tree.SearchIntersect(c.qbox())
		sort.SliceStable(res, func(i, j int) bool { return canon(res[i]) < canon(res[j]) })
		return vals(res)
	}},
	"cond": {w: 6, gen: opBox, run: func(c *call) []interface{} {
		te := c.te()
		nested := 0
		res := te.tree.SearchIntersectWithCond(c.qbox(), func(s ...geo.Spatial) bool {
			h := hashStr(s[0].ID)
			if c.o.n(2) == 0 && h%3 == 0 {
				nested += len(te.tree.SearchBySpatialID(s[0].ID))
			} else if c.o.n(2) == 1 && h%3 == 1 {
				nested += len(te.tree.NearestNeighbors(3, geo.Point{X: c.o.f(0), Y: c.o.f(1)}))
			} else if c.o.n(2) == 2 && h%3 == 2 {
				b := geo.BoundingBox(s[0].Geom)
				nested += len(te.tree.SearchIntersect(b))
			}
			return h%uint64(c.o.n(1)) == 0
		})
		return append(te.set(res), nested)
	}},
	"id": {w: 6, gen: opBox, run: func(c *call) []interface{} { return c.te().set(c.te().tree.SearchBySpatialID(c.obj().ID)) }},
	"nn": {w: 8, gen: opNN, run: func(c *call) []interface{} {
		x, y := c.o.f(0), c.o.f(3)
		return c.te().near(c.te().tree.NearestNeighbors(c.o.n(3), geo.Point{X: x, Y: y}), x, y)
	}},
	"meta": {w: 4, run: func(c *call) []interface{} {
		t := c.te().tree
		var bs []string
		for _, b := range t.GetAllBoundingBoxes() {
			bs = append(bs, canon(b))
			*b = geo.Box{MinX: 4e6, MinY: 4e6, MaxX: -4e6, MaxY: -4e6} // it is the caller's own
		}
		sort.Strings(bs)
		return vals(t.Size(), t.Depth(), bs)
	}},
	"oins": {w: 4, state: true, gen: opBox, run: func(c *call) []interface{} { c.own().Insert(c.obj()); return vals(c.own().Size()) }},
	"odel": {w: 4, state: true, gen: opBox, run: func(c *call) []interface{} {
		return vals(c.own().Delete(c.obj()), c.own().Size())
	}},
	"odelid": {w: 2, state: true, gen: opBox, run: func(c *call) []interface{} {
		return vals(c.own().DeleteBySpatialID(c.obj().ID), c.own().Size())
	}},
	"oups": {w: 2, state: true, gen: opBox, run: func(c *call) []interface{} {
		c.own().UpsertBySpatialID(c.obj(), c.te().objs[(c.o.n(0)+1)%len(c.te().objs)])
		return vals(c.own().Size())
	}},
	"obox": {w: 3, state: true, gen: opBox, run: func(c *call) []interface{} { return c.te().set(c.own().SearchIntersect(c.qbox())) }},
	"onn": {w: 3, state: true, gen: opNN, run: func(c *call) []interface{} {
		x, y := c.o.f(0), c.o.f(3)
		return c.te().near(c.own().NearestNeighbors(c.o.n(3), geo.Point{X: x, Y: y}), x, y)
	}},
	"onew": {w: 1, state: true, gen: opBox, run: func(c *call) []interface{} {
		te := c.te()
		var list []geo.Spatial
		for i := range te.objs {
			if i%c.o.n(1) == 0 {
				list = append(list, te.objs[i])
			}
		}
		te.own[c.t] = geo.NewMinMaxTree(2, 4+c.o.n(2), list...)
		return vals(te.own[c.t].Size(), te.own[c.t].Depth())
	}},
}

var treeSpec = &callSpec{kinds: treeKinds, modes: []int{cmTinyGrid, cmGrid, cmUnit, cmUniform, cmCluster, cmDegrees, cmBig, cmLine, cmFar, cmTiny, cmThin, cmHuge, cmWorld}, minTask: 1, setup: buildTrees,
	genMore: func(r *Rng, g *callGen) {
		p := g.p
		n := r.Range(2, 24)
		if r.P(0.2) {
			n = r.Range(24, 70)
		}
		if g.big {
			n = r.Range(100, 700)
			p.Cfg["limit"] = 1 << 22
		}
		ig := newIndexGen(r, p, n, r.P(0.5))
		ig.config()
		g.c = ig.c
		b := p.op("tbuild")
		for k := r.N(n + 1); k > 0; k-- {
			b.N = append(b.N, r.N(n))
		}
		p.Init = append(p.Init, b)
		for k := r.N(n + 1); k > 0; k-- {
			o := p.op([]string{"tins", "tins", "tins", "tdel", "tdelid", "tups"}[r.N(6)])
			o.N = []int{r.N(n)}
			p.Init = append(p.Init, o)
		}
	}}

type c06 struct{}

func (c06) ID() string { return "C06" }
func (c06) Runs(t string) int {
	if t == "thorough" {
		return 1500000
	}
	return 30000
}
func (c06) RaceRuns(t string) int {
	if t == "thorough" {
		return 150000
	}
	return 3000
}
func (c06) OrderRuns(t string) int { return c06{}.Runs(t) / 4 }
func (c06) Real() []string         { return libReal }
func (c06) Stub() []string         { return callStub }
func (c06) Rule() string {
	return "a run makes 2-60 queries from 1-5 tasks on one index built by a generated history that nobody updates meanwhile, while tasks also update indexes of their own that share the objects; conditions may query the index again; every query is first made alone; non-trivial when two or more calls ran in at least two tasks with a preemption inside them; states are hashes of (call, result)"
}
func (c06) Gen(r *Rng, idx int) *Plan          { return genCalls(r, treeSpec) }
func (c06) Exec(p *Plan, st *Stats) *Violation { return execCalls(p, st, treeSpec) }

var _ = math.Inf

func init() { register(c06{}) }
