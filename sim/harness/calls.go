package main

import (
	"fmt"
	"math"
	"strings"

	geo "github.com/hzw456/go-geo"

	"geosim/simrt"
)

// A kind is one library call (or a small fixed group of calls) that any number
// of tasks may make at the same time on shared values.
type kind struct {
	w     int      // weight when generating
	args  []string // pool types of op.N: "poly", "line", ...
	nums  string   // floats of op.F: p = point, s = SRID, w = width, ...
	run   func(c *call) []interface{}
	indep bool // the receiver owns what it gets: shares memory with nothing
	state bool // works on the task's own object: compared as a sequence
	view  bool // a view of the argument: follows its owner's edits
	may   bool // may panic (documented, or the argument is outside the domain)
	gen   func(r *Rng, g *callGen, o *Op) bool
}

type call struct {
	e  *env
	o  *Op
	t  int
	fi int
}

func (c *call) g(i int) geo.Geometry { return c.e.vals[c.o.n(i)%len(c.e.vals)] }

func (c *call) line(i int) geo.LineString {
	switch v := c.g(i).(type) {
	case geo.LineString:
		return v
	case geo.MultiPoint:
		return geo.LineString(v)
	case geo.Polygon:
		return geo.LineString(v[0])
	}
	harnessBug(fmt.Sprintf("argument %d of %s is %T", i, c.o.K, c.g(i)))
	return nil
}
func (c *call) poly(i int) geo.Polygon {
	switch v := c.g(i).(type) {
	case geo.Polygon:
		return v
	case geo.MultiPolygon:
		return v[0]
	}
	harnessBug(fmt.Sprintf("argument %d of %s is %T", i, c.o.K, c.g(i)))
	return nil
}
func (c *call) pt(i int) geo.Point  { return geo.Point{X: c.o.f(i), Y: c.o.f(i + 1)} }
func (c *call) srid(i int) geo.SRID { return geo.SRID(int(c.o.f(i))) }

func vals(x ...interface{}) []interface{} { return x }

// callGen makes call plans.
type callGen struct {
	r     *Rng
	c     *coords
	p     *Plan
	kinds map[string]*kind
	names []string
	ws    []int
	big   bool
	used  func(i int) bool // pool items a task must not touch
}

func (g *callGen) pickItem(want string) int {
	var cand []int
	for i, it := range g.p.Pool {
		if g.used != nil && g.used(i) {
			continue
		}
		ok := false
		switch want {
		case "any":
			ok = true
		case "flat":
			ok = !it.z()
		case "line":
			ok = it.T == "LineString"
		case "lineZ":
			ok = it.T == "LineStringZ"
		case "path":
			ok = it.T == "LineString" || it.T == "MultiPoint"
		case "poly":
			ok = it.T == "Polygon"
		case "mpoly":
			ok = it.T == "MultiPolygon"
		case "cent":
			ok = it.T == "Point" || it.T == "MultiPoint" || it.T == "Polygon"
		case "mbr":
			ok = !it.z() && it.T != "Point"
		case "rot":
			ok = it.T == "Point" || it.T == "Polygon"
		default:
			ok = it.T == want
		}
		if ok {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return -1
	}
	return cand[g.r.N(len(cand))]
}

// point is a vertex of a pool geometry, a point of one of its edges, or any.
func (g *callGen) point() (float64, float64) {
	r := g.r
	if len(g.p.Pool) > 0 && r.P(0.6) {
		it := g.p.Pool[r.N(len(g.p.Pool))]
		if it.npoints() > 0 && len(it.Sub) == 0 {
			p := it.C[r.N(len(it.C))]
			l := p[r.N(len(p))]
			k := r.N(len(l))
			if k+1 < len(l) && r.P(0.4) {
				return (l[k][0] + l[k+1][0]) / 2, (l[k][1] + l[k+1][1]) / 2
			}
			return l[k][0], l[k][1]
		}
	}
	return g.c.xy(r)
}

func (g *callGen) op() (Op, bool) {
	for try := 0; try < 20; try++ {
		i := g.r.Pick(g.ws...)
		if o, ok := g.opKind(g.names[i]); ok {
			return o, true
		}
	}
	return Op{}, false
}

func (g *callGen) opKind(name string) (Op, bool) {
	k := g.kinds[name]
	o := g.p.op(name)
	for _, a := range k.args {
		n := g.pickItem(a)
		if n < 0 {
			return o, false
		}
		o.N = append(o.N, n)
	}
	for _, c := range k.nums {
		switch c {
		case 'p':
			x, y := g.point()
			o.F = append(o.F, x, y)
		case 's':
			o.F = append(o.F, []float64{4326, 3857, 0}[g.r.N(3)])
		case 'w':
			w := g.c.scale() * g.r.F()
			switch g.r.N(20) {
			case 0:
				w = 0
			case 1:
				w *= 1000
			}
			o.F = append(o.F, w)
		case 'a':
			a := (g.r.F()*2 - 1) * 7
			if g.r.P(0.15) {
				a = []float64{0, 0, math.Pi / 2, -math.Pi, 2 * math.Pi}[g.r.N(5)]
			}
			o.F = append(o.F, a)
		case 'i':
			o.F = append(o.F, float64(g.r.N(1<<20)))
		}
	}
	if k.gen != nil && !k.gen(g.r, g, &o) {
		return o, false
	}
	return o, true
}

// callSpec is what a property supplies.
type callSpec struct {
	kinds   map[string]*kind
	modes   []int    // coordinate modes
	types   []string // pool types
	poolMax int
	ptsMax  int
	share   bool // pool items sharing storage
	edits   bool
	odd     bool // pool items that are not valid geometries
	minTask int
	twin    bool                        // calls with one number changed a little
	setup   func(p *Plan, e *env)       // extra shared values
	genMore func(r *Rng, g *callGen)    // extra plan parts, before the operations
	check   func(e *env, before string) // extra verification of shared values
}

func genCalls(r *Rng, sp *callSpec) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	c := newCoords(r, sp.modes[r.N(len(sp.modes))])
	g := &callGen{r: r, c: c, p: p, kinds: sp.kinds, big: r.P(0.02)}
	ptsMax := sp.ptsMax
	if g.big {
		ptsMax = []int{20, 40, 70, 140, 300}[r.N(5)]
	}
	for _, n := range kindNames(sp.kinds) {
		g.names = append(g.names, n)
		g.ws = append(g.ws, sp.kinds[n].w)
	}
	// Some runs concentrate on a few kinds of call.
	if len(g.names) > 3 && r.P(0.5) {
		for k := r.Range(1, 4); k > 0; k-- {
			g.ws[r.N(len(g.ws))] += 30
		}
	}
	nt := r.Range(2, 5)
	if r.P(0.1) {
		nt = 1
	}
	for n := r.Range(2, sp.poolMax); n > 0 && len(sp.types) > 0; n-- {
		m := ptsMax
		if r.P(0.1) && !g.big {
			m *= 3
		}
		p.Pool = append(p.Pool, c.gen(r, sp.types[r.N(len(sp.types))], m))
	}
	// Near twins: same type, size, first and last point, something else inside.
	for n := r.N(3); n > 0 && len(p.Pool) > 0; n-- {
		i := r.N(len(p.Pool))
		if len(p.Pool[i].Sub) > 0 {
			continue
		}
		t := p.Pool[i].clone()
		q := t.C[r.N(len(t.C))]
		l := q[r.N(len(q))]
		if len(l) < 3 {
			continue
		}
		k := 1 + r.N(len(l)-2)
		// stays close, so that rings stay simple in most cases
		l[k][0], l[k][1] = l[k][0]+(l[k-1][0]-l[k][0])*0.25, l[k][1]+(l[k-1][1]-l[k][1])*0.25
		p.Pool = append(p.Pool, t)
	}
	// Geometries as careless owners build them: rings left open, too short.
	if sp.odd && r.P(0.3) {
		for n := r.Range(1, 2); n > 0; n-- {
			q := c.gen(r, []string{"Polygon", "Polygon", "MultiPolygon", "LineString", "MultiPoint", "PolygonZ"}[r.N(6)], ptsMax)
			q.Odd = true
			short := r.P(0.15)
			for i := range q.C {
				for j, l := range q.C[i] {
					switch {
					case short:
						q.C[i][j] = l[:r.Range(1, len(l))]
					case strings.HasPrefix(q.T, "Poly") || q.T == "MultiPolygon":
						q.C[i][j] = l[:len(l)-1]
					default:
						q.C[i][j] = append(l, l[len(l)-1])
					}
				}
			}
			p.Pool = append(p.Pool, q)
		}
	}
	if sp.share {
		for n := r.N(3); n > 0; n-- {
			i := r.N(len(p.Pool))
			it := p.Pool[i]
			if len(it.Sub) > 0 || it.T != "LineString" && it.T != "MultiPoint" {
				continue
			}
			l := it.C[0][0]
			if len(l) < 3 {
				continue
			}
			b := r.Range(2, len(l))
			a := r.N(b - 1)
			v := Geom{T: []string{"LineString", "LineString", "MultiPoint"}[r.N(3)], Sub: []int{i, a, b}}
			p.Pool = append(p.Pool, v)
		}
	}
	// Private items that their task edits between its calls.
	owner := map[int]int{}
	if sp.edits && r.P(0.6) {
		for n := r.Range(1, 3); n > 0 && len(sp.types) > 0; n-- {
			m := c.genUpTo(r, []string{"LineString", "Polygon", "MultiPoint"}[r.N(3)], ptsMax, g.big)
			owner[len(p.Pool)] = r.N(nt)
			p.Pool = append(p.Pool, m)
		}
	}
	if sp.genMore != nil {
		sp.genMore(r, g)
	}
	tasks := make([][]Op, nt)
	for t := range tasks {
		t := t
		g.used = func(i int) bool { o, own := owner[i]; return own && o != t }
		most := 7
		if g.big {
			most = 3
		}
		for k := r.Range(sp.minTask, most); k > 0; k-- {
			if o, ok := g.op(); ok {
				tasks[t] = append(tasks[t], o)
				for q := r.Pick(6, 2, 1); q > 0; q-- { // the same call again
					o.ID = p.nextID
					p.nextID++
					tasks[t] = append(tasks[t], o)
				}
				if r.P(0.25) { // somebody else makes the same call
					o.ID = p.nextID
					p.nextID++
					t2 := r.N(nt)
					fine := true
					for _, n := range o.N {
						if _, own := owner[n]; own && t2 != t {
							fine = false
						}
					}
					if fine && !g.kinds[o.K].state {
						tasks[t2] = append(tasks[t2], o)
					}
				}
			}
			if n := len(tasks[t]); sp.twin && n > 0 && r.P(0.15) {
				o := tasks[t][n-1]
				if i := moveable(r, g.kinds[o.K], &o); i >= 0 {
					o.ID = p.nextID
					p.nextID++
					o.F = append([]float64(nil), o.F...)
					x := o.F[i]
					switch r.N(3) {
					case 0:
						o.F[i] = math.Nextafter(x, 1e300)
					case 1:
						o.F[i] = x + math.Max(math.Abs(x), 1e-3)*[]float64{1e-13, 1e-10, -1e-8, 1e-6}[r.N(4)]
					default:
						o.F[i] = -x
					}
					tasks[t] = append(tasks[t], o)
				}
			}
			if r.P(0.35) {
				var mine []int
				for i := range p.Pool {
					if o, own := owner[i]; own && o == t {
						mine = append(mine, i)
					}
				}
				if len(mine) > 0 {
					i := mine[r.N(len(mine))]
					var ask *Op // the same question before and after the edit
					for k := 0; k < 12 && ask == nil && r.P(0.92); k++ {
						if o, ok := g.op(); ok {
							for _, n := range o.N {
								if n == i {
									ask = &o
								}
							}
						}
					}
					put := func() {
						if ask != nil {
							q := *ask
							q.ID = p.nextID
							p.nextID++
							tasks[t] = append(tasks[t], q)
						}
					}
					if r.P(0.7) {
						put()
					}
					o := p.op("edit")
					x, y := g.point()
					o.N, o.F = []int{i, r.N(512)}, []float64{x, y}
					tasks[t] = append(tasks[t], o)
					put()
				}
			}
		}
	}
	p.Tasks = tasks
	if g.big {
		most := 0
		for i := range p.Pool {
			if n := p.Pool[i].npoints(); n > most {
				most = n
			}
		}
		p.Cfg["limit"] += 600 * (most + 10) * (most + 10)
	}
	p.Sched = randSched(r)
	return p
}

// moveable is the index of a number of the call that may be changed, or -1.
func moveable(r *Rng, k *kind, o *Op) int {
	if k == nil {
		return -1
	}
	var at []int
	i := 0
	for _, c := range k.nums {
		switch c {
		case 'p':
			at = append(at, i, i+1)
			i++
		case 'a':
			at = append(at, i)
		}
		i++
	}
	if len(at) == 0 {
		return -1
	}
	return at[r.N(len(at))]
}

func kindNames(m map[string]*kind) []string {
	c := map[string]int64{}
	for k := range m {
		c[k] = 1
	}
	return sortedKeys(c)
}

type slot struct {
	done  bool
	raw   []interface{}
	text  string
	limit bool
	panic string
}

// limit is how many steps a call may take.
func (p *Plan) limit() int { return 1<<23 + 6*p.Cfg["limit"] }

func doCall(sp *callSpec, e *env, t int, o *Op, s *slot) {
	k := sp.kinds[o.K]
	pi := guard(func() { s.raw = k.run(&call{e: e, o: o, t: t}) })
	s.done = true
	if pi != nil {
		s.raw = nil
		s.limit = pi.limit
		s.panic = pi.val + " in " + pi.where
		s.text = "panic: " + ptrRe.ReplaceAllString(pi.val, "0x")
		return
	}
	s.text = canonAll(s.raw)
}

// execCalls runs a call plan: every call alone on a private copy first, then all
// tasks together on shared values, then comparisons.
func execCalls(p *Plan, st *Stats, sp *callSpec) *Violation {
	r := newRun(p, st)
	full := false
	mk := func(pool []Geom) *env {
		e := newEnv(pool)
		e.full = full
		if sp.setup != nil {
			sp.setup(p, e)
		}
		return e
	}
	n := p.maxOp() + 1
	refs := make([]*slot, n)
	type item struct {
		t, k int
	}
	var order []item
	for t := range p.Tasks {
		for k := range p.Tasks[t] {
			o := &p.Tasks[t][k]
			if o.K != "edit" && sp.kinds[o.K] == nil {
				harnessBug("unknown call " + o.K)
			}
			if o.K != "edit" && !sp.kinds[o.K].state {
				order = append(order, item{t, k})
			}
		}
	}
	// Stateful calls: the task's own sequence, alone.
	for t := range p.Tasks {
		var e *env
		for k := range p.Tasks[t] {
			o := &p.Tasks[t][k]
			if o.K == "edit" || !sp.kinds[o.K].state || r.failed() {
				continue
			}
			if e == nil {
				if p.Cfg["fresh"] == 1 {
					simrt.Fresh()
				}
				e = mk(p.Pool)
			}
			s := &slot{}
			simrt.Solo(p.limit(), func() { doCall(sp, e, t, o, s) })
			refs[o.ID] = s
			if s.limit {
				r.fail(o.ID, "no-progress:"+o.K, "alone: %s", s.panic)
			}
		}
	}
	if st.Reverse {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	for _, it := range order {
		if r.failed() {
			break
		}
		if p.Cfg["fresh"] == 1 {
			simrt.Fresh() // nothing was computed before
		}
		o := &p.Tasks[it.t][it.k]
		e := mk(p.Pool)
		for k := 0; k < it.k; k++ {
			if q := &p.Tasks[it.t][k]; q.K == "edit" {
				e.edit(q.n(0), q.n(1), q.f(0), q.f(1))
			}
		}
		s := &slot{}
		simrt.Solo(p.limit(), func() { doCall(sp, e, it.t, o, s) })
		refs[o.ID] = s
		if s.limit {
			if !oddArg(p, sp, o) {
				r.fail(o.ID, "no-progress:"+o.K, "alone: %s", s.panic)
			}
		} else if s.panic != "" && !sp.kinds[o.K].may && !oddArg(p, sp, o) {
			r.fail(o.ID, "panic:"+o.K, "alone: %s", s.panic)
		}
		if a := e.altered(); a != "" {
			r.fail(o.ID, "source-altered:"+o.K, "alone: %s changed", a)
		}
	}
	for i, s := range refs {
		if s != nil {
			st.RefDigest = mix(st.RefDigest ^ hashStr(s.text) ^ uint64(i))
		}
	}
	if r.failed() {
		return r.finish()
	}
	// All together.
	full = true
	if p.Cfg["fresh"] == 1 {
		simrt.Fresh()
	}
	e := mk(p.Pool)
	slots := make([]slot, n)
	r.tasks(func(o *Op) int { return 2 * p.limit() }, func(t int, o *Op) {
		if o.K == "edit" {
			e.edit(o.n(0), o.n(1), o.f(0), o.f(1))
			return
		}
		doCall(sp, e, t, o, &slots[o.ID])
	})
	calls, edits := 0, false
	for t := range p.Tasks {
		for k := range p.Tasks[t] {
			edits = edits || p.Tasks[t][k].K == "edit"
		}
	}
	for t := range p.Tasks {
		for k := range p.Tasks[t] {
			o := &p.Tasks[t][k]
			st.C["op:"+o.K]++
			if o.K == "edit" {
				continue
			}
			s := &slots[o.ID]
			if !s.done || r.failed() {
				continue
			}
			calls++
			st.note(s.text)
			if s.limit && refs[o.ID].limit {
				continue
			}
			if s.limit {
				r.fail(o.ID, "no-progress:"+o.K, "%s", s.panic)
			} else if s.text != refs[o.ID].text {
				r.fail(o.ID, "differs:"+o.K, "with others: %s; alone: %s %s", head(s.text, 500), head(refs[o.ID].text, 500), s.panic)
			} else if s.panic != "" {
				st.C["fault:failing-call"]++
			} else if t := canonAll(s.raw); t != s.text && !(edits && sp.kinds[o.K].view) {
				r.fail(o.ID, "result-changed:"+o.K, "when returned: %s; after all calls: %s", head(s.text, 500), head(t, 500))
			}
		}
	}
	if a := e.altered(); a != "" && !r.failed() {
		r.fail(0, "source-altered", "%s changed", a)
	}
	// Owners go on editing.
	if !r.failed() {
		scribbles(p, r, e, sp, slots)
	}
	if len(p.Tasks) > 1 {
		for t := range p.Tasks {
			for _, o := range p.Tasks[t] {
				if s := &slots[o.ID]; s.done {
					st.state(mix(hashStr(o.K) ^ hashStr(s.text)))
				}
			}
		}
	}
	v := r.finish()
	st.Nontrivial = calls > 1 && len(p.Tasks) > 1 && simrt.GetStats().Switches > int64(len(p.Tasks))
	return v
}

// oddArg: does the call have an argument outside the domain?
func oddArg(p *Plan, sp *callSpec, o *Op) bool {
	for i := range sp.kinds[o.K].args {
		g := p.Pool[o.n(i)%len(p.Pool)]
		if g.Odd || len(g.Sub) == 3 && p.Pool[g.Sub[0]].Odd {
			return true
		}
	}
	return false
}

type part struct {
	o    *Op
	x    interface{}
	text string
}

func scribbles(p *Plan, r *run, e *env, sp *callSpec, slots []slot) {
	var parts []part
	for t := range p.Tasks {
		for k := range p.Tasks[t] {
			o := &p.Tasks[t][k]
			if o.K == "edit" || !sp.kinds[o.K].indep {
				continue
			}
			for _, x := range slots[o.ID].raw {
				parts = append(parts, part{o, x, canon(x)})
			}
		}
	}
	if len(parts) == 0 {
		return
	}
	check := func(what string, skip int) bool {
		if a := e.altered(); a != "" && what != "source" {
			r.fail(parts[skip].o.ID, "aliases-source:"+parts[skip].o.K, "editing its result changed %s", a)
			return false
		}
		for i := range parts {
			if i == skip {
				continue
			}
			if t := canon(parts[i].x); t != parts[i].text {
				if what == "source" {
					r.fail(parts[i].o.ID, "aliases-source:"+parts[i].o.K, "editing the source changed the result from %s to %s", head(parts[i].text, 300), head(t, 300))
				} else {
					r.fail(parts[i].o.ID, "aliases-result:"+parts[i].o.K, "editing a result of %s (op %d) changed another's from %s to %s", parts[skip].o.K, parts[skip].o.ID, head(parts[i].text, 300), head(t, 300))
				}
				return false
			}
		}
		return true
	}
	e.scribble(1)
	r.st.C["fault:owner-edits-source"]++
	if !check("source", -1) {
		return
	}
	rr := newRng(p.Seed, uint64(p.Index), 77)
	for k := 0; k < 5; k++ {
		i := rr.N(len(parts))
		if k < len(parts) && len(parts) <= 5 {
			i = k
		} else if k >= len(parts) {
			break
		}
		scribbleResult(parts[i].x, float64(k)*1000)
		r.st.C["fault:owner-edits-result"]++
		parts[i].text = canon(parts[i].x)
		if !check("result", i) {
			return
		}
	}
}
