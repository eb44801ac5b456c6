package main

import (
	"fmt"
	"sort"

	geo "github.com/hzw456/go-geo"

	"geosim/simrt"
	sync "geosim/simrt/simsync"
)

// ---- C03: at-least-once delivery of deletes and upserts

type c03 struct{}

func (c03) ID() string { return "C03" }
func (c03) Runs(t string) int {
	if t == "thorough" {
		return 4000000
	}
	return 110000
}
func (c03) Real() []string { return libReal }
func (c03) Stub() []string {
	return append([]string{"sender, network and receiver: simulated (in-order channel that repeats, sender that goes back after a crash, receiver that rebuilds its index)"}, idxStub...)
}
func (c03) Rule() string {
	return "a run delivers one or two logs of delete-by-ID and upsert messages to an index that already holds objects sharing IDs; messages are repeated, senders crash and go back to an earlier message, the receiver crashes and rebuilds; every step is compared with an exact model, the end with a single in-order application; non-trivial when at least one message was re-delivered; states are hashes of (contents, depth, listed boxes) at the end"
}

func (c03) Gen(r *Rng, idx int) *Plan {
	p := &Plan{}
	n := r.Range(3, 30)
	if r.P(0.1) {
		n = r.Range(30, 90)
	}
	g := newIndexGen(r, p, n, true)
	g.addEmpties()
	g.config()
	b := p.op("build")
	for k := r.Range(0, 2*n); k > 0; k-- {
		b.N = append(b.N, r.N(n))
	}
	p.Init = []Op{b}
	senders := r.Range(1, 2)
	// Objects belong to the sender their ID hashes to.
	owned := make([][]int, senders)
	for i, o := range p.Objs {
		s := int(hashStr(o.ID) % uint64(senders))
		owned[s] = append(owned[s], i)
	}
	for s := 0; s < senders; s++ {
		var log []Op
		if len(owned[s]) > 0 {
			for k := r.Range(1, 14); k > 0; k-- {
				m := Op{K: "ups"}
				if r.P(0.4) {
					m = Op{K: "delid", S: []string{p.Objs[owned[s][r.N(len(owned[s]))]].ID}}
				} else {
					j := r.Pick(0, 4, 3, 2, 1)
					if r.P(0.03) {
						j = r.Range(5, 60)
					}
					for ; j > 0; j-- {
						m.N = append(m.N, owned[s][r.N(len(owned[s]))])
					}
				}
				if len(m.S) == 0 {
					m.S = []string{""}
				}
				m.S = append(m.S, fmt.Sprintf("m%d.%d", s, len(log)))
				log = append(log, m)
			}
		}
		var t []Op
		acked := 0
		for pos := 0; pos < len(log); {
			o := log[pos]
			o.ID = p.nextID
			p.nextID++
			t = append(t, o)
			pos++
			switch r.Pick(10, 2, 1, 3, 1) {
			case 1: // the network repeats it
				o.ID = p.nextID
				p.nextID++
				t = append(t, o)
			case 2: // the sender crashes, resumes after the last acknowledgement
				pos = acked
			case 3:
				acked = pos
			case 4:
				if r.P(0.3) {
					t = append(t, g.gen("rebuild"))
				}
			}
			if len(t) > 80 {
				acked = pos
			}
			if r.P(0.1) {
				t = append(t, g.gen("id"))
			}
		}
		p.Tasks = append(p.Tasks, t)
	}
	if r.P(0.5) {
		var t []Op
		for k := r.Range(1, 10); k > 0; k-- {
			t = append(t, g.gen([]string{"box", "id", "nn", "size", "full"}[r.N(5)]))
		}
		p.Tasks = append(p.Tasks, t)
	}
	p.Sched = randSched(r)
	return p
}

func (c03) Exec(p *Plan, st *Stats) *Violation {
	redelivered := 0
	var fin func(w *world)
	fin = func(w *world) {
		// Expected contents: initial, then each log once, in order (if the
		// delivery really was in order, which shrinking may break).
		cnt := make([]int, len(w.objs))
		for i := range p.Init {
			for k := range p.Init[i].N {
				if x := w.obj(&p.Init[i], k); x >= 0 {
					cnt[x]++
				}
			}
		}
		del := func(id string) {
			for i := range w.objs {
				if w.objs[i].ID == id {
					cnt[i] = 0
				}
			}
		}
		valid := true
		for _, t := range p.Tasks {
			var s, m int
			max := -1
			for _, o := range t {
				if len(o.S) < 2 {
					continue
				}
				fmt.Sscanf(o.S[1], "m%d.%d", &s, &m)
				if m > max+1 {
					valid = false
				}
				if m <= max {
					redelivered++
					continue
				}
				max = m
				if o.K == "delid" {
					del(o.S[0])
					continue
				}
				for k := range o.N {
					if x := w.obj(&o, k); x >= 0 {
						del(w.objs[x].ID)
						cnt[x] = 1
					}
				}
			}
			// an incomplete last round leaves an earlier state
			last := -1
			for _, o := range t {
				if len(o.S) >= 2 {
					fmt.Sscanf(o.S[1], "m%d.%d", &s, &last)
				}
			}
			if last != max {
				valid = false
			}
		}
		st.add("fault:redelivered-message", redelivered)
		if !valid || w.r.failed() {
			return
		}
		for i := range cnt {
			if cnt[i] != w.count[i] {
				w.r.fail(0, "no-convergence", "after re-delivery object ID %q seq %d is stored %d times, after one delivery %d times", w.objs[i].ID, w.objs[i].Seq, w.count[i], cnt[i])
				return
			}
		}
	}
	return execIndex(p, st, func(w *world) bool { fin(w); return redelivered > 0 })
}

// ---- C04: generated IDs under a bad clock

type c04 struct{}

func (c04) ID() string { return "C04" }
func (c04) Runs(t string) int {
	if t == "thorough" {
		return 4000000
	}
	return 110000
}
func (c04) Real() []string { return libReal }
func (c04) Stub() []string { return idxStub }
func (c04) Rule() string {
	return "a run interleaves inserts with generated IDs (and construction with generated IDs), deletes and re-inserts by 1-3 tasks with clock faults (granularity, stall, jumps); non-trivial when at least one clock fault and two inserts with generated ID happened; states are hashes of (objects alive, clock faults so far)"
}

func (c04) Gen(r *Rng, idx int) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	c := newCoords(r, r.N(cmCount))
	n := r.Pick(3, 3, 2)
	mk := p.op("new")
	switch n {
	case 1:
		for k := r.Range(1, 9); k > 0; k-- {
			mk.G = append(mk.G, c.gen(r, flatTypes[r.N(len(flatTypes))], 4))
		}
	case 2:
		for k := r.Range(10, 30); k > 0; k-- {
			mk.G = append(mk.G, c.gen(r, "Point", 4))
		}
	}
	many := 0 // a run over many objects: has few steps else
	if idx%25000 == 777 {
		many = 70000
	} else if idx%25000 == 1777 {
		many = 9000
	} else if r.P(0.003) {
		many = r.Range(100, 1500)
	}
	churn := 0 // inserts and deletes in turn
	if idx%50000 == 2777 {
		churn = 140000
	} else if many == 0 && r.P(0.003) {
		churn = r.Range(100, 3000)
	}
	if churn > 0 {
		many = 1
	}
	p.Cfg["many"] = many
	big := func(o *Op) {
		if many > 0 {
			n := many
			if many < 9000 {
				n = r.Range(many/2, many)
			}
			o.N = []int{n, r.N(3)}
		}
	}
	if many > 1 && (many != 9000 && r.P(0.6) || many == 70000) {
		mk.G = nil
		big(&mk)
	}
	p.Init = []Op{mk}
	if r.P(0.3) || many >= 9000 || churn > 3000 {
		o := p.op("clock")
		o.S = []string{"freeze"}
		p.Init = append([]Op{o}, p.Init...)
	}
	tasks := make([][]Op, r.Range(1, 3))
	steps := r.Range(4, 40)
	if many > 0 {
		steps = r.Range(2, 6)
		if many == 70000 {
			// nodes are large in such a tree: a split takes too long
			steps = 0
			for _, k := range []string{"look", "delid", "look"} {
				o := p.op(k)
				o.N = []int{r.N(many)}
				tasks[0] = append(tasks[0], o)
			}
		} else {
			o := p.op("burst")
			big(&o)
			if churn > 0 {
				o = p.op("churn")
				o.N = []int{churn, r.N(3)}
			}
			tasks[0] = append(tasks[0], o)
		}
	}
	for k := steps; k > 0; k-- {
		t := r.N(len(tasks))
		var o Op
		switch r.Pick(10, 4, 3, 2, 2, 1) {
		case 0:
			o = p.op("insr")
			o.G = []Geom{c.gen(r, flatTypes[r.N(len(flatTypes))], 4)}
		case 1:
			o = p.op("clock")
			o.S = []string{[]string{"freeze", "thaw", "jump", "gran"}[r.N(4)]}
			switch o.S[0] {
			case "jump":
				d := []int{1, 100, 1000, 1000000, 1000000000, 3600000000000, 500, 200, 300}[r.N(9)]
				if r.P(0.7) {
					d = -d
				}
				o.N = []int{d}
			case "gran":
				o.N = []int{[]int{1, 100, 1000, 1000000, 15600000, 1000000000}[r.N(6)]}
			}
		case 2:
			o = p.op("delid")
			o.N = []int{r.N(1000)}
		case 3:
			o = p.op("look")
			o.N = []int{r.N(1000)}
		case 4:
			o = p.op("reins")
			o.N = []int{r.N(1000)}
		case 5:
			o = p.op("insu")
			o.G = []Geom{c.gen(r, "Point", 4)}
			o.S = []string{fmt.Sprintf("user%d", k)}
		}
		tasks[t] = append(tasks[t], o)
	}
	p.Tasks = tasks
	p.Sched = randSched(r)
	return p
}

// manyPoints are n points on a grid, in an order that depends on k.
func manyPoints(n, k int) []Geom {
	out := make([]Geom, n)
	w := 1
	for w*w < n {
		w++
	}
	for i := range out {
		j := i
		if k%3 == 1 {
			j = n - 1 - i
		} else if k%3 == 2 {
			j = i * 7919 % n
		}
		out[i] = Geom{T: "Point", C: [][][][]float64{{{{float64(j%w) + 0.5, float64(j/w) - 0.25}}}}}
	}
	return out
}

type idObj struct {
	id string
	g  Geom
}

func (c04) Exec(p *Plan, st *Stats) *Violation {
	r := newRun(p, st)
	var lock sync.RWMutex
	var tree *geo.Rtree
	live := map[string]Geom{}
	var order []idObj // live, in order of entry
	gone := []idObj{} // deleted
	ever := map[string]bool{}
	faults, ins := 0, 0
	idSteps := func(*Op) int {
		if p.Cfg["many"] > 0 {
			return 1 << 34
		}
		return 1 << 22
	}

	all := func(op *Op) ([]geo.Spatial, bool) {
		var res []geo.Spatial
		ok := r.lib(op, func() { res = tree.SearchIntersect(everything()) })
		return res, ok
	}
	// absorb finds the objects that are new and checks their IDs.
	absorb := func(op *Op, want []Geom) {
		res, ok := all(op)
		if !ok {
			return
		}
		cnt := map[string]int{}
		var fresh []geo.Spatial
		for _, s := range res {
			cnt[s.ID]++
			if _, old := live[s.ID]; !old {
				fresh = append(fresh, s)
			}
			if cnt[s.ID] > 1 {
				r.fail(op.ID, "duplicate-id", "two objects carry the generated ID; now %d objects, %d inserted with generated ID so far", len(res), ins)
				return
			}
		}
		if len(res) != len(live)+len(want) || len(fresh) != len(want) {
			r.fail(op.ID, "lost-object", "%d objects found, %d of them new; expected %d and %d", len(res), len(fresh), len(live)+len(want), len(want))
			return
		}
		left := map[string]int{}
		for i := range want {
			left[want[i].key()]++
		}
		sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].ID < fresh[j].ID })
		for _, s := range fresh {
			if s.ID == "" {
				r.fail(op.ID, "empty-id", "an inserted object has an empty ID")
				return
			}
			if ever[s.ID] {
				r.fail(op.ID, "reused-id", "a generated ID was given out twice in the life of the index")
				return
			}
			ever[s.ID] = true
			g := specOf(s.Geom)
			if left[g.key()]--; left[g.key()] < 0 {
				r.fail(op.ID, "wrong-object", "a new object has geometry %s, which was not inserted", g)
				return
			}
			live[s.ID] = g
			order = append(order, idObj{s.ID, g})
		}
	}
	lookup := func(op *Op, o idObj) {
		var res []geo.Spatial
		if !r.lib(op, func() { res = tree.SearchBySpatialID(o.id) }) {
			return
		}
		if len(res) != 1 {
			r.fail(op.ID, "lookup", "looking up a generated ID found %d objects", len(res))
			return
		}
		if g := specOf(res[0].Geom); !eqGeom(g, o.g) || res[0].ID != o.id {
			r.fail(op.ID, "lookup", "looking up a generated ID found %s, it belongs to %s", g, o.g)
		}
	}
	do := func(op *Op) {
		st.C["op:"+op.K]++
		lock.Lock()
		defer lock.Unlock()
		if r.failed() || tree == nil && op.K != "new" && op.K != "clock" {
			return
		}
		switch op.K {
		case "new":
			want := append(op.G[:len(op.G):len(op.G)], manyPoints(op.n(0), op.n(1))...)
			var gs []geo.Geometry
			for _, g := range want {
				gs = append(gs, g.Build())
			}
			if r.lib(op, func() { tree = geo.NewRandomIDTree(gs...) }) {
				absorb(op, want)
				ins += len(want)
			}
		case "insr":
			g := op.G[0].Build()
			if r.lib(op, func() { tree.InsertWithRandomId(g) }) {
				ins++
				absorb(op, op.G[:1])
			}
		case "burst": // N[0] inserts in a row
			gs := manyPoints(op.n(0), op.n(1))
			ok := r.lib(op, func() {
				for i := range gs {
					tree.InsertWithRandomId(gs[i].Build())
				}
			})
			if ok {
				ins += len(gs)
				absorb(op, gs)
			}
		case "churn": // N[0] inserts, each deleted before the next
			gs := manyPoints(op.n(0), op.n(1))
			for i := range gs {
				before := len(live)
				var res []geo.Spatial
				ok := r.lib(op, func() {
					tree.InsertWithRandomId(gs[i].Build())
					x, y := gs[i].C[0][0][0][0], gs[i].C[0][0][0][1]
					res = tree.SearchIntersect(geo.NewBox(x, y, x, y))
				})
				if !ok {
					return
				}
				ins++
				id, news := "", 0
				for _, s := range res {
					if _, old := live[s.ID]; !old {
						id = s.ID
						news++
					} else if specOf(s.Geom).key() != live[s.ID].key() {
						r.fail(op.ID, "duplicate-id", "two objects carry the generated ID; %d inserted with generated ID so far", ins)
						return
					}
				}
				if news != 1 || id == "" {
					r.fail(op.ID, "lost-object", "%d new objects found after an insertion", news)
					return
				}
				if ever[id] {
					r.fail(op.ID, "reused-id", "a generated ID was given out twice in the life of the index, %d inserted so far", ins)
					return
				}
				ever[id] = true
				var del bool
				size := 0
				if !r.lib(op, func() { del = tree.DeleteBySpatialID(id); size = tree.Size() }) {
					return
				}
				if !del || size != before {
					r.fail(op.ID, "delete", "deleting by a generated ID reported %v and left %d objects of %d", del, size, before+1)
					return
				}
			}
		case "insu":
			if ever[op.s(0)] {
				return
			}
			g := op.G[0].Build()
			if r.lib(op, func() { tree.Insert(geo.Spatial{ID: op.s(0), Geom: g}) }) {
				absorb(op, op.G[:1])
			}
		case "delid":
			if len(order) == 0 {
				return
			}
			i := op.n(0) % len(order)
			o := order[i]
			var ok bool
			if !r.lib(op, func() { ok = tree.DeleteBySpatialID(o.id) }) {
				return
			}
			delete(live, o.id)
			order = append(order[:i:i], order[i+1:]...)
			gone = append(gone, o)
			res, got := all(op)
			if got && (!ok || len(res) != len(live)) {
				r.fail(op.ID, "delete", "deleting by a generated ID reported %v and left %d objects of %d", ok, len(res), len(live)+1)
			}
		case "reins":
			if len(gone) == 0 {
				return
			}
			i := op.n(0) % len(gone)
			o := gone[i]
			gone = append(gone[:i:i], gone[i+1:]...)
			g := o.g.Build()
			if r.lib(op, func() { tree.Insert(geo.Spatial{ID: o.id, Geom: g}) }) {
				live[o.id] = o.g
				order = append(order, o)
				lookup(op, o)
			}
		case "look":
			if len(order) > 0 {
				lookup(op, order[op.n(0)%len(order)])
			}
		case "clock":
			faults++
			st.C["fault:clock-"+op.s(0)]++
			switch op.s(0) {
			case "freeze":
				simrt.ClockFreeze(true)
			case "thaw":
				simrt.ClockFreeze(false)
			case "jump":
				simrt.ClockJump(int64(op.n(0)))
			case "gran":
				simrt.ClockGran(int64(op.n(0)))
			}
		}
		st.state(mix(uint64(len(order))<<16 ^ uint64(len(gone))<<8 ^ uint64(faults)))
	}
	for i := range p.Init {
		op := &p.Init[i]
		if pi := guard(func() { simrt.Solo(idSteps(op), func() { do(op) }) }); pi != nil {
			r.fail(op.ID, "no-progress:"+op.K, "%s", pi.val)
		}
	}
	if !r.failed() && tree != nil {
		r.tasks(idSteps, func(t int, o *Op) { do(o) })
	}
	if !r.failed() && tree != nil {
		end := Op{K: "end"}
		for i, o := range order {
			o := o
			if len(order) > 3000 && i%(len(order)/40) != 0 {
				continue
			}
			if pi := guard(func() { simrt.Solo(idSteps(&end), func() { lookup(&end, o) }) }); pi != nil {
				r.fail(0, "no-progress:look", "%s", pi.val)
			}
		}
	}
	st.add("clock-readings", int(simrt.ClockReads()))
	st.note(fmt.Sprint(len(order), len(gone), ins))
	st.Nontrivial = faults > 0 && ins > 1
	return r.finish()
}

func init() {
	register(c03{})
	register(c04{})
}
