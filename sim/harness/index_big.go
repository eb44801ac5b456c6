package main

import (
	"math"

	"geosim/simrt"
)

// Large plans: thousands of points made from a seed, so that the plan stays small.

func bigObjs(n, seed int) []Obj {
	r := newRng(uint64(seed))
	mode := r.N(4)
	c := newCoords(r, r.N(cmCount))
	cx, cy := 0.0, 0.0
	name := idStyle(r)
	objs := make([]Obj, n)
	for i := range objs {
		var x, y float64
		switch mode {
		case 0:
			x, y = r.F()*1000, r.F()*1000
		case 1: // grid, many in the same place
			s := math.Sqrt(float64(n))
			x, y = math.Floor(r.F()*s), math.Floor(r.F()*s/3)
		case 2: // clusters
			if i%97 == 0 {
				cx, cy = r.F()*1e6, r.F()*1e6
			}
			x, y = cx+r.F(), cy+r.F()
		default:
			x, y = c.xy(r)
		}
		objs[i] = Obj{Seq: 1000000 + i, ID: "big" + name(i), P: i % 3, G: pointGeom(x, y)}
	}
	return objs
}

// big executes an operation of a large plan: N = count, variant, seed.
func (w *world) big(op *Op) {
	if w.nbig == 0 {
		return
	}
	r := w.r
	rng := newRng(uint64(op.n(2)))
	n := w.nbig
	at, step := rng.N(n), 1
	if rng.P(0.7) {
		step = rng.Range(1, 2*n) | 1
	}
	s0 := simrt.OpSteps()
	more := func() bool {
		simrt.Extend(w.limit(64)) // each part of the operation has its own budget
		return !r.failed() && simrt.OpSteps()-s0 < 12000000
	}
	next := func(stored bool) int {
		for k := 0; k < n; k++ {
			i := w.base + at
			at = (at + step) % n
			if (w.count[i] > 0) == stored {
				return i
			}
		}
		return -1
	}
	switch op.K {
	case "bins":
		for k := 0; k < op.n(0) && more(); k++ {
			i := next(rng.P(0.1))
			if i < 0 {
				return
			}
			w.apply(&Op{ID: op.ID, K: "ins", N: []int{i}})
		}
	case "bdel":
		for k := 0; k < op.n(0) && more(); k++ {
			i := next(true)
			if i < 0 {
				return
			}
			switch op.n(1) {
			case 0:
				w.apply(&Op{ID: op.ID, K: "del", N: []int{i}})
			case 1:
				w.apply(&Op{ID: op.ID, K: "delcmp", N: []int{i}})
			default:
				if k > 12 {
					return
				}
				w.apply(&Op{ID: op.ID, K: "delid", S: []string{w.objs[i].ID}})
			}
		}
	case "bups":
		o := Op{ID: op.ID, K: "ups"}
		for k := 0; k < op.n(0) && k < 12; k++ {
			if i := next(rng.P(0.5)); i >= 0 {
				o.N = append(o.N, i)
			}
		}
		more()
		w.apply(&o)
	case "bq":
		for k := 0; k < op.n(0) && more(); k++ {
			a, b := w.boxes[w.base+rng.N(n)], w.boxes[w.base+rng.N(n)]
			if op.n(1) == 1 {
				kk := []int{1, 2, 10, n / 2, n, n + 5}[rng.Pick(4, 2, 4, 1, 1, 1)]
				if kk > 2000 { // k nearest cost k steps per object that no step count sees
					kk = 2000
				}
				w.checkNN(op, kk, (a.x0+b.x0)/2, b.y0)
				continue
			}
			w.apply(&Op{ID: op.ID, K: "box", F: []float64{math.Min(a.x0, b.x0), math.Min(a.y0, b.y0), math.Max(a.x0, b.x0), math.Max(a.y0, b.y0)}})
		}
	}
}

// genBig makes a large plan for checks that ask boxes (nn false) or neighbours.
func genBig(r *Rng, nn, structure bool) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	g := newIndexGen(r, p, r.Range(2, 10), r.P(0.3))
	g.config()
	n := r.Range(500, 3000)
	if r.P(0.4) {
		n = r.Range(3000, 9000)
	} else if r.P(0.1) && !structure {
		n = r.Range(9000, 30000)
	}
	mx := []int{2, 3, 4, 8, 16, 33, 64, 65, 100, 128, 130, 200, 257, 300, 1000}[r.N(15)]
	if nn && r.P(0.3) { // three levels of wide nodes
		mx = r.Range(65, 100)
		n = mx * mx * r.Range(10, 30) / 10
	}
	p.Cfg["max"] = mx
	p.Cfg["min"] = r.Range(1, mx/2)
	if p.Cfg["mode"] != 0 { // those trees have nodes of up to half of the objects; splitting one is quadratic
		n = r.Range(500, 4000)
	}
	p.Cfg["big"], p.Cfg["bigseed"] = n, r.N(1<<30)
	if r.P(0.3) && n < 6000 && mx < 140 {
		p.Cfg["bigins"] = 1
		p.Cfg["mode"] = 0
	}
	p.Init = []Op{p.op("build")}
	q := 0
	if nn {
		q = 1
	}
	tasks := make([][]Op, r.Range(1, 3))
	add := func(o Op) {
		t := r.N(len(tasks))
		tasks[t] = append(tasks[t], o)
	}
	for ph := r.Range(1, 5); ph > 0; ph-- {
		k := []string{"bins", "bdel", "bups"}[r.Pick(2, 4, 1)]
		o := p.op(k)
		o.N = []int{r.Range(1, 400), r.N(3), r.N(1 << 30)}
		if k == "bdel" && r.P(0.4) {
			o.N[0], o.N[1] = r.Range(400, n+10), r.N(2)
		}
		add(o)
		o = p.op("bq")
		o.N = []int{r.Range(5, 30), q, r.N(1 << 30)}
		add(o)
		for i := r.N(4); i > 0; i-- {
			add(g.gen([]string{"ins", "del", "ups", "size"}[r.N(4)]))
		}
		if r.P(0.2) {
			add(g.gen("rebuild"))
		}
		if structure {
			add(p.op("struct"))
		}
	}
	p.Tasks = tasks
	p.Sched = randSched(r)
	return p
}

func pointGeom(x, y float64) Geom { return Geom{T: "Point", C: [][][][]float64{{{{x, y}}}}} }
