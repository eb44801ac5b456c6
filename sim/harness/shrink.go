package main

import (
	"path/filepath"
	"strings"
	"time"

	"geosim/simrt"
)

// doShrink minimises the single plan of a replay file in this process: first it
// turns the random schedule into an explicit list of switches, then it drops
// tasks, operations, switches, and lets the property simplify what is left.
func doShrink(path string) {
	r := loadReplay(path)
	pr := props[r.Property]
	st := newStats()
	p := r.Plans[len(r.Plans)-1]
	class := r.Violation.Class
	deadline := time.Now().Add(50 * time.Second)
	fails := func(q *Plan) bool {
		v := execute(pr, q.clone(), st)
		return v != nil && v.Class == class
	}
	if !fails(p) {
		return
	}
	if !p.Sched.Fixed {
		execute(pr, p.clone(), st)
		sw, ok := simrt.Recorded()
		if ok {
			q := p.clone()
			q.Sched = simrt.Sched{Fixed: true, Sw: sw}
			if fails(q) {
				p = q
			}
		}
	}
	save := func(q *Plan) {
		out := *r
		out.Plans = []*Plan{q}
		saveReplay(filepath.Join(*fWork, "small.json"), &out)
	}
	save(p)
	ok := func(q *Plan) bool { return time.Now().Before(deadline) && fails(q) }
	for round := 0; round < 4 && time.Now().Before(deadline); round++ {
		before := p.nOps()*1000 + len(p.Sched.Sw)
		p = shrinkOps(p, ok)
		save(p)
		p = shrinkSwitches(p, ok)
		save(p)
		p = shrinkGeoms(p, ok)
		save(p)
		if p.nOps()*1000+len(p.Sched.Sw) == before {
			break
		}
	}
	p = shrinkBig(p, ok)
	p = dropUnused(p, ok)
	save(p)
}

func shrinkSlice[T any](xs []T, try func([]T) bool) []T {
	for n := (len(xs) + 1) / 2; n >= 1; n /= 2 {
		for i := 0; i < len(xs); {
			e := i + n
			if e > len(xs) {
				e = len(xs)
			}
			c := append(append([]T{}, xs[:i]...), xs[e:]...)
			if try(c) {
				xs = c
			} else {
				i += n
			}
		}
	}
	return xs
}

func shrinkOps(p *Plan, ok func(*Plan) bool) *Plan {
	for t := range p.Tasks {
		if len(p.Tasks[t]) == 0 {
			continue
		}
		q := p.clone()
		q.Tasks[t] = nil
		if ok(q) {
			p = q
		}
	}
	for t := range p.Tasks {
		shrinkSlice(p.Tasks[t], func(c []Op) bool {
			q := p.clone()
			q.Tasks[t] = c
			if ok(q) {
				p = q
				return true
			}
			return false
		})
	}
	shrinkSlice(p.Init, func(c []Op) bool {
		q := p.clone()
		q.Init = c
		if ok(q) {
			p = q
			return true
		}
		return false
	})
	return p
}

func shrinkSwitches(p *Plan, ok func(*Plan) bool) *Plan {
	shrinkSlice(p.Sched.Sw, func(c []simrt.Switch) bool {
		q := p.clone()
		q.Sched.Sw = c
		if ok(q) {
			p = q
			return true
		}
		return false
	})
	return p
}

// shrinkGeoms drops points from pooled geometries and objects that keep their shape legal.
func shrinkGeoms(p *Plan, ok func(*Plan) bool) *Plan {
	try := func(get func(*Plan) *Geom) {
		for {
			g := get(p)
			if strings.Contains(g.T, "Polygon") && (g.npoints() <= 4 || len(g.C) != 1 || len(g.C[0]) != 1) {
				return
			}
			if g.npoints() <= 3 || len(g.C) == 0 || len(g.C[0]) == 0 || len(g.C[0][0]) <= 3 {
				return
			}
			n := len(g.C[0][0])
			done := true
			for _, i := range []int{n - 2, n / 2, 1} {
				if i <= 0 || i >= n-1 {
					continue
				}
				q := p.clone()
				h := get(q)
				h.C[0][0] = append(append([][]float64{}, h.C[0][0][:i]...), h.C[0][0][i+1:]...)
				if ok(q) {
					p, done = q, false
					break
				}
			}
			if done {
				return
			}
		}
	}
	if len(p.Objs) > 60 || len(p.Pool) > 60 {
		return p
	}
	for i := range p.Objs {
		i := i
		try(func(q *Plan) *Geom { return &q.Objs[i].G })
	}
	for i := range p.Pool {
		i := i
		shared := false
		for _, g := range p.Pool {
			if len(g.Sub) > 0 && g.Sub[0] == i {
				shared = true
			}
		}
		if !shared && len(p.Pool[i].Sub) == 0 {
			try(func(q *Plan) *Geom { return &q.Pool[i] })
		}
	}
	return p
}

// dropUnused blanks objects no operation needs (they are referenced by index).
func dropUnused(p *Plan, ok func(*Plan) bool) *Plan {
	n := len(p.Objs)
	for n > 0 {
		q := p.clone()
		q.Objs = q.Objs[:n-1]
		if !ok(q) {
			break
		}
		p, n = q, n-1
	}
	return p
}

// shrinkBig lowers the sizes of a large plan.
func shrinkBig(p *Plan, ok func(*Plan) bool) *Plan {
	if p.Cfg["big"] == 0 {
		return p
	}
	lower := func(v int, set func(q *Plan, v int)) {
		for _, num := range []int{2, 4, 7} { // to num/8
			for v > 1 {
				q := p.clone()
				set(q, v*num/8)
				if !ok(q) {
					break
				}
				p, v = q, v*num/8
			}
		}
	}
	lower(p.Cfg["big"], func(q *Plan, v int) { q.Cfg["big"] = v })
	for t := range p.Tasks {
		for i := range p.Tasks[t] {
			if o := p.Tasks[t][i]; (o.K == "bins" || o.K == "bdel" || o.K == "bups" || o.K == "bq") && len(o.N) > 0 {
				lower(o.N[0], func(q *Plan, v int) { q.Tasks[t][i].N[0] = v })
			}
		}
	}
	return p
}
