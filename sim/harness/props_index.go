package main

import "geosim/simrt"

var libReal = []string{"github.com/hzw456/go-geo (root package, every statement, from the current tree)"}
var idxStub = []string{"client goroutines: simulated tasks, one runs at a time", "reader/writer lock around the index: simulated", "clock, math/rand, sync as used by the library: simulated"}

// ---- C01

type c01 struct{}

func (c01) ID() string { return "C01" }
func (c01) Runs(t string) int {
	if t == "thorough" {
		return 5000000
	}
	return 110000
}
func (c01) Real() []string { return libReal }
func (c01) Stub() []string { return idxStub }
func (c01) Rule() string {
	return "a run is a generated history of builds, inserts, deletes, upserts and bulk rebuilds by 1-4 client tasks under one seeded schedule (one in 2000 on an index of thousands of objects), every read compared with a multiset model; non-trivial when at least one update and one read took effect on an index that held at least 2 objects; states are hashes of (contents, depth, listed boxes) at the end of runs"
}

func genIndexPlan(r *Rng, reads []int, sharedIDs bool, noDrain bool, more ...func(*indexGen)) (*Plan, *indexGen) {
	p := &Plan{}
	n := r.Range(2, 40)
	if r.P(0.15) {
		n = r.Range(40, 120)
	} else if r.P(0.01) {
		n = r.Range(120, 400)
	}
	g := newIndexGen(r, p, n, sharedIDs)
	for _, f := range more {
		f(g)
	}
	g.config()
	tasks := make([][]Op, r.Range(1, 4))
	g.genHistory(tasks, reads, noDrain)
	p.Tasks = tasks
	p.Sched = randSched(r)
	return p, g
}

func (c01) Gen(r *Rng, idx int) *Plan {
	if idx%2000 == 1234 {
		p := genBig(r, false, false)
		p.Cfg["nonn"] = 1
		return p
	}
	p, _ := genIndexPlan(r, []int{6, 3, 3, 0, 2, 0, 1}, r.P(0.5), false, (*indexGen).addEmpties)
	p.Cfg["nonn"] = 1
	return p
}

func (c01) Exec(p *Plan, st *Stats) *Violation {
	return execIndex(p, st, func(w *world) bool { return p.nOps() > 4 && len(w.objs) > 1 })
}

// ---- C02

type c02 struct{}

func (c02) ID() string { return "C02" }
func (c02) Runs(t string) int {
	if t == "thorough" {
		return 5000000
	}
	return 110000
}
func (c02) Real() []string { return libReal }
func (c02) Stub() []string { return idxStub }
func (c02) Rule() string {
	return "a run is a history as for C01 with nearest-neighbour queries (k from 0 to beyond the size) throughout (one in 4000 on an index of thousands of objects), each compared with a brute-force ranking of the model; non-trivial when the history has at least 4 operations; states are hashes of (contents, depth, listed boxes) at the end of runs"
}
func (c02) Gen(r *Rng, idx int) *Plan {
	if idx%4000 == 1234 {
		return genBig(r, true, false)
	}
	p, _ := genIndexPlan(r, []int{0, 0, 0, 14, 1, 0, 0}, r.P(0.3), false)
	return p
}
func (c02) Exec(p *Plan, st *Stats) *Violation {
	v := execIndex(p, st, func(w *world) bool { return p.nOps() > 4 && len(w.objs) > 1 })
	return only(v, st, ":nn")
}

// ---- C05

type c05 struct{}

func (c05) ID() string { return "C05" }
func (c05) Runs(t string) int {
	if t == "thorough" {
		return 5000000
	}
	return 110000
}
func (c05) Real() []string { return libReal }
func (c05) Stub() []string { return idxStub }
func (c05) Rule() string {
	return "a run is a history as for C01 in which conditions of searches and deletes panic, or end their goroutine, at a chosen evaluation while other tasks query; the model is unchanged by them and everything is asked again afterwards; non-trivial when at least one fault fired; states are hashes of (contents, depth, listed boxes) at the end of runs"
}
func (c05) Gen(r *Rng, idx int) *Plan {
	p, g := genIndexPlan(r, []int{2, 3, 2, 2, 1, 0, 1}, r.P(0.3), r.P(0.8))
	// sprinkle interrupted operations over the tasks
	for n := r.Range(2, 12); n > 0; n-- {
		t := r.N(len(p.Tasks))
		o := g.gen([]string{"pcond", "pdel"}[r.N(2)])
		at := r.N(len(p.Tasks[t]) + 1)
		p.Tasks[t] = append(p.Tasks[t][:at:at], append([]Op{o}, p.Tasks[t][at:]...)...)
	}
	// callers that die inside their condition
	for n := r.N(4); n > 0; n-- {
		var t []Op
		for k := r.N(4); k > 0; k-- {
			t = append(t, g.gen([]string{"box", "cond", "id", "nn", "pcond", "pdel"}[r.N(6)]))
		}
		p.Tasks = append(p.Tasks, append(t, g.gen("gexit")))
	}
	return p
}
func (c05) Exec(p *Plan, st *Stats) *Violation {
	var log []Op
	run := func(p *Plan, st *Stats) *Violation {
		f0 := st.C["fault:condition-panics"] + st.C["fault:condition-ends-goroutine"]
		return execIndex(p, st, func(w *world) bool {
			log = w.log
			return st.C["fault:condition-panics"]+st.C["fault:condition-ends-goroutine"] > f0
		})
	}
	v := run(p, st)
	if v == nil {
		return nil
	}
	again := func(p *Plan) *Violation {
		if p.Cfg["fresh"] == 1 {
			simrt.Reset(simrt.Sched{Seed: p.Sched.Seed}, 1)
			simrt.Fresh()
		}
		return run(p, newStats())
	}
	// Does the history go wrong without what was interrupted, too? Then that is
	// not what broke it.
	q := p.clone()
	q.Tasks = [][]Op{log}
	q.Sched = simrt.Sched{Seed: p.Sched.Seed, Fixed: true}
	if again(q) != nil {
		st.C["runs-ended-by-a-failure-of-another-property"]++
		return nil
	}
	again(p) // leaves the trace of the failing run
	return v
}

// ---- C17

type c17 struct{}

func (c17) ID() string { return "C17" }
func (c17) Runs(t string) int {
	if t == "thorough" {
		return 5000000
	}
	return 110000
}
func (c17) Real() []string { return libReal }
func (c17) Stub() []string { return idxStub }
func (c17) Rule() string {
	return "a run is a history as for C01 (one in 2000 on an index of thousands of objects) with the listed boxes and the depth examined throughout and every operation under a polynomial step budget; non-trivial when the history has at least 4 operations; states are hashes of (depth, size, listed boxes) at every examination"
}
func (c17) Gen(r *Rng, idx int) *Plan {
	if idx%2000 == 1234 {
		p := genBig(r, false, true)
		p.Cfg["struct"] = 1
		return p
	}
	p, _ := genIndexPlan(r, []int{1, 0, 1, 1, 0, 10, 0}, r.P(0.3), false)
	p.Cfg["struct"] = 1
	return p
}
func (c17) Exec(p *Plan, st *Stats) *Violation {
	v := execIndex(p, st, func(w *world) bool { return p.nOps() > 4 && len(w.objs) > 1 })
	return only(v, st, "struct-", "no-progress", ":struct")
}

func init() {
	register(c01{})
	register(c02{})
	register(c05{})
	register(c17{})
}
