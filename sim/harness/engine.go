package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"geosim/simrt"
)

// Op is one operation of a plan. Its ID is unique in the plan and survives
// shrinking, because recorded scheduling decisions refer to it.
type Op struct {
	ID int       `json:"id"`
	K  string    `json:"k"`
	N  []int     `json:"n,omitempty"`
	F  []float64 `json:"f,omitempty"`
	S  []string  `json:"s,omitempty"`
	G  []Geom    `json:"g,omitempty"`
}

func (o *Op) n(i int) int {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}

func (o *Op) f(i int) float64 {
	if i < len(o.F) {
		return o.F[i]
	}
	return 0
}

func (o *Op) s(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

// Obj is one storable object of an index plan. P selects the form of its
// Properties (which always carry Seq, except form 3: nil).
type Obj struct {
	ID  string `json:"id"`
	P   int    `json:"p,omitempty"`
	Seq int    `json:"seq"`
	G   Geom   `json:"g"`
}

// Plan determines a run completely.
type Plan struct {
	Prop  string         `json:"prop"`
	Seed  uint64         `json:"seed"`
	Index int            `json:"index"`
	Cfg   map[string]int `json:"cfg,omitempty"`
	Objs  []Obj          `json:"objs,omitempty"`
	Pool  []Geom         `json:"pool,omitempty"`
	Init  []Op           `json:"init,omitempty"` // run alone, before the tasks
	Tasks [][]Op         `json:"tasks"`
	Sched simrt.Sched    `json:"sched"`

	nextID int
}

func (p *Plan) op(k string) Op { p.nextID++; return Op{ID: p.nextID - 1, K: k} }

func (p *Plan) maxOp() int {
	m := 0
	for _, o := range p.Init {
		if o.ID > m {
			m = o.ID
		}
	}
	for _, t := range p.Tasks {
		for _, o := range t {
			if o.ID > m {
				m = o.ID
			}
		}
	}
	return m + 1
}

func (p *Plan) nOps() int {
	n := len(p.Init)
	for _, t := range p.Tasks {
		n += len(t)
	}
	return n
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		harnessBug("plan does not marshal: " + err.Error())
	}
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		harnessBug("plan does not unmarshal: " + err.Error())
	}
	return &q
}

func (p *Plan) hash() uint64 {
	q := *p
	q.Sched.Seed = 0
	b, _ := json.Marshal(&q)
	return hashStr(string(b))
}

// Violation is what an oracle reports. Class is stable under shrinking.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Op     int    `json:"op"`
}

func (v *Violation) String() string { return v.Class + ": " + v.Detail }

// Prop is the checker of one property.
type Prop interface {
	ID() string
	Gen(r *Rng, idx int) *Plan
	Exec(p *Plan, st *Stats) *Violation
	// Rule says what counts as a non-trivial run.
	Rule() string
	// Runs is the number of runs of a tier.
	Runs(tier string) int
	// Real and Stub list what ran as shipped and what was simulated.
	Real() []string
	Stub() []string
}

var props = map[string]Prop{}

func register(p Prop) { props[p.ID()] = p }

// Stats accumulates over the runs of one worker.
type Stats struct {
	C      map[string]int64 // operations, faults, ... by name
	Steps  int64
	SimNs  int64
	Switch int64
	Runs   int64
	Trivia int64 // runs that were trivial
	States map[uint64]struct{}
	Scheds map[uint64]struct{} // distinct (plan, schedule) of non-trivial runs
	// of the current run
	Digest     uint64
	Nontrivial bool
	// RefDigest is folded over reference results only.
	RefDigest uint64
	Reverse   bool // second pass: reference phase in reverse order, nothing else
}

func newStats() *Stats {
	return &Stats{C: map[string]int64{}, States: map[uint64]struct{}{}, Scheds: map[uint64]struct{}{}}
}

func (s *Stats) add(k string, n int) {
	if n != 0 {
		s.C[k] += int64(n)
	}
}

func (s *Stats) state(h uint64) {
	if len(s.States) < 1<<20 {
		s.States[h] = struct{}{}
	}
}

func (s *Stats) note(x string) { s.Digest = mix(s.Digest ^ hashStr(x)) }

// harnessBug reports a fault of the simulator itself (exit 3, never a violation).
func harnessBug(s string) {
	fmt.Fprintf(os.Stderr, "HARNESS-BUG: %s\n%s\n", s, debug.Stack())
	os.Exit(3)
}

// run is the context of one execution.
type run struct {
	p    *Plan
	st   *Stats
	viol []*Violation // by task, first of each
}

func newRun(p *Plan, st *Stats) *run {
	r := &run{p: p, st: st, viol: make([]*Violation, len(p.Tasks)+1)}
	simrt.Reset(p.Sched, p.maxOp())
	return r
}

// fail records a violation of the running task (slot 0: outside tasks).
func (r *run) fail(op int, class, format string, a ...interface{}) {
	i := simrt.Self() + 1
	if i >= len(r.viol) {
		i = 0
	}
	if r.viol[i] == nil {
		d := fmt.Sprintf(format, a...)
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		r.viol[i] = &Violation{Class: class, Detail: d, Op: op}
	}
}

//go:norace
func (r *run) failed() bool {
	for _, v := range r.viol {
		if v != nil {
			return true
		}
	}
	return false
}

func (r *run) first() *Violation {
	for _, v := range r.viol {
		if v != nil {
			return v
		}
	}
	return nil
}

type panicInfo struct {
	val   string
	limit bool
	where string
}

// guard runs library code and catches its panics.
func guard(f func()) (pi *panicInfo) {
	defer func() {
		if x := recover(); x != nil {
			pi = &panicInfo{val: fmt.Sprint(x), where: libFrame(string(debug.Stack()))}
			if _, ok := x.(simrt.StepLimit); ok {
				pi.limit = true
			}
		}
	}()
	f()
	return nil
}

// libFrame finds the innermost library function of a stack trace.
func libFrame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/hzw456/go-geo") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/hzw456/")
		}
	}
	return "?"
}

// lib runs library code on behalf of op; a panic or an exceeded step budget is
// a violation. It reports whether the call returned.
func (r *run) lib(op *Op, f func()) bool {
	pi := guard(f)
	if pi == nil {
		return true
	}
	if pi.limit {
		r.fail(op.ID, "no-progress:"+op.K, "%s in %s", pi.val, pi.where)
	} else {
		r.fail(op.ID, "panic:"+op.K, "%s in %s", pi.val, pi.where)
	}
	return false
}

// tasks runs all task programs under the scheduler.
func (r *run) tasks(limit func(o *Op) int, do func(t int, o *Op)) {
	fns := make([]func(), len(r.p.Tasks))
	for i := range r.p.Tasks {
		i := i
		ops := r.p.Tasks[i]
		fns[i] = func() {
			defer func() {
				if x := recover(); x != nil {
					harnessBug(fmt.Sprintf("panic in task code: %v", x))
				}
			}()
			for k := range ops {
				if r.failed() {
					return
				}
				simrt.BeginOp(ops[k].ID, limit(&ops[k]))
				do(i, &ops[k])
			}
		}
	}
	simrt.ChildPanic = ""
	if !simrt.Run(fns) {
		r.fail(0, "deadlock", "tasks wait for each other for ever")
	}
	if simrt.ChildPanic != "" {
		r.fail(0, "panic:goroutine", "a goroutine of the library panicked: %s", simrt.ChildPanic)
	}
}

// solo runs library code outside the tasks with a step budget.
func (r *run) solo(op *Op, limit int, f func()) bool {
	return r.lib(op, func() { simrt.Solo(limit, f) })
}

// finish folds the run into the statistics.
func (r *run) finish() *Violation {
	s := simrt.GetStats()
	r.st.Steps += s.Steps
	r.st.SimNs += simrt.SimNanos()
	r.st.Switch += s.Switches
	r.st.Digest = mix(r.st.Digest ^ s.Hash)
	v := r.first()
	if v != nil {
		r.st.note(v.Class)
	}
	return v
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// randSched draws a switching rate: from none over a few long runs between
// switches to one switch every other statement.
func randSched(r *Rng) simrt.Sched {
	rates := []uint32{64, 256, 1024, 4096, 12000, 32768}
	return simrt.Sched{Seed: r.U64(), Rate: rates[r.N(len(rates))]}
}
