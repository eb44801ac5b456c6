// Package simrt is the deterministic runtime under the instrumented library: it
// owns scheduling, time, randomness and blocking. Exactly one task runs at a
// time; at every scheduling point (Y, a blocking primitive, the end of a task)
// one seeded PRNG, or a recorded list of switches, decides who runs next.
package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

// Switch is one recorded decision: at scheduling point Step of operation Op,
// task To was released instead of the running one.
type Switch struct {
	Op, Step, To int
}

// Sched describes how scheduling decisions are made in one run.
type Sched struct {
	Seed  uint64   `json:"seed"`            // random decisions when Fixed is false
	Rate  uint32   `json:"rate"`            // switch probability per scheduling point, in 1/65536
	Fixed bool     `json:"fixed,omitempty"` // replay: only the listed switches
	Sw    []Switch `json:"sw,omitempty"`
}

// StepLimit is the panic value of an operation that ran past its step budget.
type StepLimit struct{ Steps int }

func (s StepLimit) Error() string { return fmt.Sprintf("no end after %d steps", s.Steps) }

const (
	stReady = iota
	stRunning
	stBlocked
	stDone
)

type task struct {
	id      int
	wake    chan struct{}
	st      int
	op      int // current operation id, -1 outside
	step    int // scheduling points passed in it
	limit   int
	sw      []Switch // decisions of the current operation
	swPos   int
	blockOn *int32
	child   bool
}

const maxRec = 1 << 16

// Stats of one run.
type Stats struct {
	Steps    int64 // scheduling points passed
	Switches int64
	Blocks   int64
	Hash     uint64 // schedule: (task, site, next) at every switch
	Deadlock bool
}

// All of the state below is only touched by whoever holds the token; accesses
// are kept out of the race detector's view (norace) because token hand-off is.
var (
	cur      *task
	tasks    [256]*task
	nTasks   int
	sched    Sched
	rngState uint64
	stats    Stats
	rec      [maxRec]Switch
	nRec     int
	recLost  bool
	done     chan struct{}
	swByOp   [][]Switch
	swChild  map[int][]Switch // decisions of goroutines started by the library
	nChild   int
	tick     int64 // event sequence number

	soloSteps int64
	soloLimit int64
	soloOn    bool

	// clock
	base     int64 // ns offset added
	stepNs   int64 = 100
	gran     int64 = 1
	frozen   bool
	frozenAt int64
	clkReads int64

	// PRNG handed to library code
	libRng uint64

	// Cover counts executions per site.
	Cover [1 << 16]uint32
	// SwitchSites counts preemptions per site.
	SwitchSites [1 << 16]uint32
	lastSite    uint32
)

//go:norace
func next(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Epoch changes with every run; simulated pools are emptied when it does (the
// garbage collector may empty real ones at any time).
//
//go:norace
func Epoch() int64 { return epoch }

var epoch int64

// Reset starts a new run: schedule, clock and library randomness.
//
//go:norace
func Reset(s Sched, nOps int) {
	soloDrain()
	epoch++
	sched = s
	rngState = s.Seed
	libRng = s.Seed ^ 0x5bd1e995
	stats = Stats{Hash: 0xcbf29ce484222325}
	nRec, recLost = 0, false
	nTasks = 0
	tick = 0
	base, stepNs, gran, frozen, clkReads = 1700000000000000000, 100, 1, false, 0
	soloOn = false
	nChild = 0
	swChild = map[int][]Switch{}
	swByOp = make([][]Switch, nOps)
	for _, w := range s.Sw {
		if w.Op >= 0 && w.Op < nOps {
			swByOp[w.Op] = append(swByOp[w.Op], w)
		} else if w.Op < -1 {
			swChild[w.Op] = append(swChild[w.Op], w)
		}
	}
	for i := range swByOp {
		ss := swByOp[i]
		sort.SliceStable(ss, func(a, b int) bool { return ss[a].Step < ss[b].Step })
	}
}

var fresh []func()

// OnFresh registers a function that gives a package its initial state.
func OnFresh(f func()) { fresh = append(fresh, f) }

// Fresh gives the library the state of a process that has just started.
func Fresh() {
	for _, f := range fresh {
		f()
	}
}

// Recorded returns the switches made so far, as a replayable list.
func Recorded() ([]Switch, bool) { return append([]Switch(nil), rec[:nRec]...), !recLost }

// GetStats returns the statistics of the current run.
func GetStats() Stats { return stats }

// Tick returns the next event sequence number.
//
//go:norace
func Tick() int64 { tick++; return tick }

// Self is the running task's id, -1 outside tasks.
//
//go:norace
func Self() int {
	if cur == nil || adhoc && cur.id == 0 {
		return -1
	}
	return cur.id
}

// InSim reports whether the caller runs as a simulated task.
//
//go:norace
func InSim() bool { return cur != nil && !(adhoc && cur.id == 0) }

// Y is a scheduling point.
//
//go:norace
func Y(site uint32) {
	Cover[site&0xffff]++
	t := cur
	if t == nil {
		soloSteps++
		stats.Steps++
		if soloOn && soloSteps > soloLimit {
			panic(StepLimit{int(soloSteps)})
		}
		return
	}
	lastSite = site
	stats.Steps++
	t.step++
	if t.step > t.limit {
		t.limit += 1 << 20 // let deferred code run
		panic(StepLimit{t.step})
	}
	if t.step&8191 == 0 && nTasks > 1 {
		// nobody runs for ever: a long operation lets the next task go on
		for k := 1; k < nTasks; k++ {
			n := tasks[(t.id+k)%nTasks]
			if n.st == stReady {
				switchTo(t, n, stReady, site)
				return
			}
		}
		return
	}
	if adhoc {
		return
	}
	if sched.Fixed {
		for t.swPos < len(t.sw) && t.sw[t.swPos].Step < t.step {
			t.swPos++
		}
		if t.swPos < len(t.sw) && t.sw[t.swPos].Step == t.step {
			to := t.sw[t.swPos].To
			t.swPos++
			if to >= 0 && to < nTasks && to != t.id && tasks[to].st == stReady {
				switchTo(t, tasks[to], stReady, site)
			}
		}
		return
	}
	if sched.Rate == 0 || nTasks < 2 {
		return
	}
	if uint32(next(&rngState)&0xffff) >= sched.Rate {
		return
	}
	n := pick(t.id)
	if n != nil {
		record(t, n.id)
		switchTo(t, n, stReady, site)
	}
}

//go:norace
func record(t *task, to int) {
	if t.op == -1 || adhoc {
		return
	}
	if nRec < maxRec {
		rec[nRec] = Switch{t.op, t.step, to}
		nRec++
	} else {
		recLost = true
	}
}

// pick chooses a ready task other than not, at random.
//
//go:norace
func pick(not int) *task {
	n := 0
	for i := 0; i < nTasks; i++ {
		if tasks[i].st == stReady && i != not {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := int(next(&rngState) % uint64(n))
	for i := 0; i < nTasks; i++ {
		if tasks[i].st == stReady && i != not {
			if k == 0 {
				return tasks[i]
			}
			k--
		}
	}
	return nil
}

//go:norace
func switchTo(t, n *task, st int, site uint32) {
	stats.Switches++
	SwitchSites[site&0xffff]++
	h := stats.Hash
	h = (h ^ uint64(t.id)) * 0x100000001b3
	h = (h ^ uint64(site)) * 0x100000001b3
	h = (h ^ uint64(n.id)) * 0x100000001b3
	stats.Hash = h
	t.st = st
	n.st = stRunning
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	<-t.wake
	raceEnable()
}

//go:norace
func lowestReady() *task {
	for i := 0; i < nTasks; i++ {
		if tasks[i].st == stReady {
			return tasks[i]
		}
	}
	return nil
}

// forced chooses who runs when the current task cannot: recorded, random, or
// the lowest ready id. nil means nobody can.
//
//go:norace
func forced(t *task) *task {
	if adhoc {
		return lowestReady()
	}
	if sched.Fixed {
		for t.swPos < len(t.sw) && t.sw[t.swPos].Step < t.step {
			t.swPos++
		}
		if t.swPos < len(t.sw) && t.sw[t.swPos].Step == t.step {
			to := t.sw[t.swPos].To
			t.swPos++
			if to >= 0 && to < nTasks && tasks[to].st == stReady {
				return tasks[to]
			}
		}
		return lowestReady()
	}
	n := pick(t.id)
	if n != nil {
		record(t, n.id)
	}
	return n
}

// BeginOp marks the start of operation op of the running task.
//
//go:norace
func BeginOp(op, limit int) {
	t := cur
	if t == nil {
		return
	}
	t.op, t.step, t.limit = op, 0, limit
	t.sw, t.swPos = nil, 0
	if op >= 0 && op < len(swByOp) {
		t.sw = swByOp[op]
	}
}

// Extend gives the current operation that many steps from here.
//
//go:norace
func Extend(limit int) {
	if t := cur; t != nil {
		t.limit = t.step + limit
	}
}

// OpSteps is the number of scheduling points the current operation has passed.
//
//go:norace
func OpSteps() int {
	if cur == nil {
		return int(soloSteps)
	}
	return cur.step
}

// Solo runs f outside any task with a step budget and returns its steps.
//
//go:norace
func Solo(limit int, f func()) int {
	soloDrain()
	soloSteps, soloLimit, soloOn = 0, int64(limit), true
	defer soloEnd()
	f()
	soloDrain()
	return int(soloSteps)
}

//go:norace
func soloEnd() {
	soloDrain()
	soloOn = false
}

// adhoc is on while f of Solo has goroutines of the library next to it: the
// caller of Solo then is task 0 of a small run without preemption.
var adhoc, adhocDead bool

//go:norace
func adopt() {
	adhoc, adhocDead = true, false
	nTasks = 1
	lim := int(soloLimit)
	if !soloOn {
		lim = 1 << 40
	}
	tasks[0] = &task{id: 0, wake: make(chan struct{}, 1), st: stRunning, op: -1, step: int(soloSteps), limit: lim}
	cur = tasks[0]
}

// soloDrain lets the goroutines of a small run end, and gives up on those that
// wait for ever.
//
//go:norace
func soloDrain() {
	if !adhoc {
		return
	}
	t := cur
	for k := 0; k < 100000; k++ {
		var n *task
		for i := 1; i < nTasks && n == nil; i++ {
			if tasks[i].st == stReady {
				n = tasks[i]
			}
		}
		if n == nil {
			break
		}
		switchTo(t, n, stReady, 0)
	}
	soloSteps = 0
	for i := 0; i < nTasks; i++ {
		soloSteps += int64(tasks[i].step)
		if i > 0 && tasks[i].st != stDone {
			join.Done()
		}
	}
	adhoc, cur, nTasks = false, nil, 0
}

// stuck reports whether the tasks left are waiting for each other; goroutines
// of the library that wait for work are not.
//
//go:norace
func stuck() bool {
	for i := 0; i < nTasks; i++ {
		if tasks[i].st == stBlocked && !tasks[i].child {
			return true
		}
	}
	return false
}

// Stuck is how long (real time) a run may take before the simulator declares
// itself broken.
var Stuck = 150 * time.Second

// Run executes the functions as tasks 0..n-1 until all have ended. It reports
// false when the remaining tasks are deadlocked.
func Run(fns []func()) bool {
	done = make(chan struct{}, 1)
	setup(len(fns))
	for i := range fns {
		startTask(tasks[i], fns[i])
	}
	if len(fns) == 0 {
		return true
	}
	kick()
	tm := time.NewTimer(Stuck)
	defer tm.Stop()
	select {
	case <-done:
	case <-tm.C:
		panic("simrt: stuck: a task blocks on something the simulator does not own")
	}
	join.Wait()
	finish()
	return !stats.Deadlock
}

//go:norace
func finish() { cur = nil }

//go:norace
func setup(n int) {
	soloDrain()
	nTasks = n
	for i := 0; i < n; i++ {
		tasks[i] = &task{id: i, wake: make(chan struct{}, 1), st: stReady, op: -1, limit: 1 << 30}
	}
}

//go:norace
func kick() {
	var n *task
	if sched.Fixed || sched.Rate == 0 {
		n = tasks[0]
		if sched.Fixed && len(sched.Sw) > 0 && sched.Sw[0].Op == -1 {
			if to := sched.Sw[0].To; to >= 0 && to < nTasks {
				n = tasks[to]
			}
		}
	} else {
		n = pick(-1)
		rec[0] = Switch{-1, 0, n.id}
		nRec = 1
	}
	cur = n
	n.st = stRunning
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

func startTask(t *task, f func()) {
	join.Add(1)
	go taskMain(t, f)
}

//go:norace
func taskMain(t *task, f func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer endTask(t) // also when f ends in runtime.Goexit
	f()
}

//go:norace
func endTask(t *task) {
	t.step++ // the final choice belongs to the last operation
	n := forced(t)
	t.st = stDone
	if n == nil && adhoc {
		// the caller of Solo waits for ever
		join.Done()
		adhocDead = true
		n = tasks[0]
		n.st = stRunning
		cur = n
		raceDisable()
		n.wake <- struct{}{}
		raceEnable()
		return
	}
	if n == nil {
		if stuck() {
			stats.Deadlock = true
		}
		cur = nil
		join.Done()
		joinAbort()
		raceDisable()
		done <- struct{}{}
		raceEnable()
		return
	}
	h := stats.Hash
	h = (h ^ uint64(t.id)) * 0x100000001b3
	h = (h ^ uint64(n.id) ^ 0x8000) * 0x100000001b3
	stats.Hash = h
	n.st = stRunning
	cur = n
	join.Done()
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

// joinAbort releases Run when tasks are deadlocked (they stay parked for ever).
//
//go:norace
func joinAbort() {
	for i := 0; i < nTasks; i++ {
		if tasks[i].st == stBlocked {
			join.Done()
		}
	}
}

// Block parks the running task until *key is signalled by Wake. Outside tasks,
// or when nobody else can run, it reports false.
//
//go:norace
func Block(key *int32) bool {
	t := cur
	if t == nil {
		return false
	}
	stats.Blocks++
	t.step++
	t.blockOn = key
	t.st = stBlocked
	n := forced(t)
	if n == nil && adhoc {
		adhocDead = true
		if t.id == 0 {
			t.st = stRunning
			return false
		}
		switchTo(t, tasks[0], stBlocked, 0)
		return true
	}
	if n == nil {
		if stuck() {
			stats.Deadlock = true
		}
		cur = nil
		joinAbort()
		raceDisable()
		done <- struct{}{}
		<-t.wake // for ever
		raceEnable()
		return false
	}
	switchTo(t, n, stBlocked, 0)
	return !(adhocDead && adhoc && t.id == 0)
}

// Wake makes every task blocked on key ready.
//
//go:norace
func Wake(key *int32) {
	for i := 0; i < nTasks; i++ {
		if tasks[i].st == stBlocked && tasks[i].blockOn == key {
			tasks[i].st = stReady
			tasks[i].blockOn = nil
		}
	}
}

// Go starts f as another task of the run (library code that starts goroutines).
func Go(f func()) {
	t := addTask()
	if t == nil {
		// Outside a run (or too many tasks): execute in place.
		f()
		return
	}
	startTask(t, func() {
		defer childRecover()
		f()
	})
	Y(0)
}

func childRecover() {
	if r := recover(); r != nil {
		childPanic(fmt.Sprint(r))
	}
}

// ChildPanic holds the first panic of a goroutine started by the library.
var ChildPanic string

//go:norace
func childPanic(s string) {
	if ChildPanic == "" {
		ChildPanic = s
	}
}

//go:norace
func addTask() *task {
	if cur == nil {
		adopt()
	}
	t := cur
	id := 0
	for id < nTasks && tasks[id].st != stDone {
		id++
	}
	if id >= len(tasks) {
		return nil
	}
	nChild++
	c := &task{id: id, wake: make(chan struct{}, 1), st: stReady, op: -1 - nChild, limit: t.limit - t.step, child: true}
	c.sw = swChild[c.op]
	tasks[id] = c
	if id == nTasks {
		nTasks++
	}
	return c
}

// Waiting is the number of goroutines of the library that the last run left
// behind, blocked for ever.
func Waiting() int {
	n := 0
	for i := 0; i < nTasks; i++ {
		if tasks[i] != nil && tasks[i].child && tasks[i].st == stBlocked {
			n++
		}
	}
	return n
}

// ---- clock ----

//go:norace
func simNs() int64 {
	if frozen {
		return frozenAt
	}
	steps := stats.Steps
	ns := base + steps*stepNs
	return ns - ns%gran
}

// Now is the simulated wall clock.
//
//go:norace
func Now() time.Time {
	clkReads++
	return time.Unix(0, simNs())
}

// ClockReads counts readings in this run.
//
//go:norace
func ClockReads() int64 { return clkReads }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Gosched lets another task run, if there is one.
//
//go:norace
func Gosched() {
	t := cur
	if t == nil || nTasks < 2 {
		return
	}
	t.step++
	t.st = stReady
	n := forced(t)
	if n == nil || n == t {
		for k := 1; k < nTasks; k++ {
			if o := tasks[(t.id+k)%nTasks]; o.st == stReady {
				n = o
				break
			}
		}
	}
	if n == nil || n == t {
		t.st = stRunning
		return
	}
	switchTo(t, n, stReady, 0)
}

// Sleep advances the simulated clock and yields.
//
//go:norace
func Sleep(d time.Duration) {
	ClockJump(int64(d))
	Y(0)
}

func After(d time.Duration) <-chan time.Time {
	Sleep(d)
	c := make(chan time.Time, 1)
	c <- Now()
	return c
}

//go:norace
func ClockJump(ns int64) {
	if frozen {
		frozenAt += ns
	}
	base += ns
}

//go:norace
func ClockGran(ns int64) {
	if ns < 1 {
		ns = 1
	}
	gran = ns
}

//go:norace
func ClockFreeze(on bool) {
	if on && !frozen {
		frozenAt = simNs()
	}
	frozen = on
}

// SimNanos is the simulated time of this run so far (steps times step length).
//
//go:norace
func SimNanos() int64 { return stats.Steps * stepNs }

// ---- randomness for library code ----

//go:norace
func libNext() uint64 { return next(&libRng) }

// Keys lists the keys of map m in a simulator-chosen order.
func Keys(m interface{}) []interface{} {
	v := reflect.ValueOf(m)
	if !v.IsValid() || v.Kind() != reflect.Map {
		return nil
	}
	ks := v.MapKeys()
	sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	out := make([]interface{}, len(ks))
	for i := range ks {
		out[i] = ks[i].Interface()
	}
	for i := len(out) - 1; i > 0; i-- {
		j := int(libNext() % uint64(i+1))
		out[i], out[j] = out[j], out[i]
	}
	return out
}
