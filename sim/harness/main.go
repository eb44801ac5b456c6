package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"geosim/simrt"
)

// Replay is the file a VIOLATION line points at.
type Replay struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Race      bool       `json:"race_build,omitempty"`
	Compare   bool       `json:"compare_orders,omitempty"` // run twice, reference calls forwards and backwards
	Seed      int64      `json:"verif_seed"`
	Digest    string     `json:"digest,omitempty"`
	Plans     []*Plan    `json:"plans"` // all but the last only build up process state
	Original  string     `json:"found,omitempty"`
	How       string     `json:"how"`
}

type execResult struct {
	V    *Violation `json:"v,omitempty"`
	Dig  string     `json:"digest"`
	Ref  string     `json:"ref"`
	Refs []string   `json:"refs,omitempty"`
	Race string     `json:"race,omitempty"`
}

type workerResult struct {
	C       map[string]int64 `json:"c"`
	Steps   int64            `json:"steps"`
	SimNs   int64            `json:"sim_ns"`
	Switch  int64            `json:"switches"`
	Runs    int64            `json:"runs"`
	Wall    float64          `json:"wall"`
	V       *Violation       `json:"v,omitempty"`
	VIndex  int              `json:"v_index"`
	Cover   []uint32         `json:"cover"`
	SwSites []uint32         `json:"sw_sites"`
	Capped  bool             `json:"capped"`
	DetBad  int              `json:"det_bad"`
	DetRuns int              `json:"det_runs"`
	Samples []string         `json:"samples,omitempty"`
	Nontriv int64            `json:"nontriv"`
}

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Int64("seed", 1, "VERIF_SEED")
	fWork    = flag.String("work", "", "scratch directory")
	fOut     = flag.String("evidence", "", "evidence file")
	fReplays = flag.String("replays", "", "directory for replay files")
	fRaceBin = flag.String("racebin", "", "race-detector build of this program")
	fMainBin = flag.String("mainbin", "", "plain build of this program")
	fWorkers = flag.Int("workers", 0, "worker processes")
	fWorker  = flag.Int("worker", -1, "")
	fFrom    = flag.Int("from", 0, "")
	fTo      = flag.Int("to", 0, "")
	fRuns    = flag.Int("runs", 0, "override the number of runs")
	fCap     = flag.Float64("cap", 0, "wall clock cap in seconds")
	fExec    = flag.String("exec", "", "execute the plans of a replay file, print the result")
	fReverse = flag.Bool("reverse", false, "reference calls in reverse order")
	fShrink  = flag.String("shrink", "", "")
	fReplay  = flag.String("replay", "", "reproduce a replay file")
	fSites   = flag.String("sites", "", "sites.json of the instrumented build")
	fKnown   = flag.String("known", "", "known findings file")
	fDump    = flag.Int("dump", -1, "print the plan of an index")
)

// raceProp is implemented by properties that also run under the race detector.
type raceProp interface{ RaceRuns(tier string) int }

// orderProp is implemented by properties with a reference phase whose results
// must not depend on the order of calls in the process.
type orderProp interface{ OrderRuns(tier string) int }

func main() {
	flag.Parse()
	runtime.GOMAXPROCS(2)
	switch {
	case *fReplay != "":
		os.Exit(doReplay(*fReplay))
	case *fShrink != "":
		doShrink(*fShrink)
	case *fExec != "":
		doExec(*fExec)
	case *fDump >= 0:
		p := genPlan(props[*fProp], *fSeed, *fDump)
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	case *fWorker >= 0:
		doWorker()
	default:
		os.Exit(doParent())
	}
}

func genPlan(pr Prop, seed int64, idx int) *Plan {
	r := newRng(uint64(seed), hashStr(pr.ID()), uint64(idx))
	p := pr.Gen(r, idx)
	p.Prop, p.Seed, p.Index = pr.ID(), uint64(seed), idx
	// Every other block of runs starts each run from the state of a fresh
	// process; in the others the library's package-level state grows from run to
	// run, as in a process that lives long.
	if idx/2048%2 == 0 {
		if p.Cfg == nil {
			p.Cfg = map[string]int{}
		}
		p.Cfg["fresh"] = 1
	}
	return p
}

// execute runs one plan; race reports become violations.
func execute(pr Prop, p *Plan, st *Stats) *Violation {
	st.Digest, st.Nontrivial, st.RefDigest = hashStr(p.Prop), false, 0
	r0 := simrt.RaceErrors()
	if p.Cfg["fresh"] == 1 {
		simrt.Reset(simrt.Sched{Seed: p.Sched.Seed}, 1)
		simrt.Fresh()
		st.add("process-state-fresh", 1)
	}
	v := pr.Exec(p, st)
	st.Runs++
	if v != nil && listed(p.Prop, v.Class) {
		st.C["known-finding:"+v.Class]++
		v = nil
	}
	if simrt.RaceBuild {
		if d := simrt.RaceErrors() - r0; d > 0 && v == nil {
			v = &Violation{Class: "data-race", Detail: fmt.Sprintf("%d race report(s): %s", d, raceText())}
		}
	}
	return v
}

var known map[string]bool

// listed reports whether violations of this class are a known finding: a line
// "KNOWN-FINDING: property=<id> [<class>] ..." of the known-findings file.
func listed(id, class string) bool {
	if known == nil {
		known = map[string]bool{}
		b, _ := os.ReadFile(*fKnown)
		for _, l := range strings.Split(string(b), "\n") {
			l, ok := strings.CutPrefix(l, "KNOWN-FINDING: property=")
			i, j := strings.Index(l, " ["), strings.Index(l, "]")
			if ok && i > 0 && j > i {
				known[l[:i]+" "+l[i+2:j]] = true
			}
		}
	}
	return known[id+" "+class]
}

var raceOff int64

// raceText condenses the latest race report of this process: the library
// functions on the two stacks.
func raceText() string {
	lp := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			lp = strings.TrimPrefix(f, "log_path=")
		}
	}
	if lp == "" {
		return "no log"
	}
	b, err := os.ReadFile(lp + "." + strconv.Itoa(os.Getpid()))
	if err != nil || int64(len(b)) < raceOff {
		return "no log"
	}
	txt := string(b[raceOff:])
	raceOff = int64(len(b))
	if i := strings.Index(txt[1:], "WARNING: DATA RACE"); i > 0 && i+1 < len(txt) {
		if j := strings.Index(txt[i+1:], "=================="); j > 0 {
			txt = txt[:i+1+j]
		}
	}
	var out []string
	take := 0
	for _, l := range strings.Split(txt, "\n") {
		t := strings.TrimSpace(l)
		if strings.Contains(t, " at 0x") && strings.Contains(t, "goroutine") {
			w := strings.Fields(t)
			out = append(out, strings.ToLower(strings.Join(w[:min(2, len(w))], " ")))
			take = 1
		} else if take == 1 && strings.HasPrefix(t, "github.com/hzw456/go-geo") {
			out = append(out, strings.TrimSuffix(strings.TrimPrefix(t, "github.com/hzw456/"), "()"))
			take = 0
		} else if strings.HasPrefix(t, "Goroutine ") {
			break
		}
	}
	return strings.Join(out, " | ")
}

// ---------------------------------------------------------------- worker

func doWorker() {
	pr := props[*fProp]
	st := newStats()
	st.Reverse = *fReverse
	res := &workerResult{VIndex: -1}
	t0 := time.Now()
	base := filepath.Join(*fWork, fmt.Sprintf("w%d", *fWorker))
	sf, err := os.Create(base + ".state")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	order := make([]int, 0, (*fTo-*fFrom) / *fWorkers + 1)
	for i := *fFrom + *fWorker; i < *fTo; i += *fWorkers {
		order = append(order, i)
	}
	if *fReverse {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	stop := filepath.Join(*fWork, "stop")
	digs := map[int]uint64{}
	refs := make([]byte, 0, 16*len(order))
	var buf [8]byte
	var first []int
	for n, i := range order {
		if n%16 == 0 {
			if b, err := os.ReadFile(stop); err == nil {
				if lim, e := strconv.Atoi(strings.TrimSpace(string(b))); e == nil && (i > lim || *fReverse) {
					break
				}
			}
			if *fCap > 0 && time.Since(t0).Seconds() > *fCap {
				res.Capped = true
				break
			}
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
		sf.WriteAt(buf[:], 0)
		p := genPlan(pr, *fSeed, i)
		v := execute(pr, p, st)
		if st.Nontrivial {
			res.Nontriv++
			if len(st.Scheds) < 1<<21 {
				st.Scheds[st.Digest^p.hash()] = struct{}{}
			}
			if len(res.Samples) < 2 {
				res.Samples = append(res.Samples, sample(p))
			}
		}
		if len(first) < 12 {
			first = append(first, i)
			digs[i] = st.Digest
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(i))
		refs = append(refs, buf[:]...)
		binary.LittleEndian.PutUint64(buf[:], st.RefDigest)
		refs = append(refs, buf[:]...)
		if v != nil {
			res.V, res.VIndex = v, i
			break
		}
	}
	if res.V == nil && !*fReverse && !res.Capped {
		// The same seeds again, in the same process: every digest must repeat.
		chk := newStats()
		for _, i := range first {
			binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
			sf.WriteAt(buf[:], 0)
			p := genPlan(pr, *fSeed, i)
			execute(pr, p, chk)
			res.DetRuns++
			if chk.Digest != digs[i] {
				res.DetBad++
			}
		}
	}
	res.C, res.Steps, res.SimNs, res.Switch, res.Runs = st.C, st.Steps, st.SimNs, st.Switch, st.Runs
	res.Cover = simrt.Cover[:]
	res.SwSites = simrt.SwitchSites[:]
	res.Wall = time.Since(t0).Seconds()
	writeU64s(base+".states", st.States)
	writeU64s(base+".scheds", st.Scheds)
	os.WriteFile(base+".refs", refs, 0o644)
	b, _ := json.Marshal(res)
	if err := os.WriteFile(base+".json", b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func sample(p *Plan) string {
	b, _ := json.Marshal(p)
	s := string(b)
	if len(s) > 900 {
		s = s[:900] + "..."
	}
	return s
}

func writeU64s(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	var buf [8]byte
	for k := range m {
		binary.LittleEndian.PutUint64(buf[:], k)
		b = append(b, buf[:]...)
	}
	os.WriteFile(path, b, 0o644)
}

func mergeU64s(into map[uint64]struct{}, path string) {
	b, _ := os.ReadFile(path)
	for i := 0; i+8 <= len(b); i += 8 {
		into[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// ---------------------------------------------------------------- one-off executions

func loadReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &r
}

func saveReplay(path string, r *Replay) {
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func doExec(path string) {
	r := loadReplay(path)
	st := newStats()
	st.Reverse = *fReverse
	var res execResult
	for i, p := range r.Plans {
		v := execute(props[r.Property], p, st)
		if i == len(r.Plans)-1 {
			res.V = v
			res.Dig = fmt.Sprintf("%016x", st.Digest)
			res.Ref = fmt.Sprintf("%016x", st.RefDigest)
		}
	}
	b, _ := json.Marshal(res)
	fmt.Printf("RESULT %s\n", b)
}

// execFile runs a replay file in a fresh process of the right build.
func execFile(path string, race, reverse bool) (*execResult, string) {
	bin := *fMainBin
	if race {
		bin = *fRaceBin
	}
	args := []string{"-exec", path}
	if *fKnown != "" {
		args = append(args, "-known", *fKnown)
	}
	if reverse {
		args = append(args, "-reverse")
	}
	out, errTxt, code := runChild(bin, args, 300*time.Second)
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var res execResult
			if json.Unmarshal([]byte(l[7:]), &res) == nil {
				return &res, ""
			}
		}
	}
	return nil, fmt.Sprintf("exit %d: %s", code, tail(errTxt, 3000))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func childEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if !strings.HasPrefix(e, "GORACE=") {
			out = append(out, e)
		}
	}
	w := *fWork
	if w == "" {
		w = os.TempDir()
	}
	return append(out, "GORACE=exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2 log_path="+filepath.Join(w, "race"))
}

func runChild(bin string, args []string, to time.Duration) (string, string, int) {
	c := exec.Command(bin, args...)
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	c.Env = childEnv()
	if err := c.Start(); err != nil {
		return "", err.Error(), 3
	}
	t := time.AfterFunc(to, func() { c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	code := 0
	if err != nil {
		code = c.ProcessState.ExitCode()
		if code == 0 {
			code = 3
		}
	}
	return so.String(), se.String(), code
}

// ---------------------------------------------------------------- parent

type segment struct {
	from, to int
	race     bool
	reverse  bool
}

func doParent() int {
	pr := props[*fProp]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		return 2
	}
	W := *fWorkers
	if W == 0 {
		W = runtime.NumCPU()
		if W > 8 {
			W = 8
		}
	}
	*fWorkers = W
	t0 := time.Now()
	plainN := pr.Runs(*fTier)
	if *fRuns > 0 {
		plainN = *fRuns
	}
	raceN := 0
	if rp, ok := pr.(raceProp); ok && *fRaceBin != "" {
		raceN = rp.RaceRuns(*fTier)
		if *fRuns > 0 {
			raceN = *fRuns / 10
		}
	}
	orderN := 0
	if op, ok := pr.(orderProp); ok {
		orderN = op.OrderRuns(*fTier)
		if orderN > plainN {
			orderN = plainN
		}
	}
	segs := []segment{{0, plainN, false, false}}
	if raceN > 0 {
		segs = append(segs, segment{plainN, plainN + raceN, true, false})
	}
	if orderN > 0 {
		segs = append(segs, segment{0, orderN, false, true})
	}
	ev := &evidence{states: map[uint64]struct{}{}, scheds: map[uint64]struct{}{}, c: map[string]int64{}}
	cap := *fCap
	if cap == 0 {
		cap = 240
		if *fTier == "thorough" {
			cap = 3000
		}
	}
	var found *Replay
	fwd := map[int]uint64{}
	for _, sg := range segs {
		results, errTxt := runSegment(pr, sg, W, cap)
		if errTxt != nil {
			// A worker process died. A library that kills the process is a violation.
			if errTxt.code == 3 || errTxt.index < 0 {
				fmt.Fprintln(os.Stderr, "check error:", errTxt.text)
				return 2
			}
			rp := &Replay{Property: pr.ID(), Seed: *fSeed, Race: sg.race, Plans: []*Plan{genPlan(pr, *fSeed, errTxt.index)},
				Violation: &Violation{Class: "process-died", Detail: tail(errTxt.text, 1500)}, How: how(pr.ID())}
			path := filepath.Join(*fWork, "died.json")
			saveReplay(path, rp)
			if _, et := execFile(path, sg.race, false); et == "" || strings.Contains(et, "HARNESS-BUG") || strings.Contains(et, "simrt: stuck") {
				fmt.Fprintln(os.Stderr, "check error: worker died and the run alone does not:", errTxt.text)
				return 2
			}
			found = rp
		}
		best := -1
		var bv *Violation
		for w, res := range results {
			if res == nil {
				continue
			}
			ev.merge(res, sg)
			if !sg.reverse {
				mergeU64s(ev.states, filepath.Join(*fWork, fmt.Sprintf("w%d.states", w)))
				mergeU64s(ev.scheds, filepath.Join(*fWork, fmt.Sprintf("w%d.scheds", w)))
			}
			if res.V != nil && (best < 0 || res.VIndex < best) {
				best, bv = res.VIndex, res.V
			}
		}
		if found == nil && best >= 0 {
			found = report(pr, sg, W, best, bv)
			if found == nil {
				return 2
			}
		}
		if found == nil && orderN > 0 && !sg.race {
			bad := -1
			for w := 0; w < W; w++ {
				b, _ := os.ReadFile(filepath.Join(*fWork, fmt.Sprintf("w%d.refs", w)))
				for i := 0; i+16 <= len(b); i += 16 {
					ix := int(binary.LittleEndian.Uint64(b[i:]))
					d := binary.LittleEndian.Uint64(b[i+8:])
					if !sg.reverse {
						fwd[ix] = d
					} else if f, ok := fwd[ix]; ok {
						ev.orderRuns++
						if f != d && (bad < 0 || ix < bad) {
							bad = ix
						}
					}
				}
			}
			if bad >= 0 {
				found = reportOrder(pr, W, bad)
				if found == nil {
					return 2
				}
			}
		}
		if found != nil {
			break
		}
	}
	ev.wall = time.Since(t0).Seconds()
	nv := 0
	if found != nil {
		nv = 1
	}
	ev.write(pr, *fOut, *fTier, *fSeed, nv, W)
	if found != nil {
		os.MkdirAll(*fReplays, 0o755)
		b, _ := json.Marshal(found.Plans)
		path := filepath.Join(*fReplays, fmt.Sprintf("%s-%08x.json", pr.ID(), uint32(hashStr(string(b)))))
		saveReplay(path, found)
		fmt.Printf("%s\n", found.Violation)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID(), path)
		return 1
	}
	fmt.Printf("%s: %d runs, %d steps, %.1f s, no violation\n", pr.ID(), ev.runs, ev.steps, ev.wall)
	if ev.detBad > 0 {
		fmt.Printf("note: %d of %d repeated runs had another digest\n", ev.detBad, ev.detRuns)
	}
	return 0
}

func how(id string) string { return "/verif/check.sh " + id + " --replay FILE" }

type workerDeath struct {
	index, code int
	text        string
}

func runSegment(pr Prop, sg segment, W int, cap float64) ([]*workerResult, *workerDeath) {
	results := make([]*workerResult, W)
	stop := filepath.Join(*fWork, "stop")
	os.Remove(stop)
	var mu sync.Mutex
	lowest := 1 << 60
	var death *workerDeath
	var wg sync.WaitGroup
	bin := *fMainBin
	if sg.race {
		bin = *fRaceBin
	}
	for w := 0; w < W; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			base := filepath.Join(*fWork, fmt.Sprintf("w%d", w))
			os.Remove(base + ".json")
			args := []string{"-worker", strconv.Itoa(w), "-workers", strconv.Itoa(W), "-prop", pr.ID(), "-tier", *fTier,
				"-seed", strconv.FormatInt(*fSeed, 10), "-from", strconv.Itoa(sg.from), "-to", strconv.Itoa(sg.to),
				"-work", *fWork, "-cap", fmt.Sprint(cap)}
			if sg.reverse {
				args = append(args, "-reverse")
			}
			if *fKnown != "" {
				args = append(args, "-known", *fKnown)
			}
			_, se, code := runChild(bin, args, time.Duration(cap+300)*time.Second)
			mu.Lock()
			defer mu.Unlock()
			b, err := os.ReadFile(base + ".json")
			var res workerResult
			if code != 0 || err != nil || json.Unmarshal(b, &res) != nil {
				ix := -1
				if s, e := os.ReadFile(base + ".state"); e == nil && len(s) == 8 {
					ix = int(binary.LittleEndian.Uint64(s)) - 1
				}
				if strings.Contains(se, "HARNESS-BUG") || strings.Contains(se, "simrt: stuck") {
					code = 3
				}
				d := &workerDeath{ix, code, fmt.Sprintf("worker %d, run %d, exit %d: %s", w, ix, code, head(se, 1500))}
				if death == nil || d.index < death.index {
					death = d
				}
				if ix >= 0 && ix < lowest {
					lowest = ix
				}
			} else {
				results[w] = &res
				if res.V != nil && res.VIndex < lowest {
					lowest = res.VIndex
				}
			}
			if lowest < 1<<60 {
				os.WriteFile(stop+".tmp", []byte(strconv.Itoa(lowest)), 0o644)
				os.Rename(stop+".tmp", stop)
			}
		}()
	}
	wg.Wait()
	os.Remove(stop)
	if death != nil {
		for _, r := range results {
			if r != nil && r.V != nil && r.VIndex < death.index {
				return results, nil // an earlier violation explains enough
			}
		}
	}
	return results, death
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// report minimises the violation of run idx and confirms that its replay file
// reproduces it in a fresh process.
func report(pr Prop, sg segment, W, idx int, v *Violation) *Replay {
	bin := *fMainBin
	if sg.race {
		bin = *fRaceBin
	}
	rp := &Replay{Property: pr.ID(), Violation: v, Race: sg.race, Seed: *fSeed,
		Plans: []*Plan{genPlan(pr, *fSeed, idx)}, How: how(pr.ID()),
		Original: fmt.Sprintf("VERIF_SEED=%d run %d: %s", *fSeed, idx, v)}
	path := filepath.Join(*fWork, "found.json")
	saveReplay(path, rp)
	same := func(path string) *execResult {
		res, _ := execFile(path, sg.race, false)
		if res != nil && res.V != nil && res.V.Class == v.Class {
			return res
		}
		return nil
	}
	res := same(path)
	if res == nil {
		// Alone it does not show: state left by earlier runs of the same process
		// takes part. Replay with ever longer histories.
		var hist []int
		for i := sg.from + idx%W; i < idx; i += W {
			if (i-sg.from)%W == (idx-sg.from)%W {
				hist = append(hist, i)
			}
		}
		hist = hist[:0]
		for i := sg.from + (idx-sg.from)%W; i < idx; i += W {
			hist = append(hist, i)
		}
		for n := 1; ; n *= 4 {
			if n > len(hist) {
				n = len(hist)
			}
			rp.Plans = nil
			for _, i := range hist[len(hist)-n:] {
				rp.Plans = append(rp.Plans, genPlan(pr, *fSeed, i))
			}
			rp.Plans = append(rp.Plans, genPlan(pr, *fSeed, idx))
			saveReplay(path, rp)
			if res = same(path); res != nil || n == len(hist) {
				break
			}
		}
		if res == nil {
			fmt.Fprintln(os.Stderr, "check error: the violation does not reproduce:", v)
			return nil
		}
		// Drop earlier runs that are not needed.
		for n := len(rp.Plans) / 2; n >= 1; n /= 2 {
			for i := 0; i+n < len(rp.Plans); {
				cand := *rp
				cand.Plans = append(append([]*Plan{}, rp.Plans[:i]...), rp.Plans[i+n:]...)
				saveReplay(path, &cand)
				if r := same(path); r != nil {
					*rp, res = cand, r
				} else {
					i += n
				}
			}
		}
		rp.Violation, rp.Digest = res.V, res.Dig
		return rp
	}
	rp.Violation, rp.Digest = res.V, res.Dig
	small := filepath.Join(*fWork, "small.json")
	os.Remove(small)
	runChild(bin, []string{"-shrink", path, "-work", *fWork}, 90*time.Second)
	if _, err := os.Stat(small); err == nil {
		sp := loadReplay(small)
		if r := same(small); r != nil {
			sp.Violation, sp.Digest = r.V, r.Dig
			sp.Original = rp.Original
			return sp
		}
	}
	return rp
}

// reportOrder handles results that depend on what the process computed before.
func reportOrder(pr Prop, W, idx int) *Replay {
	rp := &Replay{Property: pr.ID(), Compare: true, Seed: *fSeed, How: how(pr.ID()),
		Plans:     []*Plan{genPlan(pr, *fSeed, idx)},
		Violation: &Violation{Class: "history-dependence", Detail: "the same calls on the same arguments give other results when earlier calls of the process come in another order"},
		Original:  fmt.Sprintf("VERIF_SEED=%d run %d", *fSeed, idx)}
	path := filepath.Join(*fWork, "order.json")
	differs := func(pl []*Plan) bool {
		c := *rp
		c.Plans = pl
		saveReplay(path, &c)
		a, e1 := execFile(path, false, false)
		b, e2 := execFile(path, false, true)
		if len(pl) > 1 {
			// state from earlier plans against a fresh process
			c.Plans = pl[len(pl)-1:]
			saveReplay(path, &c)
			b, e2 = execFile(path, false, false)
		}
		return e1 == "" && e2 == "" && a.Ref != b.Ref
	}
	if differs(rp.Plans) {
		p := rp.Plans[0]
		dl := time.Now().Add(40 * time.Second)
		rp.Plans = []*Plan{shrinkOps(p, func(q *Plan) bool { return time.Now().Before(dl) && differs([]*Plan{q}) })}
		return rp
	}
	for n := 1; n < 1<<14; n *= 4 {
		for _, dir := range []int{-1, 1} {
			var pl []*Plan
			for k := n; k >= 1; k-- {
				i := idx + dir*k*W
				if i >= 0 {
					pl = append(pl, genPlan(pr, *fSeed, i))
				}
			}
			pl = append(pl, genPlan(pr, *fSeed, idx))
			if len(pl) > 1 && differs(pl) {
				for m := len(pl) / 2; m >= 1; m /= 2 {
					for i := 0; i+m < len(pl); {
						c := append(append([]*Plan{}, pl[:i]...), pl[i+m:]...)
						if len(c) > 1 && differs(c) {
							pl = c
						} else {
							i += m
						}
					}
				}
				rp.Plans = pl
				return rp
			}
		}
	}
	fmt.Fprintln(os.Stderr, "check error: order dependence of run", idx, "does not reproduce")
	return nil
}

func doReplay(path string) int {
	r := loadReplay(path)
	fmt.Printf("replaying %s: %s\n", path, r.Violation)
	if r.Compare {
		a, e1 := execFile(path, false, false)
		var b *execResult
		var e2 string
		if len(r.Plans) > 1 {
			c := *r
			c.Plans = r.Plans[len(r.Plans)-1:]
			p2 := filepath.Join(*fWork, "last.json")
			saveReplay(p2, &c)
			b, e2 = execFile(p2, false, false)
		} else {
			b, e2 = execFile(path, false, true)
		}
		if e1 != "" || e2 != "" {
			fmt.Fprintln(os.Stderr, e1, e2)
			return 2
		}
		fmt.Printf("reference results: %s and %s\n", a.Ref, b.Ref)
		if a.Ref != b.Ref {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
			return 1
		}
		return 0
	}
	res, errTxt := execFile(path, r.Race, false)
	if res == nil {
		if r.Violation != nil && r.Violation.Class == "process-died" && !strings.Contains(errTxt, "HARNESS-BUG") {
			fmt.Println(head(errTxt, 2000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
			return 1
		}
		fmt.Fprintln(os.Stderr, errTxt)
		return 2
	}
	if res.V == nil {
		fmt.Println("no violation on this tree")
		return 0
	}
	fmt.Println(res.V)
	if r.Digest != "" {
		if res.Dig == r.Digest {
			fmt.Println("execution digest identical:", res.Dig)
		} else {
			fmt.Println("execution digest differs (another tree?):", res.Dig, "recorded", r.Digest)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

// ---------------------------------------------------------------- evidence

type evidence struct {
	states, scheds map[uint64]struct{}
	c              map[string]int64
	runs, raceRuns int64
	orderRuns      int64
	steps, simNs   int64
	sw             int64
	nontriv        int64
	cover, swSites [1 << 16]uint64
	wall           float64
	detBad         int
	detRuns        int
	capped         bool
	samples        []string
}

func (e *evidence) merge(r *workerResult, sg segment) {
	if sg.reverse {
		return
	}
	e.runs += r.Runs
	if sg.race {
		e.raceRuns += r.Runs
	}
	e.steps += r.Steps
	e.simNs += r.SimNs
	e.sw += r.Switch
	e.nontriv += r.Nontriv
	e.detBad += r.DetBad
	e.detRuns += r.DetRuns
	e.capped = e.capped || r.Capped
	for k, v := range r.C {
		e.c[k] += v
	}
	for i, v := range r.Cover {
		e.cover[i] += uint64(v)
	}
	for i, v := range r.SwSites {
		e.swSites[i] += uint64(v)
	}
	if len(e.samples) < 4 {
		e.samples = append(e.samples, r.Samples...)
	}
}

func (e *evidence) write(pr Prop, path, tier string, seed int64, nv, W int) {
	if path == "" {
		return
	}
	faults, ops := map[string]int64{}, map[string]int64{}
	for _, k := range sortedKeys(e.c) {
		if strings.HasPrefix(k, "fault:") {
			faults[k[6:]] = e.c[k]
		} else {
			ops[k] = e.c[k]
		}
	}
	reached, total, preempted := 0, 0, 0
	files := map[string]int{}
	var sites []string
	if b, err := os.ReadFile(*fSites); err == nil && json.Unmarshal(b, &sites) == nil {
		for i, s := range sites {
			total++
			if e.cover[(i+1)&0xffff] > 0 {
				reached++
				files[strings.Split(s, ":")[0]]++
			}
			if e.swSites[(i+1)&0xffff] > 0 {
				preempted++
			}
		}
	}
	if f := os.Getenv("GEOSIM_COVER"); f != "" { // for development: what was reached
		var sb strings.Builder
		for i, s := range sites {
			fmt.Fprintln(&sb, s, e.cover[(i+1)&0xffff])
		}
		os.WriteFile(f, []byte(sb.String()), 0o644)
	}
	hours := e.wall / 3600
	cov := map[string]interface{}{
		"evaluations":         e.runs,
		"distinct_nontrivial": len(e.scheds),
		"rule":                pr.Rule(),
		"samples":             e.samples,
		"runs_per_hour":       int64(float64(e.runs) / hours),
		"seeds":               fmt.Sprintf("VERIF_SEED=%d; run seed = mix(VERIF_SEED, property, run index), indexes 0..%d", seed, e.runs-1),
		"seeds_per_hour":      int64(float64(e.runs) / hours),
		"simulated_steps":     e.steps,
		"simulated_seconds":   float64(e.simNs) / 1e9,
		"context_switches":    e.sw,
		"faults_injected":     faults,
		"operations":          ops,
		"distinct_states":     len(e.states),
		"interleaving_measure": "distinct_nontrivial counts distinct values of hash(plan) xor hash(result digest, all scheduling decisions as (task, statement, next task)); " +
			"distinct_states counts distinct hashes of the observable state named in the rule",
		"library_statements_reached":    reached,
		"library_statements_total":      total,
		"library_statements_preempted":  preempted,
		"library_statements_by_file":    files,
		"race_detector_runs":            e.raceRuns,
		"order_independence_runs":       e.orderRuns,
		"determinism_repeats":           e.detRuns,
		"determinism_repeats_different": e.detBad,
		"workers":                       W,
		"stopped_by_wall_cap":           e.capped,
		"real_components":               pr.Real(),
		"simulated_components":          pr.Stub(),
	}
	out := map[string]interface{}{
		"property": pr.ID(), "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": e.wall, "violations": nv,
		"assumptions": []string{"seeded search: absence of a violation is evidence for the explored runs, not a proof"},
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
