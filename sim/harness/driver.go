//go:build go1.21

package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	realos "os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
)

// Viol is a violation of a property
type Viol struct {
	Kind   string `json:"kind"`   // class of the violation, stable under minimisation
	Detail string `json:"detail"` // what was observed
}

// Prop is a property and the way it is decided
type Prop struct {
	ID       string
	Quick    int // number of cases of the quick check
	Thorough int
	Race     bool
	Gen      func(r *Rng, i int) *Scenario
	Eval     func(x *Ctx, sc *Scenario) ([]Viol, error)
	Shrink   func(sc *Scenario) []*Scenario // candidates specific to the property
	Rule     string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Shrink == nil {
		p.Shrink = genericShrink
	}
	props[p.ID] = p
}

// Stats is what a check covered
type Stats struct {
	mu             sync.Mutex
	Cases          int64
	Hashes         map[uint64]bool
	Nontrivial     map[uint64]bool
	Steps          int64
	Switches       int64
	Preempt        int64
	SelectMulti    int64
	MapIters       int64
	PoolMiss       int64
	Stalls         int64
	ClockReads     int64
	SimNanos       int64
	Tasks          int64
	Faults         map[string]int
	Probes         map[string]int
	Occ            map[int32]bool
	Strat          map[string]int
	Classes        map[string]int
	Samples        []json.RawMessage
	Selfchecks     int
	SelfcheckDiffs int
	RefRuns        int64
}

// Ctx is what an evaluation works with
type Ctx struct {
	ex    *Exec
	st    *Stats
	quiet bool // minimisation and replay do not count
	last  *RunResult
}

func newStats() *Stats {
	return &Stats{Hashes: map[uint64]bool{}, Nontrivial: map[uint64]bool{}, Faults: map[string]int{}, Probes: map[string]int{}, Occ: map[int32]bool{}, Strat: map[string]int{}, Classes: map[string]int{}}
}

// Run executes a scenario and accounts for it
func (x *Ctx) Run(sc *Scenario) (*RunResult, error) {
	if sc.MaxSteps == 0 {
		c := *sc
		c.MaxSteps = stepBudget(sc)
		sc = &c
	}
	res, err := x.ex.Run(sc)
	if err != nil {
		return nil, err
	}
	x.last = res
	if x.quiet {
		return res, nil
	}
	s := x.st
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Hashes[res.Hash] = true
	if res.Switches > 1 || len(res.Faults) > 0 {
		s.Nontrivial[res.Hash] = true
	}
	s.Steps += res.Steps
	s.Switches += res.Switches
	s.Preempt += res.Preempt
	s.SelectMulti += res.SelectMulti
	s.MapIters += res.MapIters
	s.PoolMiss += res.PoolMiss
	s.Stalls += res.Stalls
	s.ClockReads += res.ClockReads
	s.SimNanos += res.SimNanos
	s.Tasks += int64(res.Tasks)
	s.Strat[sc.Sched.Strategy]++
	for k, v := range res.Faults {
		s.Faults[k] += v
	}
	for _, o := range res.Occ {
		s.Occ[o] = true
	}
	if res.Killed {
		s.Faults["process killed"]++
	}
	for _, t := range res.Ops {
		for i := range t {
			o := &t[i]
			s.Classes[o.Kind+":"+o.Class]++
			if o.ReadErr {
				s.Faults["source read failure"]++
			}
			if o.WriteErr {
				s.Faults["output write failure"]++
			}
		}
	}
	return res, nil
}

// Probe counts that something rare happened
func (x *Ctx) Probe(name string) {
	if x.quiet {
		return
	}
	x.st.mu.Lock()
	x.st.Probes[name]++
	x.st.mu.Unlock()
}

const defaultMaxSteps = 80 << 20

// stepBudget is far above what the operations of the scenario take (some 400 steps for a byte)
func stepBudget(sc *Scenario) int64 {
	n := 0
	for _, t := range sc.Tasks {
		for _, o := range t.Ops {
			n += len(o.Src)
		}
	}
	for _, f := range sc.Files {
		n += len(f.Data)
	}
	return defaultMaxSteps + 600*int64(n)
}

// refScenario is the same operation alone, without faults, under the canonical schedule
func refScenario(sc *Scenario, op Op, files []File) *Scenario {
	op.R = ReaderSpec{}
	op.W = WriterSpec{}
	op.Cfg.ID, op.Cfg.AttrMap = "", ""
	ref := &Scenario{
		Kind: "ref", Files: files, Cwd: sc.Cwd, Env: sc.Env, Log: sc.Log,
		Sched: sim.Sched{Strategy: "fifo", Maps: "sorted"},
		Tasks: []TaskSpec{{Ops: []Op{op}}},
	}
	ref.MaxSteps = stepBudget(ref)
	return ref
}

// Ref returns the outcome of the operation alone in a fresh process
func (x *Ctx) Ref(sc *Scenario, op Op, files []File) (*OpResult, *RunResult, error) {
	if files == nil {
		files = sc.Files
	}
	r := refScenario(sc, op, files)
	res, err := x.ex.Ref(r)
	if err != nil {
		return nil, nil, err
	}
	o := res.Ops[0][0]
	if res.Crash != "" {
		o.Class, o.Panic = "crash", res.Crash
	} else if res.Abort != "" {
		o.Class = "abort"
	}
	return &o, res, nil
}

func sortedLogs(l []string) string {
	s := append([]string(nil), l...)
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// diffOutcome compares what the caller of an operation observes
func diffOutcome(got, want *OpResult, logs bool) string {
	switch {
	case got.Class != want.Class:
		return fmt.Sprintf("outcome is %s (%s%s), alone it is %s (%s%s)", got.Class, got.Err, clip(got.Panic, 300), want.Class, want.Err, clip(want.Panic, 300))
	case got.Out != want.Out:
		return "output differs: " + firstDiff(string(got.Out), string(want.Out))
	case got.Err != want.Err:
		return fmt.Sprintf("error is %q, alone it is %q", got.Err, want.Err)
	case got.Meta != want.Meta:
		return "metadata differs: " + firstDiff(got.Meta, want.Meta)
	case logs && got.Class == "ok" && sortedLogs(got.Logs) != sortedLogs(want.Logs):
		return "log messages differ: " + firstDiff(sortedLogs(got.Logs), sortedLogs(want.Logs))
	}
	return ""
}

func firstDiff(a, b string) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	s := n - 60
	if s < 0 {
		s = 0
	}
	return fmt.Sprintf("at byte %d: got ...%q, want ...%q", n, clip(a[s:], 200), clip(b[s:], 200))
}

// evalAgain evaluates a scenario which violated the property. The first time decides, unless the code
// under test depends on something outside of the simulation (an address, say; or what the race
// detector still remembers): then it is tried a few more times
func evalAgain(p *Prop, x *Ctx, sc *Scenario, kind string) ([]Viol, error) {
	for try := 1; ; try++ {
		x.ex.forget()
		v, err := p.Eval(x, clone(sc))
		if err != nil || try == 10 || hasKind(v, kind) != nil {
			return v, err
		}
	}
}

func hasKind(v []Viol, kind string) *Viol {
	for i := range v {
		if v[i].Kind == kind {
			return &v[i]
		}
	}
	return nil
}

// minimise shrinks a scenario while the same kind of violation remains
func minimise(p *Prop, x *Ctx, sc *Scenario, kind string, budget time.Duration) (*Scenario, int) {
	deadline := time.Now().Add(budget)
	tries := 0
	var mu sync.Mutex
	test := func(c *Scenario) bool {
		mu.Lock()
		tries++
		mu.Unlock()
		v, err := p.Eval(&Ctx{ex: x.ex, st: x.st, quiet: true}, c)
		return err == nil && hasKind(v, kind) != nil
	}
	for time.Now().Before(deadline) {
		cands := p.Shrink(sc)
		progress := false
		for i := 0; i < len(cands) && !progress && time.Now().Before(deadline); i += 8 {
			j := min(i+8, len(cands))
			ok := make([]bool, j-i)
			var wg sync.WaitGroup
			for k := i; k < j; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					ok[k-i] = test(cands[k])
				}(k)
			}
			wg.Wait()
			for k := i; k < j; k++ {
				if ok[k-i] {
					sc = cands[k]
					progress = true
					break
				}
			}
		}
		if !progress {
			break
		}
	}
	// the schedule: the recorded decisions of the failing run, then fewer of them
	if sc.Sched.Strategy != "fifo" && !p.Race {
		sc = shrinkSchedule(p, x, sc, test, deadline)
	}
	return sc, tries
}

func clone(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

func shrinkSchedule(p *Prop, x *Ctx, sc *Scenario, test func(*Scenario) bool, deadline time.Time) *Scenario {
	c := clone(sc)
	c.Rec = true
	y := &Ctx{ex: x.ex, st: x.st, quiet: true}
	res, err := y.Run(c)
	if err != nil || res.TraceTrunc || len(res.Trace) == 0 {
		return sc
	}
	t := clone(sc)
	t.Sched.Strategy = "trace"
	t.Sched.Switches = res.Trace
	if !test(t) {
		return sc
	}
	cur := t
	for n := 2; len(cur.Sched.Switches) > 0 && time.Now().Before(deadline); {
		sw := cur.Sched.Switches
		size := (len(sw) + n - 1) / n
		reduced := false
		for i := 0; i < len(sw) && time.Now().Before(deadline); i += size {
			c := clone(cur)
			c.Sched.Switches = append(append([]sim.Switch(nil), sw[:i]...), sw[min(i+size, len(sw)):]...)
			if test(c) {
				cur = c
				reduced = true
				break
			}
		}
		if reduced {
			if n > 2 {
				n--
			}
			continue
		}
		if size <= 1 {
			break
		}
		n *= 2
		if n > len(sw) {
			n = len(sw)
		}
	}
	return cur
}

// textShrinks are smaller versions of a text
func textShrinks(s string) []string {
	var res []string
	lines := strings.SplitAfter(s, "\n")
	if len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	n := len(lines)
	for size := n; size >= 1; size /= 2 {
		cnt := 0
		for i := 0; i < n && cnt < 64; i += size {
			j := min(i+size, n)
			res = append(res, strings.Join(lines[:i], "")+strings.Join(lines[j:], ""))
			cnt++
		}
	}
	if n == 1 && len(s) > 1 {
		l := len(s)
		for size := l / 2; size >= 1; size /= 2 {
			for i := 0; i < l && i/size < 32; i += size {
				j := min(i+size, l)
				res = append(res, s[:i]+s[j:])
			}
		}
	}
	return res
}

// genericShrink proposes simpler scenarios
func genericShrink(sc *Scenario) []*Scenario {
	var res []*Scenario
	add := func(f func(c *Scenario) bool) {
		c := clone(sc)
		if f(c) {
			res = append(res, c)
		}
	}
	for i := range sc.Tasks {
		i := i
		if len(sc.Tasks) > 1 {
			add(func(c *Scenario) bool { c.Tasks = append(c.Tasks[:i], c.Tasks[i+1:]...); return true })
		}
	}
	for i := range sc.Tasks {
		for j := range sc.Tasks[i].Ops {
			i, j := i, j
			if len(sc.Tasks[i].Ops) > 1 {
				add(func(c *Scenario) bool {
					c.Tasks[i].Ops = append(c.Tasks[i].Ops[:j], c.Tasks[i].Ops[j+1:]...)
					return true
				})
			}
		}
	}
	for i := range sc.Events {
		i := i
		add(func(c *Scenario) bool { c.Events = append(c.Events[:i], c.Events[i+1:]...); return true })
	}
	for i := range sc.Files {
		i := i
		add(func(c *Scenario) bool { c.Files = append(c.Files[:i], c.Files[i+1:]...); return true })
	}
	if sc.Sched.Strategy != "fifo" {
		add(func(c *Scenario) bool {
			c.Sched.Strategy, c.Sched.HotP, c.Sched.Switches = "fifo", 0, nil
			return true
		})
	}
	if sc.Sched.Maps != "sorted" {
		add(func(c *Scenario) bool { c.Sched.Maps = "sorted"; return true })
	}
	if sc.Sched.PoolNew != 0 {
		add(func(c *Scenario) bool { c.Sched.PoolNew = 0; return true })
	}
	if sc.Sched.Stall != 0 {
		add(func(c *Scenario) bool { c.Sched.Stall = 0; return true })
	}
	if sc.ShortP != 0 {
		add(func(c *Scenario) bool { c.ShortP = 0; return true })
	}
	if sc.Log != "" {
		add(func(c *Scenario) bool { c.Log = ""; return true })
	}
	if sc.Base != 0 || sc.Tick != 0 {
		add(func(c *Scenario) bool { c.Base, c.Tick = 0, 0; return true })
	}
	for i := range sc.Tasks {
		for j := range sc.Tasks[i].Ops {
			i, j := i, j
			op := &sc.Tasks[i].Ops[j]
			if op.R != (ReaderSpec{}) {
				add(func(c *Scenario) bool { c.Tasks[i].Ops[j].R = ReaderSpec{}; return true })
				if op.R.Mode != "" {
					add(func(c *Scenario) bool { c.Tasks[i].Ops[j].R.Mode = ""; return true })
				}
			}
			if op.W != (WriterSpec{}) {
				add(func(c *Scenario) bool { c.Tasks[i].Ops[j].W = WriterSpec{}; return true })
			}
			for k := range op.Cfg.Attrs {
				k := k
				add(func(c *Scenario) bool {
					a := c.Tasks[i].Ops[j].Cfg.Attrs
					c.Tasks[i].Ops[j].Cfg.Attrs = append(a[:k], a[k+1:]...)
					return true
				})
			}
			for k := range op.Cfg.Macros {
				k := k
				add(func(c *Scenario) bool {
					a := c.Tasks[i].Ops[j].Cfg.Macros
					c.Tasks[i].Ops[j].Cfg.Macros = append(a[:k], a[k+1:]...)
					return true
				})
			}
			if op.Cfg.HF {
				add(func(c *Scenario) bool { c.Tasks[i].Ops[j].Cfg.HF = false; return true })
			}
			if op.Cfg.CSS != nil {
				add(func(c *Scenario) bool { c.Tasks[i].Ops[j].Cfg.CSS = nil; return true })
			}
			for _, s := range textShrinks(string(op.Src)) {
				s := s
				add(func(c *Scenario) bool { c.Tasks[i].Ops[j].Src = Text(s); return true })
			}
		}
	}
	for i := range sc.Files {
		i := i
		if sc.Files[i].Dir || sc.Files[i].Link != "" {
			continue
		}
		for _, s := range textShrinks(string(sc.Files[i].Data)) {
			s := s
			add(func(c *Scenario) bool { c.Files[i].Data = Text(s); return true })
		}
	}
	return res
}

// Replay is a replay file
type Replay struct {
	Property  string    `json:"property"`
	Kind      string    `json:"kind"`
	Detail    string    `json:"detail"`
	VerifSeed uint64    `json:"verif_seed"`
	Case      int       `json:"case"`
	Hash      string    `json:"hash"` // of the event log of the last simulated run
	Scenario  *Scenario `json:"scenario"`
	Original  *Scenario `json:"original,omitempty"`
	Note      string    `json:"note"`
}

// known findings: lines of known_findings.txt of the form
//
//	KNOWN-FINDING: property=<id> kind=<kind> match=<text found in the detail of the violation> -- <what fails>
type knownFinding struct{ prop, kind, match, what string }

func readKnown() []knownFinding {
	var res []knownFinding
	b, err := realos.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	s := bufio.NewScanner(strings.NewReader(string(b)))
	for s.Scan() {
		l := s.Text()
		if !strings.HasPrefix(l, "KNOWN-FINDING: ") {
			continue
		}
		var k knownFinding
		l = strings.TrimPrefix(l, "KNOWN-FINDING: ")
		if i := strings.Index(l, " -- "); i >= 0 {
			k.what = l[i+4:]
			l = l[:i]
		}
		if i := strings.Index(l, " match="); i >= 0 {
			k.match = l[i+7:]
			l = l[:i]
		}
		for _, f := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.prop = v
			} else if v, ok := strings.CutPrefix(f, "kind="); ok {
				k.kind = strings.ReplaceAll(v, "_", " ")
			}
		}
		if k.prop != "" && k.kind != "" && k.match != "" {
			res = append(res, k)
		}
	}
	return res
}

var groupSeed uint64

// groupRng returns a generator shared by the cases of a group
func groupRng(id string, group int) *Rng { return NewRng(groupSeed, hash64(id), 0x6702, uint64(group)) }

func fatal(format string, args ...interface{}) int {
	fmt.Printf("ERROR: "+format+"\n", args...)
	return 2
}

// check runs the exploration of a property
func check(id, tier string, seed uint64, cases int, wall time.Duration) int {
	p := props[id]
	if p == nil {
		return fatal("unknown property %s", id)
	}
	start := time.Now()
	self, err := realos.Executable()
	if err != nil {
		return fatal("%v", err)
	}
	st := newStats()
	ex := newExec(self, 8)
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = p.Quick * 20
		}
	}
	if cases > 0 {
		n = cases
	}
	known := readKnown()
	var (
		next   int64 = -1
		mu     sync.Mutex
		fail   error
		found  []*Replay
		kinds  = map[string]int{}
		stop   int32
		wg     sync.WaitGroup
		knownN = map[string]int{}
	)
	ph := hash64(id)
	groupSeed = seed
	fmt.Printf("property=%s tier=%s VERIF_SEED=%d cases=%d\n", id, tier, seed, n)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 && time.Since(start) < wall {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				x := &Ctx{ex: ex, st: st}
				sc := p.Gen(NewCaseRng(seed, ph, uint64(i)), i)
				sc.Prop, sc.Seed = id, uint64(i)
				v, err := p.Eval(x, sc)
				if err != nil {
					mu.Lock()
					if fail == nil {
						fail = fmt.Errorf("case %d: %w", i, err)
					}
					mu.Unlock()
					atomic.StoreInt32(&stop, 1)
					return
				}
				atomic.AddInt64(&st.Cases, 1)
				if i < 3 || i%(n/3+1) == 7 {
					b, _ := json.Marshal(sc)
					st.mu.Lock()
					if len(st.Samples) < 5 && len(b) < 20000 {
						st.Samples = append(st.Samples, b)
					}
					st.mu.Unlock()
				}
				if i%25 == 3 && x.last != nil && len(v) == 0 && !p.Race {
					// the same scenario once more must be the same execution
					h := x.last.Hash
					y := &Ctx{ex: ex, st: st, quiet: true}
					if _, err := p.Eval(y, clone(sc)); err == nil && y.last != nil && y.last.Hash != h {
						// the code depends on something which is not simulated. What it returns may still be the
						// same, and if it is not, then that is for the property to say
						st.mu.Lock()
						st.SelfcheckDiffs++
						first := st.SelfcheckDiffs == 1
						st.mu.Unlock()
						if first {
							b, _ := json.Marshal(sc)
							_ = realos.WriteFile(filepath.Join(verifDir, "evidence", "nondeterministic.json"), b, 0o644)
							fmt.Printf("NOTE: case %d: two executions of one seed have different event logs (evidence/nondeterministic.json)\n", i)
						}
					}
					st.mu.Lock()
					st.Selfchecks++
					st.mu.Unlock()
				}
				for _, vi := range v {
					isKnown := false
					for _, k := range known {
						if k.prop == id && k.kind == vi.Kind && strings.Contains(vi.Detail, k.match) {
							isKnown = true
							mu.Lock()
							knownN[k.what]++
							mu.Unlock()
						}
					}
					if isKnown {
						continue
					}
					mu.Lock()
					kinds[vi.Kind]++
					if kinds[vi.Kind] == 1 && len(found) < 3 {
						found = append(found, &Replay{Property: id, Kind: vi.Kind, Detail: vi.Detail, VerifSeed: seed, Case: i, Scenario: sc})
					}
					tot := 0
					for _, c := range kinds {
						tot += c
					}
					mu.Unlock()
					if tot >= 8 || len(found) >= 3 {
						atomic.StoreInt32(&stop, 1)
					}
				}
			}
		}()
	}
	wg.Wait()
	explored := time.Since(start)
	for _, k := range known {
		if k.prop == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times in this run)\n", id, k.what, knownN[k.what])
		}
	}
	code := 0
	if fail != nil && len(found) == 0 {
		return fatal("%v", fail)
	}
	violations := 0
	dir := filepath.Join(verifDir, "evidence", "replays")
	if len(found) > 0 {
		_ = realos.MkdirAll(dir, 0o755)
	}
	for _, f := range found {
		x := &Ctx{ex: ex, st: st, quiet: true}
		// it has to happen again, in fresh processes
		v, err := evalAgain(p, x, f.Scenario, f.Kind)
		if err != nil {
			return fatal("%v", err)
		}
		if hasKind(v, f.Kind) == nil {
			return fatal("case %d: a violation (%s: %s) did not happen again: the simulation is not deterministic", f.Case, f.Kind, clip(f.Detail, 500))
		}
		budget := 40 * time.Second
		if tier == "thorough" {
			budget = 5 * time.Minute
		}
		m, tries := minimise(p, x, f.Scenario, f.Kind, budget/time.Duration(len(found)))
		y := &Ctx{ex: ex, st: st, quiet: true}
		v, err = evalAgain(p, y, m, f.Kind)
		if err != nil || hasKind(v, f.Kind) == nil {
			m = f.Scenario
			y = &Ctx{ex: ex, st: st, quiet: true}
			v, _ = evalAgain(p, y, m, f.Kind)
		}
		vi := hasKind(v, f.Kind)
		if vi == nil {
			return fatal("a violation vanished")
		}
		f.Detail = vi.Detail
		f.Original = f.Scenario
		f.Scenario = m
		if y.last != nil {
			f.Hash = fmt.Sprintf("%016x", y.last.Hash)
		}
		f.Note = fmt.Sprintf("minimised in %d attempts; replay with: /verif/run.sh replay <this file>", tries)
		b, _ := json.MarshalIndent(f, "", " ")
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-case%d.json", id, strings.Map(func(r rune) rune {
			if r == ' ' || r == '/' {
				return '_'
			}
			return r
		}, f.Kind), seed, f.Case))
		if err := realos.WriteFile(path, b, 0o644); err != nil {
			return fatal("%v", err)
		}
		fmt.Printf("%s: %s\n", f.Kind, clip(f.Detail, 1200))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		violations++
		code = 1
	}
	if err := writeEvidence(p, tier, seed, st, ex, explored, time.Since(start), violations); err != nil {
		return fatal("%v", err)
	}
	fmt.Printf("property=%s cases=%d runs=%d distinct=%d steps=%d switches=%d wall=%.1fs violations=%d faults=%v probes=%v classes=%v\n", id, st.Cases, ex.Runs, len(st.Nontrivial), st.Steps, st.Switches, time.Since(start).Seconds(), violations, st.Faults, st.Probes, st.Classes)
	return code
}

func hash64(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	v := uint64(0)
	for i := 0; i < 8; i++ {
		v = v<<8 | uint64(h[i])
	}
	return v
}

func writeEvidence(p *Prop, tier string, seed uint64, st *Stats, ex *Exec, explored, total time.Duration, violations int) error {
	hours := explored.Hours()
	cov := map[string]interface{}{
		"evaluations":                         ex.Runs,
		"distinct_nontrivial":                 len(st.Nontrivial),
		"rule":                                p.Rule + " A simulated run is non-trivial if the scheduler switched between tasks more than once or a fault fired in it, and distinct by the hash of its event log (every scheduling decision, channel operation, file operation and outcome).",
		"samples":                             st.Samples,
		"cases":                               st.Cases,
		"reference_runs":                      ex.RefRuns,
		"runs_per_hour":                       int64(float64(ex.Runs) / hours),
		"seeds_per_hour":                      int64(float64(st.Cases) / hours),
		"steps":                               st.Steps,
		"simulated_seconds":                   float64(st.SimNanos) / 1e9,
		"simulated_clock_reads":               st.ClockReads,
		"task_switches":                       st.Switches,
		"preemptions":                         st.Preempt,
		"tasks_started":                       st.Tasks,
		"selects_with_choice":                 st.SelectMulti,
		"map_iterations_permuted":             st.MapIters,
		"pool_misses_forced":                  st.PoolMiss,
		"stalls_past_a_timer":                 st.Stalls,
		"faults_injected":                     st.Faults,
		"probes":                              st.Probes,
		"strategies":                          st.Strat,
		"outcomes":                            st.Classes,
		"distinct_states":                     len(st.Occ),
		"distinct_states_measure":             "buckets (of 262144) of a hash over what each task is doing (running, blocked on which operation) at a task switch",
		"determinism_selfchecks":              st.Selfchecks,
		"determinism_selfchecks_which_differ": st.SelfcheckDiffs,
		"components_real":                     []string{"all of github.com/bytesparadise/libasciidoc (preprocessor, parser, pipeline, validator, renderers)", "cmd/libasciidoc with cobra", "logrus", "text/template"},
		"components_stub":                     []string{"os, io/ioutil, path/filepath (in-memory file system)", "time, context (simulated clock)", "sync, channels, select, goroutines, io.Pipe (simulated scheduler)", "map iteration order", "math/rand"},
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"sampling: a clean batch is evidence for the executions that were simulated, not a proof",
			"interleavings at the granularity of statements of the module and of its channel, lock and file operations; dependencies run atomically between them",
			"the simulated file system follows POSIX in what the code can observe",
		},
		"wall_s": total.Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verifDir, "evidence")
	_ = realos.MkdirAll(dir, 0o755)
	return realos.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0o644)
}

// replay evaluates the scenario of a replay file again
func replay(path string) int {
	b, err := realos.ReadFile(path)
	if err != nil {
		return fatal("%v", err)
	}
	f := &Replay{}
	if err := json.Unmarshal(b, f); err != nil {
		return fatal("%v", err)
	}
	p := props[f.Property]
	if p == nil {
		return fatal("unknown property %s", f.Property)
	}
	self, _ := realos.Executable()
	x := &Ctx{ex: newExec(self, 8), st: newStats(), quiet: true}
	v, err := evalAgain(p, x, f.Scenario, f.Kind)
	if err != nil {
		return fatal("%v", err)
	}
	for _, vi := range v {
		fmt.Printf("%s: %s\n", vi.Kind, vi.Detail)
	}
	if x.last != nil {
		fmt.Printf("hash=%016x (recorded %s)\n", x.last.Hash, f.Hash)
	}
	if hasKind(v, f.Kind) != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	fmt.Println("no violation of this kind")
	return 0
}

func shortHash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}
