// Package mc is a small stateless model checker: it enumerates, exhaustively and
// in canonical order, every path through a nondeterministic "case" function that
// drives the real implementation and compares it with a reference model.
//
// A case obtains every nondeterministic decision from Choose/Dev.  The explorer
// replays prefixes and explores all alternatives (optionally within a deviation
// bound).  Decisions form a tree: its inner nodes are the explored states, its
// edges the transitions, its leaves complete executions of the implementation.
//
// The exploration runs in a child process, so that a fatal error in the code
// under test (panic in a goroutine, deadlock, memory blow-up, endless loop)
// is observed by the parent and reported as a violation instead of killing the
// check.
package mc

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Scenario is one bounded space to be enumerated.
type Scenario struct {
	Name     string
	Bound    int  // maximum total deviation cost (Dev); -1: unbounded
	Serial   bool // the case changes process-wide state: one worker only
	Workers  int  // 0: number of CPUs
	Quick    bool // included in the quick tier
	Instr    bool // run by the binary whose packages are instrumented ($VERIF_SCHED_BIN), if there is one
	Tolerant bool // a replay that diverges (code that is not deterministic) ends the branch instead of the check
	Race     bool // run by the binary built with the race detector ($VERIF_RACE_BIN)
	Note     string
	Fn       func(c *Case)
}

// Property is a set of scenarios deciding one property.
type Property struct {
	ID          string
	Level       string
	Scenarios   []Scenario
	Assumptions []string
}

type failure struct {
	msg   string
	stack string
}

// Case is one execution in progress.
type Case struct {
	Tier     string
	prefix   []int
	path     []int
	fan      []int
	cost     []int // cost of choosing a non-default alternative at this point
	labels   []string
	spent    int
	bound    int
	obs      uint64
	traces   int
	skipped  bool
	diverged bool
	extraS   int64
	extraT   int64
	detail   string
}

// Thorough tells whether the deep tier runs.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

func (c *Case) choose(n int, dev int, label string) int {
	if n <= 0 {
		panic("mc: empty choice " + label)
	}
	i := len(c.path)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("mc: replay diverged at %d (%s): %d of %d", i, label, v, n))
		}
	}
	if v != 0 {
		c.spent += dev
	}
	c.path = append(c.path, v)
	c.fan = append(c.fan, n)
	c.cost = append(c.cost, dev)
	return v
}

// Choose enumerates 0..n-1.
func (c *Case) Choose(n int, label string) int {
	v := c.choose(n, 0, label)
	c.labels = append(c.labels, label+"="+strconv.Itoa(v))
	return v
}

// Bool enumerates false, true.
func (c *Case) Bool(label string) bool {
	v := c.choose(2, 0, label)
	c.labels = append(c.labels, label+"="+strconv.FormatBool(v == 1))
	return v == 1
}

// Dev enumerates 0..n-1 where any value but 0 costs one deviation.
func (c *Case) Dev(n int, label string) int { return c.DevCost(n, 1, label) }

// DevCost is Dev with an explicit cost.
func (c *Case) DevCost(n, cost int, label string) int {
	v := c.choose(n, cost, label)
	if v != 0 {
		c.labels = append(c.labels, label+"@"+strconv.Itoa(len(c.path)-1)+"="+strconv.Itoa(v))
	}
	return v
}

// Pick enumerates the elements of xs.
func Pick[T any](c *Case, label string, xs []T) T {
	v := c.choose(len(xs), 0, label)
	c.labels = append(c.labels, fmt.Sprintf("%s=%v", label, xs[v]))
	return xs[v]
}

// DevPick enumerates the elements of xs; all but the first cost one deviation.
func DevPick[T any](c *Case, label string, xs []T) T {
	v := c.choose(len(xs), 1, label)
	if v != 0 {
		c.labels = append(c.labels, fmt.Sprintf("%s@%d=%v", label, len(c.path)-1, xs[v]))
	}
	return xs[v]
}

// Fail reports a violation of the property by this execution.
func (c *Case) Fail(format string, a ...interface{}) {
	panic(&failure{msg: fmt.Sprintf(format, a...)})
}

// Detail attaches text to the replay file if this case fails.
func (c *Case) Detail(format string, a ...interface{}) { c.detail += fmt.Sprintf(format, a...) + "\n" }

// Obs folds an observation into the outcome fingerprint of the execution.
func (c *Case) Obs(a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|", c.obs)
	fmt.Fprintln(h, a...)
	c.obs = h.Sum64()
}

// ObsBytes folds bytes into the outcome fingerprint.
func (c *Case) ObsBytes(b []byte) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|", c.obs)
	h.Write(b)
	c.obs = h.Sum64()
}

// Validated counts n model traces compared against the implementation.
func (c *Case) Validated(n int) { c.traces += n }

// Visited adds states and transitions enumerated by an inner loop of the case.
func (c *Case) Visited(states, transitions int) {
	c.extraS += int64(states)
	c.extraT += int64(transitions)
}

// Skip marks the rest of the path as not part of the space.
func (c *Case) Skip() { panic(skipSentinel) }

var skipSentinel = new(int)

// Desc describes the path.
func (c *Case) Desc() string { return strings.Join(c.labels, " ") }

// ---------------------------------------------------------------- child

type result struct {
	Scenario    string
	Executions  int64
	Skipped     int64
	Diverged    int64
	States      int64
	Transitions int64
	Traces      int64
	Outcomes    int64
	OutcomesCap bool
	Exhaustive  bool
	MaxDepth    int
	Bound       int
	Wall        float64
	Samples     []string
	Failures    []failRec
	Failed      int64
}

type failRec struct {
	Scenario string
	Path     []int
	Desc     string
	Msg      string
	Stack    string
	Detail   string
	Repro    int
}

func runOnce(sc *Scenario, tier string, prefix []int) (c *Case, fr *failRec) {
	c = &Case{Tier: tier, prefix: prefix, bound: sc.Bound}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if r == skipSentinel {
			c.skipped = true
			return
		}
		if s, ok := r.(string); ok && strings.HasPrefix(s, "mc: ") {
			if sc.Tolerant {
				c.skipped, c.diverged = true, true
				return
			}
			panic(r)
		}
		fr = &failRec{Scenario: sc.Name, Path: append([]int{}, c.path...), Desc: c.Desc(), Detail: c.detail}
		if f, ok := r.(*failure); ok {
			fr.Msg = f.msg
		} else {
			fr.Msg = fmt.Sprintf("panic: %v", r)
			fr.Stack = string(debug.Stack())
		}
	}()
	sc.Fn(c)
	return
}

type journal struct {
	f *os.File
}

const slotSize = 4096

func (j *journal) set(w int, s string) {
	if j == nil || j.f == nil {
		return
	}
	b := make([]byte, len(s)+1, slotSize)
	copy(b, s)
	b[len(s)] = '\n'
	if len(b) > slotSize {
		b = b[:slotSize]
	}
	j.f.WriteAt(b, int64(w)*slotSize)
}

func pathStr(p []int) string {
	var sb strings.Builder
	for i, v := range p {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(strconv.Itoa(v))
	}
	return sb.String()
}

func parsePath(s string) []int {
	if s == "" {
		return nil
	}
	var p []int
	for _, x := range strings.Split(s, ",") {
		v, err := strconv.Atoi(x)
		if err != nil {
			return nil
		}
		p = append(p, v)
	}
	return p
}

func exploreScenario(sc *Scenario, tier string, deadline time.Time, jr *journal) *result {
	res := &result{Scenario: sc.Name, Exhaustive: true, Bound: sc.Bound}
	start := time.Now()
	nw := runtime.NumCPU()
	if sc.Workers > 0 {
		nw = sc.Workers
	}
	if sc.Serial {
		nw = 1
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{nil}
	active := 0
	stop := false
	var stopped int32
	outcomes := map[uint64]struct{}{}
	work := func(w int) {
		for {
			mu.Lock()
			for len(stack) == 0 && active > 0 && !stop {
				cond.Wait()
			}
			if stop || len(stack) == 0 {
				cond.Broadcast()
				mu.Unlock()
				return
			}
			p := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			active++
			mu.Unlock()

			jr.set(w, sc.Name+"|"+pathStr(p))
			c, fr := runOnce(sc, tier, p)
			jr.set(w, "")
			if fr != nil {
				for i := 0; i < 5; i++ {
					jr.set(w, sc.Name+"|"+pathStr(fr.Path))
					if _, f2 := runOnce(sc, tier, fr.Path); f2 != nil {
						fr.Repro++
					}
					jr.set(w, "")
				}
			}
			// alternatives, deepest last on the stack = explored first
			var alts [][]int
			base := 0
			for i := 0; i < len(c.path); i++ {
				if i >= len(p) {
					if sc.Bound < 0 || base+c.cost[i] <= sc.Bound {
						for v := c.fan[i] - 1; v >= 1; v-- {
							alts = append(alts, append(append(make([]int, 0, i+1), c.path[:i]...), v))
						}
					}
				}
				if c.path[i] != 0 {
					base += c.cost[i]
				}
			}
			mu.Lock()
			newNodes := len(c.path) - len(p) // nodes first visited on this run
			if len(p) == 0 {
				newNodes++
			}
			res.States += int64(newNodes) + c.extraS
			res.Transitions += int64(newNodes) + c.extraT
			if len(p) > 0 {
				res.States++
				res.Transitions++
			}
			if len(p) == 0 {
				res.Transitions-- // the root has no incoming edge
			}
			if len(c.path) > res.MaxDepth {
				res.MaxDepth = len(c.path)
			}
			if c.diverged {
				res.Diverged++
				res.Exhaustive = false
			}
			if c.skipped {
				res.Skipped++
			} else {
				res.Executions++
				res.Traces += int64(c.traces)
				if len(outcomes) < 2000000 {
					outcomes[c.obs] = struct{}{}
				} else {
					res.OutcomesCap = true
				}
				n := res.Executions
				if n == 1 || n == 7 || n == 101 || n == 4001 {
					res.Samples = append(res.Samples, sc.Name+": "+c.Desc())
				}
			}
			if fr != nil {
				res.Failed++
				if len(res.Failures) < 200 {
					res.Failures = append(res.Failures, *fr)
				}
				if res.Failed >= 2000 {
					stop = true
					res.Exhaustive = false
				}
			}
			stack = append(stack, alts...)
			active--
			if !deadline.IsZero() && time.Now().After(deadline) && (len(stack) > 0 || active > 0) {
				if len(stack) > 0 {
					stop = true
					res.Exhaustive = false
				}
				atomic.StoreInt32(&stopped, 1)
			}
			cond.Broadcast()
			mu.Unlock()
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) { defer wg.Done(); work(w) }(w)
	}
	wg.Wait()
	res.Outcomes = int64(len(outcomes))
	res.Wall = time.Since(start).Seconds()
	sort.Slice(res.Failures, func(i, j int) bool {
		a, b := res.Failures[i].Path, res.Failures[j].Path
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	})
	return res
}

// ---------------------------------------------------------------- parent

// Known is one entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	// Desc must be equal to the description of the failing execution, or, when
	// it starts with "~", all its space separated words must occur in it.
	Desc   string `json:"desc"`
	Msg    string `json:"msg"` // substring of the failure message
	What   string `json:"what"`
	Status string `json:"status"` // "known" or "fixed" (fixed entries suppress nothing)
}

func (k *Known) matches(prop string, f *failRec) bool {
	if k.Status != "known" || k.Property != prop || k.Scenario != f.Scenario {
		return false
	}
	if k.Msg != "" && !strings.Contains(f.Msg, k.Msg) {
		return false
	}
	if strings.HasPrefix(k.Desc, "~") {
		have := map[string]bool{}
		for _, w := range strings.Fields(f.Desc) {
			have[w] = true
		}
		for _, w := range strings.Fields(k.Desc[1:]) {
			if !have[w] {
				return false
			}
		}
		return true
	}
	return k.Desc == f.Desc
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Main runs the property named on the command line.
func Main(props map[string]*Property) {
	child := flag.String("mc.child", "", "result file (internal)")
	jrn := flag.String("mc.journal", "", "journal file (internal)")
	scn := flag.String("mc.scenario", "", "run only this scenario (internal)")
	replay := flag.String("replay", "", "replay: scenario|path")
	dl := flag.Float64("mc.deadline", 0, "seconds (internal)")
	id := flag.String("p", "", "property")
	tierF := flag.String("tier", "", "quick or thorough")
	flag.Parse()
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	p := props[*id]
	if p == nil {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Fprintf(os.Stderr, "unknown property %q (have %v)\n", *id, ids)
		os.Exit(3)
	}
	debug.SetTraceback("all")
	find := func(name string) *Scenario {
		for i := range p.Scenarios {
			if p.Scenarios[i].Name == name {
				return &p.Scenarios[i]
			}
		}
		fmt.Fprintln(os.Stderr, "no scenario", name)
		os.Exit(3)
		return nil
	}
	if *replay != "" {
		parts := strings.SplitN(*replay, "|", 2)
		if len(parts) < 2 {
			parts = append(parts, "")
		}
		sc := find(parts[0])
		bin := ""
		if sc.Instr {
			bin = os.Getenv("VERIF_SCHED_BIN")
		} else if sc.Race {
			bin = os.Getenv("VERIF_RACE_BIN")
		}
		if bin != "" && os.Getenv("VERIF_INNER") == "" {
			os.Setenv("VERIF_INNER", "1")
			fmt.Fprintln(os.Stderr, syscall.Exec(bin, append([]string{bin}, os.Args[1:]...), os.Environ()))
			os.Exit(3)
		}
		c, fr := runOnce(sc, tier, parsePath(parts[1]))
		fmt.Println("case:", c.Desc())
		if fr != nil {
			fmt.Println("FAILED:", fr.Msg)
			fmt.Println(fr.Stack)
			fmt.Println(fr.Detail)
			os.Exit(1)
		}
		fmt.Println("ok")
		return
	}
	if *child != "" {
		var jr *journal
		if *jrn != "" {
			f, err := os.OpenFile(*jrn, os.O_RDWR|os.O_CREATE, 0o644)
			if err == nil {
				jr = &journal{f}
			}
		}
		var deadline time.Time
		if *dl > 0 {
			deadline = time.Now().Add(time.Duration(*dl * float64(time.Second)))
		}
		res := exploreScenario(find(*scn), tier, deadline, jr)
		b, _ := json.Marshal(res)
		if err := os.WriteFile(*child, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	os.Exit(parent(p, tier))
}

func loadKnown() []Known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var ks []Known
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	return ks
}

type tail struct {
	mu sync.Mutex
	b  []byte
	n  int
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.n += len(p)
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func parent(p *Property, tier string) int {
	start := time.Now()
	total := 300.0
	if tier == "thorough" {
		total = 780
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			total = v
		}
	}
	known := loadKnown()
	tmp, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var scs []*Scenario
	for i := range p.Scenarios {
		if tier == "thorough" || p.Scenarios[i].Quick {
			scs = append(scs, &p.Scenarios[i])
		}
	}
	var results []*result
	var fails []failRec
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for i, sc := range scs {
		left := total - time.Since(start).Seconds()
		budget := left / float64(len(scs)-i) * 2 // early finishers leave time to the others
		if i == len(scs)-1 || budget > left {
			budget = left
		}
		if budget < 1 {
			budget = 1
		}
		bin := self
		if b := os.Getenv("VERIF_SCHED_BIN"); sc.Instr && b != "" {
			bin = b
		}
		if sc.Race {
			if bin = os.Getenv("VERIF_RACE_BIN"); bin == "" {
				fmt.Fprintln(os.Stderr, "mc: no race detector binary")
				return 3
			}
		}
		r, crash := runChild(bin, tmp, p, sc, tier, budget)
		if r != nil {
			results = append(results, r)
			fails = append(fails, r.Failures...)
		}
		fails = append(fails, crash...)
	}
	if len(results) == 0 && len(fails) == 0 {
		fmt.Fprintln(os.Stderr, "mc: no scenario finished")
		return 3
	}

	knownHit := map[string]bool{}
	var bad []failRec
	for i := range fails {
		f := &fails[i]
		hit := false
		for j := range known {
			if known[j].matches(p.ID, f) {
				hit = true
				knownHit[known[j].What] = true
				break
			}
		}
		if !hit {
			bad = append(bad, *f)
		}
	}
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}

	writeEvidence(p, tier, seed, results, len(bad), len(ks), time.Since(start).Seconds())

	if len(bad) == 0 {
		var ex int64
		exh := true
		for _, r := range results {
			ex += r.Executions
			exh = exh && r.Exhaustive
		}
		fmt.Printf("OK property=%s tier=%s scenarios=%d executions=%d exhaustive=%v wall=%.1fs\n", p.ID, tier, len(results), ex, exh, time.Since(start).Seconds())
		return 0
	}
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, p.ID+".txt")
	var sb strings.Builder
	for i, f := range bad {
		if i >= 20 {
			fmt.Fprintf(&sb, "... %d more\n", len(bad)-i)
			break
		}
		fmt.Fprintf(&sb, "property: %s\nscenario: %s\ncase: %s\nfailure: %s\nreproduced: %d of 5 reruns\nreplay: ./run.sh %s %s '%s|%s'\n%s\n%s\n\n",
			p.ID, f.Scenario, f.Desc, f.Msg, f.Repro, p.ID, tier, f.Scenario, pathStr(f.Path), f.Detail, f.Stack)
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	fmt.Printf("failure: scenario=%s case=[%s]: %s\n", bad[0].Scenario, bad[0].Desc, bad[0].Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

func runChild(self, tmp string, p *Property, sc *Scenario, tier string, budget float64) (*result, []failRec) {
	out := filepath.Join(tmp, sc.Name+".json")
	jf := filepath.Join(tmp, sc.Name+".journal")
	os.WriteFile(jf, make([]byte, 64*slotSize), 0o644)
	cmd := exec.Command(self, "-p", p.ID, "-tier", tier, "-mc.child", out, "-mc.journal", jf, "-mc.scenario", sc.Name, "-mc.deadline", fmt.Sprint(budget))
	t := &tail{}
	cmd.Stdout, cmd.Stderr = t, t
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if os.Getenv("GOMEMLIMIT") == "" {
		cmd.Env = append(cmd.Env, "GOMEMLIMIT=12GiB")
	}
	if err := cmd.Start(); err != nil {
		return nil, []failRec{{Scenario: sc.Name, Msg: "cannot start: " + err.Error()}}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	// hang detection: the same case in flight for a very long time
	hung := false
	last := map[int]string{}
	since := map[int]time.Time{}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			for i, s := range readJournal(jf) {
				if s != last[i] || s == "" {
					last[i], since[i] = s, time.Now()
				} else if time.Since(since[i]) > hangLimit {
					hung = true
				}
			}
			if hung {
				cmd.Process.Kill()
				err = <-done
				break loop
			}
		}
	}
	if b, e := os.ReadFile(out); e == nil && err == nil {
		var r result
		if json.Unmarshal(b, &r) == nil {
			return &r, nil
		}
	}
	// The child died: find the guilty case among those in flight.
	var cands []string
	for _, s := range readJournal(jf) {
		if s != "" {
			cands = append(cands, s)
		}
	}
	sort.Strings(cands)
	text := string(t.b)
	if strings.Contains(text, "panic: mc: ") {
		fmt.Fprintln(os.Stderr, text)
		return nil, []failRec{{Scenario: sc.Name, Msg: "exploration error (replay diverged: the code under test is not deterministic): " + firstLine(text), Detail: text}}
	}
	var frs []failRec
	for _, cd := range cands {
		parts := strings.SplitN(cd, "|", 2)
		if len(parts) != 2 {
			continue
		}
		fr := failRec{Scenario: parts[0], Path: parsePath(parts[1])}
		for i := 0; i < 5; i++ {
			o, ok, to := replayChild(self, p, tier, cd)
			if ok {
				continue
			}
			fr.Repro++
			if fr.Msg == "" {
				if to {
					fr.Msg = "no termination within the hang limit"
				} else {
					fr.Msg = "process died: " + firstLine(o)
				}
				fr.Detail = o
			}
			if to {
				break
			}
		}
		if fr.Repro > 0 {
			fr.Desc = "path " + parts[1]
			frs = append(frs, fr)
			break
		}
	}
	if len(frs) == 0 {
		msg := "process died: " + firstLine(text)
		if hung {
			msg = "no termination within the hang limit (not reproduced on replay)"
		}
		frs = append(frs, failRec{Scenario: sc.Name, Msg: msg, Detail: text, Desc: strings.Join(cands, " ; ")})
	}
	return nil, frs
}

const hangLimit = 60 * time.Second

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.Contains(l, "DATA RACE") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func replayChild(self string, p *Property, tier, cd string) (out string, ok, timeout bool) {
	cmd := exec.Command(self, "-p", p.ID, "-tier", tier, "-replay", cd)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	t := &tail{}
	cmd.Stdout, cmd.Stderr = t, t
	if err := cmd.Start(); err != nil {
		return err.Error(), false, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return string(t.b), err == nil, false
	case <-time.After(hangLimit):
		cmd.Process.Kill()
		<-done
		return string(t.b), false, true
	}
}

func readJournal(jf string) []string {
	b, err := os.ReadFile(jf)
	if err != nil {
		return nil
	}
	var out []string
	for i := 0; i+slotSize <= len(b); i += slotSize {
		s := string(b[i : i+slotSize])
		if k := strings.IndexByte(s, '\n'); k >= 0 {
			s = s[:k]
		} else {
			s = strings.TrimRight(s, "\x00")
		}
		out = append(out, strings.TrimRight(s, "\x00"))
	}
	return out
}

func writeEvidence(p *Property, tier string, seed int, results []*result, violations, knownN int, wall float64) {
	var states, trans, traces, ex, skipped, outcomes int64
	exh := true
	var samples []string
	var per []map[string]interface{}
	for _, r := range results {
		states += r.States
		trans += r.Transitions
		traces += r.Traces
		ex += r.Executions
		skipped += r.Skipped
		outcomes += r.Outcomes
		exh = exh && r.Exhaustive
		samples = append(samples, r.Samples...)
		m := map[string]interface{}{
			"scenario": r.Scenario, "executions": r.Executions, "states": r.States, "transitions": r.Transitions,
			"distinct_outcomes": r.Outcomes, "exhaustive": r.Exhaustive, "max_depth": r.MaxDepth, "wall_s": r.Wall,
		}
		if r.Bound >= 0 {
			m["deviation_bound"] = r.Bound
		}
		per = append(per, m)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []string{}
	}
	level := p.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": level, "wall_s": wall, "violations": violations,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces,
			"executions": ex, "pruned_paths": skipped, "distinct_outcomes": outcomes,
			"samples": samples, "exhaustive": exh, "scenarios": per, "known_findings_hit": knownN,
			"rule": "stateless enumeration of the decision tree of each scenario: a state is a node of the tree, a transition an edge, a trace a complete path replayed on the implementation and compared with the reference model",
		},
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}
