package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

// Ctx drives one worker: it walks the declared case spaces and runs the cases of its shard.
type Ctx struct {
	prop     string
	tier     string
	shard    int
	shards   int
	only     string // replay: suite name
	onlyIdx  int64
	curSuite string
	curIdx   atomic.Int64
	curStart atomic.Int64
	res      Result
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	descr    func() string
}

// SuiteStat is what one worker covered of one case space.
type SuiteStat struct {
	Name  string `json:"name"`
	Total int64  `json:"total"`
	Done  int64  `json:"done"`
	Note  string `json:"note,omitempty"`
}

// Viol is one violation.
type Viol struct {
	Suite string `json:"suite"`
	Index int64  `json:"index"`
	Msg   string `json:"msg"`
	Case  string `json:"case,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Suites      []SuiteStat         `json:"suites"`
	Transitions int64               `json:"transitions"`
	Traces      int64               `json:"traces"`
	BulkStates  int64               `json:"bulk_states"`
	StateSet    []uint64            `json:"state_set"`
	OutcomeSet  []uint64            `json:"outcome_set"`
	Violations  []Viol              `json:"violations"`
	Samples     []string            `json:"samples"`
	Notes       []string            `json:"notes"`
	Incomplete  []string            `json:"incomplete"`
	Extra       map[string]int64    `json:"extra"`
	Strs        map[string][]string `json:"strs"`
}

func (c *Ctx) thorough() bool { return c.tier == "thorough" }

// Op counts library calls.
func (c *Ctx) Op(n int) { c.res.Transitions += int64(n) }

// State records a distinct state (input configuration / history position with what was observed there).
func (c *Ctx) State(parts ...any) {
	if len(c.states) < 4_000_000 {
		c.states[hash(c.curSuite, parts)] = struct{}{}
	} else {
		c.res.Extra["state_set_overflow"]++
	}
}

// Outcome records an observed outcome, to show that the exploration is not vacuous.
func (c *Ctx) Outcome(parts ...any) {
	if len(c.outcomes) < 50_000 {
		c.outcomes[hash(c.curSuite, parts)] = struct{}{}
	}
}

// Bulk counts states that are distinct by construction (a dense loop over an index range).
func (c *Ctx) Bulk(n int64) { c.res.BulkStates += n }

// Extra adds to a named counter.
func (c *Ctx) Extra(k string, n int64) { c.res.Extra[k] += n }

// Note records a remark once.
func (c *Ctx) Note(s string) {
	for _, x := range c.res.Notes {
		if x == s {
			return
		}
	}
	c.res.Notes = append(c.res.Notes, s)
}

// Incomplete records that part of the declared space was not covered.
func (c *Ctx) Incomplete(s string) {
	for _, x := range c.res.Incomplete {
		if x == s {
			return
		}
	}
	c.res.Incomplete = append(c.res.Incomplete, s)
}

// Describe sets how the running case is written out if it fails.
func (c *Ctx) Describe(f func() string) { c.descr = f }

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v", parts)
	return h.Sum64()
}

const maxViolPerSuite = 3

// Suite runs cases 0..total-1 of a space. setup runs once before the first case of this shard.
func (c *Ctx) Suite(name string, total int64, setup func(), run func(i int64) error) {
	if c.only != "" && c.only != name {
		return
	}
	if f := os.Getenv("MC_SUITE"); f != "" && c.only == "" && f != name {
		c.Incomplete("only suite " + f + " was asked for")
		return
	}
	c.curSuite = name
	st := SuiteStat{Name: name, Total: total}
	ready := false
	bad := 0
	one := func(i int64) {
		c.curIdx.Store(i)
		c.curStart.Store(time.Now().UnixNano())
		c.descr = nil
		err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
				}
			}()
			if !ready {
				rnd.SetHook(nil)
				rnd.Quiet(true)
				rnd.Reset(1)
				if setup != nil {
					setup()
				}
				ready = true
			}
			return run(i)
		}()
		rnd.SetHook(nil)
		c.res.Traces++
		st.Done++
		if err != nil {
			d := ""
			if c.descr != nil {
				func() {
					defer func() { recover() }()
					d = c.descr()
				}()
			}
			c.res.Violations = append(c.res.Violations, Viol{name, i, err.Error(), d})
			bad++
			if !ready {
				bad = maxViolPerSuite
			}
		} else if len(c.res.Samples) < 40 && (st.Done == 1) {
			d := ""
			if c.descr != nil {
				d = c.descr()
			}
			c.res.Samples = append(c.res.Samples, fmt.Sprintf("%s[%d/%d] %s", name, i, total, d))
		}
	}
	if c.only != "" {
		if c.onlyIdx < total {
			one(c.onlyIdx)
		}
	} else {
		for i := int64(c.shard); i < total && bad < maxViolPerSuite; i += int64(c.shards) {
			one(i)
		}
	}
	c.curStart.Store(0)
	rnd.SetHook(nil)
	rnd.Quiet(true)
	c.res.Suites = append(c.res.Suites, st)
}

func trimStack(b []byte) string {
	s := string(b)
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-tfhe") || strings.Contains(l, "verif/mc") || strings.Contains(l, "__") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---- process plumbing ---------------------------------------------------------------------------

// Check is one property's check.
type Check struct {
	ID          string
	Run         func(c *Ctx)
	Level       string
	Rule        string
	Bounds      map[string]string // per tier
	Assumptions []string
	Sched       bool
}

var checks = map[string]*Check{}

// coldFns are run in processes of their own (-cold name).
var coldFns = map[string]func(){}

var coldArg *string

func register(c *Check) { checks[c.ID] = c }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "seed (recorded only: nothing is sampled)")
	worker := flag.String("worker", "", "internal: i/n,outfile")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("only", "", "internal: suite:index,outfile")
	evid := flag.String("evidence", "/verif/evidence", "evidence directory")
	findings := flag.String("findings", "/verif/known_findings.txt", "known findings")
	report := flag.String("instr", "", "instrumentation report")
	raceBin := flag.String("race", "", "race-detector build of this harness")
	coldArg = flag.String("arg", "", "internal: argument of -cold")
	cold := flag.String("cold", "", "internal: run one registered function in this fresh process")
	deadline := flag.Int("deadline", 0, "stop after this many seconds (0: tier default)")
	flag.Parse()
	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	loadInstr(*report)
	raceBuild = *raceBin
	if *cold != "" {
		coldFns[*cold]()
		return
	}
	if *worker != "" || *only != "" {
		runWorker(ck, *tier, *worker, *only)
		return
	}
	if *deadline == 0 {
		*deadline = 600
		if *tier == "thorough" {
			*deadline = 3 * 3600
		}
	}
	os.Exit(parent(ck, *tier, *seed, *replay, *evid, *findings, *report, *raceBin, *deadline))
}

func runWorker(ck *Check, tier, worker, only string) {
	c := &Ctx{prop: ck.ID, tier: tier, shards: 1, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}}
	c.res.Extra = map[string]int64{}
	c.res.Strs = map[string][]string{}
	var out string
	if only != "" {
		a, b, _ := strings.Cut(only, ",")
		i := strings.LastIndex(a, ":")
		c.only = a[:i]
		c.onlyIdx, _ = strconv.ParseInt(a[i+1:], 10, 64)
		out = b
	} else {
		a, b, _ := strings.Cut(worker, ",")
		fmt.Sscanf(a, "%d/%d", &c.shard, &c.shards)
		out = b
	}
	flush := func() {
		for h := range c.states {
			c.res.StateSet = append(c.res.StateSet, h)
		}
		for h := range c.outcomes {
			c.res.OutcomeSet = append(c.res.OutcomeSet, h)
		}
		b, _ := json.Marshal(c.res)
		os.WriteFile(out+".tmp", b, 0o644)
		os.Rename(out+".tmp", out)
	}
	go func() { // watchdog
		var cpu0 time.Duration
		var last int64
		for {
			time.Sleep(2 * time.Second)
			st := c.curStart.Load()
			cpu := cpuTime()
			if st != last {
				last, cpu0 = st, cpu
				continue
			}
			if st == 0 {
				continue
			}
			wall := time.Since(time.Unix(0, st))
			used := cpu - cpu0
			if wall > 200*time.Second && (used > 150*time.Second || used < 2*time.Second) {
				v := Viol{c.curSuite, c.curIdx.Load(), fmt.Sprintf("no progress for %v (cpu %v): the call does not terminate", wall, used), ""}
				b, _ := json.Marshal(Result{Violations: []Viol{v}})
				os.WriteFile(out, b, 0o644)
				os.Exit(7)
			}
		}
	}()
	ck.Run(c)
	flush()
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func parent(ck *Check, tier string, seed int, replay, evid, findings, report, raceBin string, deadline int) int {
	start := time.Now()
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	common := []string{"-prop", ck.ID, "-tier", tier, "-instr", report, "-race", raceBin}

	spawn := func(args []string, out string, limit time.Duration) (Result, string) {
		cmd := exec.Command(self, append(append([]string{}, common...), args...)...)
		var errb bytes.Buffer
		cmd.Stderr = &errb
		cmd.Stdout = &errb
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		status := ""
		if err := cmd.Start(); err != nil {
			return Result{}, "start: " + err.Error()
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err != nil {
				status = "exit: " + err.Error() + ": " + tail(errb.String(), 3000)
			}
		case <-time.After(limit):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			status = "timeout"
		}
		var r Result
		if b, err := os.ReadFile(out); err == nil {
			if json.Unmarshal(b, &r) == nil {
				if status != "" && len(r.Violations) > 0 {
					status = ""
				}
				return r, status
			}
		}
		if status == "" {
			status = "no result"
		}
		return r, status
	}

	runOnly := func(suite string, idx int64) (Result, string) {
		out := filepath.Join(tmp, fmt.Sprintf("only%d", time.Now().UnixNano()))
		return spawn([]string{"-only", fmt.Sprintf("%s:%d,%s", suite, idx, out)}, out, 400*time.Second)
	}

	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var v Viol
		json.Unmarshal(b, &v)
		r, status := runOnly(v.Suite, v.Index)
		if len(r.Violations) > 0 {
			fmt.Println(r.Violations[0].Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, replay)
			return 1
		}
		fmt.Println("replayed: no violation", status)
		return 0
	}

	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	limit := time.Duration(deadline) * time.Second
	results := make([]Result, n)
	status := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("w%d", i))
			results[i], status[i] = spawn([]string{"-worker", fmt.Sprintf("%d/%d,%s", i, n, out)}, out, limit)
		}(i)
	}
	wg.Wait()

	// merge
	total := Result{Extra: map[string]int64{}, Strs: map[string][]string{}}
	states := map[uint64]struct{}{}
	outcomes := map[uint64]struct{}{}
	suites := map[string]*SuiteStat{}
	var order []string
	var crashes []string
	noteSet := map[string]bool{}
	incSet := map[string]bool{}
	for i, r := range results {
		if status[i] == "timeout" {
			incSet["worker "+strconv.Itoa(i)+" hit the time limit"] = true
		} else if status[i] != "" {
			crashes = append(crashes, fmt.Sprintf("worker %d: %s", i, status[i]))
		}
		total.Transitions += r.Transitions
		total.Traces += r.Traces
		total.BulkStates += r.BulkStates
		for _, h := range r.StateSet {
			states[h] = struct{}{}
		}
		for _, h := range r.OutcomeSet {
			outcomes[h] = struct{}{}
		}
		for k, v := range r.Extra {
			if strings.HasPrefix(k, "max_") {
				if v > total.Extra[k] {
					total.Extra[k] = v
				}
			} else {
				total.Extra[k] += v
			}
		}
		for k, v := range r.Strs {
			total.Strs[k] = append(total.Strs[k], v...)
		}
		total.Violations = append(total.Violations, r.Violations...)
		total.Samples = append(total.Samples, r.Samples...)
		for _, s := range r.Notes {
			noteSet[s] = true
		}
		for _, s := range r.Incomplete {
			incSet[s] = true
		}
		for _, s := range r.Suites {
			if t := suites[s.Name]; t == nil {
				cp := s
				suites[s.Name] = &cp
				order = append(order, s.Name)
			} else {
				t.Done += s.Done
			}
		}
	}
	if len(crashes) > 0 && len(total.Violations) == 0 {
		// A worker died without a result: an unrecoverable error inside the library (fatal error in
		// another goroutine) shows up like this. Run the shard again to see whether it is repeatable.
		again := 0
		var msg string
		for i := range status {
			if status[i] == "" || status[i] == "timeout" {
				continue
			}
			out := filepath.Join(tmp, fmt.Sprintf("again%d", i))
			_, st := spawn([]string{"-worker", fmt.Sprintf("%d/%d,%s", i, n, out)}, out, limit)
			if st != "" && st != "timeout" {
				again++
				msg = st
			}
			break
		}
		if again > 0 && (strings.Contains(msg, "panic:") || strings.Contains(msg, "fatal error:")) && !strings.Contains(msg, "out of memory") {
			total.Violations = append(total.Violations, Viol{"process", 0, "the library brought the process down: " + tail(msg, 2500), ""})
		} else {
			fmt.Fprintln(os.Stderr, "worker failure:", crashes)
			return 2
		}
	}

	// known findings
	known := loadFindings(findings, ck.ID)
	var fresh []Viol
	hit := map[string]bool{}
	for _, v := range total.Violations {
		k := fmt.Sprintf("%s:%d", v.Suite, v.Index)
		if t, ok := known[k]; ok {
			if !hit[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, t)
				hit[k] = true
			}
			continue
		}
		fresh = append(fresh, v)
	}
	sort.SliceStable(fresh, func(i, j int) bool {
		oi, oj := indexOf(order, fresh[i].Suite), indexOf(order, fresh[j].Suite)
		if oi != oj {
			return oi < oj
		}
		return fresh[i].Index < fresh[j].Index
	})

	// confirm
	var confirmed *Viol
	mode := ""
	seen := map[string]bool{}
	for k := range fresh {
		v := fresh[k]
		if v.Suite == "process" || strings.HasPrefix(v.Suite, "race") || strings.Contains(v.Msg, "does not terminate") {
			confirmed, mode = &fresh[k], "observed"
			break
		}
		if seen[v.Suite] && len(seen) < 6 && k > 5 {
			continue
		}
		seen[v.Suite] = true
		if k > 8 {
			break
		}
		r, st := runOnly(v.Suite, v.Index)
		if len(r.Violations) > 0 {
			confirmed, mode = &fresh[k], "replayed alone"
			confirmed.Msg = r.Violations[0].Msg
			break
		}
		if st != "" && st != "timeout" {
			confirmed, mode = &fresh[k], "replay brought the process down: "+tail(st, 500)
			break
		}
	}
	if confirmed == nil && len(fresh) > 0 {
		// depends on the cases run before it in the same process: run the whole shard again
		v := fresh[0]
		sh := int(v.Index % int64(n))
		for try := 0; try < 3 && confirmed == nil; try++ {
			out := filepath.Join(tmp, fmt.Sprintf("shard%d", try))
			r, _ := spawn([]string{"-worker", fmt.Sprintf("%d/%d,%s", sh, n, out)}, out, limit)
			if len(r.Violations) > 0 {
				confirmed, mode = &r.Violations[0], fmt.Sprintf("replayed as shard %d/%d", sh, n)
			}
		}
		if confirmed == nil {
			noteSet[fmt.Sprintf("UNREPRODUCIBLE: %s:%d %s", v.Suite, v.Index, v.Msg)] = true
			incSet["an observation could not be reproduced"] = true
		}
	}

	exhaustive := len(incSet) == 0
	var suiteList []map[string]any
	for _, s := range order {
		t := suites[s]
		suiteList = append(suiteList, map[string]any{"space": t.Name, "size": t.Total, "explored": t.Done})
		if t.Done < t.Total {
			exhaustive = false
		}
	}
	if len(fresh) > 0 {
		exhaustive = false
	}
	samples := total.Samples
	sort.Strings(samples)
	if len(samples) > 12 {
		step := len(samples) / 12
		var s2 []string
		for i := 0; i < len(samples) && len(s2) < 12; i += step {
			s2 = append(s2, samples[i])
		}
		samples = s2
	}
	cov := map[string]any{
		"states":                        int64(len(states)) + total.BulkStates,
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"distinct_outcomes":             len(outcomes),
		"spaces":                        suiteList,
		"rule":                          ck.Rule,
		"bounds":                        ck.Bounds[tier],
		"counters":                      total.Extra,
		"details":                       total.Strs,
		"notes":                         keys(noteSet),
		"not_covered":                   keys(incSet),
		"instrumentation":               instrSummary(),
	}
	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	os.MkdirAll(evid, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evid, ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n", ck.ID, tier,
		int64(len(states))+total.BulkStates, total.Transitions, total.Traces, len(outcomes), exhaustive, time.Since(start).Seconds())
	for _, s := range keys(incSet) {
		fmt.Println("not covered:", s)
	}
	for _, s := range keys(noteSet) {
		fmt.Println("note:", s)
	}
	if confirmed != nil {
		rp := filepath.Join(evid, ck.ID+".replay.json")
		b, _ := json.MarshalIndent(map[string]any{"property": ck.ID, "suite": confirmed.Suite, "index": confirmed.Index,
			"msg": confirmed.Msg, "case": confirmed.Case, "confirmed": mode, "tier": tier,
			"how": "bash run.sh " + ck.ID + " " + tier + " -replay <this file>"}, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("%s:%d (%s)\n%s\n%s\n", confirmed.Suite, confirmed.Index, mode, confirmed.Case, confirmed.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, rp)
		return 1
	}
	return 0
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return len(l)
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		// keep the head: a Go crash names its cause first
		return s[:n]
	}
	return s
}

// loadFindings reads lines "finding: property=<id> case=<suite:index> <text>".
func loadFindings(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "case=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "case=")] = strings.Join(f[3:], " ")
	}
	return m
}

// ---- instrumentation report ---------------------------------------------------------------------

type instrReport struct {
	Files       int      `json:"files"`
	Points      int      `json:"points"`
	GoStmts     int      `json:"go_stmts"`
	SyncImports int      `json:"sync_imports"`
	RandImports int      `json:"rand_imports"`
	Unsupported []string `json:"unsupported"`
	Wrapped     []string `json:"wrapped_params"`
	Locs        []string `json:"locs,omitempty"`
}

var (
	instr     instrReport
	raceBuild string
)

func loadInstr(p string) {
	if b, err := os.ReadFile(p); err == nil {
		json.Unmarshal(b, &instr)
	}
}

func instrSummary() map[string]any {
	return map[string]any{"files": instr.Files, "points": instr.Points, "go_stmts": instr.GoStmts,
		"rand_imports": instr.RandImports, "sync_imports": instr.SyncImports, "unsupported": instr.Unsupported}
}
