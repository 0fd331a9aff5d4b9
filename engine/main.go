package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// HarnessCfg configures one harness function of a property.
type HarnessCfg struct {
	Fn       string   `json:"fn"`
	Seq      bool     `json:"seq"`     // deterministic: counterexamples must reproduce natively
	Delays   int      `json:"delays"`  // delay bound, quick tier
	TDelays  int      `json:"tdelays"` // delay bound, thorough tier (default delays+1)
	Need     int      `json:"need"`    // delays that must be exhausted for the run to count
	Time     float64  `json:"time"`    // seconds, quick tier
	TTime    float64  `json:"ttime"`
	Steps    int64    `json:"steps"`
	Sleeps   int      `json:"sleeps"`
	Gs       int      `json:"gs"`
	NoSel    bool     `json:"nosel"`
	Pools    bool     `json:"pools"`
	Race     bool     `json:"race"` // the property is the absence of data races
	Samples  int      `json:"samples"`
	Reach    []string `json:"reach"` // markers that must be reached
	Bounds   string   `json:"bounds"`
	Thorough bool     `json:"thorough"` // only in the thorough tier
}

// PropCfg configures the check of one property.
type PropCfg struct {
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Match    string `json:"match"` // substring of the detail
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Detail   string            `json:"detail"`
	Inputs   map[string]uint64 `json:"inputs"`
	Sched    []string          `json:"schedule,omitempty"`
	Stack    string            `json:"stack,omitempty"`
	Native   string            `json:"native"`
	Interp   string            `json:"interp"`
	Rerun    string            `json:"rerun"`
}

var verifDir = "/verif"

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check -prop ID | run -h FN | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

func loadCfg() (map[string]*PropCfg, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		return nil, err
	}
	var c map[string]*PropCfg
	err = json.Unmarshal(b, &c)
	return c, err
}

func load() (*Program, error) {
	return loadProgram(filepath.Join(verifDir, "harness"), []string{"verifh/props", "verifh/models"})
}

func options(h *HarnessCfg, tier string) Options {
	o := Options{MaxSteps: 400_000, MaxDelays: h.Delays, MaxSleeps: 60, MaxGs: 60, Workers: runtime.NumCPU(), NoSelFork: h.NoSel, PoolPts: h.Pools, Race: h.Race, BudgetIsViolation: true}
	t := h.Time
	if t == 0 {
		t = 20
	}
	if h.Steps > 0 {
		o.MaxSteps = h.Steps
	}
	if h.Sleeps > 0 {
		o.MaxSleeps = h.Sleeps
	}
	if h.Gs > 0 {
		o.MaxGs = h.Gs
	}
	if tier == "thorough" {
		o.Thorough = true
		t = h.TTime
		if t == 0 {
			t = 150
		}
		o.MaxDelays = h.TDelays
		if o.MaxDelays == 0 && !h.Seq {
			o.MaxDelays = h.Delays + 1
		}
	}
	o.TimeLimit = time.Duration(t * float64(time.Second))
	return o
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	only := fs.String("h", "", "only this harness")
	tier := fs.String("tier", "", "quick or thorough")
	trace := fs.Bool("trace", false, "trace")
	tl := fs.Float64("time", 0, "override time limit")
	dl := fs.Int("delays", -1, "override delay bound")
	simp := fs.Bool("simp", false, "rewrite terms before handing them to the solver")
	wk := fs.Int("workers", 0, "")
	race := fs.Bool("race", false, "report data races (only)")
	stats := fs.Bool("v", false, "verbose")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	cfgs, err := loadCfg()
	if err != nil {
		fmt.Fprintln(os.Stderr, "config:", err)
		return 2
	}
	pc := cfgs[*prop]
	if pc == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		return 2
	}
	P, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	loadT := time.Since(start)
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
	}
	nat := &native{}
	defer nat.clean()
	rc := 0
	nviol := 0
	var reports []map[string]any
	var samples []any
	cov := map[string]bool{}
	knownSeen := map[string]bool{}
	var tot Stats
	nodes, validated, disagreements := int64(0), 0, 0
	exhaustive := true
	for i := range pc.Harnesses {
		h := &pc.Harnesses[i]
		if *only != "" && h.Fn != *only {
			continue
		}
		if h.Thorough && *tier != "thorough" {
			continue
		}
		hf := P.pkgs["verifh/props"].Func(h.Fn)
		if hf == nil {
			fmt.Fprintln(os.Stderr, "no harness", h.Fn)
			return 2
		}
		o := options(h, *tier)
		if *tl > 0 {
			o.TimeLimit = time.Duration(*tl * float64(time.Second))
		}
		if *dl >= 0 {
			o.MaxDelays = *dl
		}
		o.Plain = !*simp
		o.Race = o.Race || *race
		if *wk > 0 {
			o.Workers = *wk
		}
		if *trace {
			o.Workers = 1
		}
		ex := &Explorer{P: P, harness: hf, name: h.Fn, opts: o, traceAll: *trace}
		ex.run()
		s := &ex.stats
		var vd verdictStats
		if len(ex.viol) == 0 {
			vd = ex.verdict(*tier == "thorough")
			if vd.Result != "unsat" {
				ex.note("verdict query: " + vd.Result)
			}
			s.Queries += int64(vd.Queries)
			s.SolverTime += vd.Time
			if vd.Result == "unsat" {
				s.Unsat += int64(vd.Queries)
			} else {
				s.Unknown += int64(vd.Queries)
			}
			ex.root = nil
		}
		if *stats || *only != "" {
			fmt.Fprintf(os.Stderr, "%s: paths=%d infeasible=%d budget=%d unsupported=%d steps=%d schedpts=%d delayed=%d queries=%d (cache %d) solver=%v asserts=%d (sym %d) complete=%v delays<=%d wall=%v reach=%v msgs=%v verdict=%+v\n", h.Fn, s.Paths, s.Infeasible, s.Budget, s.Unsupported, s.Steps, s.SchedPts, s.Delayed, s.Queries, s.CacheHits, s.SolverTime, s.Asserts, s.SymAsserts, s.Complete, s.MaxDelay, s.Wall, ex.reach, s.Msgs, vd)
		}
		for _, f := range ex.functions() {
			cov[f] = true
		}
		for _, v := range ex.viol {
			if k := kf.match(*prop, &v); k != nil {
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", *prop, k.What)
				if !knownSeen[line] {
					knownSeen[line] = true
					fmt.Println(line)
				}
				continue
			}
			rf := replayFile{Property: *prop, Harness: v.Harness, Label: v.Label, Detail: v.Detail, Inputs: v.Inputs, Sched: v.Sched, Stack: v.Stack}
			dir := filepath.Join(verifDir, "replays")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", *prop, v.Harness, clean(v.Label)))
			rf.Rerun = "bin/gosym replay " + path
			rf.write(path)
			rf.Interp = interpReplay(P, h, o, &v)
			ok, how := nat.reproduce(path, &rf)
			rf.Native = how
			rf.write(path)
			if h.Seq && !ok && v.Label == "no-progress" {
				// a long computation that does end: outside the bounds
				fmt.Fprintf(os.Stderr, "%s: step budget exceeded, but the compiled program ends (%s)\n", h.Fn, how)
				continue
			}
			if h.Seq && !ok {
				fmt.Printf("ENGINE-MISMATCH property=%s harness=%s label=%q: the solver's counterexample does not reproduce natively (%s) replay=%s\n", *prop, v.Harness, v.Label, how, path)
				if rc == 0 {
					rc = 2
				}
				continue
			}
			if !ok && !strings.HasPrefix(rf.Interp, "reproduced") {
				fmt.Printf("ENGINE-MISMATCH property=%s harness=%s label=%q: not reproduced by concrete replay (%s; %s) replay=%s\n", *prop, v.Harness, v.Label, rf.Interp, how, path)
				if rc == 0 {
					rc = 2
				}
				continue
			}
			nviol++
			rc = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			fmt.Printf("  harness %s, assertion %q: %s\n  native replay: %s; interpreter replay: %s\n", v.Harness, v.Label, firstLines(v.Detail, 6), how, rf.Interp)
		}
		if len(ex.viol) == 0 {
			var miss []string
			for _, r := range h.Reach {
				if ex.reach[r] == 0 {
					miss = append(miss, r)
				}
			}
			if len(miss) > 0 {
				fmt.Printf("VACUOUS property=%s harness=%s: never reached %v (paths=%d msgs=%v)\n", *prop, h.Fn, miss, s.Paths, s.Msgs)
				if rc == 0 {
					rc = 2
				}
			}
			if s.Paths == 0 {
				fmt.Printf("NO-PATHS property=%s harness=%s msgs=%v\n", *prop, h.Fn, s.Msgs)
				if rc == 0 {
					rc = 2
				}
			}
			// differential validation of the translation: run witnesses natively
			if h.Seq && *only == "" {
				for _, w := range ex.witness {
					ok, how := nat.validate(*prop, h.Fn, w)
					if ok {
						validated++
					} else {
						disagreements++
						fmt.Printf("ENGINE-MISMATCH property=%s harness=%s: native run of a passing witness disagrees: %s (inputs %v)\n", *prop, h.Fn, how, w.Inputs)
						if rc == 0 {
							rc = 2
						}
					}
				}
			}
		}
		tot.add(s)
		nodes += s.Branches + s.Paths + s.Infeasible + s.SchedPts
		if !s.Complete {
			exhaustive = false
		}
		reports = append(reports, map[string]any{
			"harness": h.Fn, "bounds": h.Bounds, "delay_bound": o.MaxDelays, "delay_bound_exhausted": s.MaxDelay, "search_space_exhausted": s.Complete,
			"paths": s.Paths, "infeasible": s.Infeasible, "out_of_budget": s.Budget, "unsupported": s.Unsupported, "ssa_instructions": s.Steps,
			"branch_nodes": s.Branches, "schedule_points": s.SchedPts, "solver_queries": s.Queries, "query_cache_hits": s.CacheHits, "sat": s.Sat, "unsat": s.Unsat, "unknown": s.Unknown,
			"solver_time_s": s.SolverTime.Seconds(), "slowest_query_s": s.MaxQuery.Seconds(), "assertions": s.Asserts, "symbolic_assertions": s.SymAsserts,
			"markers_reached": ex.reach, "verdict_query": map[string]any{"result": vd.Result, "tree_nodes": vd.Nodes, "queries": vd.Queries, "assertions_in_formula": vd.Asserts, "time_s": vd.Time.Seconds(), "second_solver": vd.Second}, "notes": s.Msgs, "wall_s": s.Wall.Seconds(),
		})
		for _, x := range ex.samples {
			samples = append(samples, h.Fn+": "+x)
		}
	}
	if *only != "" {
		if tot.Paths == 0 {
			fmt.Println("no such harness:", *only)
			return 2
		}
		return rc
	}
	var fns []string
	for f := range cov {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": nodes, "transitions": tot.Steps, "traces_validated_against_impl": validated, "disagreements": disagreements, "samples": samples,
			"explanation":         "states = nodes of the symbolic execution tree (branch forks, schedule points, path ends); transitions = SSA instructions executed symbolically; traces_validated = solver witnesses of completed paths run against the natively compiled code with the same result",
			"functions_encoded":   fns,
			"functions_count":     len(fns),
			"paths":               tot.Paths,
			"solver":              strings.Join(append([]string{solverName()}, ""), ""),
			"solver_queries":      tot.Queries,
			"query_cache_hits":    tot.CacheHits,
			"sat":                 tot.Sat,
			"unsat":               tot.Unsat,
			"unknown":             tot.Unknown,
			"solver_time_s":       tot.SolverTime.Seconds(),
			"assertions_checked":  tot.Asserts,
			"symbolic_assertions": tot.SymAsserts,
			"load_s":              loadT.Seconds(),
			"harnesses":           reports,
			"exhaustive":          exhaustive,
			"known_findings":      len(knownSeen),
		},
		"assumptions": append([]string{
			"bounds as listed per harness; schedules up to the stated number of delays, with scheduling points at synchronisation operations of the code under test",
			"sync, sync/atomic, time, math/rand and logging are modelled by the engine; everything else is executed from source",
		}, pc.Assumptions...),
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("property=%s tier=%s harnesses=%d paths=%d queries=%d solver=%.1fs asserts=%d validated=%d exhaustive=%v wall=%.1fs\n", *prop, *tier, len(reports), tot.Paths, tot.Queries, tot.SolverTime.Seconds(), tot.Asserts, validated, exhaustive, time.Since(start).Seconds())
	return rc
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	r := strings.Join(l, "\n    ")
	if len(r) > 1200 {
		r = r[:1200] + "…"
	}
	return r
}

func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() > 60 {
		return b.String()[:60]
	}
	return b.String()
}

func (kf *knownFile) match(prop string, v *Violation) *knownFinding {
	for i := range kf.Findings {
		k := &kf.Findings[i]
		if k.Property == prop && k.Harness == v.Harness && k.Label == v.Label && (k.Match == "" || strings.Contains(v.Detail, k.Match)) {
			return k
		}
	}
	return nil
}

func (rf *replayFile) write(path string) {
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Steps += o.Steps
	s.Queries += o.Queries
	s.CacheHits += o.CacheHits
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.SolverTime += o.SolverTime
	s.Asserts += o.Asserts
	s.SymAsserts += o.SymAsserts
	s.Branches += o.Branches
}

// interpReplay runs the harness in the interpreter with every input, choice and
// delay fixed to the counterexample's values.
func interpReplay(P *Program, h *HarnessCfg, o Options, v *Violation) string {
	o.Workers = 1
	o.TimeLimit = 60 * time.Second
	ex := &Explorer{P: P, harness: P.pkgs["verifh/props"].Func(h.Fn), name: h.Fn, opts: o, concrete: v.Inputs}
	ex.run()
	for _, w := range ex.viol {
		if w.Label == v.Label {
			return "reproduced with concrete inputs and schedule"
		}
	}
	for _, w := range ex.viol {
		return "different violation: " + w.Label + ": " + w.Detail
	}
	return fmt.Sprintf("not reproduced (%v)", ex.stats.Msgs)
}

// native runs harnesses compiled by the Go tool chain against /repo.
type native struct {
	dir string
	bin string

	raceBin string // built with the race detector
	err     error
}

func (n *native) build() error {
	if n.bin != "" || n.err != nil {
		return n.err
	}
	n.dir, n.err = os.MkdirTemp("", "gosym")
	if n.err != nil {
		return n.err
	}
	bin := filepath.Join(n.dir, "replay")
	c := exec.Command("go", "build", "-o", bin, "verifh/cmd/replay")
	c.Dir = filepath.Join(verifDir, "harness")
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	if out, err := c.CombinedOutput(); err != nil {
		n.err = fmt.Errorf("%v: %s", err, out)
		return n.err
	}
	n.bin = bin
	return nil
}

func (n *native) buildRace() error {
	if n.raceBin != "" {
		return nil
	}
	bin := filepath.Join(n.dir, "replay-race")
	c := exec.Command("go", "build", "-race", "-o", bin, "verifh/cmd/replay")
	c.Dir = filepath.Join(verifDir, "harness")
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	n.raceBin = bin
	return nil
}

// raceLines picks the two accesses out of a race report.
func raceLines(out string) string {
	l := strings.Split(out[strings.Index(out, "WARNING: DATA RACE"):], "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n    ")
}

func (n *native) clean() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func (n *native) run(path, quiesce string, limit time.Duration) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, n.bin)
	c.Env = append(os.Environ(), "VERIF_REPLAY="+path, "VERIF_REPLAY_QUIESCE="+quiesce)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	if ctx.Err() != nil {
		return -2, out.String()
	}
	if err == nil {
		return 0, out.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), out.String()
	}
	return -1, err.Error()
}

func (n *native) reproduce(path string, rf *replayFile) (bool, string) {
	if err := n.build(); err != nil {
		return false, "build failed: " + err.Error()
	}
	tries := 3
	how := ""
	if rf.Label == "data race" {
		if err := n.buildRace(); err != nil {
			return false, "race build failed: " + err.Error()
		}
		n.bin, n.raceBin = n.raceBin, n.bin
		defer func() { n.bin, n.raceBin = n.raceBin, n.bin }()
	}
	for i := 0; i < tries; i++ {
		rc, out := n.run(path, []string{"60ms", "250ms", "600ms"}[i], 20*time.Second)
		switch {
		case rf.Label == "data race" && strings.Contains(out, "WARNING: DATA RACE"):
			return true, "reproduced: the race detector of the Go tool chain reports a data race\n    " + raceLines(out)
		case rf.Label == "data race":
			how = "the race detector of the Go tool chain reports nothing"
		case rc == 3 && strings.Contains(out, "REPLAY-FAIL "+rf.Label):
			return true, "reproduced (assertion fails in the compiled program)"
		case rc == 3:
			how = "another assertion fails natively: " + firstLines(out, 1)
			if rf.Label == "panic" || rf.Label == "deadlock" || rf.Label == "no-progress" {
				return true, how
			}
		case rc == 2 && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")):
			l := out
			if k := strings.Index(out, "panic:"); k >= 0 {
				l = out[k:]
			} else if k := strings.Index(out, "fatal error:"); k >= 0 {
				l = out[k:]
			}
			return true, "reproduced: " + firstLines(l, 1)
		case rc == -2:
			if rf.Label == "deadlock" || rf.Label == "no-progress" {
				return true, "reproduced (the compiled program hangs)"
			}
			how = "the compiled program hangs"
		default:
			how = fmt.Sprintf("exit %d %s", rc, firstLines(out, 3))
		}
	}
	return false, "not reproduced under the native scheduler: " + how
}

func (n *native) validate(prop, fn string, w witness) (bool, string) {
	if err := n.build(); err != nil {
		return false, "build failed: " + err.Error()
	}
	rf := replayFile{Property: prop, Harness: fn, Inputs: w.Inputs}
	p := filepath.Join(n.dir, "witness.json")
	rf.write(p)
	rc, out := n.run(p, "20ms", 30*time.Second)
	if rc != 0 {
		return false, fmt.Sprintf("exit %d: %s", rc, firstLines(out, 5))
	}
	var got []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "LOG ") {
			got = append(got, l[4:])
		}
	}
	if strings.Join(got, "\n") != strings.Join(w.Logs, "\n") {
		return false, fmt.Sprintf("logs differ: native %v, symbolic %v", got, w.Logs)
	}
	return true, ""
}

func cmdReplay(args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	trace := len(args) > 1 && args[1] == "-trace"
	cfgs, err := loadCfg()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var h *HarnessCfg
	for id, pc := range cfgs {
		for i := range pc.Harnesses {
			if pc.Harnesses[i].Fn == rf.Harness && (h == nil || id == rf.Property) {
				h = &pc.Harnesses[i]
			}
		}
	}
	if h == nil {
		return 2
	}
	P, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o := options(h, "quick")
	o.MaxDelays = 8
	o.Workers = 1
	ex := &Explorer{P: P, harness: P.pkgs["verifh/props"].Func(h.Fn), name: h.Fn, opts: o, concrete: rf.Inputs, traceAll: trace}
	ex.run()
	fmt.Printf("interpreter: %v\n", ex.stats.Msgs)
	for _, v := range ex.viol {
		fmt.Printf("interpreter: %s: %s\n%s\n", v.Label, v.Detail, v.Stack)
	}
	nat := &native{}
	defer nat.clean()
	ok, how := nat.reproduce(args[0], &rf)
	fmt.Printf("native: %v %s\n", ok, how)
	if ok || len(ex.viol) > 0 {
		return 1
	}
	return 0
}
