package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type endKind uint8

const (
	endNormal endKind = iota
	endInfeasible
	endViolation
	endBudget
	endUnsupported
	endSkip // deliberately cut by the harness
)

type pathEnd struct {
	k   endKind
	msg string
}

// decision is one recorded fork: taken alternative and, for value forks, the value.
type decision struct {
	taken uint32
	val   uint64
}

type workItem struct {
	prefix []decision // shared with the path that pushed the item, then last
	last   decision
	sub    bool // last counts
	model  *Model
	prio   int // number of delays used
}

// Machine executes one path at a time.
type Machine struct {
	P      *Program
	tm     *TM
	sol    *Solver
	ex     *Explorer
	inited map[string]bool

	// per path
	globals     []*V
	gs          []*G
	runq        []*G
	parked      []*G // delayed until nothing else can run
	longs       int
	cur         *G
	gN          int
	chanN       int
	race        bool // report data races
	syncVC      map[any]*vclock
	shadows     map[any]*shadow
	accesses    int64
	steps       int64
	now         int64
	sleeps      int
	delays      int
	schedN      int
	visOps      int
	sinceSwitch int
	schedLog    []string
	pc          []*Term
	pcSet       map[int32]bool
	model       *Model
	prefix      []decision
	decs        []decision
	prio        int
	symN        map[string]int
	inputs      []inputRec
	reach       map[string]bool
	addrs       map[any]uint64
	addrBack    map[uint64]any
	side        map[any]any
	logs        []logRec
	syncN       int
	node        *vnode

	// configuration
	maxSteps   int64
	maxDepth   int
	stackLimit int
	maxGs      int
	maxSleeps  int
	maxDelays  int
	forkSelect bool
	poolPts    bool
	trace      bool
	thorough   bool
	concrete   map[string]uint64 // replay: fixed inputs
	cov        map[*FnInfo]bool
	nTrace     int
}

type logRec struct {
	name  string
	v     []V
	bytes bool
}

func (m *Machine) logStrings() []string {
	var r []string
	for _, l := range m.logs {
		var b []byte
		for _, c := range l.v {
			v := c.n
			if t, ok := c.x.(*Term); ok {
				v = m.tm.eval(t, m.model)
			}
			if !l.bytes {
				r = append(r, fmt.Sprintf("%s=%d", l.name, v))
			}
			b = append(b, byte(v))
		}
		if l.bytes {
			r = append(r, fmt.Sprintf("%s=%x", l.name, b))
		}
	}
	return r
}

type inputRec struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	t    *Term
	Free bool `json:"-"` // scheduling choice
}

type Violation struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Detail  string            `json:"detail"`
	Inputs  map[string]uint64 `json:"inputs"`
	Sched   []string          `json:"schedule,omitempty"`
	Logs    []string          `json:"log,omitempty"`
	Decs    []decision        `json:"-"`
	Stack   string            `json:"stack,omitempty"`
	Delays  int               `json:"delays"`
	Choices []uint64          `json:"choices,omitempty"`
}

type Explorer struct {
	P        *Program
	harness  *ssa.Function
	name     string
	opts     Options
	reg      varReg
	mu       sync.Mutex
	cond     *sync.Cond
	work     map[int][]workItem
	active   int
	stop     bool
	deadline time.Time
	viol     []Violation
	vseen    map[string]bool
	stats    Stats
	cov      map[*FnInfo]bool
	samples  []string
	reach    map[string]int
	inProg   map[int]int
	traceAll bool
	concrete map[string]uint64
	witness  []witness
	root     *vnode
	vnodes   int64
}

// witness is one completed path with concrete inputs.
type witness struct {
	Inputs map[string]uint64
	Logs   []string
}

type Options struct {
	MaxSteps          int64
	MaxDelays         int
	MaxSleeps         int
	MaxGs             int
	TimeLimit         time.Duration
	Workers           int
	Thorough          bool
	MaxPaths          int64
	StopFirst         bool
	BudgetIsViolation bool
	NoSelFork         bool
	PoolPts           bool
	Plain             bool
	Race              bool
}

type Stats struct {
	Paths       int64
	Infeasible  int64
	Budget      int64
	Unsupported int64
	Skipped     int64
	Steps       int64
	Queries     int64
	CacheHits   int64
	Sat         int64
	Unsat       int64
	Unknown     int64
	SolverTime  time.Duration
	MaxQuery    time.Duration
	Branches    int64
	Asserts     int64
	SymAsserts  int64
	Accesses    int64 // memory accesses checked for races
	Delayed     int64
	SchedPts    int64
	MaxDelay    int // all paths with at most this many delays were explored
	Complete    bool
	Wall        time.Duration
	Msgs        map[string]int
}

func (m *Machine) end(k endKind, msg string) {
	panic(pathEnd{k, msg})
}

func (m *Machine) unsupported(msg string) {
	panic(pathEnd{endUnsupported, msg})
}

func (m *Machine) tracef(f string, a ...any) {
	m.nTrace++
	if m.nTrace < 20000 {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func newMachine(P *Program, ex *Explorer) *Machine {
	tm := newTM(&ex.reg)
	tm.plain = ex.opts.Plain
	m := &Machine{P: P, tm: tm, sol: newSolver(tm), ex: ex}
	o := ex.opts
	m.maxSteps, m.maxDepth, m.maxGs, m.maxSleeps, m.maxDelays = o.MaxSteps, 2000, o.MaxGs, o.MaxSleeps, o.MaxDelays
	m.forkSelect = !o.NoSelFork
	m.poolPts = o.PoolPts
	m.race = o.Race
	m.thorough = o.Thorough
	m.cov = map[*FnInfo]bool{}
	m.trace = ex.traceAll
	m.concrete = ex.concrete
	return m
}

func (m *Machine) reset(it workItem) {
	m.globals = make([]*V, len(m.globals))
	m.inited = map[string]bool{}
	m.gs, m.runq, m.parked, m.cur, m.longs = nil, nil, nil, nil, 0
	m.gN, m.chanN = 0, 0
	m.steps = 0
	m.stackLimit = 0
	m.now = 1_000_000_000_000_000_000 // virtual nanoseconds since the epoch
	m.sleeps, m.delays, m.schedN, m.visOps, m.sinceSwitch = 0, 0, 0, 0, 0
	m.schedLog = nil
	m.pc = nil
	m.pcSet = map[int32]bool{}
	m.model = it.model
	m.prefix = append([]decision(nil), it.prefix...)
	if it.sub {
		m.prefix = append(m.prefix, it.last)
	}
	m.decs = make([]decision, 0, len(m.prefix)+64) // only ever appended to: items share it
	m.prio = 0
	m.symN = map[string]int{}
	m.inputs = nil
	m.reach = map[string]bool{}
	m.addrs = map[any]uint64{}
	m.addrBack = map[uint64]any{}
	m.side = map[any]any{}
	m.syncVC = map[any]*vclock{}
	m.shadows = map[any]*shadow{}
	m.logs = nil
	m.syncN = 0
	m.node = m.ex.root
}

// next returns the recorded decision when replaying a prefix.
func (m *Machine) nextDec() (decision, bool) {
	i := len(m.decs)
	if i < len(m.prefix) {
		d := m.prefix[i]
		m.decs = append(m.decs, d)
		return d, true
	}
	return decision{}, false
}

func (m *Machine) addPC(t *Term) {
	if t.isConst() || m.pcSet[t.id] {
		return
	}
	if t.op == OAnd {
		m.addPC(t.a[0])
		m.addPC(t.a[1])
		return
	}
	m.pcSet[t.id] = true
	m.pc = append(m.pc, t)
}

// slice returns the path constraints that share variables (transitively) with t.
func (m *Machine) slice(t *Term) []*Term {
	vs := map[int32]bool{}
	for _, v := range t.vars {
		vs[v] = true
	}
	out := []*Term{t}
	used := make([]bool, len(m.pc))
	for changed := true; changed; {
		changed = false
		for i, c := range m.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.vars {
					if !vs[v] {
						vs[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// feasible asks whether pc && t is satisfiable; on sat it returns a full model.
func (m *Machine) feasible(t *Term) (int, *Model) {
	if t.isConst() {
		if t.val == 0 {
			return 0, nil
		}
		return 1, m.model
	}
	if m.pcSet[t.id] {
		return 1, m.model
	}
	if m.pcSet[m.tm.Not(t).id] {
		return 0, nil
	}
	r, vals := m.sol.check(m.slice(t))
	if r != 1 {
		return r, nil
	}
	nm := &Model{m: map[int32]uint64{}}
	if m.model != nil {
		for k, v := range m.model.m {
			nm.m[k] = v
		}
	}
	for k, v := range vals {
		nm.m[k] = v
	}
	return 1, nm
}

func (m *Machine) push(alt decision, mod *Model, prio int) {
	m.ex.add(workItem{prefix: m.decs[:len(m.decs):len(m.decs)], last: alt, sub: true, model: mod, prio: prio})
}

// branch forks on a symbolic boolean.
func (m *Machine) branch(t *Term) bool {
	if t.isConst() {
		return t.val != 0
	}
	if m.pcSet[t.id] {
		return true
	}
	nt := m.tm.Not(t)
	if m.pcSet[nt.id] {
		return false
	}
	if d, ok := m.nextDec(); ok {
		m.vstep(vBranch, t, 0, 2, int(d.taken))
		if d.taken == 1 {
			m.addPC(t)
			return true
		}
		m.addPC(nt)
		return false
	}
	m.ex.count(&m.ex.stats.Branches, 1)
	side := m.tm.eval(t, m.model) != 0
	other := nt
	if !side {
		other = t
	}
	b := func(s bool) decision {
		if s {
			return decision{taken: 1}
		}
		return decision{}
	}
	if r, mod := m.feasible(other); r == 1 {
		m.vfork(vBranch, t, 0, 2, int(b(!side).taken))
		m.push(b(!side), mod, m.prio)
	} else if r == -1 {
		m.ex.note("solver unknown on a branch")
	}
	m.vstep(vBranch, t, 0, 2, int(b(side).taken))
	m.decs = append(m.decs, b(side))
	if side {
		m.addPC(t)
	} else {
		m.addPC(nt)
	}
	return side
}

// concretizeT enumerates the feasible values of t, one per path.
func (m *Machine) concretizeT(t *Term) uint64 {
	for i := 0; ; i++ {
		if t.isConst() {
			return t.val
		}
		if i > 512 {
			m.end(endBudget, "too many values while concretising")
		}
		if d, ok := m.nextDec(); ok {
			eq := m.tm.Eq(t, m.tm.Const(d.val, t.w))
			m.vstep(vEq, t, d.val, 2, int(d.taken))
			if d.taken == 1 {
				m.addPC(eq)
				return d.val
			}
			m.addPC(m.tm.Not(eq))
			continue
		}
		v := m.tm.eval(t, m.model)
		eq := m.tm.Eq(t, m.tm.Const(v, t.w))
		if r, mod := m.feasible(m.tm.Not(eq)); r == 1 {
			m.vfork(vEq, t, v, 2, 0)
			m.push(decision{0, v}, mod, m.prio)
		} else if r == -1 {
			m.ex.note("solver unknown while concretising")
		}
		m.vstep(vEq, t, v, 2, 1)
		m.decs = append(m.decs, decision{1, v})
		m.addPC(eq)
		return v
	}
}

// choose is an unconstrained n-way choice represented by a fresh variable.
func (m *Machine) choose(name string, n int, cost int) int {
	if n <= 1 {
		return 0
	}
	v := m.newInput("?"+name, 8, true)
	if v.x == nil {
		return int(v.n) % n
	}
	t := v.x.(*Term)
	if d, ok := m.nextDec(); ok {
		m.vstep(vChoose, t, 0, n, int(d.taken))
		m.addPC(m.tm.Eq(t, m.tm.Const(uint64(d.taken), 8)))
		return int(d.taken)
	}
	for i := n - 1; i >= 1; i-- {
		m.vfork(vChoose, t, 0, n, i)
		nm := m.model.with(t, uint64(i))
		m.push(decision{taken: uint32(i)}, nm, m.prio)
	}
	m.vstep(vChoose, t, 0, n, 0)
	m.decs = append(m.decs, decision{taken: 0})
	m.model = m.model.with(t, 0)
	m.addPC(m.tm.Eq(t, m.tm.Const(0, 8)))
	return 0
}

func (mo *Model) with(t *Term, v uint64) *Model {
	nm := &Model{m: map[int32]uint64{}}
	if mo != nil {
		for k, x := range mo.m {
			nm.m[k] = x
		}
	}
	nm.m[int32(t.val)] = v
	return nm
}

// forkDelay decides whether the next delay (a symbolic position) is here.
func (m *Machine) forkDelay() bool {
	name := fmt.Sprintf("!delay%d", m.delays)
	if m.concrete != nil {
		if v, ok := m.concrete[name]; ok && v == uint64(m.schedN) {
			m.delays++
			m.prio++
			return true
		}
		return false
	}
	t := m.tm.Var(name, 32)
	if d, ok := m.nextDec(); ok {
		m.vstep(vEq, t, uint64(m.schedN), 2, int(d.taken))
		if d.taken == 1 {
			m.addPC(m.tm.Eq(t, m.tm.Const(uint64(m.schedN), 32)))
			m.inputs = append(m.inputs, inputRec{Name: name, W: 32, t: t})
			m.delays++
			m.prio++
			return true
		}
		return false
	}
	m.vfork(vEq, t, uint64(m.schedN), 2, 1)
	m.push(decision{taken: 1}, m.model.with(t, uint64(m.schedN)), m.prio+1)
	m.vstep(vEq, t, uint64(m.schedN), 2, 0)
	m.decs = append(m.decs, decision{})
	return false
}

// forkLong decides whether a delay lasts until nothing else can run; it is
// asked when the delayed goroutine would go on although others can run.
func (m *Machine) forkLong() bool {
	name := fmt.Sprintf("!long%d", m.longs)
	m.longs++
	if m.concrete != nil {
		return m.concrete[name] == 1
	}
	t := m.tm.Var(name, 8)
	if d, ok := m.nextDec(); ok {
		m.vstep(vEq, t, 1, 2, int(d.taken))
		if d.taken == 1 {
			m.addPC(m.tm.Eq(t, m.tm.Const(1, 8)))
			m.inputs = append(m.inputs, inputRec{Name: name, W: 8, t: t})
			return true
		}
		return false
	}
	m.vfork(vEq, t, 1, 2, 1)
	m.push(decision{taken: 1}, m.model.with(t, 1), m.prio)
	m.vstep(vEq, t, 1, 2, 0)
	m.decs = append(m.decs, decision{})
	return false
}

// newInput creates (or in concrete replay, fetches) a named symbolic input.
func (m *Machine) newInput(name string, w uint8, free bool) V {
	k := m.symN[name]
	m.symN[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	if m.concrete != nil {
		v := m.concrete[full] & mask2(w)
		return V{n: v}
	}
	t := m.tm.Var(full, w)
	m.inputs = append(m.inputs, inputRec{Name: full, W: w, t: t, Free: free})
	return V{x: t}
}

func (m *Machine) assume(v V) { m.assumeAs(v, vAssume) }

func (m *Machine) assumeAs(v V, kind vkind) {
	if v.x == nil {
		if v.n == 0 {
			m.end(endInfeasible, "")
		}
		return
	}
	t := v.x.(*Term)
	if m.model == nil || m.tm.eval(t, m.model) == 0 {
		if len(m.decs) < len(m.prefix) {
			// model belongs to the end of the prefix and must satisfy t
		}
		r, mod := m.feasible(t)
		if r != 1 {
			if r == -1 {
				m.ex.note("solver unknown on an assumption")
			}
			m.end(endInfeasible, "")
		}
		m.model = mod
	}
	m.addPC(t)
	m.vstep(kind, t, 0, 1, 0)
}

func (m *Machine) assert(v V, label string) {
	m.ex.count(&m.ex.stats.Asserts, 1)
	if v.x == nil {
		if v.n == 0 {
			m.violation(label, "assertion failed")
			m.end(endViolation, label)
		}
		return
	}
	t := v.x.(*Term)
	m.ex.count(&m.ex.stats.SymAsserts, 1)
	if len(m.decs) >= len(m.prefix) {
		nt := m.tm.Not(t)
		r, mod := m.feasible(nt)
		if r == 1 {
			save := m.model
			m.model = mod
			m.violation(label, "assertion can fail: "+t.String())
			m.model = save
		} else if r == -1 {
			m.ex.note("solver unknown on assertion " + label)
		}
	}
	// continue under the assertion
	m.assumeAs(v, vAssert)
}

func (m *Machine) violation(label, detail string) {
	if m.race && label != "data race" {
		m.ex.note("not judged here: " + label)
		return
	}
	v := Violation{Harness: m.ex.name, Label: label, Detail: detail, Inputs: map[string]uint64{}, Sched: m.schedLog, Logs: m.logStrings(), Delays: m.delays}
	for _, in := range m.inputs {
		v.Inputs[in.Name] = m.tm.eval(in.t, m.model)
	}
	if m.concrete != nil {
		v.Inputs = m.concrete
	}
	if m.cur != nil && m.cur.top != nil {
		v.Stack = m.stack(m.cur)
	}
	m.ex.addViolation(v)
}

func (m *Machine) show(v V) string {
	switch x := v.x.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case string:
		return x
	case *Iface:
		if st, ok := x.v.x.(*StructV); ok && len(st.f) > 0 {
			return x.td.String() + ":" + m.show(st.f[0])
		}
		if p, ok := x.v.x.(*V); ok && p != nil {
			return x.td.String() + "->" + m.show(*p)
		}
		return x.td.String() + ":" + m.show(x.v)
	case *StructV:
		if len(x.f) > 0 {
			return "{" + m.show(x.f[0]) + "..}"
		}
		return "{}"
	case *Term:
		return fmt.Sprintf("%s (e.g. %d)", x.String(), m.tm.eval(x, m.model))
	case *SymStr:
		var b []byte
		for _, c := range x.b {
			if t, ok := c.x.(*Term); ok {
				b = append(b, byte(m.tm.eval(t, m.model)))
			} else {
				b = append(b, byte(c.n))
			}
		}
		return fmt.Sprintf("%q(sym)", b)
	}
	return fmt.Sprintf("%T", v.x)
}

// ---- explorer ----

func (ex *Explorer) count(p *int64, n int64) { atomic.AddInt64(p, n) }

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	if ex.stats.Msgs == nil {
		ex.stats.Msgs = map[string]int{}
	}
	ex.stats.Msgs[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) add(it workItem) {
	ex.mu.Lock()
	ex.work[it.prio] = append(ex.work[it.prio], it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) addViolation(v Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := v.Label
	if v.Label == "panic" || v.Label == "deadlock" {
		key = v.Label
	}
	if ex.vseen[key] {
		return
	}
	ex.vseen[key] = true
	ex.viol = append(ex.viol, v)
	if ex.opts.StopFirst {
		ex.stop = true
		ex.cond.Broadcast()
	}
}

// take returns the next item, lowest delay count first.
func (ex *Explorer) take() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || time.Now().After(ex.deadline) {
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		best := -1
		for p, l := range ex.work {
			if len(l) > 0 && (best < 0 || p < best) {
				best = p
			}
		}
		if best >= 0 {
			l := ex.work[best]
			it := l[len(l)-1]
			ex.work[best] = l[:len(l)-1]
			ex.active++
			ex.inProg[best]++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done(it workItem) {
	ex.mu.Lock()
	ex.active--
	ex.inProg[it.prio]--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (ex *Explorer) run() {
	start := time.Now()
	ex.cond = sync.NewCond(&ex.mu)
	ex.work = map[int][]workItem{0: {{}}}
	ex.inProg = map[int]int{}
	ex.vseen = map[string]bool{}
	if ex.concrete == nil {
		ex.root = &vnode{}
	}
	ex.cov = map[*FnInfo]bool{}
	ex.reach = map[string]int{}
	ex.deadline = start.Add(ex.opts.TimeLimit)
	// wake sleepers when the deadline passes
	tm := time.AfterFunc(ex.opts.TimeLimit, func() { ex.cond.Broadcast() })
	defer tm.Stop()
	fin := make(chan struct{})
	defer close(fin)
	go ex.watchMemory(fin)
	var wg sync.WaitGroup
	for i := 0; i < ex.opts.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := newMachine(ex.P, ex)
			defer m.sol.close()
			for {
				it, ok := ex.take()
				if !ok {
					break
				}
				m.runPath(it)
				ex.done(it)
				if len(m.tm.tab) > 3_000_000 {
					// bound memory: start over with fresh terms
					m.flushStats()
					m.sol.close()
					nm := newMachine(ex.P, ex)
					nm.globals = make([]*V, len(m.globals))
					nm.cov = m.cov
					m = nm
				}
			}
			m.flushStats()
			ex.mu.Lock()
			for f := range m.cov {
				ex.cov[f] = true
			}
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
	ex.stats.Complete = true
	ex.stats.MaxDelay = ex.opts.MaxDelays
	for p, l := range ex.work {
		if len(l) > 0 {
			ex.stats.Complete = false
			if p-1 < ex.stats.MaxDelay {
				ex.stats.MaxDelay = p - 1
			}
		}
	}
	ex.work = nil
	if ex.stop && !ex.stats.Complete && len(ex.viol) == 0 && ex.stats.Msgs[memoryNote] == 0 {
		ex.note("time limit reached before the search space was exhausted")
	}
	ex.stats.Wall = time.Since(start)
}

const (
	memoryLimit = 12 << 30
	memoryNote  = "memory limit reached before the search space was exhausted"
)

// watchMemory ends the exploration, as the time limit does, before it takes more
// memory than the machine can spare.
func (ex *Explorer) watchMemory(fin chan struct{}) {
	debug.FreeOSMemory() // what the previous harness took
	debug.SetMemoryLimit(memoryLimit / 6 * 5)
	for {
		select {
		case <-fin:
			return
		case <-time.After(200 * time.Millisecond):
		}
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			return
		}
		var size, rss int64
		fmt.Sscan(string(b), &size, &rss)
		if rss*int64(os.Getpagesize()) < memoryLimit {
			continue
		}
		ex.mu.Lock()
		ex.stop = true
		ex.mu.Unlock()
		ex.note(memoryNote)
		ex.cond.Broadcast()
		return
	}
}

func (m *Machine) flushStats() {
	s := m.sol
	ex := m.ex
	ex.mu.Lock()
	ex.stats.Queries += s.Queries
	ex.stats.Accesses += m.accesses
	ex.stats.CacheHits += s.Hits
	ex.stats.Sat += s.Sat
	ex.stats.Unsat += s.Unsat
	ex.stats.Unknown += s.Unknown
	ex.stats.SolverTime += s.Time
	if s.Maxq > ex.stats.MaxQuery {
		ex.stats.MaxQuery = s.Maxq
	}
	ex.mu.Unlock()
}

func (m *Machine) runPath(it workItem) {
	k, msg := m.runPath1(it)
	m.vleaf(k)
	ex := m.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.stats.Steps += m.steps
	ex.stats.SchedPts += int64(m.schedN)
	if m.delays > 0 {
		ex.stats.Delayed++
	}
	switch k {
	case endInfeasible:
		ex.stats.Infeasible++
	case endBudget, endUnsupported:
		if k == endBudget {
			ex.stats.Budget++
		} else {
			ex.stats.Unsupported++
		}
		if ex.stats.Msgs == nil {
			ex.stats.Msgs = map[string]int{}
		}
		ex.stats.Msgs[msg]++
	case endSkip:
		ex.stats.Skipped++
		ex.stats.Paths++
	default:
		ex.stats.Paths++
		if len(ex.samples) < 3 && k == endNormal {
			ex.samples = append(ex.samples, m.sample())
		}
		if k == endNormal && (len(ex.witness) < 2 || len(ex.witness) < 6 && ex.stats.Paths%17 == 0) {
			w := witness{Inputs: map[string]uint64{}, Logs: m.logStrings()}
			for _, in := range m.inputs {
				w.Inputs[in.Name] = m.tm.eval(in.t, m.model)
			}
			ex.witness = append(ex.witness, w)
		}
	}
	if k != endInfeasible {
		for r := range m.reach {
			ex.reach[r]++
		}
	}
	if ex.opts.MaxPaths > 0 && ex.stats.Paths >= ex.opts.MaxPaths {
		ex.stop = true
	}
}

func (m *Machine) sample() string {
	var parts []string
	for i, in := range m.inputs {
		if i >= 12 {
			parts = append(parts, "…")
			break
		}
		parts = append(parts, fmt.Sprintf("%s=%d", in.Name, m.tm.eval(in.t, m.model)))
	}
	return fmt.Sprintf("path conditions=%d delays=%d steps=%d witness{%s}", len(m.pc), m.delays, m.steps, strings.Join(parts, " "))
}

func (m *Machine) runPath1(it workItem) (k endKind, msg string) {
	m.reset(it)
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				k, msg = pe.k, pe.msg
				if k == endBudget && m.ex.opts.BudgetIsViolation && (strings.HasPrefix(msg, "step budget") || strings.HasPrefix(msg, "call depth")) {
					func() {
						defer func() { recover() }()
						m.violation("no-progress", msg+"\n"+m.dumpGs())
					}()
					k = endViolation
				}
				return
			}
			k = endUnsupported
			msg = fmt.Sprintf("engine: %v", r)
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
				if m.cur != nil && m.cur.top != nil {
					fmt.Fprintln(os.Stderr, m.stack(m.cur))
				}
			}
		}
	}()
	if m.model == nil {
		m.model = &Model{m: map[int32]uint64{}}
	}
	m.initPackages()
	main := m.spawn(m.P.info(m.ex.harness), nil, nil)
	m.mainLoop(main)
	return endNormal, ""
}

func (ex *Explorer) functions() []string {
	var r []string
	for f := range ex.cov {
		if f.repo {
			r = append(r, shortName(f.name))
		}
	}
	sort.Strings(r)
	return r
}
