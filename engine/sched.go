package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---- channels ----

type sudog struct {
	g    *G
	ch   *ChanV
	val  V // value to send / value received
	ok   bool
	send bool
	idx  int // select case
	clsd bool
	vc   vclock // clock of the operation when it was parked
}

type ChanV struct {
	id     int
	cap    int
	buf    []V
	closed bool
	recvq  []*sudog
	sendq  []*sudog
	elem   *TD
	// happens-before
	bvc   []vclock // per element of buf
	rq    []vclock // receives that later sends wait for
	nsent int
	cvc   vclock
}

func deq(q *[]*sudog) *sudog {
	s := (*q)[0]
	*q = (*q)[1:]
	return s
}

// fire completes the wait of s.g through s.
func (m *Machine) fire(s *sudog) {
	g := s.g
	for _, o := range g.sudogs {
		if o != s {
			if o.send {
				o.ch.sendq = remove(o.ch.sendq, o)
			} else {
				o.ch.recvq = remove(o.ch.recvq, o)
			}
		}
	}
	g.sudogs = nil
	g.fired = s
	m.ready(g)
}

func remove(q []*sudog, s *sudog) []*sudog {
	for i, x := range q {
		if x == s {
			r := append([]*sudog(nil), q[:i]...)
			return append(r, q[i+1:]...)
		}
	}
	return q
}

func (m *Machine) ready(g *G) {
	g.st = gRun
	g.pred = nil
	g.why = ""
	g.wake = 0
	g.quies = false
	m.runq = append(m.runq, g)
}

func (m *Machine) block(g *G, why string) {
	g.st = gWait
	g.why = why
}

func (m *Machine) blockPred(g *G, why string, pred func() bool) {
	g.st = gWait
	g.why = why
	g.pred = pred
}

// trySend attempts a send without blocking.
func (m *Machine) trySend(g *G, fr *Frame, ch *ChanV, v V) (done bool, panicked bool) {
	if ch.closed {
		m.gopanic(g, m.rtErrV("send on closed channel"))
		return false, true
	}
	if len(ch.recvq) > 0 {
		s := deq(&ch.recvq)
		s.val, s.ok = copyArg(v), true
		if m.race {
			sv := m.chSnap(g, fr)
			ch.chSent(g, sv != nil)
			if s.vc != nil {
				s.g.vc.join(sv)
				ch.chRecvd(s.vc)
				if ch.cap == 0 && sv != nil {
					g.vc.join(s.vc)
				}
			} else {
				ch.chRecvd(nil)
			}
		}
		m.fire(s)
		return true, false
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, copyArg(v))
		if m.race {
			sv := m.chSnap(g, fr)
			ch.chSent(g, sv != nil)
			ch.bvc = append(ch.bvc, sv)
		}
		return true, false
	}
	return false, false
}

func (m *Machine) tryRecv(g *G, fr *Frame, ch *ChanV) (v V, ok, done bool) {
	if len(ch.buf) > 0 {
		v = ch.buf[0]
		ch.buf = append([]V(nil), ch.buf[1:]...)
		var rv vclock
		if m.race {
			if m.syncs(g, fr) {
				g.vc.join(ch.bvc[0])
			}
			ch.bvc = append([]vclock(nil), ch.bvc[1:]...)
			rv = m.chSnap(g, fr)
			ch.chRecvd(rv)
		}
		if len(ch.sendq) > 0 {
			s := deq(&ch.sendq)
			ch.buf = append(ch.buf, s.val)
			if m.race {
				ch.bvc = append(ch.bvc, s.vc)
				ch.chSent(s.g, s.vc != nil)
			}
			m.fire(s)
		}
		return v, true, true
	}
	if len(ch.sendq) > 0 {
		s := deq(&ch.sendq)
		v = s.val
		if m.race {
			if rv := m.chSnap(g, fr); rv != nil {
				g.vc.join(s.vc)
				if s.vc != nil {
					s.g.vc.join(rv)
				}
			}
		}
		m.fire(s)
		return v, true, true
	}
	if ch.closed {
		if m.syncs(g, fr) {
			g.vc.join(ch.cvc)
		}
		return ch.elem.zero(), false, true
	}
	return V{}, false, false
}

func (m *Machine) chanClose(g *G, fr *Frame, ch *ChanV) {
	ch.closed = true
	if m.race {
		ch.cvc = m.chSnap(g, fr)
	}
	for len(ch.recvq) > 0 {
		s := deq(&ch.recvq)
		s.val, s.ok = ch.elem.zero(), false
		if s.vc != nil {
			s.g.vc.join(ch.cvc)
		}
		m.fire(s)
	}
	for len(ch.sendq) > 0 {
		s := deq(&ch.sendq)
		s.clsd = true
		m.fire(s)
	}
}

func (m *Machine) chanSend(g *G, fr *Frame, ins *Ins) {
	if s := g.fired; s != nil {
		g.fired = nil
		fr.delayed = false
		if s.clsd {
			m.gopanic(g, m.rtErrV("send on closed channel"))
			return
		}
		fr.pc++
		return
	}
	ch, _ := m.get(fr, &ins.a).x.(*ChanV)
	if ch == nil {
		m.block(g, "send on nil channel")
		return
	}
	v := m.get(fr, &ins.b)
	done, pk := m.trySend(g, fr, ch, v)
	if pk {
		return
	}
	if done {
		fr.delayed = false
		fr.pc++
		return
	}
	s := &sudog{g: g, ch: ch, val: copyArg(v), send: true, vc: m.chSnap(g, fr)}
	g.sudogs = []*sudog{s}
	ch.sendq = append(ch.sendq, s)
	m.block(g, "chan send")
}

func (m *Machine) chanRecv(g *G, fr *Frame, ins *Ins) bool {
	set := func(v V, ok bool) {
		if ins.commaOk {
			fr.regs[ins.dst] = V{x: Tuple{v, vBool(ok)}}
		} else {
			fr.regs[ins.dst] = v
		}
		fr.delayed = false
	}
	if s := g.fired; s != nil {
		g.fired = nil
		set(s.val, s.ok)
		return true
	}
	ch, _ := m.get(fr, &ins.a).x.(*ChanV)
	if ch == nil {
		m.block(g, "receive on nil channel")
		return false
	}
	v, ok, done := m.tryRecv(g, fr, ch)
	if done {
		set(v, ok)
		return true
	}
	s := &sudog{g: g, ch: ch, vc: m.chSnap(g, fr)}
	g.sudogs = []*sudog{s}
	ch.recvq = append(ch.recvq, s)
	m.block(g, "chan receive")
	return false
}

func (m *Machine) selectOp(g *G, fr *Frame, ins *Ins) {
	states := ins.sel.States
	// result tuple: index, recvOk, one value per receive case
	finish := func(idx int, v V, ok bool) {
		t := Tuple{V{n: uint64(int64(idx))}, vBool(ok)}
		for i, st := range states {
			if st.Dir == 2 /* types.RecvOnly */ {
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, V{x: nil})
				}
			}
		}
		// zero values for aggregate element types
		k := 2
		for i, st := range states {
			if st.Dir == 2 {
				if i != idx {
					if td := ins.td.fields[k]; td.agg {
						t[k] = td.zero()
					}
				}
				k++
			}
		}
		fr.regs[ins.dst] = V{x: t}
		fr.delayed = false
		fr.pc++
	}
	if s := g.fired; s != nil {
		g.fired = nil
		if s.clsd {
			fr.delayed = false
			m.gopanic(g, m.rtErrV("send on closed channel"))
			return
		}
		finish(s.idx, s.val, s.ok)
		return
	}
	var readyIdx []int
	chans := make([]*ChanV, len(states))
	for i := range states {
		ch, _ := m.get(fr, &ins.args[2*i]).x.(*ChanV)
		chans[i] = ch
		if ch == nil {
			continue
		}
		if states[i].Dir == 1 { // send
			if ch.closed || len(ch.recvq) > 0 || len(ch.buf) < ch.cap {
				readyIdx = append(readyIdx, i)
			}
		} else if len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		k := 0
		if len(readyIdx) > 1 && (fr.fn.repo || fr.fn.harness) && m.forkSelect {
			k = m.choose("select", len(readyIdx), 1)
		}
		i := readyIdx[k]
		if m.trace {
			m.tracef("g%d %s select case %d", g.id, m.site(fr), i)
		}
		if states[i].Dir == 1 {
			_, pk := m.trySend(g, fr, chans[i], m.get(fr, &ins.args[2*i+1]))
			if pk {
				return
			}
			finish(i, V{}, false)
		} else {
			v, ok, _ := m.tryRecv(g, fr, chans[i])
			finish(i, v, ok)
		}
		return
	}
	if !ins.commaOk { // non-blocking
		finish(-1, V{}, false)
		return
	}
	snap := m.chSnap(g, fr)
	for i := range states {
		ch := chans[i]
		if ch == nil {
			continue
		}
		s := &sudog{g: g, ch: ch, idx: i, vc: snap}
		if states[i].Dir == 1 {
			s.send = true
			s.val = copyArg(m.get(fr, &ins.args[2*i+1]))
			ch.sendq = append(ch.sendq, s)
		} else {
			ch.recvq = append(ch.recvq, s)
		}
		g.sudogs = append(g.sudogs, s)
	}
	m.block(g, "select")
}

// ---- goroutines ----

func (m *Machine) spawn(fi *FnInfo, args []V, parent *G) *G {
	m.gN++
	g := &G{id: m.gN, name: shortName(fi.name)}
	if m.race {
		if parent != nil && parent.id > 0 {
			g.vc = parent.vc.clone()
			parent.tick()
		}
		g.tick()
	}
	m.gs = append(m.gs, g)
	if len(m.gs) > m.maxGs {
		m.end(endBudget, "goroutine budget exceeded")
	}
	fr := m.pushFrame(g, fi, args, -1)
	fr.caller = nil
	m.runq = append(m.runq, g)
	if m.trace {
		m.tracef("go g%d %s", g.id, g.name)
	}
	return g
}

func (m *Machine) gDied(g *G) {
	for i, x := range m.gs {
		if x == g {
			m.gs = append(m.gs[:i:i], m.gs[i+1:]...)
			break
		}
	}
}

// pollBlocked wakes goroutines whose wake predicate holds.
func (m *Machine) pollBlocked() {
	for _, g := range m.gs {
		if g.st == gWait && g.pred != nil && g.pred() {
			m.ready(g)
		}
	}
}

// schedPoint is called before a visible operation of the code under test. It
// returns true when the goroutine is delayed (the caller must not perform the
// operation now).
func (m *Machine) schedPoint(g *G, fr *Frame) bool {
	m.visOps++
	m.pollBlocked()
	if len(m.runq) == 0 {
		if len(m.parked) == 0 {
			return false
		}
		if m.sinceSwitch++; m.sinceSwitch > 400 {
			m.runq, m.parked = m.parked, nil
			fr.delayed = true
			m.preempt(g)
			return true
		}
		return false
	}
	m.sinceSwitch++
	if m.sinceSwitch > 400 {
		// fairness: a goroutine may not spin forever while others can run
		fr.delayed = true
		m.preempt(g)
		return true
	}
	if m.delays >= m.maxDelays {
		return false
	}
	m.schedN++
	if m.forkDelay() {
		if m.trace {
			m.tracef("DELAY g%d at %s", g.id, m.site(fr))
		}
		m.schedLog = append(m.schedLog, fmt.Sprintf("g%d(%s) delayed before %s", g.id, g.name, m.site(fr)))
		fr.delayed = true
		g.short = true
		m.preempt(g)
		return true
	}
	return false
}

func (m *Machine) preempt(g *G) {
	m.runq = append(m.runq, g)
	m.cur = nil
	m.sinceSwitch = 0
}

// mainLoop schedules goroutines until the harness goroutine finishes.
func (m *Machine) mainLoop(main *G) {
	for main.st != gDead {
		m.pollBlocked()
		if len(m.runq) == 0 && len(m.parked) > 0 {
			m.runq, m.parked = append(m.runq, m.parked[0]), m.parked[1:]
			continue
		}
		if len(m.runq) == 0 {
			if m.wakeQuiescent() {
				continue
			}
			if m.wakeSleepers() {
				continue
			}
			m.deadlock(main)
			return
		}
		g := m.runq[0]
		m.runq = m.runq[1:]
		if g.st != gRun {
			continue
		}
		if g.short {
			g.short = false
			if len(m.runq) > 0 && m.forkLong() {
				if m.trace {
					m.tracef("PARK g%d", g.id)
				}
				m.schedLog = append(m.schedLog, fmt.Sprintf("g%d(%s) goes on when nothing else can run", g.id, g.name))
				m.parked = append(m.parked, g)
				continue
			}
		}
		m.cur = g
		m.sinceSwitch = 0
		if m.trace {
			m.tracef("-- run g%d %s", g.id, g.name)
		}
		m.run(g)
		m.cur = nil
	}
}

func (m *Machine) wakeQuiescent() bool {
	for _, g := range m.gs {
		if g.st == gWait && g.quies {
			m.ready(g)
			return true
		}
	}
	return false
}

func (m *Machine) wakeSleepers() bool {
	var best int64
	for _, g := range m.gs {
		if g.st == gWait && g.wake > 0 && (best == 0 || g.wake < best) {
			best = g.wake
		}
	}
	if best == 0 {
		return false
	}
	m.sleeps++
	if m.sleeps > m.maxSleeps {
		m.end(endBudget, "virtual time budget exceeded (endless sleeping)")
	}
	if best > m.now {
		m.now = best
	}
	for _, g := range append([]*G(nil), m.gs...) {
		if g.st == gWait && g.wake > 0 && g.wake <= m.now {
			m.ready(g)
		}
	}
	return true
}

func (m *Machine) deadlock(main *G) {
	m.violation("deadlock", "the harness goroutine is blocked forever\n"+m.dumpGs())
	m.end(endViolation, "deadlock")
}

func (m *Machine) dumpGs() string {
	var sb strings.Builder
	gs := append([]*G(nil), m.gs...)
	sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	for _, g := range gs {
		st := "runnable"
		if g.st == gWait {
			st = "blocked: " + g.why
		}
		fmt.Fprintf(&sb, "  g%d %s [%s]\n%s", g.id, g.name, st, m.stack(g))
	}
	return sb.String()
}

func (m *Machine) crash(g *G, p *panicRec) {
	m.violation("panic", fmt.Sprintf("unrecovered panic in g%d (%s): %s at %s", g.id, g.name, m.show(p.val), p.site))
	m.end(endViolation, "panic")
}
