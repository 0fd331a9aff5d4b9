package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Happens-before race detection. Every goroutine carries a vector clock; the
// synchronisation of the Go memory model (go statements, channels, locks, wait
// groups, atomics, sync.Map, sync.Pool) joins them. Two accesses to the same
// memory, one of them a write and not both atomic, which are not ordered are a
// data race, whatever the order in which this path executed them.

type vclock []int32

func (v vclock) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	if len(*v) < len(o) {
		n := make(vclock, len(o), len(o)+4)
		copy(n, *v)
		*v = n
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

type rAcc struct {
	g, clk int32
	atomic bool
	fn     *FnInfo
	pc     int
}

type shadow struct {
	w rAcc // w.fn == nil: never written
	r []rAcc
}

const (
	rTrack = iota // code under test and libraries
	rUser         // harness: its own variables are taken as synchronised
	rWorld        // models: only memory that belongs to others counts
	rNone
)

func raceMode(fi *FnInfo) uint8 {
	switch fi.pkg {
	case "verifh/sym":
		return rNone
	case "verifh/fake", "verifh/models":
		return rWorld
	case "sync", "sync/atomic", "internal/sync", "runtime", "time":
		return rNone
	}
	if fi.harness {
		return rUser
	}
	return rTrack
}

func (m *Machine) racing() bool { return m.race && m.gN > 1 }

func (m *Machine) acq(g *G, key any) {
	if m.race && g.id > 0 {
		if c, ok := m.syncVC[key]; ok {
			g.vc.join(*c)
		}
	}
}

func (m *Machine) rel(g *G, key any) {
	if m.race && g.id > 0 {
		c, ok := m.syncVC[key]
		if !ok {
			c = new(vclock)
			m.syncVC[key] = c
		}
		c.join(g.vc)
		g.tick()
	}
}

// outside returns the innermost frame that is not one of the sync packages.
func outside(fr *Frame) *Frame {
	for fr.caller != nil {
		switch fr.fn.pkg {
		case "sync", "sync/atomic", "internal/sync":
			fr = fr.caller
			continue
		}
		break
	}
	return fr
}

// syncs tells whether synchronisation performed in fr orders goroutines: the
// model network's does not.
func (m *Machine) syncs(g *G, fr *Frame) bool {
	return m.race && g.id > 0 && !outside(fr).fn.fake
}

func (m *Machine) lockAcq(g *G, fr *Frame, key any) {
	if m.syncs(g, fr) {
		m.acq(g, key)
	}
}

func (m *Machine) lockRel(g *G, fr *Frame, key any) {
	if m.syncs(g, fr) {
		m.rel(g, key)
	}
}

type rlockKey struct{ p any }

// raceR and raceW record an access through p to a whole value.
func (m *Machine) raceR(g *G, fr *Frame, p *V) { m.raceV(g, fr, p, false) }
func (m *Machine) raceW(g *G, fr *Frame, p *V) { m.raceV(g, fr, p, true) }

func (m *Machine) raceV(g *G, fr *Frame, p *V, w bool) {
	mode := fr.fn.rmode
	if mode == rNone || g.id <= 0 {
		return
	}
	switch x := p.x.(type) {
	case *StructV:
		for i := range x.f {
			m.raceV(g, fr, &x.f[i], w)
		}
		return
	case *ArrV:
		for i := range x.e {
			m.raceV(g, fr, &x.e[i], w)
		}
		return
	}
	m.raceAt(g, fr, p, w, false)
}

func (m *Machine) raceSlice(g *G, fr *Frame, s []V, w bool) {
	if fr.fn.rmode == rNone || g.id <= 0 {
		return
	}
	for i := range s {
		m.raceV(g, fr, &s[i], w)
	}
}

func (m *Machine) raceAtomic(g *G, fr *Frame, p *V, r, w bool) {
	if !m.syncs(g, fr) {
		return
	}
	f := outside(fr)
	if r {
		m.acq(g, p)
	}
	if f.fn.rmode == rTrack && m.gN > 1 {
		m.raceAt(g, f, p, w, true)
	}
	if w {
		m.rel(g, p)
	}
}

func (m *Machine) raceAt(g *G, fr *Frame, key any, w, atomic bool) {
	s := m.shadows[key]
	switch mode := fr.fn.rmode; {
	case mode == rTrack:
	case s != nil:
	case mode == rUser:
		if w {
			m.rel(g, key)
		} else {
			m.acq(g, key)
		}
		return
	default:
		return
	}
	if s == nil {
		s = &shadow{}
		m.shadows[key] = s
	}
	m.accesses++
	me := rAcc{g: int32(g.id), clk: g.vc.at(g.id), atomic: atomic, fn: fr.fn, pc: fr.pc}
	conc := func(o *rAcc) bool {
		return o.fn != nil && o.g != me.g && !(o.atomic && atomic) && o.clk > g.vc.at(int(o.g))
	}
	if conc(&s.w) {
		m.raceReport(g, fr, &s.w, "write", w)
	}
	if !w {
		for i := range s.r {
			if s.r[i].g == me.g && s.r[i].atomic == atomic {
				s.r[i] = me
				return
			}
		}
		s.r = append(s.r, me)
		return
	}
	for i := range s.r {
		if conc(&s.r[i]) {
			m.raceReport(g, fr, &s.r[i], "read", true)
		}
	}
	if atomic {
		// keep what an atomic write does not order
		k := s.r[:0]
		for _, r := range s.r {
			if r.clk > g.vc.at(int(r.g)) {
				k = append(k, r)
			}
		}
		s.r = k
	} else {
		s.r = s.r[:0]
	}
	s.w = me
}

func (m *Machine) raceReport(g *G, fr *Frame, o *rAcc, okind string, w bool) {
	kind := "read"
	if w {
		kind = "write"
	}
	old := m.site(&Frame{fn: o.fn, pc: o.pc})
	m.violation("data race", fmt.Sprintf("%s by g%d at %s is not ordered with the %s by g%d at %s", kind, g.id, m.site(fr), okind, o.g, old))
	m.end(endViolation, "data race")
}

// localAddr tells whether an address is inside a variable that never leaves
// its function.
func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return !x.Heap
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return localAddr(x.X)
		}
	}
	return false
}

// ---- channels ----

// chSnap is the clock a parked operation carries (nil: it orders nothing).
func (m *Machine) chSnap(g *G, fr *Frame) vclock {
	if !m.syncs(g, fr) {
		return nil
	}
	c := g.vc.clone()
	g.tick()
	return c
}

// chSent is called when a send takes its place in the channel.
func (ch *ChanV) chSent(sender *G, order bool) {
	if ch.cap == 0 {
		return
	}
	if ch.nsent++; ch.nsent > ch.cap && len(ch.rq) > 0 {
		if order {
			sender.vc.join(ch.rq[0])
		}
		ch.rq = ch.rq[1:]
	}
}

func (ch *ChanV) chRecvd(v vclock) {
	if ch.cap > 0 {
		ch.rq = append(ch.rq, v)
	}
}

func poolKey(v V) any {
	if i, ok := v.x.(*Iface); ok {
		switch p := i.v.x.(type) {
		case *V:
			return p
		case []V:
			if cap(p) > 0 {
				return &p[:1][0]
			}
		}
	}
	return "pool"
}
