package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type panicRec struct {
	val       V
	recovered bool
	goexit    bool
	site      string
}

type deferRec struct {
	fn   *FnInfo
	bi   *ssa.Builtin
	tds  []*TD
	args []V
}

type Frame struct {
	fn      *FnInfo
	regs    []V
	pc      int
	dst     int // register of the caller receiving the result; -1 discard
	caller  *Frame
	defers  []deferRec
	panic   *panicRec // this frame is unwinding
	dfor    *Frame    // this frame is a deferred call run by dfor
	result  V
	hasRes  bool
	delayed bool // the scheduling point at pc was already taken
	unwound bool
	depth   int
	intrSt  any // scratch state of a blocking intrinsic
}

type gstat uint8

const (
	gRun gstat = iota
	gWait
	gDead
)

// G is a guest goroutine.
type G struct {
	id    int
	name  string
	top   *Frame
	st    gstat
	pred  func() bool // wake condition (polled)
	why   string
	wake  int64 // >0: sleeping until this virtual time
	quies bool  // waiting for quiescence
	short bool  // was delayed, and goes on when it is its turn
	// channel wait results
	sudogs []*sudog
	fired  *sudog
	vc     vclock
}

func (m *Machine) get(fr *Frame, o *opnd) V {
	switch o.k {
	case okReg:
		return fr.regs[o.idx]
	case okConst:
		return o.v
	}
	return V{x: m.globalPtr(o.idx)}
}

func (m *Machine) globalPtr(i int) *V {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if p := m.globals[i]; p != nil {
		return p
	}
	m.P.mu.Lock()
	g := m.P.globs[i]
	m.P.mu.Unlock()
	td := tdOf(g.Type().Underlying().(*types.Pointer).Elem())
	c := new(V)
	*c = td.zero()
	m.globals[i] = c
	if pk := g.Pkg.Pkg.Path(); !m.inited[pk] {
		m.lazyGlobal(g, c)
	}
	return c
}

func (m *Machine) pushFrame(g *G, fi *FnInfo, args []V, dst int) *Frame {
	fi.compile(m.P)
	if fi.code == nil {
		m.unsupported("function without body: " + fi.name)
	}
	fr := &Frame{fn: fi, regs: make([]V, fi.nregs), dst: dst, caller: g.top}
	copy(fr.regs, args)
	if fr.caller != nil {
		fr.depth = fr.caller.depth + 1
		if m.stackLimit > 0 && fr.depth > m.stackLimit {
			m.violation("panic", "fatal error: stack overflow in "+fi.name)
			m.end(endViolation, "panic")
		}
		if fr.depth > m.maxDepth {
			m.end(endBudget, "call depth exceeded in "+fi.name)
		}
	}
	if m.cov != nil && (fi.repo || fi.harness) {
		m.cov[fi] = true
	}
	g.top = fr
	return fr
}

// ret pops the top frame, delivering v to the caller.
func (m *Machine) ret(g *G, v V) {
	fr := g.top
	g.top = fr.caller
	if g.top == nil {
		g.st = gDead
		m.gDied(g)
		return
	}
	if fr.dfor != nil && fr.dfor.panic != nil && fr.dfor == g.top {
		// finished a deferred call of an unwinding frame
		up := fr.dfor
		if up.panic.recovered {
			up.panic = nil
			up.unwound = true
		}
		m.unwind(g)
		return
	}
	if fr.dfor != nil && fr.dfor == g.top && g.top.unwound {
		m.unwind(g)
		return
	}
	if fr.dst >= 0 {
		g.top.regs[fr.dst] = v
	}
}

// unwind continues running the deferred calls of the top frame, which is
// panicking (panic != nil) or has recovered (unwound).
func (m *Machine) unwind(g *G) {
	for {
		fr := g.top
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			if d.bi != nil {
				if m.deferredBuiltin(g, fr, d) {
					if fr.panic != nil && fr.panic.recovered {
						fr.panic = nil
						fr.unwound = true
					}
				}
				continue
			}
			nf := m.pushFrame(g, d.fn, d.args, -1)
			nf.dfor = fr
			return
		}
		if fr.panic == nil {
			// recovered: return to the caller through the recover block
			fr.unwound = false
			if fr.fn.recover >= 0 {
				fr.pc = fr.fn.recover
				return
			}
			var z V
			if fr.fn.resTD != nil {
				z = fr.fn.resTD.zero()
			}
			m.ret(g, z)
			return
		}
		p := fr.panic
		g.top = fr.caller
		if g.top == nil {
			if p.goexit {
				g.st = gDead
				m.gDied(g)
				return
			}
			m.crash(g, p)
			return
		}
		g.top.panic = p // replaces an older panic, if any
		g.top.unwound = false
	}
}

func (m *Machine) gopanic(g *G, v V) {
	fr := g.top
	p := &panicRec{val: v}
	if fr != nil {
		p.site = m.site(fr)
	}
	if m.trace {
		m.tracef("PANIC %s at %s", m.show(v), p.site)
	}
	fr.panic = p
	m.unwind(g)
}

func (m *Machine) rtPanic(g *G, msg string) {
	st := &StructV{f: []V{vStr("runtime error: " + msg)}}
	m.gopanic(g, V{x: &Iface{td: m.P.rtErr, v: V{x: st}}})
}

func (m *Machine) site(fr *Frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.fn.repo || f.fn.harness {
			pc := f.pc
			if pc >= len(f.fn.code) {
				pc = len(f.fn.code) - 1
			}
			pos := f.fn.code[pc].pos
			for !pos.IsValid() && pc > 0 {
				pc--
				pos = f.fn.code[pc].pos
			}
			p := m.P.fset.Position(pos)
			return fmt.Sprintf("%s (%s:%d)", shortName(f.fn.name), baseName(p.Filename), p.Line)
		}
	}
	if fr != nil {
		return fr.fn.name
	}
	return "?"
}

func shortName(s string) string {
	return strings.ReplaceAll(s, repoPath, "qrpc")
}

func baseName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (m *Machine) stack(g *G) string {
	var sb strings.Builder
	for f := g.top; f != nil; f = f.caller {
		pc := f.pc
		if pc >= len(f.fn.code) {
			pc = len(f.fn.code) - 1
		}
		pos := f.fn.code[pc].pos
		for !pos.IsValid() && pc > 0 {
			pc--
			pos = f.fn.code[pc].pos
		}
		p := m.P.fset.Position(pos)
		fmt.Fprintf(&sb, "    %s %s:%d\n", shortName(f.fn.name), baseName(p.Filename), p.Line)
	}
	return sb.String()
}

// callFn starts a call; returns false if the current instruction must be
// retried later (blocked), true when the call was performed or a frame pushed.
func (m *Machine) callFn(g *G, fr *Frame, fi *FnInfo, args []V, dst int) bool {
	if fi.intr != nil {
		r, c := fi.intr(m, g, fr, fi, args)
		switch c {
		case iDone:
			if dst >= 0 {
				fr.regs[dst] = r
			}
			return true
		case iBlock:
			return false
		case iTail:
			tc := r.x.(*tailCall)
			m.pushFrame(g, tc.fn, tc.args, dst)
			return true
		case iPanicked:
			return true
		}
	}
	if fi.isInit {
		if m.inited[fi.pkg] || !initWanted(fi.pkg) {
			return true
		}
		m.inited[fi.pkg] = true
	}
	nf := m.pushFrame(g, fi, args, dst)
	if fr.fn.wrapper && fr.dfor != nil {
		nf.dfor = fr.dfor
	}
	return true
}

type tailCall struct {
	fn   *FnInfo
	args []V
}

const (
	iDone = iota
	iBlock
	iTail
	iPanicked
)

// Intrinsic implements a function natively.
type Intrinsic func(m *Machine, g *G, fr *Frame, fi *FnInfo, args []V) (V, int)

func closureArgs(c *Closure, args []V) []V {
	if len(c.bind) == 0 {
		return args
	}
	r := make([]V, 0, len(args)+len(c.bind))
	r = append(r, args...)
	return append(r, c.bind...)
}

// resolveCall determines callee and arguments of a call-like instruction.
// ok=false: a panic was raised.
func (m *Machine) resolveCall(g *G, fr *Frame, ins *Ins) (*FnInfo, []V, bool) {
	if ins.fn != nil {
		args := make([]V, len(ins.args))
		for i := range ins.args {
			args[i] = copyArg(m.get(fr, &ins.args[i]))
		}
		return ins.fn, args, true
	}
	fv := m.get(fr, &ins.a)
	if ins.invoke != nil {
		if fv.x == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference (method "+ins.invoke.Name()+" on nil interface)")
			return nil, nil, false
		}
		i := fv.x.(*Iface)
		fi := m.P.method(i.td, ins.invoke)
		args := make([]V, 1+len(ins.args))
		args[0] = copyArg(i.v)
		for k := range ins.args {
			args[k+1] = copyArg(m.get(fr, &ins.args[k]))
		}
		return fi, args, true
	}
	if fv.x == nil {
		m.rtPanic(g, "invalid memory address or nil pointer dereference (nil func)")
		return nil, nil, false
	}
	c := fv.x.(*Closure)
	args := make([]V, len(ins.args), len(ins.args)+len(c.bind))
	for i := range ins.args {
		args[i] = copyArg(m.get(fr, &ins.args[i]))
	}
	args = append(args, c.bind...)
	return c.fn, args, true
}

func copyArg(v V) V {
	switch v.x.(type) {
	case *StructV, *ArrV:
		return copyV(v)
	}
	return v
}

// run executes g until it blocks, dies or is preempted.
func (m *Machine) run(g *G) {
	for g.st == gRun && m.cur == g {
		m.step(g)
	}
}

// step runs instructions of g in a tight loop until it must stop.
func (m *Machine) step(g *G) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(guestPanic); ok {
				m.rtPanic(g, gp.msg)
				return
			}
			panic(r)
		}
	}()
	for g.st == gRun && m.cur == g {
		fr := g.top
		if fr.pc >= len(fr.fn.code) {
			panic("pc out of range in " + fr.fn.name)
		}
		ins := &fr.fn.code[fr.pc]
		m.steps++
		if m.steps > m.maxSteps {
			m.end(endBudget, "step budget exceeded at "+m.site(fr))
		}
		switch ins.op {
		case iNop:
			fr.pc++
		case iAlloc:
			c := new(V)
			if ins.td.agg {
				*c = ins.td.zero()
			}
			fr.regs[ins.dst] = V{x: c}
			fr.pc++
		case iStore:
			p, ok := m.get(fr, &ins.a).x.(*V)
			if !ok || p == nil {
				m.rtPanic(g, "invalid memory address or nil pointer dereference")
				continue
			}
			if !ins.local && m.racing() {
				m.raceW(g, fr, p)
			}
			if ins.td.agg {
				storeV(p, m.get(fr, &ins.b))
			} else {
				*p = m.get(fr, &ins.b)
			}
			fr.pc++
		case iUnOp:
			if !m.unop(g, fr, ins) {
				continue
			}
			fr.pc++
		case iBinOp:
			fr.regs[ins.dst] = m.binop(ins.tok, ins.td, ins.td2, m.get(fr, &ins.a), m.get(fr, &ins.b))
			fr.pc++
		case iMove:
			fr.regs[ins.dst] = m.get(fr, &ins.a)
			fr.pc++
		case iJump:
			m.moves(fr, ins.m0)
			fr.pc = ins.t0
		case iIf:
			c := m.get(fr, &ins.a)
			var t bool
			if c.x == nil {
				t = c.n != 0
			} else {
				t = m.branch(c.x.(*Term))
			}
			if t {
				m.moves(fr, ins.m0)
				fr.pc = ins.t0
			} else {
				m.moves(fr, ins.m1)
				fr.pc = ins.t1
			}
		case iReturn:
			var r V
			switch len(ins.args) {
			case 0:
			case 1:
				r = copyArg(m.get(fr, &ins.args[0]))
			default:
				t := make(Tuple, len(ins.args))
				for i := range ins.args {
					t[i] = copyArg(m.get(fr, &ins.args[i]))
				}
				r = V{x: t}
			}
			m.ret(g, r)
		case iFieldAddr:
			p, ok := m.get(fr, &ins.a).x.(*V)
			if !ok || p == nil {
				m.rtPanic(g, "invalid memory address or nil pointer dereference")
				continue
			}
			st, ok := p.x.(*StructV)
			if !ok {
				m.unsupported(fmt.Sprintf("FieldAddr through %T at %s (%s)", p.x, m.site(fr), ins.in))
			}
			fr.regs[ins.dst] = V{x: &st.f[ins.n]}
			fr.pc++
		case iField:
			st := m.get(fr, &ins.a).x.(*StructV)
			fr.regs[ins.dst] = copyArg(st.f[ins.n])
			fr.pc++
		case iExtract:
			fr.regs[ins.dst] = m.get(fr, &ins.a).x.(Tuple)[ins.n]
			fr.pc++
		case iIndexAddr:
			if !m.indexAddr(g, fr, ins) {
				continue
			}
			fr.pc++
		case iIndex:
			if !m.index(g, fr, ins) {
				continue
			}
			fr.pc++
		case iSlice:
			if !m.sliceOp(g, fr, ins) {
				continue
			}
			fr.pc++
		case iConvert:
			if x := m.get(fr, &ins.a); m.racing() && ins.td.k == KSlice && ins.td2.k == KString {
				m.raceSlice(g, fr, x.slice(), false)
			}
			fr.regs[ins.dst] = m.convert(m.get(fr, &ins.a), ins.td, ins.td2)
			fr.pc++
		case iMakeInterface:
			fr.regs[ins.dst] = V{x: &Iface{td: ins.td, v: copyArg(m.get(fr, &ins.a))}}
			fr.pc++
		case iMakeClosure:
			b := make([]V, len(ins.args))
			for i := range ins.args {
				b[i] = m.get(fr, &ins.args[i])
			}
			fr.regs[ins.dst] = V{x: &Closure{fn: ins.fn, bind: b}}
			fr.pc++
		case iMakeSlice:
			ln, cp := m.get(fr, &ins.a), m.get(fr, &ins.b)
			n := int(int64(m.concretize(ln, ins.td2)))
			c := n
			if cp != ln {
				c = int(int64(m.concretize(cp, ins.td2)))
			}
			if n < 0 || c < n || n > 1<<32 {
				m.rtPanic(g, "makeslice: len out of range")
				continue
			}
			if c > 1<<20 {
				// far more than any harness can fill: only a prefix is
				// materialised, so what is read into it never completes
				m.ex.note(fmt.Sprintf("allocation materialised as a prefix at %s", m.site(fr)))
				c = 1 << 16
				if n > c {
					n = c
				}
			}
			fr.regs[ins.dst] = V{x: makeElems(ins.td.elem, n, c)}
			fr.pc++
		case iMakeMap:
			fr.regs[ins.dst] = V{x: newMapV()}
			fr.pc++
		case iMapUpdate:
			mp, _ := m.get(fr, &ins.a).x.(*MapV)
			if mp == nil {
				m.gopanic(g, m.rtErrV("assignment to entry in nil map"))
				continue
			}
			if m.racing() {
				m.raceAt(g, fr, mp, true, false)
			}
			m.mapSet(mp, ins.td.key, m.get(fr, &ins.b), m.get(fr, &ins.c))
			fr.pc++
		case iLookup:
			if !m.lookup(g, fr, ins) {
				continue
			}
			fr.pc++
		case iRange:
			x := m.get(fr, &ins.a)
			if ins.td.k == KString {
				fr.regs[ins.dst] = V{x: &StrIter{b: x.strBytes()}}
			} else {
				mp, _ := x.x.(*MapV)
				it := &MapIter{m: mp}
				if mp != nil {
					if m.racing() {
						m.raceAt(g, fr, mp, false, false)
					}
					it.list = append(it.list, mp.ents...)
				}
				fr.regs[ins.dst] = V{x: it}
			}
			fr.pc++
		case iNext:
			m.next(g, fr, ins)
			fr.pc++
		case iTypeAssert:
			if !m.typeAssert(g, fr, ins) {
				continue
			}
			fr.pc++
		case iSliceToArray:
			s := m.get(fr, &ins.a).slice()
			el := ins.td.elem
			if len(s) < el.n {
				m.rtPanic(g, "cannot convert slice to array pointer")
				continue
			}
			c := &V{x: &ArrV{e: s[:el.n:el.n]}}
			fr.regs[ins.dst] = V{x: c}
			fr.pc++
		case iMakeChan:
			n := int(int64(m.get(fr, &ins.a).n))
			if n < 0 {
				m.rtPanic(g, "makechan: size out of range")
				continue
			}
			m.chanN++
			fr.regs[ins.dst] = V{x: &ChanV{cap: n, id: m.chanN, elem: ins.td.elem}}
			fr.pc++
		case iPanic:
			m.gopanic(g, m.get(fr, &ins.a))
		case iRunDefers:
			n := len(fr.defers)
			if n == 0 {
				fr.pc++
				continue
			}
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			if d.bi != nil {
				m.deferredBuiltin(g, fr, d)
				continue
			}
			nf := m.pushFrame(g, d.fn, d.args, -1)
			nf.dfor = fr
		case iDefer:
			tgt := fr
			if ins.n == 1 {
				tgt = m.get(fr, &ins.d).x.(*Frame)
			}
			if ins.bi != nil {
				args := make([]V, len(ins.args))
				for i := range ins.args {
					args[i] = copyArg(m.get(fr, &ins.args[i]))
				}
				tgt.defers = append(tgt.defers, deferRec{bi: ins.bi, args: args, tds: ins.biTDs})
				fr.pc++
				continue
			}
			fi, args, ok := m.resolveCall(g, fr, ins)
			if !ok {
				continue
			}
			tgt.defers = append(tgt.defers, deferRec{fn: fi, args: args})
			fr.pc++
		case iGo:
			if ins.bi != nil {
				m.unsupported("go builtin")
			}
			fi, args, ok := m.resolveCall(g, fr, ins)
			if !ok {
				continue
			}
			fr.pc++
			m.spawn(fi, args, g)
		case iCall:
			if ins.bi != nil {
				if fr.fn.repo && !fr.delayed && ins.bi.Name() == "close" && m.schedPoint(g, fr) {
					continue
				}
				args := make([]V, len(ins.args))
				for i := range ins.args {
					args[i] = m.get(fr, &ins.args[i])
				}
				r, ok := m.builtin(g, fr, ins.bi, args, ins.biTDs)
				if !ok {
					continue
				}
				fr.regs[ins.dst] = r
				fr.pc++
				fr.delayed = false
				continue
			}
			fi, args, ok := m.resolveCall(g, fr, ins)
			if !ok {
				continue
			}
			if !fr.delayed && (fi.visible || fi.pool && m.poolPts) && (fr.fn.repo || fi.fake && !fr.fn.harness) && !(fi.harness && fi.intr != nil) {
				if m.schedPoint(g, fr) {
					continue
				}
			}
			if m.trace && (fi.repo || fi.visible) {
				m.tracef("g%d %s call %s", g.id, m.site(fr), shortName(fi.name))
			}
			fr.pc++
			if !m.callFn(g, fr, fi, args, ins.dst) {
				fr.pc--
				fr.delayed = true
				continue
			}
			fr.delayed = false
		case iHold:
			m.cur = nil
			return
		case iIntr:
			args := append([]V(nil), fr.regs[:fr.fn.nparams]...)
			r, c := fr.fn.intr(m, g, fr, fr.fn, args)
			switch c {
			case iDone:
				m.ret(g, r)
			case iTail:
				tc := r.x.(*tailCall)
				// replace this frame
				g.top = fr.caller
				nf := m.pushFrame(g, tc.fn, tc.args, fr.dst)
				nf.dfor = fr.dfor
			}
		case iSend:
			if fr.fn.repo && !fr.delayed && m.schedPoint(g, fr) {
				continue
			}
			m.chanSend(g, fr, ins)
		case iSelect:
			if fr.fn.repo && !fr.delayed && m.schedPoint(g, fr) {
				continue
			}
			m.selectOp(g, fr, ins)
		default:
			panic(fmt.Sprintf("opcode %d", ins.op))
		}
	}
}

func (m *Machine) rtErrV(msg string) V {
	return V{x: &Iface{td: m.P.rtErr, v: V{x: &StructV{f: []V{vStr(msg)}}}}}
}

func (m *Machine) moves(fr *Frame, ms []phiMove) {
	switch len(ms) {
	case 0:
		return
	case 1:
		fr.regs[ms[0].dst] = m.get(fr, &ms[0].src)
		return
	}
	var buf [8]V
	t := buf[:0]
	for i := range ms {
		t = append(t, m.get(fr, &ms[i].src))
	}
	for i := range ms {
		fr.regs[ms[i].dst] = t[i]
	}
}

// truth forks on a boolean value.
func (m *Machine) truth(v V) bool {
	if v.x == nil {
		return v.n != 0
	}
	return m.branch(v.x.(*Term))
}

func (m *Machine) unop(g *G, fr *Frame, ins *Ins) bool {
	switch ins.tok {
	case token.MUL:
		p, ok := m.get(fr, &ins.a).x.(*V)
		if !ok || p == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return false
		}
		if !ins.local && m.racing() {
			m.raceR(g, fr, p)
		}
		if ins.td2.agg {
			fr.regs[ins.dst] = copyV(*p)
		} else {
			fr.regs[ins.dst] = *p
		}
		return true
	case token.ARROW:
		if fr.fn.repo && !fr.delayed && m.schedPoint(g, fr) {
			return false
		}
		return m.chanRecv(g, fr, ins)
	case token.NOT:
		fr.regs[ins.dst] = m.not(m.get(fr, &ins.a))
		return true
	case token.SUB:
		x := m.get(fr, &ins.a)
		if ins.td.k == KFloat {
			fr.regs[ins.dst] = vF64(-x.f64())
			return true
		}
		if x.x != nil {
			fr.regs[ins.dst] = m.fromT(m.tm.Sub(m.tm.Const(0, ins.td.w), x.x.(*Term)))
		} else {
			fr.regs[ins.dst] = V{n: -x.n & mask(ins.td.w)}
		}
		return true
	case token.XOR:
		x := m.get(fr, &ins.a)
		if x.x != nil {
			fr.regs[ins.dst] = m.fromT(m.tm.Bnot(x.x.(*Term)))
		} else {
			fr.regs[ins.dst] = V{n: ^x.n & mask(ins.td.w)}
		}
		return true
	}
	panic("unop " + ins.tok.String())
}

func (m *Machine) binop(tok token.Token, td, td2 *TD, a, b V) V {
	switch tok {
	case token.EQL:
		return m.eqMixed(td, td2, a, b)
	case token.NEQ:
		return m.not(m.eqMixed(td, td2, a, b))
	}
	switch td.k {
	case KInt:
		w := td.w
		if tok == token.SHL || tok == token.SHR {
			return m.shift(tok, td, td2, a, b)
		}
		if a.x == nil && b.x == nil {
			x, y := a.n, b.n
			switch tok {
			case token.ADD:
				return V{n: (x + y) & mask(w)}
			case token.SUB:
				return V{n: (x - y) & mask(w)}
			case token.MUL:
				return V{n: (x * y) & mask(w)}
			case token.AND:
				return V{n: x & y}
			case token.OR:
				return V{n: x | y}
			case token.XOR:
				return V{n: x ^ y}
			case token.AND_NOT:
				return V{n: x &^ y}
			case token.QUO, token.REM:
				if y == 0 {
					panic(guestPanic{"integer divide by zero"})
				}
				op := OUdiv
				if td.signed {
					op = OSdiv
				}
				if tok == token.REM {
					op = OUrem
					if td.signed {
						op = OSrem
					}
				}
				return V{n: evBin(op, x, y, w)}
			}
			var lt, gt bool
			if td.signed {
				sx, sy := sext64(x, w), sext64(y, w)
				lt, gt = sx < sy, sx > sy
			} else {
				lt, gt = x < y, x > y
			}
			switch tok {
			case token.LSS:
				return vBool(lt)
			case token.LEQ:
				return vBool(!gt)
			case token.GTR:
				return vBool(gt)
			case token.GEQ:
				return vBool(!lt)
			}
			panic("binop " + tok.String())
		}
		x, y := m.term(a, td), m.term(b, td)
		tm := m.tm
		lt := tm.Ult
		if td.signed {
			lt = tm.Slt
		}
		var r *Term
		switch tok {
		case token.ADD:
			r = tm.Add(x, y)
		case token.SUB:
			r = tm.Sub(x, y)
		case token.MUL:
			r = tm.Mul(x, y)
		case token.AND:
			r = tm.Band(x, y)
		case token.OR:
			r = tm.Bor(x, y)
		case token.XOR:
			r = tm.Bxor(x, y)
		case token.AND_NOT:
			r = tm.Band(x, tm.Bnot(y))
		case token.QUO, token.REM:
			if m.branch(tm.Eq(y, tm.Const(0, w))) {
				panic(guestPanic{"integer divide by zero"})
			}
			switch {
			case tok == token.QUO && td.signed:
				r = tm.Sdiv(x, y)
			case tok == token.QUO:
				r = tm.Udiv(x, y)
			case td.signed:
				r = tm.Srem(x, y)
			default:
				r = tm.Urem(x, y)
			}
		case token.LSS:
			r = lt(x, y)
		case token.LEQ:
			r = tm.Not(lt(y, x))
		case token.GTR:
			r = lt(y, x)
		case token.GEQ:
			r = tm.Not(lt(x, y))
		default:
			panic("binop " + tok.String())
		}
		return m.fromT(r)
	case KFloat:
		x, y := a.f64(), b.f64()
		r := 0.0
		switch tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
		if td.w == 32 {
			r = float64(float32(r))
		}
		return vF64(r)
	case KString:
		sa, oa := a.conc()
		sb, ob := b.conc()
		if tok == token.ADD {
			if oa && ob {
				return vStr(sa + sb)
			}
			return mkStr(append(append([]V(nil), a.strBytes()...), b.strBytes()...))
		}
		if !oa || !ob {
			c := m.cmpBytes(a.strBytes(), b.strBytes())
			switch tok {
			case token.LSS:
				return vBool(c < 0)
			case token.LEQ:
				return vBool(c <= 0)
			case token.GTR:
				return vBool(c > 0)
			case token.GEQ:
				return vBool(c >= 0)
			}
		}
		switch tok {
		case token.LSS:
			return vBool(sa < sb)
		case token.LEQ:
			return vBool(sa <= sb)
		case token.GTR:
			return vBool(sa > sb)
		case token.GEQ:
			return vBool(sa >= sb)
		}
	case KBool:
		switch tok {
		case token.AND, token.LAND:
			return m.and(a, b)
		case token.OR, token.LOR:
			return m.not(m.and(m.not(a), m.not(b)))
		}
	}
	m.unsupported(fmt.Sprintf("binop %s on %s", tok, td))
	return V{}
}

// cmpBytes compares lexicographically, forking on symbolic bytes.
func (m *Machine) cmpBytes(a, b []V) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := m.termW(a[i], 8), m.termW(b[i], 8)
		if m.branch(m.tm.Eq(x, y)) {
			continue
		}
		if m.branch(m.tm.Ult(x, y)) {
			return -1
		}
		return 1
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func (m *Machine) eqMixed(td, td2 *TD, a, b V) V {
	if td.k != td2.k {
		// interface vs concrete, or nil constants
		if td.k == KIface && td2.k != KIface && td2.k != KPtr {
			return m.eq(td, a, V{x: &Iface{td: td2, v: b}})
		}
		if td2.k == KIface && td.k != KIface && td.k != KPtr {
			return m.eq(td2, V{x: &Iface{td: td, v: a}}, b)
		}
		if td.k == KIface && td2.k == KPtr && b.x != nil {
			return m.eq(td, a, V{x: &Iface{td: td2, v: b}})
		}
		if td2.k == KIface && td.k == KPtr && a.x != nil {
			return m.eq(td2, V{x: &Iface{td: td, v: a}}, b)
		}
		return vBool(a.x == nil && b.x == nil)
	}
	return m.eq(td, a, b)
}

func (m *Machine) shift(tok token.Token, td, td2 *TD, a, b V) V {
	w := td.w
	if td2.signed {
		if b.x != nil {
			if m.branch(m.tm.Slt(b.x.(*Term), m.tm.Const(0, td2.w))) {
				panic(guestPanic{"negative shift amount"})
			}
		} else if sext64(b.n, td2.w) < 0 {
			panic(guestPanic{"negative shift amount"})
		}
	}
	if a.x == nil && b.x == nil {
		s := b.n
		if tok == token.SHL {
			if s >= uint64(w) {
				return V{}
			}
			return V{n: a.n << s & mask(w)}
		}
		if td.signed {
			if s >= uint64(w) {
				s = uint64(w) - 1
			}
			return V{n: uint64(sext64(a.n, w)>>s) & mask(w)}
		}
		if s >= uint64(w) {
			return V{}
		}
		return V{n: a.n >> s}
	}
	tm := m.tm
	k := m.term(b, td2)
	if k.w > w {
		if !k.isConst() {
			big := tm.Not(tm.Ult(k, tm.Const(uint64(w), k.w)))
			k = tm.Ite(big, tm.Const(uint64(w), w), tm.Extract(k, w-1, 0))
		} else {
			v := k.val
			if v > uint64(w) {
				v = uint64(w)
			}
			k = tm.Const(v, w)
		}
	} else {
		k = tm.Zext(k, w)
	}
	x := m.term(a, td)
	switch {
	case tok == token.SHL:
		return m.fromT(tm.Shl(x, k))
	case td.signed:
		return m.fromT(tm.Ashr(x, k))
	}
	return m.fromT(tm.Lshr(x, k))
}

// boundIdx checks 0 <= i < n; returns the concrete index or, for symbolic
// indexes, a term. ok=false when a panic was raised.
func (m *Machine) boundIdx(g *G, iv V, td *TD, n int) (int, *Term, bool) {
	if iv.x == nil {
		i := sext64(iv.n, td.w)
		if !td.signed {
			i = int64(iv.n)
		}
		if i < 0 || i >= int64(n) {
			m.rtPanic(g, fmt.Sprintf("index out of range [%d] with length %d", i, n))
			return 0, nil, false
		}
		return int(i), nil, true
	}
	t := iv.x.(*Term)
	var inb *Term
	if td.signed {
		t2 := m.tm.Sext(t, 64)
		inb = m.tm.Ult(t2, m.tm.Const(uint64(n), 64))
		t = t2
	} else {
		t = m.tm.Zext(t, 64)
		inb = m.tm.Ult(t, m.tm.Const(uint64(n), 64))
	}
	if !m.branch(inb) {
		m.rtPanic(g, fmt.Sprintf("index out of range with length %d", n))
		return 0, nil, false
	}
	return 0, t, true
}

func (m *Machine) indexAddr(g *G, fr *Frame, ins *Ins) bool {
	base := m.get(fr, &ins.a)
	var s []V
	if ins.td.k == KSlice {
		s = base.slice()
	} else {
		p, ok := base.x.(*V)
		if !ok || p == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return false
		}
		s = p.x.(*ArrV).e
	}
	i, t, ok := m.boundIdx(g, m.get(fr, &ins.b), ins.td2, len(s))
	if !ok {
		return false
	}
	if t != nil {
		// a load only: build an ite chain when the single use is a deref of a scalar
		i = int(m.concretizeT(t))
	}
	fr.regs[ins.dst] = V{x: &s[i]}
	return true
}

func (m *Machine) index(g *G, fr *Frame, ins *Ins) bool {
	base := m.get(fr, &ins.a)
	var s []V
	switch ins.td.k {
	case KString:
		if str, ok := base.conc(); ok {
			iv := m.get(fr, &ins.b)
			if iv.x == nil {
				i, _, ok := m.boundIdx(g, iv, ins.td2, len(str))
				if !ok {
					return false
				}
				fr.regs[ins.dst] = V{n: uint64(str[i])}
				return true
			}
		}
		s = base.strBytes()
	case KArray:
		s = base.x.(*ArrV).e
	default:
		s = base.slice()
	}
	i, t, ok := m.boundIdx(g, m.get(fr, &ins.b), ins.td2, len(s))
	if !ok {
		return false
	}
	if t != nil {
		i = int(m.concretizeT(t))
	}
	fr.regs[ins.dst] = copyArg(s[i])
	return true
}

func (m *Machine) sliceOp(g *G, fr *Frame, ins *Ins) bool {
	x := m.get(fr, &ins.a)
	i64 := func(o *opnd) int {
		v := m.get(fr, o)
		if v.x != nil {
			// bounds of slice expressions are ints in practice
			t := v.x.(*Term)
			return int(sext64(m.concretizeT(t), t.w))
		}
		return int(int64(v.n))
	}
	if ins.td.k == KString {
		n := x.strLen()
		lo, hi := 0, n
		if ins.n&1 != 0 {
			lo = i64(&ins.b)
		}
		if ins.n&2 != 0 {
			hi = i64(&ins.c)
		}
		if lo < 0 || hi < lo || hi > n {
			m.rtPanic(g, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
			return false
		}
		switch s := x.x.(type) {
		case nil:
			fr.regs[ins.dst] = V{}
		case string:
			fr.regs[ins.dst] = V{x: s[lo:hi]}
		case *SymStr:
			fr.regs[ins.dst] = mkStr(s.b[lo:hi])
		}
		return true
	}
	var s []V
	isNil := false
	if ins.td.k == KSlice {
		s = x.slice()
		isNil = x.x == nil
	} else {
		p, ok := x.x.(*V)
		if !ok || p == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return false
		}
		s = p.x.(*ArrV).e
	}
	lo, hi, mx := 0, len(s), cap(s)
	if ins.n&1 != 0 {
		lo = i64(&ins.b)
	}
	if ins.n&2 != 0 {
		hi = i64(&ins.c)
	}
	if ins.n&4 != 0 {
		mx = i64(&ins.d)
	}
	if lo < 0 || hi < lo || mx < hi || mx > cap(s) {
		m.rtPanic(g, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
		return false
	}
	if isNil {
		fr.regs[ins.dst] = V{}
		return true
	}
	fr.regs[ins.dst] = V{x: s[lo:hi:mx]}
	return true
}

func (m *Machine) lookup(g *G, fr *Frame, ins *Ins) bool {
	x, k := m.get(fr, &ins.a), m.get(fr, &ins.b)
	if ins.td.k == KString {
		return m.index(g, fr, ins)
	}
	mp, _ := x.x.(*MapV)
	if ins.td.key.k == KIface && k.x != nil {
		switch k.x.(*Iface).td.k {
		case KSlice, KMap, KFunc:
			m.rtPanic(g, "hash of unhashable type")
			return false
		}
	}
	if mp != nil && m.racing() {
		m.raceAt(g, fr, mp, false, false)
	}
	e := m.mapFind(mp, ins.td.key, k)
	var v V
	if e != nil {
		v = copyArg(e.v)
	} else {
		v = ins.td.elem.zero()
	}
	if ins.commaOk {
		fr.regs[ins.dst] = V{x: Tuple{v, vBool(e != nil)}}
	} else {
		fr.regs[ins.dst] = v
	}
	return true
}

func (m *Machine) next(g *G, fr *Frame, ins *Ins) {
	switch it := m.get(fr, &ins.a).x.(type) {
	case *MapIter:
		if it.m != nil && m.racing() {
			m.raceAt(g, fr, it.m, false, false)
		}
		for it.i < len(it.list) {
			e := it.list[it.i]
			it.i++
			if e.dead {
				continue
			}
			fr.regs[ins.dst] = V{x: Tuple{vBool(true), copyArg(e.k), copyArg(e.v)}}
			return
		}
		fr.regs[ins.dst] = V{x: Tuple{vBool(false), V{}, V{}}}
	case *StrIter:
		if it.i >= len(it.b) {
			fr.regs[ins.dst] = V{x: Tuple{vBool(false), V{}, V{}}}
			return
		}
		b := it.b[it.i]
		if b.x != nil {
			t := b.x.(*Term)
			if m.branch(m.tm.Ult(t, m.tm.Const(0x80, 8))) {
				fr.regs[ins.dst] = V{x: Tuple{vBool(true), vInt(it.i), m.fromT(m.tm.Zext(t, 32))}}
				it.i++
				return
			}
		}
		var buf []byte
		for k := it.i; k < len(it.b) && k < it.i+4; k++ {
			c := it.b[k]
			if c.x != nil {
				it.b[k] = V{n: m.concretizeT(c.x.(*Term))}
				c = it.b[k]
			}
			buf = append(buf, byte(c.n))
			if utf8.FullRune(buf) {
				break
			}
		}
		r, sz := utf8.DecodeRune(buf)
		fr.regs[ins.dst] = V{x: Tuple{vBool(true), vInt(it.i), V{n: uint64(uint32(r))}}}
		it.i += sz
	default:
		panic(fmt.Sprintf("next on %T", it))
	}
}

func (m *Machine) typeAssert(g *G, fr *Frame, ins *Ins) bool {
	x := m.get(fr, &ins.a)
	ok := false
	var v V
	if x.x != nil {
		i := x.x.(*Iface)
		if ins.td.k == KIface {
			if m.P.implements(i.td, ins.td) {
				ok = true
				v = x
			}
		} else if i.td == ins.td {
			ok = true
			v = copyArg(i.v)
		}
	}
	if ins.commaOk {
		if !ok {
			v = ins.td.zero()
		}
		fr.regs[ins.dst] = V{x: Tuple{v, vBool(ok)}}
		return true
	}
	if !ok {
		d := "nil"
		if x.x != nil {
			d = x.x.(*Iface).td.String()
		}
		m.rtPanic(g, "interface conversion: interface is "+d+", not "+ins.td.String())
		return false
	}
	fr.regs[ins.dst] = v
	return true
}

// runeString is string(rune) of a symbolic value: UTF-8, forking on its length.
func (m *Machine) runeString(t *Term, signed bool) V {
	tm := m.tm
	if signed {
		t = tm.Sext(t, 64)
	} else {
		t = tm.Zext(t, 64)
	}
	lt := func(k uint64) bool { return m.branch(tm.Ult(t, tm.Const(k, 64))) }
	b := func(lead uint64, hi, lo uint8) V {
		return m.fromT(tm.Bor(tm.Const(lead, 8), tm.Zext(tm.Extract(t, hi, lo), 8)))
	}
	switch {
	case lt(0x80):
		return mkStr([]V{b(0, 6, 0)})
	case lt(0x800):
		return mkStr([]V{b(0xc0, 10, 6), b(0x80, 5, 0)})
	case !lt(0xd800) && lt(0xe000), !lt(0x110000):
		return vStr("\uFFFD")
	case lt(0x10000):
		return mkStr([]V{b(0xe0, 15, 12), b(0x80, 11, 6), b(0x80, 5, 0)})
	}
	return mkStr([]V{b(0xf0, 20, 18), b(0x80, 17, 12), b(0x80, 11, 6), b(0x80, 5, 0)})
}

func (m *Machine) convert(v V, from, to *TD) V {
	switch {
	case from.k == KInt && to.k == KInt:
		if v.x == nil {
			if from.signed {
				return V{n: uint64(sext64(v.n, from.w)) & mask(to.w)}
			}
			return V{n: v.n & mask(to.w)}
		}
		t := v.x.(*Term)
		if from.signed {
			return m.fromT(m.tm.Sext(t, to.w))
		}
		return m.fromT(m.tm.Zext(t, to.w))
	case from.k == KInt && to.k == KFloat:
		n := m.concretize(v, from)
		var f float64
		if from.signed {
			f = float64(sext64(n, from.w))
		} else {
			f = float64(n)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return vF64(f)
	case from.k == KFloat && to.k == KInt:
		f := v.f64()
		if to.signed {
			return V{n: uint64(int64(f)) & mask(to.w)}
		}
		return V{n: uint64(f) & mask(to.w)}
	case from.k == KFloat && to.k == KFloat:
		if to.w == 32 {
			return V{n: math.Float64bits(float64(float32(v.f64())))}
		}
		return v
	case from.k == KString && to.k == KSlice:
		if to.elem.w == 8 {
			return V{x: append(make([]V, 0, v.strLen()), v.strBytes()...)}
		}
		s, ok := v.conc()
		if !ok {
			m.unsupported("[]rune of symbolic string")
		}
		var r []V
		for _, c := range s {
			r = append(r, V{n: uint64(uint32(c))})
		}
		if r == nil {
			r = []V{}
		}
		return V{x: r}
	case from.k == KSlice && to.k == KString:
		if from.elem.w == 8 {
			return mkStr(v.slice())
		}
		var sb strings.Builder
		for _, c := range v.slice() {
			sb.WriteRune(rune(int32(m.concretize(c, from.elem))))
		}
		return vStr(sb.String())
	case from.k == KInt && to.k == KString && v.x != nil:
		return m.runeString(v.x.(*Term), from.signed)
	case from.k == KInt && to.k == KString:
		n := m.concretize(v, from)
		r := rune(sext64(n, from.w))
		if !from.signed {
			if n > 0x10ffff {
				r = utf8.RuneError
			} else {
				r = rune(n)
			}
		}
		return vStr(string(r))
	case from.k == KUnsafe && to.k == KInt || from.k == KPtr && to.k == KInt:
		if v.x == nil {
			return V{n: v.n}
		}
		return V{n: m.addrOf(v.x)}
	case from.k == KInt && to.k == KUnsafe:
		return V{x: m.addrBack[v.n]}
	case from.k == KUnsafe && to.k == KPtr && to.elem != nil:
		// string and []byte headers seen as each other
		if c, ok := v.x.(*V); ok {
			switch x := c.x.(type) {
			case []V:
				if to.elem.k == KString {
					s := mkStr(x)
					return V{x: &s}
				}
			case string, *SymStr:
				if to.elem.k == KSlice {
					return V{x: &V{x: append([]V(nil), c.strBytes()...)}}
				}
			}
		}
	}
	return v
}

func (m *Machine) addrOf(x any) uint64 {
	if a, ok := m.addrs[x]; ok {
		return a
	}
	a := uint64(0xc000000000) + uint64(len(m.addrs))*64
	m.addrs[x] = a
	m.addrBack[a] = x
	return a
}

// growCap mimics the runtime's growth policy (without size classes, except for bytes).
func growCap(old, need int, td *TD) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < need {
		nc = need
	}
	sz := 8
	if td.k == KInt {
		sz = int(td.w / 8)
	} else if td.k == KString || td.k == KIface {
		sz = 16
	} else if td.k == KSlice {
		sz = 24
	}
	if !td.agg && nc*sz <= 1024 {
		for _, c := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024} {
			if nc*sz <= c {
				return c / sz
			}
		}
	}
	return nc
}

func (m *Machine) builtin(g *G, fr *Frame, b *ssa.Builtin, args []V, tds []*TD) (V, bool) {
	switch b.Name() {
	case "len":
		switch tds[0].k {
		case KString:
			return vInt(args[0].strLen()), true
		case KSlice:
			return vInt(len(args[0].slice())), true
		case KMap:
			mp, _ := args[0].x.(*MapV)
			if mp == nil {
				return vInt(0), true
			}
			if m.racing() {
				m.raceAt(g, fr, mp, false, false)
			}
			return vInt(mp.n), true
		case KChan:
			ch, _ := args[0].x.(*ChanV)
			if ch == nil {
				return vInt(0), true
			}
			return vInt(len(ch.buf)), true
		case KArray:
			return vInt(tds[0].n), true
		case KPtr:
			return vInt(tds[0].elem.n), true
		}
	case "cap":
		switch tds[0].k {
		case KSlice:
			return vInt(cap(args[0].slice())), true
		case KChan:
			ch, _ := args[0].x.(*ChanV)
			if ch == nil {
				return vInt(0), true
			}
			return vInt(ch.cap), true
		case KArray:
			return vInt(tds[0].n), true
		case KPtr:
			return vInt(tds[0].elem.n), true
		}
	case "append":
		s := args[0].slice()
		var t []V
		if tds[1].k == KString {
			t = args[1].strBytes()
		} else {
			t = args[1].slice()
		}
		if len(t) == 0 {
			return args[0], true
		}
		el := tds[0].elem
		n := len(s) + len(t)
		var r []V
		if m.racing() && tds[1].k != KString {
			m.raceSlice(g, fr, t, false)
		}
		if n <= cap(s) {
			r = s[:n]
			if m.racing() {
				m.raceSlice(g, fr, r[len(s):], true)
			}
			if el.agg {
				src := make([]V, len(t))
				for i := range t {
					src[i] = copyV(t[i])
				}
				for i := range src {
					storeV(&r[len(s)+i], src[i])
				}
			} else {
				copy(r[len(s):], t)
			}
		} else {
			if m.racing() {
				m.raceSlice(g, fr, s, false)
			}
			r = makeElems(el, n, growCap(cap(s), n, el))
			if el.agg {
				for i := range s {
					storeV(&r[i], s[i])
				}
				for i := range t {
					storeV(&r[len(s)+i], t[i])
				}
			} else {
				copy(r, s)
				copy(r[len(s):], t)
			}
		}
		return V{x: r}, true
	case "copy":
		d := args[0].slice()
		var t []V
		if tds[1].k == KString {
			t = args[1].strBytes()
		} else {
			t = args[1].slice()
		}
		n := len(d)
		if len(t) < n {
			n = len(t)
		}
		if m.racing() {
			if tds[1].k != KString {
				m.raceSlice(g, fr, t[:n], false)
			}
			m.raceSlice(g, fr, d[:n], true)
		}
		if tds[0].elem.agg {
			src := make([]V, n)
			for i := 0; i < n; i++ {
				src[i] = copyV(t[i])
			}
			for i := 0; i < n; i++ {
				storeV(&d[i], src[i])
			}
		} else {
			copy(d[:n], t[:n])
		}
		return vInt(n), true
	case "close":
		ch, _ := args[0].x.(*ChanV)
		if ch == nil {
			m.gopanic(g, m.rtErrV("close of nil channel"))
			return V{}, false
		}
		if ch.closed {
			m.gopanic(g, m.rtErrV("close of closed channel"))
			return V{}, false
		}
		m.chanClose(g, fr, ch)
		return V{}, true
	case "delete":
		mp, _ := args[0].x.(*MapV)
		if mp != nil && m.racing() {
			m.raceAt(g, fr, mp, true, false)
		}
		m.mapDel(mp, tds[0].key, args[1])
		return V{}, true
	case "clear":
		switch x := args[0].x.(type) {
		case *MapV:
			if m.racing() {
				m.raceAt(g, fr, x, true, false)
			}
			for _, e := range x.ents {
				e.dead = true
			}
			x.ents, x.idx, x.n, x.nsym = nil, map[any]*mapEnt{}, 0, 0
		case []V:
			if m.racing() {
				m.raceSlice(g, fr, x, true)
			}
			for i := range x {
				storeV(&x[i], tds[0].elem.zero())
			}
		}
		return V{}, true
	case "panic":
		m.gopanic(g, args[0])
		return V{}, false
	case "print", "println":
		return V{}, true
	case "recover":
		return m.recover(fr), true
	case "min", "max":
		r := args[0]
		for i := 1; i < len(args); i++ {
			c := m.binop(token.LSS, tds[0], tds[0], args[i], r)
			if c.x != nil && tds[0].k == KInt {
				x, y := m.term(args[i], tds[0]), m.term(r, tds[0])
				if b.Name() == "max" {
					x, y = y, x
				}
				r = m.fromT(m.tm.Ite(c.x.(*Term), x, y))
				continue
			}
			take := m.truth(c)
			if (b.Name() == "min") == take {
				r = args[i]
			}
		}
		return r, true
	case "ssa:wrapnilchk":
		if args[0].x == nil {
			m.rtPanic(g, "value method called using nil pointer")
			return V{}, false
		}
		return args[0], true
	case "ssa:deferstack":
		return V{x: fr}, true
	case "SliceData":
		s := args[0].slice()
		if cap(s) == 0 {
			if s == nil {
				return V{}, true
			}
			return V{x: new(V)}, true
		}
		return V{x: &s[:1][0]}, true
	case "StringData":
		bs := args[0].strBytes()
		if len(bs) == 0 {
			return V{}, true
		}
		bs = append([]V(nil), bs...)
		return V{x: &bs[0]}, true
	case "String":
		n := int(int64(m.concretize(args[1], tds[1])))
		p, _ := args[0].x.(*V)
		if p == nil || n == 0 {
			return vStr(""), true
		}
		return mkStr(unsafe.Slice(p, n)), true
	case "Slice":
		n := int(int64(m.concretize(args[1], tds[1])))
		p, _ := args[0].x.(*V)
		if p == nil {
			return V{}, true
		}
		return V{x: unsafe.Slice(p, n)}, true
	}
	m.unsupported("builtin " + b.Name() + " on " + tds[0].String())
	return V{}, false
}

// recover implements the recover built-in called in frame fr.
func (m *Machine) recover(fr *Frame) V {
	if d := fr.dfor; d != nil && d.panic != nil && !d.panic.recovered && !d.panic.goexit && fr.panic == nil {
		d.panic.recovered = true
		return d.panic.val
	}
	return V{}
}

func (m *Machine) deferredBuiltin(g *G, fr *Frame, d deferRec) bool {
	if d.bi.Name() == "recover" {
		// recover called directly by defer: stops the panic
		if fr.panic != nil && !fr.panic.goexit {
			fr.panic.recovered = true
		}
		return true
	}
	m.builtin(g, fr, d.bi, d.args, d.tds)
	return true
}

// concretize picks concrete values for v, exploring every feasible one.
func (m *Machine) concretize(v V, td *TD) uint64 {
	if v.x == nil {
		return v.n
	}
	n := m.concretizeT(v.x.(*Term))
	if td.signed {
		return uint64(sext64(n, td.w))
	}
	return n
}
