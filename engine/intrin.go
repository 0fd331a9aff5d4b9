package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modelTable maps library functions to Go models interpreted instead.
var modelTable = map[string]string{
	"(*sync.Map).Range":    "SyncMapRange",
	"errors.Is":            "ErrorsIs",
	"errors.As":            "ErrorsAs",
	"fmt.Errorf":           "FmtErrorf",
	"fmt.Sprintf":          "FmtSprintf",
	"fmt.Sprint":           "FmtSprint",
	"fmt.Sprintln":         "FmtSprintln",
	"fmt.Fprintf":          "FmtFprintf",
	"fmt.Fprint":           "FmtFprint",
	"fmt.Fprintln":         "FmtFprintln",
	"(*sync.Cond).Wait":    "CondWait",
	"(*sync.WaitGroup).Go": "WGGo",
	"time.AfterFunc":       "TimeAfterFunc",
	"time.NewTimer":        "TimeNewTimer",
	"time.After":           "TimeAfter",
	"time.NewTicker":       "TimeNewTicker",
	"time.Tick":            "TimeTick",
	"(*time.Ticker).Stop":  "TickerStop",
	"(*time.Ticker).Reset": "TickerReset",
	"(*time.Timer).Stop":   "TimerStop",
	"(*time.Timer).Reset":  "TimerReset",
	"math/rand.Shuffle":    "RandShuffle",
	"math/rand/v2.Shuffle": "RandShuffle",
	"sort.Slice":           "SortSlice",

	"sort.SliceStable": "SortSlice",

	"github.com/gorilla/websocket.maskBytes": "WsMaskBytes",

	"(*net/http.ServeMux).HandleFunc":                  "MuxHandleFunc",
	"(*net/http.ServeMux).Handle":                      "MuxHandle",
	"(*net/http.ServeMux).ServeHTTP":                   "MuxServe",
	"(*net/http.Server).Serve":                         "HTTPServe",
	"(*net/http.Server).Close":                         "HTTPClose",
	"(*github.com/gorilla/websocket.Upgrader).Upgrade": "WSUpgrade",
	"(*github.com/gorilla/websocket.Dialer).Dial":      "WSDial",

	"net.DialTimeout":                   "NetDialTimeout",
	"net.Dial":                          "NetDial",
	"net.Listen":                        "NetListen",
	"(*net.Dialer).Dial":                "DialerDial",
	"(*net.Dialer).DialContext":         "DialerDialContext",
	"(*net.TCPConn).Read":               "TCPRead",
	"(*net.TCPConn).Write":              "TCPWrite",
	"(*net.TCPConn).Close":              "TCPClose",
	"(*net.TCPConn).LocalAddr":          "TCPAddr",
	"(*net.TCPConn).RemoteAddr":         "TCPAddr",
	"(*net.TCPConn).SetDeadline":        "TCPSetDeadline",
	"(*net.TCPConn).SetReadDeadline":    "TCPSetReadDeadline",
	"(*net.TCPConn).SetWriteDeadline":   "TCPSetWriteDeadline",
	"(*net.conn).Read":                  "TCPRead",
	"(*net.conn).Write":                 "TCPWrite",
	"(*net.conn).Close":                 "TCPClose",
	"(*net.conn).LocalAddr":             "TCPAddr",
	"(*net.conn).RemoteAddr":            "TCPAddr",
	"(*net.conn).SetDeadline":           "TCPSetDeadline",
	"(*net.conn).SetReadDeadline":       "TCPSetReadDeadline",
	"(*net.conn).SetWriteDeadline":      "TCPSetWriteDeadline",
	"(*net.TCPConn).writeBuffers":       "TCPWriteBuffers",
	"(*net.conn).writeBuffers":          "TCPWriteBuffers",
	"(*net.conn).SetReadBuffer":         "TCPSetReadBuffer",
	"(*net.conn).SetWriteBuffer":        "TCPSetWriteBuffer",
	"(*net.TCPConn).SetReadBuffer":      "TCPSetReadBuffer",
	"(*net.TCPConn).SetWriteBuffer":     "TCPSetWriteBuffer",
	"(*net.TCPConn).SetKeepAlive":       "TCPSetKeepAlive",
	"(*net.TCPConn).SetKeepAlivePeriod": "TCPSetKeepAlivePeriod",
	"(*net.TCPConn).SetNoDelay":         "TCPSetKeepAlive",

	"(*crypto/tls.Conn).Handshake":        "TLSHandshake",
	"(*crypto/tls.Conn).HandshakeContext": "TLSHandshakeContext",
	"(*crypto/tls.Conn).Read":             "TLSRead",
	"(*crypto/tls.Conn).Write":            "TLSWrite",
	"(*crypto/tls.Conn).Close":            "TLSClose",
	"(*crypto/tls.Conn).ConnectionState":  "TLSState",
	"crypto/tls.DialWithDialer":           "TLSDialWithDialer",
	"crypto/tls.Dial":                     "TLSDial",
}

// redirects maps body-less harness functions to the (unexported) functions
// they are linknamed to.
var redirects = map[string][2]string{
	"verifh/fake.wsNewConn": {"github.com/gorilla/websocket", "newConn"},
}

// stubPkgs: calls into these packages do nothing and return zero values.
var stubPkgs = []string{
	"go.uber.org/zap", "github.com/zhiqiangxu/util/logger", "log", "log/slog",
	"github.com/gogo/protobuf", "github.com/golang/protobuf", "internal/godebug", "internal/race", "internal/msan", "internal/asan",
	"runtime/debug", "runtime/trace", "runtime/pprof", "internal/trace",
}

var noStub = map[string]bool{}

var intrinsics map[string]Intrinsic

func zeroRet(m *Machine, g *G, fr *Frame, fi *FnInfo, args []V) (V, int) {
	if fi.resTD == nil {
		return V{}, iDone
	}
	return fi.resTD.zero(), iDone
}

func findIntrinsic(fi *FnInfo, fn *ssa.Function) Intrinsic {
	if i, ok := intrinsics[fi.name]; ok {
		return i
	}
	if fi.pkg == "sync/atomic" && fn.Signature.Recv() == nil {
		return atomicIntrinsic(fn)
	}
	if strings.HasPrefix(fi.name, "fmt.Print") {
		return zeroRet
	}
	for _, p := range stubPkgs {
		if fi.pkg == p || strings.HasPrefix(fi.pkg, p+"/") {
			if fn.Name() == "init" && fn.Synthetic == "package initializer" {
				return nil
			}
			return zeroRet
		}
	}
	return nil
}

// packages whose initialisers are executed in full
func initWanted(p string) bool {
	if isRepo(p) || strings.HasPrefix(p, "verifh/") {
		return true
	}
	switch p {
	case "context", "io", "bufio", "encoding/binary", "bytes", "strings", "github.com/zhiqiangxu/util", "github.com/oklog/run", "go.uber.org/ratelimit", "github.com/gorilla/websocket":
		return true
	}
	return false
}

// initPackages runs the initialisers of the harness package's imports.
func (m *Machine) initPackages() {
	pk := m.ex.harness.Pkg
	m.initPkg(pk)
}

func (m *Machine) initPkg(pk *ssa.Package) {
	path := pk.Pkg.Path()
	if m.inited[path] {
		return
	}
	m.inited[path] = true
	fi := m.P.info(pk.Func("init"))
	m.callSync(fi, nil)
}

// callSync runs a function to completion on a temporary goroutine.
func (m *Machine) callSync(fi *FnInfo, args []V) V {
	save := m.cur
	g := &G{id: -1, name: fi.name}
	holder := &Frame{fn: holderFn, regs: make([]V, 1), dst: -1}
	g.top = holder
	sq := m.runq
	m.runq = nil
	m.pushFrame(g, fi, args, 0)
	for g.top != holder {
		if g.st != gRun {
			m.unsupported("blocking call during initialisation: " + fi.name)
		}
		m.cur = g
		m.step(g)
	}
	m.runq = append(sq, m.runq...)
	m.cur = save
	return holder.regs[0]
}

// holderFn is the bottom frame of callSync's goroutine: reaching it stops step.
var holderFn = func() *FnInfo {
	f := &FnInfo{name: "callSync", code: []Ins{{op: iHold}}, nregs: 1, recover: -1}
	f.once.Do(func() {})
	return f
}()

func init() {
	intrinsics = map[string]Intrinsic{}
	reg := func(name string, f Intrinsic) { intrinsics[name] = f }
	done := func(v V) (V, int) { return v, iDone }
	nop := zeroRet

	// ---- package initialisers of skipped packages are intercepted in callFn by name suffix

	// ---- sym ----
	S := "verifh/sym."
	inp := func(w uint8) Intrinsic {
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			n, _ := a[0].conc()
			return done(m.newInput(n, w, false))
		}
	}
	reg(S+"Bool", inp(0))
	reg(S+"U8", inp(8))
	reg(S+"U16", inp(16))
	reg(S+"U32", inp(32))
	reg(S+"U64", inp(64))
	reg(S+"Int", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		n, _ := a[0].conc()
		v := m.newInput(n, 64, false)
		if t, ok := v.x.(*Term); ok {
			lo, hi := m.tm.Const(a[1].n, 64), m.tm.Const(a[2].n, 64)
			c := m.tm.And(m.tm.Not(m.tm.Slt(t, lo)), m.tm.Not(m.tm.Slt(hi, t)))
			if m.tm.eval(c, m.model) == 0 && len(m.decs) >= len(m.prefix) {
				m.model = m.model.with(t, a[1].n)
			}
			m.assume(m.fromT(c))
		} else if int64(v.n) < int64(a[1].n) || int64(v.n) > int64(a[2].n) {
			return done(a[1])
		}
		return done(v)
	})
	reg(S+"Choose", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		n, _ := a[0].conc()
		return done(vInt(m.choose(n, int(a[1].n), 0)))
	})
	reg(S+"Concrete", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if t, ok := a[0].x.(*Term); ok {
			return done(V{n: m.concretizeT(t)})
		}
		return done(a[0])
	})
	reg(S+"Assume", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		m.assume(a[0])
		return done(V{})
	})
	reg(S+"Assert", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		n, _ := a[1].conc()
		m.assert(a[0], n)
		return done(V{})
	})
	reg(S+"Reach", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		n, _ := a[0].conc()
		m.reach[n] = true
		return done(V{})
	})
	reg(S+"And", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(m.and(a[0], a[1])) })
	reg(S+"Or", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(m.not(m.and(m.not(a[0]), m.not(a[1]))))
	})
	reg(S+"Not", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(m.not(a[0])) })
	reg(S+"Implies", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(m.not(m.and(a[0], m.not(a[1]))))
	})
	reg(S+"EqBytes", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(m.eqBytes(a[0].slice(), a[1].slice()))
	})
	reg(S+"Ite64", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if a[0].x == nil {
			if a[0].n != 0 {
				return done(a[1])
			}
			return done(a[2])
		}
		return done(m.fromT(m.tm.Ite(a[0].x.(*Term), m.termW(a[1], 64), m.termW(a[2], 64))))
	})
	reg(S+"Quiesce", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if fr.intrSt != nil {
			fr.intrSt = nil
			return done(V{})
		}
		fr.intrSt = true
		g.quies = true
		m.block(g, "quiesce")
		return V{}, iBlock
	})
	reg(S+"Yield", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if fr.intrSt != nil || len(m.runq) == 0 {
			fr.intrSt = nil
			return done(V{})
		}
		fr.intrSt = true
		m.preempt(g)
		return V{}, iBlock
	})
	reg(S+"Live", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(vInt(len(m.gs) - 1)) })
	reg(S+"Heap", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(vInt(m.heapCensus())) })
	reg(S+"SmallStack", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		m.stackLimit = fr.depth + 300
		return done(V{})
	})
	reg(S+"Thorough", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(vBool(m.thorough)) })
	reg(S+"Symbolic", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(vBool(true)) })
	reg(S+"Log", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		n, _ := a[0].conc()
		m.logs = append(m.logs, logRec{n, []V{a[1]}, false})
		return done(V{})
	})
	reg(S+"LogBytes", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		n, _ := a[0].conc()
		m.logs = append(m.logs, logRec{n, append([]V(nil), a[1].slice()...), true})
		return done(V{})
	})
	reg(S+"AdvanceSec", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		cur, _ := m.side["symsec"].(V)
		t := m.tm.Add(m.termW(cur, 64), m.termW(a[0], 64))
		m.side["symsec"] = m.fromT(t)
		return done(V{})
	})

	reg(S+"Draw", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		q, _ := m.side["draws"].([]V)
		m.side["draws"] = append(append([]V(nil), q...), a[0])
		return done(V{})
	})

	// ---- sync ----
	type mutexSt struct{ locked bool }
	mst := func(m *Machine, p V) *mutexSt {
		if s, ok := m.side[p.x].(*mutexSt); ok {
			return s
		}
		s := &mutexSt{}
		m.side[p.x] = s
		return s
	}
	nilchk := func(m *Machine, g *G, p V) bool {
		if p.x == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return true
		}
		return false
	}
	reg("(*sync.Mutex).Lock", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if nilchk(m, g, a[0]) {
			return V{}, iPanicked
		}
		s := mst(m, a[0])
		if s.locked {
			m.blockPred(g, "mutex lock", func() bool { return !s.locked })
			return V{}, iBlock
		}
		s.locked = true
		m.lockAcq(g, fr, a[0].x)
		return done(V{})
	})
	reg("(*sync.Mutex).TryLock", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := mst(m, a[0])
		if s.locked {
			return done(vBool(false))
		}
		s.locked = true
		m.lockAcq(g, fr, a[0].x)
		return done(vBool(true))
	})
	reg("(*sync.Mutex).Unlock", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if nilchk(m, g, a[0]) {
			return V{}, iPanicked
		}
		s := mst(m, a[0])
		if !s.locked {
			m.violation("panic", "fatal error: sync: unlock of unlocked mutex at "+m.site(fr))
			m.end(endViolation, "panic")
		}
		s.locked = false
		m.lockRel(g, fr, a[0].x)
		return done(V{})
	})
	type rwSt struct {
		w  bool
		r  int
		ww map[*G]bool
	}
	rst := func(m *Machine, p V) *rwSt {
		if s, ok := m.side[p.x].(*rwSt); ok {
			return s
		}
		s := &rwSt{ww: map[*G]bool{}}
		m.side[p.x] = s
		return s
	}
	reg("(*sync.RWMutex).Lock", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if nilchk(m, g, a[0]) {
			return V{}, iPanicked
		}
		s := rst(m, a[0])
		if s.w || s.r > 0 {
			s.ww[g] = true
			m.blockPred(g, "rwmutex lock", func() bool { return !s.w && s.r == 0 })
			return V{}, iBlock
		}
		delete(s.ww, g)
		s.w = true
		m.lockAcq(g, fr, a[0].x)
		m.lockAcq(g, fr, rlockKey{a[0].x})
		return done(V{})
	})
	reg("(*sync.RWMutex).TryLock", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := rst(m, a[0])
		if s.w || s.r > 0 {
			return done(vBool(false))
		}
		s.w = true
		m.lockAcq(g, fr, a[0].x)
		m.lockAcq(g, fr, rlockKey{a[0].x})
		return done(vBool(true))
	})
	reg("(*sync.RWMutex).TryRLock", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := rst(m, a[0])
		if s.w || len(s.ww) > 0 {
			return done(vBool(false))
		}
		s.r++
		m.lockAcq(g, fr, a[0].x)
		return done(vBool(true))
	})
	reg("runtime.Goexit", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		fr.panic = &panicRec{goexit: true}
		m.unwind(g)
		return V{}, iPanicked
	})
	reg("(*sync.RWMutex).Unlock", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := rst(m, a[0])
		if !s.w {
			m.violation("panic", "fatal error: sync: Unlock of unlocked RWMutex at "+m.site(fr))
			m.end(endViolation, "panic")
		}
		s.w = false
		m.lockRel(g, fr, a[0].x)
		return done(V{})
	})
	reg("(*sync.RWMutex).RLock", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if nilchk(m, g, a[0]) {
			return V{}, iPanicked
		}
		s := rst(m, a[0])
		if s.w || len(s.ww) > 0 {
			m.blockPred(g, "rwmutex rlock", func() bool { return !s.w && len(s.ww) == 0 })
			return V{}, iBlock
		}
		s.r++
		m.lockAcq(g, fr, a[0].x)
		return done(V{})
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := rst(m, a[0])
		if s.r <= 0 {
			m.violation("panic", "fatal error: sync: RUnlock of unlocked RWMutex at "+m.site(fr))
			m.end(endViolation, "panic")
		}
		s.r--
		m.lockRel(g, fr, rlockKey{a[0].x})
		return done(V{})
	})
	type wgSt struct{ n int64 }
	wst := func(m *Machine, p V) *wgSt {
		if s, ok := m.side[p.x].(*wgSt); ok {
			return s
		}
		s := &wgSt{}
		m.side[p.x] = s
		return s
	}
	wgAdd := func(m *Machine, g *G, fr *Frame, p V, d int64) (V, int) {
		s := wst(m, p)
		if d < 0 {
			m.lockRel(g, fr, p.x)
		}
		s.n += d
		if s.n < 0 {
			m.gopanic(g, V{x: &Iface{td: tdOf(types.Typ[types.String]), v: vStr("sync: negative WaitGroup counter")}})
			return V{}, iPanicked
		}
		return V{}, iDone
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return wgAdd(m, g, fr, a[0], int64(a[1].n))
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return wgAdd(m, g, fr, a[0], -1) })
	reg("(*sync.WaitGroup).Wait", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if nilchk(m, g, a[0]) {
			return V{}, iPanicked
		}
		s := wst(m, a[0])
		if s.n > 0 {
			m.blockPred(g, "waitgroup wait", func() bool { return s.n == 0 })
			return V{}, iBlock
		}
		m.lockAcq(g, fr, a[0].x)
		return done(V{})
	})
	type condSt struct {
		next, sig int
	}
	cst := func(m *Machine, p V) *condSt {
		if s, ok := m.side[p.x].(*condSt); ok {
			return s
		}
		s := &condSt{}
		m.side[p.x] = s
		return s
	}
	reg("verifh/models.condAdd", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := cst(m, a[0])
		s.next++
		return done(vInt(s.next - 1))
	})
	reg("verifh/models.condWait", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := cst(m, a[0])
		t := int(a[1].n)
		if s.sig > t {
			m.lockAcq(g, fr, s)
			return done(V{})
		}
		m.blockPred(g, "cond wait", func() bool { return s.sig > t })
		return V{}, iBlock
	})
	reg("(*sync.Cond).Signal", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := cst(m, a[0])
		m.lockRel(g, fr, s)
		if s.sig < s.next {
			s.sig++
		}
		return done(V{})
	})
	reg("(*sync.Cond).Broadcast", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := cst(m, a[0])
		m.lockRel(g, fr, s)
		s.sig = s.next
		return done(V{})
	})
	// sync.Pool: last put, first got
	type poolSt struct{ items []V }
	reg("(*sync.Pool).Get", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s, _ := m.side[a[0].x].(*poolSt)
		if s != nil && len(s.items) > 0 {
			v := s.items[len(s.items)-1]
			s.items = s.items[:len(s.items)-1]
			m.lockAcq(g, fr, poolKey(v))
			return done(v)
		}
		st := a[0].x.(*V).x.(*StructV)
		nw := st.f[len(st.f)-1]
		c, _ := nw.x.(*Closure)
		if c == nil {
			return done(V{})
		}
		return V{x: &tailCall{c.fn, closureArgs(c, nil)}}, iTail
	})
	reg("(*sync.Pool).Put", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if a[1].x == nil {
			return done(V{})
		}
		s, _ := m.side[a[0].x].(*poolSt)
		if s == nil {
			s = &poolSt{}
			m.side[a[0].x] = s
		}
		s.items = append(s.items, a[1])
		m.lockRel(g, fr, poolKey(a[1]))
		return done(V{})
	})
	// sync.Map
	anyTD := tdOf(types.NewInterfaceType(nil, nil))
	sm := func(m *Machine, p V) *MapV {
		if s, ok := m.side[p.x].(*MapV); ok {
			return s
		}
		s := newMapV()
		m.side[p.x] = s
		return s
	}
	smReg := func(name string, f func(m *Machine, mp *MapV, a []V) V) {
		reg("(*sync.Map)."+name, func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			if nilchk(m, g, a[0]) {
				return V{}, iPanicked
			}
			m.lockAcq(g, fr, a[0].x)
			if name != "Load" {
				m.lockRel(g, fr, a[0].x)
			}
			return f(m, sm(m, a[0]), a), iDone
		})
	}
	smReg("Load", func(m *Machine, mp *MapV, a []V) V {
		if e := m.mapFind(mp, anyTD, a[1]); e != nil {
			return V{x: Tuple{e.v, vBool(true)}}
		}
		return V{x: Tuple{V{}, vBool(false)}}
	})
	smReg("Store", func(m *Machine, mp *MapV, a []V) V { m.mapSet(mp, anyTD, a[1], a[2]); return V{} })
	smReg("LoadOrStore", func(m *Machine, mp *MapV, a []V) V {
		if e := m.mapFind(mp, anyTD, a[1]); e != nil {
			return V{x: Tuple{e.v, vBool(true)}}
		}
		m.mapSet(mp, anyTD, a[1], a[2])
		return V{x: Tuple{a[2], vBool(false)}}
	})
	smReg("LoadAndDelete", func(m *Machine, mp *MapV, a []V) V {
		if e := m.mapFind(mp, anyTD, a[1]); e != nil {
			v := e.v
			m.mapDel(mp, anyTD, a[1])
			return V{x: Tuple{v, vBool(true)}}
		}
		return V{x: Tuple{V{}, vBool(false)}}
	})
	smReg("Delete", func(m *Machine, mp *MapV, a []V) V { m.mapDel(mp, anyTD, a[1]); return V{} })
	smReg("Swap", func(m *Machine, mp *MapV, a []V) V {
		if e := m.mapFind(mp, anyTD, a[1]); e != nil {
			v := e.v
			e.v = a[2]
			return V{x: Tuple{v, vBool(true)}}
		}
		m.mapSet(mp, anyTD, a[1], a[2])
		return V{x: Tuple{V{}, vBool(false)}}
	})
	smReg("CompareAndSwap", func(m *Machine, mp *MapV, a []V) V {
		if e := m.mapFind(mp, anyTD, a[1]); e != nil && m.truth(m.eq(anyTD, e.v, a[2])) {
			e.v = a[3]
			return vBool(true)
		}
		return vBool(false)
	})
	smReg("CompareAndDelete", func(m *Machine, mp *MapV, a []V) V {
		if e := m.mapFind(mp, anyTD, a[1]); e != nil && m.truth(m.eq(anyTD, e.v, a[2])) {
			m.mapDel(mp, anyTD, a[1])
			return vBool(true)
		}
		return vBool(false)
	})
	smReg("Clear", func(m *Machine, mp *MapV, a []V) V {
		*mp = *newMapV()
		return V{}
	})
	reg("verifh/models.syncMapKeys", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		var ks []V
		m.lockAcq(g, fr, a[0].x)
		for _, e := range sm(m, a[0]).ents {
			if !e.dead {
				ks = append(ks, e.k)
			}
		}
		return done(vSlice(ks))
	})
	// atomic.Value
	av := func(p V) *V { return &p.x.(*V).x.(*StructV).f[0] }
	reg("(*sync/atomic.Value).Load", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		m.raceAtomic(g, fr, av(a[0]), true, false)
		return done(*av(a[0]))
	})
	avChk := func(m *Machine, g *G, old, nw V) bool {
		if nw.x == nil {
			m.gopanic(g, m.rtErrV("sync/atomic: store of nil value into Value"))
			return true
		}
		if old.x != nil && old.x.(*Iface).td != nw.x.(*Iface).td {
			m.gopanic(g, m.rtErrV("sync/atomic: store of inconsistently typed value into Value"))
			return true
		}
		return false
	}
	reg("(*sync/atomic.Value).Store", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		p := av(a[0])
		if avChk(m, g, *p, a[1]) {
			return V{}, iPanicked
		}
		m.raceAtomic(g, fr, p, false, true)
		*p = a[1]
		return done(V{})
	})
	reg("(*sync/atomic.Value).Swap", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		p := av(a[0])
		if avChk(m, g, *p, a[1]) {
			return V{}, iPanicked
		}
		m.raceAtomic(g, fr, p, true, true)
		o := *p
		*p = a[1]
		return done(o)
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		p := av(a[0])
		if avChk(m, g, *p, a[2]) {
			return V{}, iPanicked
		}
		m.raceAtomic(g, fr, p, true, true)
		if m.truth(m.eq(anyTD, *p, a[1])) {
			*p = a[2]
			return done(vBool(true))
		}
		return done(vBool(false))
	})

	// ---- models helpers ----
	reg("verifh/models.asAssign", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		e := a[0].x.(*Iface)
		t := a[1].x.(*Iface)
		p := t.v.x.(*V)
		el := t.td.elem
		if el.k == KIface {
			if m.P.implements(e.td, el) {
				*p = a[0]
				return done(vBool(true))
			}
			return done(vBool(false))
		}
		if e.td == el {
			storeV(p, e.v)
			return done(vBool(true))
		}
		return done(vBool(false))
	})
	reg("verifh/models.connField", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(V{x: &a[0].x.(*V).x.(*StructV).f[0]})
	})
	tlsField := func(name string) Intrinsic {
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			st := m.P.pkgs["crypto/tls"].Type("Conn").Type().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return done(copyArg(a[0].x.(*V).x.(*StructV).f[i]))
				}
			}
			m.unsupported("tls.Conn has no field " + name)
			return V{}, iDone
		}
	}
	reg("verifh/models.tlsIsClient", tlsField("isClient"))
	reg("verifh/models.tlsConfig", tlsField("config"))
	reg("verifh/models.sprintf", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(m.sprintf(a[0], a[1].slice()))
	})
	sleep := func(m *Machine, g *G, fr *Frame, d int64, stop *V) (V, int) {
		if st, ok := fr.intrSt.(int64); ok {
			if m.now >= st || (stop != nil && stop.n != 0) {
				fr.intrSt = nil
				return V{}, iDone
			}
		} else {
			if d < 0 {
				d = 0
			}
			fr.intrSt = m.now + d
		}
		g.wake = fr.intrSt.(int64)
		m.block(g, "sleep")
		if stop != nil {
			g.pred = func() bool { return stop.n != 0 }
		}
		return V{}, iBlock
	}
	reg("time.Sleep", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return sleep(m, g, fr, int64(m.concretize(a[0], tdOf(types.Typ[types.Int64]))), nil)
	})
	reg("verifh/models.sleepOr", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return sleep(m, g, fr, int64(m.concretize(a[0], tdOf(types.Typ[types.Int64]))), a[1].x.(*V))
	})
	reg("verifh/models.sliceLen", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(vInt(len(a[0].x.(*Iface).v.slice())))
	})
	reg("verifh/models.swapElems", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		s := a[0].x.(*Iface).v.slice()
		i, j := int(a[1].n), int(a[2].n)
		x, y := copyV(s[i]), copyV(s[j])
		storeV(&s[i], y)
		storeV(&s[j], x)
		return done(V{})
	})

	// ---- time ----
	const unixToInternal = 62135596800
	now := func(m *Machine) V {
		sec := m.tm.Const(uint64(m.now/1e9+unixToInternal), 64)
		if s, ok := m.side["symsec"].(V); ok {
			sec = m.tm.Add(sec, m.termW(s, 64))
		}
		return V{x: &StructV{f: []V{{n: uint64(m.now % 1e9)}, m.fromT(sec), {}}}}
	}
	reg("time.Now", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(now(m)) })
	reg("time.runtimeNano", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(V{n: uint64(m.now)}) })
	reg("time.Since", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		n := now(m)
		sub := m.P.info(m.P.prog.LookupMethod(m.P.pkgs["time"].Type("Time").Type(), m.P.pkgs["time"].Pkg, "Sub"))
		return V{x: &tailCall{sub, []V{n, a[0]}}}, iTail
	})
	reg("time.Until", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		n := now(m)
		sub := m.P.info(m.P.prog.LookupMethod(m.P.pkgs["time"].Type("Time").Type(), m.P.pkgs["time"].Pkg, "Sub"))
		return V{x: &tailCall{sub, []V{a[0], n}}}, iTail
	})
	for _, n := range []string{"time.Now().String", "(time.Time).String", "(time.Duration).String"} {
		reg(n, nop)
	}

	// ---- runtime & friends ----
	for _, n := range []string{"runtime.GC", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.NumGoroutine", "runtime.Stack", "runtime.Caller", "runtime.Callers", "runtime.GOMAXPROCS", "runtime.NumCPU", "os.Getenv", "os.Exit", "runtime/debug.Stack", "runtime.AddCleanup"} {
		reg(n, nop)
	}
	typeOf := func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if a[0].x == nil {
			return done(V{})
		}
		n := a[0].x.(*Iface).td.String()
		return done(V{x: &Iface{td: m.P.rtype, v: V{x: &StructV{f: []V{vStr(n)}}}}})
	}
	reg("reflect.TypeOf", typeOf)
	reg("internal/reflectlite.TypeOf", typeOf)
	reg("runtime.Gosched", intrinsics[S+"Yield"])
	reg("internal/abi.NoEscape", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(a[0]) })
	reg("internal/abi.Escape", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) { return done(a[0]) })
	reg("github.com/zhiqiangxu/util.String", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(mkStr(a[0].slice()))
	})
	reg("github.com/zhiqiangxu/util.Slice", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(V{x: append([]V{}, a[0].strBytes()...)})
	})
	reg("internal/byteorder.BEUint64", nil)
	delete(intrinsics, "internal/byteorder.BEUint64")

	// ---- bytealg ----
	idxByte := func(get func(V) []V) Intrinsic {
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			c := m.termW(a[1], 8)
			for i, b := range get(a[0]) {
				if m.branch(m.tm.Eq(m.termW(b, 8), c)) {
					return done(vInt(i))
				}
			}
			return done(V{n: ^uint64(0)})
		}
	}
	reg("internal/bytealg.IndexByte", idxByte(func(v V) []V { return v.slice() }))
	reg("internal/bytealg.IndexByteString", idxByte(func(v V) []V { return v.strBytes() }))
	reg("internal/bytealg.Equal", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(m.eqBytes(a[0].slice(), a[1].slice()))
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("internal/bytealg.Compare", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(V{n: uint64(int64(m.cmpBytes(a[0].slice(), a[1].slice())))})
	})
	reg("internal/bytealg.CompareString", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(V{n: uint64(int64(m.cmpBytes(a[0].strBytes(), a[1].strBytes())))})
	})
	cnt := func(get func(V) []V) Intrinsic {
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			n := 0
			c := m.termW(a[1], 8)
			for _, b := range get(a[0]) {
				if m.branch(m.tm.Eq(m.termW(b, 8), c)) {
					n++
				}
			}
			return done(vInt(n))
		}
	}
	reg("internal/bytealg.Count", cnt(func(v V) []V { return v.slice() }))
	reg("internal/bytealg.CountString", cnt(func(v V) []V { return v.strBytes() }))
	reg("internal/bytealg.MakeNoZero", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		return done(V{x: make([]V, int(a[0].n))})
	})
	idxStr := func(get func(V) []V) Intrinsic {
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			s, t := get(a[0]), get(a[1])
			for i := 0; i+len(t) <= len(s); i++ {
				if m.truth(m.eqBytes(s[i:i+len(t)], t)) {
					return done(vInt(i))
				}
			}
			return done(V{n: ^uint64(0)})
		}
	}
	reg("internal/bytealg.IndexString", idxStr(func(v V) []V { return v.strBytes() }))
	reg("internal/bytealg.Index", idxStr(func(v V) []V { return v.slice() }))
	reg("strings.Index", intrinsics["internal/bytealg.IndexString"])
	reg("bytes.Index", intrinsics["internal/bytealg.Index"])

	// ---- math ----
	randn := func(w uint8) Intrinsic {
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			nv := a[len(a)-1]
			if nv.x == nil && int64(nv.n) <= 0 {
				m.gopanic(g, m.rtErrV("invalid argument to Intn"))
				return V{}, iPanicked
			}
			if q, _ := m.side["draws"].([]V); len(q) > 0 && nv.x == nil {
				m.side["draws"] = q[1:]
				return done(V{n: q[0].n % nv.n})
			}
			v := m.newInput(fmt.Sprintf("rand%d", w), w, false)
			if t, ok := v.x.(*Term); ok {
				c := m.tm.Ult(t, m.termW(nv, w))
				if m.tm.eval(c, m.model) == 0 && len(m.decs) >= len(m.prefix) {
					m.model = m.model.with(t, 0)
				}
				m.assume(m.fromT(c))
			} else if v.n >= nv.n {
				v.n = 0
			}
			return done(v)
		}
	}
	for _, p := range []string{"math/rand.", "math/rand/v2.", "(*math/rand.Rand).", "(*math/rand/v2.Rand)."} {
		reg(p+"Intn", randn(64))
		reg(p+"IntN", randn(64))
		reg(p+"Int63n", randn(64))
		reg(p+"Int64N", randn(64))
		reg(p+"Int31n", randn(32))
		reg(p+"Int32N", randn(32))
	}
	randv := func(w uint8) Intrinsic {
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			return done(m.newInput(fmt.Sprintf("rand%d", w), w, false))
		}
	}
	reg("math/rand.Uint32", randv(32))
	reg("math/rand.Uint64", randv(64))
	reg("math/rand.runtime_rand", randv(64))
	reg("math/rand/v2.runtime_rand", randv(64))
	reg("math/rand.Seed", nop)
	reg("math/bits.Len64", func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
		if a[0].x == nil {
			return done(vInt(bits.Len64(a[0].n)))
		}
		t := a[0].x.(*Term)
		r := m.tm.Const(0, 64)
		for i := 1; i <= 64; i++ {
			r = m.tm.Ite(m.tm.Eq(m.tm.Extract(t, uint8(i-1), uint8(i-1)), m.tm.Const(1, 1)), m.tm.Const(uint64(i), 64), r)
		}
		return done(m.fromT(r))
	})
}

func atomicIntrinsic(fn *ssa.Function) Intrinsic {
	n := fn.Name()
	var w uint8 = 64
	switch {
	case strings.HasSuffix(n, "32"):
		w = 32
	}
	ptr := strings.HasSuffix(n, "Pointer")
	get := func(m *Machine, g *G, a []V) *V {
		p, ok := a[0].x.(*V)
		if !ok || p == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return nil
		}
		return p
	}
	add := func(m *Machine, x, y V) V {
		if x.x == nil && y.x == nil {
			return V{n: (x.n + y.n) & mask(w)}
		}
		return m.fromT(m.tm.Add(m.termW(x, w), m.termW(y, w)))
	}
	switch {
	case strings.HasPrefix(n, "Add"):
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			p := get(m, g, a)
			if p == nil {
				return V{}, iPanicked
			}
			m.raceAtomic(g, fr, p, true, true)
			*p = add(m, *p, a[1])
			return *p, iDone
		}
	case strings.HasPrefix(n, "Load"):
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			p := get(m, g, a)
			if p == nil {
				return V{}, iPanicked
			}
			m.raceAtomic(g, fr, p, true, false)
			return *p, iDone
		}
	case strings.HasPrefix(n, "Store"):
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			p := get(m, g, a)
			if p == nil {
				return V{}, iPanicked
			}
			m.raceAtomic(g, fr, p, false, true)
			*p = a[1]
			return V{}, iDone
		}
	case strings.HasPrefix(n, "Swap"):
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			p := get(m, g, a)
			if p == nil {
				return V{}, iPanicked
			}
			m.raceAtomic(g, fr, p, true, true)
			o := *p
			*p = a[1]
			return o, iDone
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			p := get(m, g, a)
			if p == nil {
				return V{}, iPanicked
			}
			m.raceAtomic(g, fr, p, true, true)
			var same bool
			if ptr {
				same = p.x == a[1].x
			} else if p.x == nil && a[1].x == nil {
				same = p.n == a[1].n
			} else {
				same = m.branch(m.tm.Eq(m.termW(*p, w), m.termW(a[1], w)))
			}
			if same {
				*p = a[2]
			}
			return vBool(same), iDone
		}
	case strings.HasPrefix(n, "And"), strings.HasPrefix(n, "Or"):
		and := strings.HasPrefix(n, "And")
		return func(m *Machine, g *G, fr *Frame, fi *FnInfo, a []V) (V, int) {
			p := get(m, g, a)
			if p == nil {
				return V{}, iPanicked
			}
			o := *p
			if and {
				*p = m.fromT(m.tm.Band(m.termW(o, w), m.termW(a[1], w)))
			} else {
				*p = m.fromT(m.tm.Bor(m.termW(o, w), m.termW(a[1], w)))
			}
			return o, iDone
		}
	}
	return nil
}

// decimal formats a symbolic integer, one path per sign and number of digits.
func (m *Machine) decimal(v V, td *TD) (out []V) {
	t := m.tm.Sext(m.term(v, td), 64)
	if !td.signed {
		t = m.tm.Zext(m.term(v, td), 64)
	} else if m.branch(m.tm.Slt(t, m.tm.Const(0, 64))) {
		out = append(out, V{n: '-'})
		t = m.tm.Sub(m.tm.Const(0, 64), t)
	}
	n, p := 1, uint64(10)
	for n < 20 && !m.branch(m.tm.Ult(t, m.tm.Const(p, 64))) {
		n++
		if n == 20 {
			break
		}
		p *= 10
	}
	p = 1
	for i := 1; i < n; i++ {
		p *= 10
	}
	for ; p > 0; p /= 10 {
		d := m.tm.Urem(m.tm.Udiv(t, m.tm.Const(p, 64)), m.tm.Const(10, 64))
		out = append(out, m.fromT(m.tm.Add(m.tm.Extract(d, 7, 0), m.tm.Const('0', 8))))
	}
	return
}

// sprintf models the verbs the code under test uses; symbolic strings are kept
// symbolic under %s and %v.
func (m *Machine) sprintf(f V, args []V) V {
	fs, ok := f.conc()
	if !ok {
		m.unsupported("symbolic format string")
	}
	var out []V
	emit := func(s string) { out = append(out, vStr(s).strBytes()...) }
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			out = append(out, V{n: uint64(fs[i])})
			continue
		}
		i++
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			break
		}
		if fs[i] == '%' {
			emit("%")
			continue
		}
		if ai >= len(args) {
			emit("%!" + string(fs[i]) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		if a.x == nil {
			emit("<nil>")
			continue
		}
		ifc := a.x.(*Iface)
		switch ifc.td.k {
		case KString:
			out = append(out, ifc.v.strBytes()...)
		case KInt:
			if ifc.v.x != nil {
				out = append(out, m.decimal(ifc.v, ifc.td)...)
				continue
			}
			if ifc.td.signed {
				emit(fmt.Sprintf("%d", sext64(ifc.v.n, ifc.td.w)))
			} else {
				emit(fmt.Sprintf("%d", ifc.v.n))
			}
		case KBool:
			emit(fmt.Sprint(m.truth(ifc.v)))
		case KSlice:
			if ifc.td.elem.w == 8 && ifc.td.elem.k == KInt {
				out = append(out, ifc.v.slice()...)
			} else {
				emit("[...]")
			}
		default:
			emit("<" + ifc.td.String() + ">")
		}
	}
	return mkStr(out)
}

// lazyGlobal evaluates the initialiser of one package-level variable of a
// package whose init function is not run as a whole.
func (m *Machine) lazyGlobal(g *ssa.Global, c *V) {
	init := g.Pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	var store *ssa.Store
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				store = st
			}
		}
	}
	if store == nil {
		return
	}
	// backward slice
	want := map[ssa.Instruction]bool{}
	var addV func(v ssa.Value)
	var addI func(in ssa.Instruction)
	bad := ""
	addI = func(in ssa.Instruction) {
		if want[in] {
			return
		}
		want[in] = true
		if _, ok := in.(*ssa.Phi); ok {
			bad = "phi"
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				addV(*op)
			}
		}
		if al, ok := in.(*ssa.Alloc); ok {
			addRefs(al, addI)
		}
		if mm, ok := in.(*ssa.MakeMap); ok {
			for _, r := range *mm.Referrers() {
				if mu, ok := r.(*ssa.MapUpdate); ok {
					addI(mu)
				}
			}
		}
	}
	addV = func(v ssa.Value) {
		if in, ok := v.(ssa.Instruction); ok {
			addI(in)
		}
	}
	addI(store)
	if bad != "" {
		return
	}
	fi := m.P.info(init)
	fi.compile(m.P)
	sl := &FnInfo{fn: init, name: "init of " + g.String(), pkg: fi.pkg, recover: -1, nregs: fi.nregs}
	for _, ins := range fi.code {
		if want[ins.in] {
			sl.code = append(sl.code, ins)
		}
	}
	sl.code = append(sl.code, Ins{op: iReturn})
	sl.once.Do(func() {})
	m.callSync(sl, nil)
}

func addRefs(v ssa.Value, addI func(ssa.Instruction)) {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				addI(r)
			}
		case *ssa.FieldAddr:
			addRefs(r, addI)
		case *ssa.IndexAddr:
			addRefs(r, addI)
		}
	}
}
