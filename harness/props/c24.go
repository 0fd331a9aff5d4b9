package props

import (
	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// counting is a binding that counts the requests it handles, by r.RequestID/64.
func counting(n *[16]int) qrpc.ServerBinding {
	return qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		n[r.RequestID/64]++
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})}
}

// gated is a throttled binding together with an unthrottled one. Requests of
// connection i carry identifier i.
type gated struct {
	*srvEnv
	kind        uint8
	got, other  [16]int
	conns       []*fake.Conn
	fed         []int
	on          bool
	base        []int // requests handled when the throttle was set; -1: dialled since
	accepted    int   // connections accepted then
	ofc         *fake.Conn
	otherFed    int
	otherDialed int
}

func newGated(other bool) *gated {
	g := &gated{kind: requestFlags("kind", 0)}
	if !other {
		g.srvEnv = newServer(counting(&g.got))
		return g
	}
	g.srvEnv = newServer(counting(&g.got), counting(&g.other))
	g.ofc = fake.NewConn()
	g.lns[1].Dial(g.ofc)
	g.otherDialed = 1
	sym.Quiesce()
	return g
}

func (g *gated) dial() {
	c := fake.NewConn()
	g.conns = append(g.conns, c)
	g.fed = append(g.fed, 0)
	g.base = append(g.base, -1)
	g.lns[0].Dial(c)
}

func (g *gated) request(i int) {
	g.fed[i]++
	feed(g.conns[i], fr(uint64(64*i+2*g.fed[i]+1), g.kind, 5, nil))
}

func (g *gated) set() {
	if g.on {
		g.srv.SetThrottle(0)
		return
	}
	for i := range g.conns {
		g.base[i] = g.got[i]
	}
	g.accepted = g.lns[0].Accepted()
	g.srv.SetThrottle(0)
	g.on = true
}

func (g *gated) clear() {
	g.srv.ClearThrottle(0)
	g.on = false
}

// check compares what happened with what the throttle allows.
func (g *gated) check() {
	for i := range g.conns {
		n := g.got[i]
		if !g.on {
			sym.Assert(n == g.fed[i], "without throttle everything is handled")
			continue
		}
		if g.base[i] < 0 {
			sym.Assert(n == 0, "a connection arriving while throttled waits")
		} else {
			sym.Assert(n <= g.base[i]+1, "at most the request being received is handled while throttled")
		}
	}
	if g.on {
		sym.Assert(g.lns[0].Accepted() <= g.accepted+1, "no further connection is accepted while throttled")
	} else {
		sym.Assert(g.lns[0].Accepted() == len(g.conns), "without throttle every connection is accepted")
	}
	sym.Assert(g.ofc == nil || g.other[0] == g.otherFed && g.lns[1].Accepted() == g.otherDialed, "other bindings are not affected")
}

func (g *gated) step() {
	switch sym.Choose("op", 5) {
	case 0:
		g.set()
	case 1:
		g.clear()
	case 2:
		g.dial()
	case 3:
		i := sym.Choose("conn", len(g.conns))
		g.request(i)
		if sym.Choose("two", 2) == 1 {
			g.request(i)
		}
	case 4:
		g.otherFed++
		feed(g.ofc, fr(uint64(2*g.otherFed+1), 0, 5, nil))
	}
}

// C24Gate: any sequence of setting and clearing the throttle, new connections
// and requests.
func C24Gate() {
	g := newGated(true)
	g.dial()
	sym.Quiesce()
	n := 4
	if sym.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		g.step()
		sym.Quiesce()
		g.check()
	}
	g.clear()
	sym.Quiesce()
	g.check()
	sym.Reach("gate")
}

// C24Race: setting and clearing from several goroutines while a connection and
// the accept loop wait.
func C24Race() {
	g := newGated(false)
	g.dial()
	sym.Quiesce()
	first := sym.Choose("first", 3)
	if first > 0 {
		g.srv.SetThrottle(0)
	}
	if first == 2 {
		g.srv.ClearThrottle(0)
	}
	var ts []*task
	for i := 0; i < 2; i++ {
		ops := sym.Choose("ops", 4)
		ts = append(ts, spawnV(func() {
			if ops&1 != 0 {
				g.srv.SetThrottle(0)
			}
			if ops != 1 {
				g.srv.ClearThrottle(0)
			}
			if ops == 2 {
				g.srv.SetThrottle(0)
			}
		}))
	}
	g.request(0)
	g.request(0)
	g.dial()
	sym.Quiesce()
	for _, t := range ts {
		sym.Assert(t.Done(), "setting and clearing return")
	}
	g.clear()
	sym.Quiesce()
	g.check()
	// the gate still works
	g.set()
	g.request(1)
	g.request(1)
	sym.Quiesce()
	g.check()
	g.clear()
	sym.Quiesce()
	g.check()
	sym.Reach("race")
}

// C24End: connections and serving end while throttled.
func C24End() {
	g := newGated(false)
	g.dial()
	sym.Quiesce()
	g.set()
	g.request(0)
	g.request(0)
	g.dial()
	sym.Quiesce()
	g.check()
	var ts []*task
	if sym.Choose("clear", 2) == 1 {
		ts = append(ts, spawnV(func() { g.srv.ClearThrottle(0) }))
	}
	ts = append(ts, spawn(g.srv.Shutdown))
	settle(append(ts, g.serves...)...)
	for _, t := range append(ts, g.serves...) {
		sym.Assert(t.Done(), "a throttled server shuts down")
	}
	for _, c := range g.conns[:g.lns[0].Accepted()] {
		sym.Assert(c.Closed(), "connections are closed")
	}
	if sym.Symbolic() {
		sym.Assert(sym.Live() == 0, "no goroutine is left behind")
	}
	sym.Reach("end")
}
