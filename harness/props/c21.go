package props

import (
	"errors"
	"net"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// ways to close a server's connection
const (
	closeInfo = iota
	closePeer
	closeHandler
	closeBad
	nCloses
)

func closeBy(how int, ci *qrpc.ConnectionInfo, fc *fake.Conn) {
	switch how {
	case closeInfo:
		ci.Close()
	case closePeer:
		fc.EOF()
	case closeHandler:
		feed(fc, fr(101, 0, 99, nil))
	case closeBad:
		fc.Feed([]byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	}
}

// C21Notify: functions registered before, during and after the close, one of
// which registers another and closes again.
func C21Notify() {
	var e *srvEnv
	e = newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if r.Cmd == 99 {
			r.Close()
		}
	})})
	fc := e.dial()
	sym.Quiesce()
	ci := only(e)
	ran := make([]int, 6)
	open := 0
	mark := func(i int) func() {
		return func() {
			ran[i]++
			if !fc.Closed() {
				open++
			}
		}
	}
	ci.NotifyWhenClose(mark(0))
	nested := sym.Choose("nested", 3)
	ci.NotifyWhenClose(func() {
		mark(1)()
		if nested > 0 {
			ci.NotifyWhenClose(mark(2))
		}
		if nested == 2 {
			ci.Close()
		}
	})
	ts := []*task{spawnV(func() { ci.NotifyWhenClose(mark(3)); ci.NotifyWhenClose(mark(4)) })}
	a, b := sym.Choose("closeA", nCloses), sym.Choose("closeB", nCloses+1)
	if b < nCloses {
		sym.Assume(a <= b) // the order does not matter
		ts = append(ts, spawnV(func() { closeBy(b, ci, fc) }))
	}
	closeBy(a, ci, fc)
	sym.Quiesce()
	ci.NotifyWhenClose(mark(5))
	ci.Close()
	for _, t := range ts {
		sym.Assert(t.Done(), "registering and closing return")
	}
	for i, n := range ran {
		want := 1
		if i == 2 && nested == 0 {
			want = 0
		}
		sym.Assert(n == want, "every registered function runs exactly once")
	}
	sym.Assert(open == 0, "functions run once the connection is closed")
	ended(e)
	sym.Reach("notify")
}

// only is the one connection of a server.
func only(e *srvEnv) (ci *qrpc.ConnectionInfo) {
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, c *qrpc.ConnectionInfo) bool {
		sym.Assert(ci == nil, "one connection")
		ci = c
		return true
	})
	sym.Assert(ci != nil, "one connection")
	return
}

var errRefuse = errors.New("refused")

// C21Server: two connections, each accepted or refused, with handlers of all
// kinds in progress when they are closed.
func C21Server() {
	refuse := sym.Choose("refuse", 4)
	var fcs []*fake.Conn
	idx := func(c net.Conn) int {
		for i, f := range fcs {
			if f == c {
				return i
			}
		}
		sym.Assert(false, "callbacks get the connection itself")
		return 0
	}
	var accepts, closes, handled, running, early [2]int
	hold := make(chan struct{})
	mode := sym.Choose("handler", 3)
	b := qrpc.ServerBinding{}
	b.LifecycleCallbacks.OnAccept = func(c net.Conn) error {
		i := idx(c)
		accepts[i]++
		if refuse&(1<<i) != 0 {
			return errRefuse
		}
		return nil
	}
	b.LifecycleCallbacks.OnClose = func(c net.Conn) {
		i := idx(c)
		closes[i]++
		if running[i] != 0 || !fcs[i].Closed() {
			early[i]++
		}
	}
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		i := int(r.Cmd)
		handled[i]++
		running[i]++
		defer func() { running[i]-- }()
		switch mode {
		case 0: // ends when told
			<-r.Context().Done()
		case 1: // takes its time
			<-hold
		case 2:
			<-r.Context().Done()
			panic("handler")
		}
	})
	fcs = []*fake.Conn{fake.NewConn(), fake.NewConn()}
	e := newServer(b)
	kind := requestFlags("kind", 0)
	for i, c := range fcs {
		feed(c, fr(1, kind, uint32(i), nil))
		e.lns[0].Dial(c)
	}
	sym.Quiesce()
	for i := range fcs {
		refused := refuse&(1<<i) != 0
		if refused {
			sym.Assert(fcs[i].Closed() && closes[i] == 1 && handled[i] == 0 && fcs[i].ReadsStarted == 0, "a refused connection is closed and not served")
		} else {
			sym.Assert(!fcs[i].Closed() && closes[i] == 0 && handled[i] == 1, "an accepted connection is served")
		}
	}
	end := sym.Choose("end", 4)
	// a blocking request keeps the peer's end from being seen
	sym.Assume(kind != 0 || mode == 1 || end >= 2 || refuse == 3)
	var sd *task
	for _, c := range fcs {
		switch end {
		case 0:
			c.EOF()
		case 1:
			c.FailRead(fake.ErrReset)
		case 2:
			e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				spawn(ci.Close)
				return true
			})
		case 3:
			if sd == nil {
				sd = spawn(e.srv.Shutdown)
			}
		}
	}
	sym.Quiesce()
	close(hold)
	sym.Quiesce()
	if sd != nil && !sd.Done() {
		time.Sleep(2 * time.Second) // a failing Accept is retried after a second
		sym.Quiesce()
	}
	for i := range fcs {
		sym.Assert(accepts[i] == 1 && closes[i] == 1, "the close callback runs exactly once per connection")
		sym.Assert(running[i] == 0 && early[i] == 0, "it runs after all handlers have returned")
	}
	ended(e)
	for i := range fcs {
		sym.Assert(closes[i] == 1, "the close callback runs exactly once per connection")
	}
	sym.Reach("server")
}

// C21Client: a client's callbacks through connects, losses and a close.
func C21Client() {
	log := []byte{}
	bad := false
	var c *qrpc.Connection
	selfClose := sym.Choose("self", 3)
	conf := qrpc.ConnectionConfig{}
	conf.LifecycleCallbacks.OnConnect = func(cc *qrpc.Connection) {
		log = append(log, 'C')
		if selfClose == 1 && len(log) >= 3 {
			cc.Close()
		}
		if c != nil && cc != c {
			bad = true
		}
	}
	conf.LifecycleCallbacks.OnDisconnect = func(cc *qrpc.Connection) {
		log = append(log, 'D')
		if selfClose == 2 && len(log) >= 2 {
			cc.Close()
		}
		if c != nil && cc != c {
			bad = true
		}
	}
	fcs := []*fake.Conn{fake.NewConn(), fake.NewConn(), fake.NewConn()}
	re := sym.Choose("reconnect", 2) == 1
	conf.OverlayNetwork = dialer(fcs...)
	if re {
		c = qrpc.NewConnectionWithReconnect([]string{"a"}, conf, nil)
	} else {
		var err error
		c, err = qrpc.NewConnection("a", conf, nil)
		sym.Assert(err == nil, "connected")
	}
	n := 1 + sym.Choose("losses", 2)
	for i := 0; i < n; i++ {
		if sym.Choose("now", 2) == 0 {
			sym.Quiesce()
		}
		fcs[i].EOF()
	}
	if sym.Choose("now", 2) == 0 {
		sym.Quiesce()
	}
	closed := spawn(c.Close)
	w := spawnV(c.Wait)
	sym.Quiesce()
	if !w.Done() {
		time.Sleep(3 * time.Second) // between two rounds of dialling
		sym.Quiesce()
	}
	sym.Assert(closed.Done() && w.Done(), "closing completes")
	sym.Assert(len(log)%2 == 0, "every connect is followed by a disconnect")
	for i, x := range log {
		sym.Assert(x == "CD"[i%2], "connects and disconnects alternate")
	}
	sym.Assert(len(log) >= 2 && len(log) <= 2*(n+1) && (re || len(log) == 2), "one pair per connection")
	sym.Assert(!bad, "callbacks get the connection")
	if sym.Symbolic() {
		sym.Assert(sym.Live() == 0, "no goroutine is left behind")
	}
	sym.Reach("client")
}
