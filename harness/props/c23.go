package props

import (
	"errors"
	"net"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// settle waits until nothing moves, allowing for the serve loops' pause of a
// second after a failed Accept.
func settle(ts ...*task) {
	sym.Quiesce()
	for _, t := range ts {
		if !t.Done() {
			time.Sleep(2 * time.Second)
			sym.Quiesce()
			return
		}
	}
}

// hooks are shutdown functions.
type hooks struct {
	srv *qrpc.Server
	ran [6]int
}

func (h *hooks) add(i int) { h.srv.OnShutdown(func() { h.ran[i]++ }) }

// nest registers one that registers another.
func (h *hooks) nest(i, j int) {
	h.srv.OnShutdown(func() {
		h.ran[i]++
		h.add(j)
	})
}

func (h *hooks) once(n int) {
	for i := 0; i < n; i++ {
		sym.Assert(h.ran[i] == 1, "every shutdown function runs exactly once")
	}
}

// C23Shutdown: two bindings with a connection each and a request of any kind in
// progress, shut down once or twice.
func C23Shutdown() {
	running, closes, ctxs := 0, 0, 0
	b := qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		running++
		<-r.Context().Done()
		ctxs++
		running--
	})}
	b.LifecycleCallbacks.OnClose = func(net.Conn) { closes++ }
	e := newServer(b, b)
	h := &hooks{srv: e.srv}
	h.add(0)
	h.nest(1, 2)
	kind := requestFlags("kind", 0)
	fcs := []*fake.Conn{fake.NewConn(), fake.NewConn()}
	for i, c := range fcs {
		feed(c, fr(1, kind, 5, nil))
		e.lns[i].Dial(c)
	}
	sym.Quiesce()
	sym.Assert(running == 2, "requests are being handled")
	fail := sym.Choose("fail", 3)
	if fail < 2 {
		e.lns[fail].CloseErr = errors.New("listener")
	}
	throttle := sym.Choose("throttle", 2) == 1
	if throttle {
		e.srv.SetThrottle(0)
	}
	late := 0
	shutdown := func() *task {
		return spawn(func() error {
			err := e.srv.Shutdown()
			if running != 0 || closes != 2 || !fcs[0].Closed() || !fcs[1].Closed() {
				late++
			}
			return err
		})
	}
	ts := []*task{shutdown()}
	if sym.Choose("twice", 2) == 1 {
		ts = append(ts, shutdown())
	}
	ts = append(ts, spawnV(func() { h.add(3) }))
	settle(append(ts, e.serves...)...)
	h.add(4)
	ts = append(ts, spawn(e.srv.Shutdown))
	settle(ts...)
	for _, t := range ts {
		sym.Assert(t.Done(), "Shutdown and OnShutdown return")
	}
	for i, s := range e.serves {
		sym.Assert(s.Done() && s.Err() == qrpc.ErrServerClosed, "serving returns the server-closed error")
		sym.Assert(e.lns[i].IsClosed(), "listeners are closed")
	}
	sym.Assert(ctxs == 2 && running == 0, "handlers are cancelled")
	sym.Assert(closes == 2 && fcs[0].Closed() && fcs[1].Closed(), "all connections are ended")
	sym.Assert(late == 0, "Shutdown returns after all connections have ended")
	h.once(5)
	if sym.Symbolic() {
		sym.Assert(sym.Live() == 0, "no goroutine is left behind")
	}
	sym.Reach("shutdown")
}

// C23Start: shutdown while serving starts and connections arrive.
func C23Start() {
	handled, running, closes := 0, 0, 0
	b := qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		handled++
		running++
		<-r.Context().Done()
		running--
	})}
	b.LifecycleCallbacks.OnClose = func(net.Conn) { closes++ }
	gate := make(chan struct{})
	if sym.Choose("slow", 2) == 1 {
		// the connection is looked at until the server was shut down
		b.LifecycleCallbacks.OnAccept = func(net.Conn) error {
			<-gate
			return nil
		}
	}
	srv := qrpc.NewServer([]qrpc.ServerBinding{b})
	h := &hooks{srv: srv}
	ln := fake.NewListener()
	n := sym.Choose("conns", 3)
	var fcs []*fake.Conn
	for i := 0; i < n; i++ {
		c := fake.NewConn()
		feed(c, fr(1, fNB, 5, nil))
		fcs = append(fcs, c)
		ln.Dial(c)
	}
	late, before := 0, 0
	var sd *task
	shutdown := func() {
		sd = spawn(func() error {
			err := srv.Shutdown()
			if running != 0 {
				late++
			}
			before = handled
			close(gate)
			return err
		})
	}
	order := sym.Choose("order", 3)
	if order == 0 {
		shutdown()
		sym.Quiesce()
	}
	serve := spawn(func() error { return srv.Serve(ln, 0) })
	hook := spawnV(func() { h.nest(0, 1) })
	if order == 1 {
		sym.Quiesce()
	}
	if order > 0 {
		shutdown()
	}
	settle(sd, serve)
	sym.Assert(serve.Done() && serve.Err() == qrpc.ErrServerClosed, "serving returns the server-closed error, however early the shutdown")
	sym.Assert(sd.Done() && hook.Done(), "Shutdown returns")
	sym.Assert(ln.IsClosed(), "the listener is closed")
	sym.Assert(running == 0 && late == 0, "Shutdown returns after all connections have ended")
	sym.Assert(handled == before, "nothing is served after shutdown")
	h.once(2)
	acc := 0
	for _, c := range fcs {
		if c.Closed() {
			acc++
		}
	}
	sym.Assert(acc == ln.Accepted() && closes == acc, "every accepted connection is ended")
	if sym.Symbolic() {
		sym.Assert(sym.Live() == 0, "no goroutine is left behind")
	}
	sym.Reach("start")
}

// C23Hook: shutdown functions that shut down themselves, or use connections.
func C23Hook() {
	b := qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) { reply(w, r) })}
	e := newServer(b)
	c := e.dial()
	sym.Quiesce()
	h := &hooks{srv: e.srv}
	h.add(0)
	e.srv.OnShutdown(func() {
		h.ran[1]++
		if sym.Choose("again", 2) == 1 {
			e.srv.Shutdown()
		}
		e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			w.StartWrite(e.srv.GetPushID(), 9, qrpc.PushFlag)
			w.EndWrite()
			ci.Close()
			return true
		})
	})
	h.nest(2, 3)
	ts := []*task{spawn(e.srv.Shutdown), spawn(e.srv.Shutdown)}
	settle(append(ts, e.serves...)...)
	sym.Assert(ts[0].Done() && ts[1].Done(), "Shutdown returns")
	sym.Assert(e.serves[0].Done() && e.serves[0].Err() == qrpc.ErrServerClosed, "serving returns the server-closed error")
	sym.Assert(c.Closed(), "all connections are ended")
	h.once(4)
	if sym.Symbolic() {
		sym.Assert(sym.Live() == 0, "no goroutine is left behind")
	}
	sym.Reach("hook")
}
