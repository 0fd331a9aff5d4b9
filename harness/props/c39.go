package props

import (
	"context"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

// The harnesses of C39 only drive the code; the interpreter checks every access
// to memory it executes. They use what a program may use from several
// goroutines: connections, servers, API clients and channels, but one frame
// writer, one response and one stream writer per goroutine.

// drainFrame reads a response and what follows it.
func drainFrame(r qrpc.Response) {
	f, err := r.GetFrame()
	if err != nil || f == nil {
		return
	}
	_ = append([]byte(nil), f.Payload...)
	for f := range f.FrameCh() {
		_ = append([]byte(nil), f.Payload...)
	}
}

const (
	cliRequest = iota
	cliStream
	cliAbort
	cliLook
	cliClose
	nCli
)

// useClient is what one goroutine does with a shared client connection.
func useClient(c *qrpc.Connection, what int) {
	p := []byte{1, 2}
	switch what {
	case cliRequest:
		_, r, err := c.Request(1, 0, p)
		p[0] = 9 // the payload is ours again
		if err == nil {
			drainFrame(r)
		}
	case cliStream:
		w, r, err := c.StreamRequest(1, 0, p)
		p[0] = 9
		if err != nil {
			return
		}
		w.StartWrite(2)
		w.WriteBytes([]byte{3})
		if w.EndWrite(true) == nil {
			drainFrame(r)
		}
	case cliAbort:
		id, r, err := c.Request(1, 0, p)
		if err != nil {
			return
		}
		c.ResetFrame(id, 3)
		drainFrame(r)
	case cliLook:
		c.IsClosed()
		c.GetReusedCon()
		select {
		case <-c.Done():
		default:
		}
		c.Wait()
	case cliClose:
		c.Close()
	}
}

// C39Client: a client connection shared by two goroutines, its subscriber, its
// handler, and the peer.
func C39Client() {
	conf := qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 2) * 2, ReadTimeout: 5, WriteTimeout: 5}
	conf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		w.StartWrite(r.RequestID, 1, 0)
		w.WriteBytes(r.Payload)
		w.EndWrite()
	})
	c, fc := newClient(conf, func(c *qrpc.Connection, f *qrpc.Frame) { _ = append([]byte(nil), f.Payload...) })
	a := sym.Choose("a", nCli)
	b := a + sym.Choose("b", nCli)
	sym.Assume(b < nCli)
	ta, tb := spawnV(func() { useClient(c, a) }), spawnV(func() { useClient(c, b) })
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	feed(fc, fr(2, fNB, 7, []byte{1}), fr(8, fPush, 7, []byte{1}))
	feed(fc, fr(1, fStream, 1, []byte{5}), fr(3, 0, 1, []byte{6}), fr(1, fStream|fEnd, 1, []byte{6}))
	switch sym.Choose("end", 3) {
	case 0:
		sym.Quiesce()
		feed(fc, fr(5, fRst, 0, nil))
	case 1:
		fc.EOF()
	}
	sym.Quiesce()
	c.Close()
	c.Wait()
	sym.Quiesce()
	sym.Assert(ta.Done() && tb.Done(), "calls return")
	sym.Reach("client")
}

const (
	srvReply = iota
	srvWhole
	srvBind
	srvPush
	srvAsk
	srvTimeout
	srvClose
	srvStream
	nSrv
)

// useServerConn is what a handler does.
func useServerConn(e *srvEnv, w qrpc.FrameWriter, r *qrpc.RequestFrame, what int) {
	ci := r.ConnectionInfo()
	switch what {
	case srvWhole:
		r.Context()
		ci.RemoteAddr()
		ci.IsClosed()
		r.SetStash(what)
		_ = r.GetStash()
	case srvBind:
		ci.NotifyWhenClose(func() {})
		ci.SetID("x")
		_ = ci.GetID()
		e.srv.GetConnectionInfoByID(0, "x")
	case srvPush:
		w := ci.GetWriter()
		w.StartWrite(e.srv.GetPushID(), 4, qrpc.PushFlag)
		w.WriteBytes(r.Payload)
		w.EndWrite()
	case srvAsk:
		_, resp, err := ci.Request(9, qrpc.NBFlag, []byte{1})
		if err == nil {
			drainFrame(resp)
		}
	case srvTimeout:
		ci.ReaderConfig().SetReadTimeout(30)
	case srvClose:
		ci.Close()
		return
	case srvStream:
		for f := range r.FrameCh() {
			_ = append([]byte(nil), f.Payload...)
		}
		w.StartWrite(r.RequestID, 2, qrpc.StreamFlag)
		w.EndWrite()
	}
	reply(w, r)
}

// C39Server: two handlers of one connection.
func C39Server() {
	a := sym.Choose("a", nSrv)
	b := a + sym.Choose("b", nSrv)
	sym.Assume(b < nSrv && !(a == srvBind && b == srvBind))
	var e *srvEnv
	ready := make(chan struct{})
	e = newServer(qrpc.ServerBinding{DefaultReadTimeout: 20, DefaultWriteTimeout: 20, WriteFrameChSize: sym.Choose("batch", 2) * 2,
		Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
			<-ready
			what := b
			if r.RequestID == 1 {
				what = a
			}
			useServerConn(e, w, r, what)
		})})
	close(ready)
	c := e.dial()
	kind := func(what int) uint8 {
		if what == srvStream {
			return fStream
		}
		return fNB
	}
	feed(c, fr(1, kind(a), 1, []byte{1}), fr(3, kind(b), 1, []byte{2}))
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	feed(c, fr(1, fStream|fEnd, 1, []byte{3}), fr(3, fStream|fEnd, 1, []byte{3}), fr(2, fNB, 9, []byte{4}), fr(4, fNB, 9, []byte{4}))
	end := sym.Choose("end", 3)
	switch end {
	case 0:
		c.EOF()
	case 1:
		sym.Quiesce()
		c.FailRead(fake.ErrReset)
	}
	sym.Quiesce()
	sd := spawn(e.srv.Shutdown)
	sym.Quiesce()
	time.Sleep(2 * time.Second)
	c.EOF()
	sym.Quiesce()
	sym.Assert(sd.Done(), "shutdown returns")
	sym.Reach("server")
}

const (
	mgrWalk = iota
	mgrWalkID
	mgrThrottle
	mgrPush
	mgrHook
	mgrShutdown
	nMgr
)

// manage is what a goroutine of the embedding program does with a server.
func manage(e *srvEnv, what int) {
	switch what {
	case mgrWalk:
		e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			w.StartWrite(e.srv.GetPushID(), 4, qrpc.PushFlag)
			w.WriteBytes([]byte(ci.GetID()))
			w.EndWrite()
			ci.ReaderConfig().SetReadTimeout(9)
			return true
		})
	case mgrWalkID:
		e.srv.WalkConnByID(0, []string{"x", "y"}, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo, i int) {
			w.StartWrite(e.srv.GetPushID(), 4, qrpc.PushFlag)
			w.EndWrite()
			ci.NotifyWhenClose(func() {})
			ci.Close()
		})
	case mgrThrottle:
		e.srv.SetThrottle(0)
		e.srv.ClearThrottle(0)
	case mgrPush:
		if ci := e.srv.GetConnectionInfoByID(0, "x"); ci != nil {
			_, r, err := ci.Request(9, qrpc.NBFlag, nil)
			if err == nil {
				r.GetFrame()
			}
		}
	case mgrHook:
		e.srv.OnShutdown(func() {})
		e.srv.BindingConfig(0)
	case mgrShutdown:
		e.srv.Shutdown()
	}
}

// C39Manage: connections come, take the same identifier and go, while two
// goroutines manage the server.
func C39Manage() {
	a := sym.Choose("a", nMgr)
	b := a + sym.Choose("b", nMgr)
	sym.Assume(b < nMgr)
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		r.ConnectionInfo().SetID("x")
		reply(w, r)
	})})
	c, d := e.dial(), e.dial()
	feed(c, fr(1, 0, 1, nil))
	if sym.Choose("bound", 2) == 1 {
		sym.Quiesce()
	}
	ta := spawnV(func() { manage(e, a) })
	tb := spawnV(func() { manage(e, b) })
	feed(d, fr(1, fNB, 1, nil))
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	c.EOF()
	sym.Quiesce()
	d.EOF()
	sym.Quiesce()
	e.srv.Shutdown()
	sym.Quiesce()
	sym.Assert(ta.Done() && tb.Done(), "calls return")
	sym.Reach("manage")
}

// C39Stream: a handler reads its stream in one goroutine and writes in another,
// while the peer sends, ends or resets it, or goes away.
func C39Stream() {
	how := sym.Choose("how", 4)
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		t := make(chan struct{})
		go func() {
			for f := range r.FrameCh() {
				_ = append([]byte(nil), f.Payload...)
			}
			close(t)
		}()
		for i := 0; i < 2; i++ {
			w.StartWrite(r.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes(r.Payload)
			w.EndWrite()
		}
		if how != 0 {
			<-t
		}
		if sym.Choose("reset", 2) == 1 {
			w.ResetFrame(r.RequestID, 1)
		} else {
			w.StartWrite(r.RequestID, 1, qrpc.StreamFlag|qrpc.StreamEndFlag)
			w.EndWrite()
		}
	})})
	c := e.dial()
	feed(c, fr(1, fStream, 1, []byte{1}), fr(1, fStream, 2, []byte{2}))
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	switch how {
	case 0, 1:
		feed(c, fr(1, fStream|fEnd, 2, []byte{3}))
	case 2:
		feed(c, fr(1, fRst, 2, nil))
	}
	if how == 3 || sym.Choose("eof", 2) == 1 {
		c.EOF()
	}
	sym.Quiesce()
	c.EOF()
	sym.Quiesce()
	sym.Reach("stream")
}

// C39Reconnect: a reconnecting client used by two goroutines while its
// connection is lost and found again.
func C39Reconnect() {
	n := newNetwork(sym.Choose("fails", 2) * 2)
	conf := qrpc.ConnectionConfig{OverlayNetwork: n.dial, WriteFrameChSize: sym.Choose("batch", 2) * 2}
	c := qrpc.NewConnectionWithReconnect([]string{"a", "b"}, conf, func(c *qrpc.Connection, f *qrpc.Frame) { _ = append([]byte(nil), f.Payload...) })
	fc := n.up()
	a := sym.Choose("a", nCli)
	b := a + sym.Choose("b", nCli)
	sym.Assume(b < nCli)
	ta, tb := spawnV(func() { useClient(c, a) }), spawnV(func() { useClient(c, b) })
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	feed(fc, fr(1, fStream, 1, []byte{5}), fr(8, fPush, 7, []byte{1}))
	fc.EOF()
	if sym.Choose("found", 2) == 1 {
		sym.Quiesce()
		time.Sleep(3 * time.Second)
		spawnV(func() { useClient(c, cliAbort) })
		sym.Quiesce()
	}
	c.Close()
	sym.Quiesce()
	time.Sleep(3 * time.Second)
	sym.Quiesce()
	sym.Assert(ta.Done() && tb.Done(), "calls return")
	sym.Reach("reconnect")
}

// C39API: an API client used by two goroutines while an endpoint is lost.
func C39API() {
	es, names := newEndpoints(2)
	es[0].mute = sym.Choose("mute", 2) == 1
	api := qrpc.NewAPI(names, qrpc.ConnectionConfig{OverlayNetwork: es.dial}, []int{1, 1})
	call := func(kind int) {
		ctx := context.Background()
		switch kind {
		case 0:
			api.Call(ctx, 1, []byte{7})
		case 1:
			api.CallOne(ctx, names[1], 1, []byte{7})
		case 2:
			rs := api.CallAll(ctx, 1, []byte{7})
			for _, r := range rs {
				_ = r.Err
			}
		case 3:
			api.Close()
		}
	}
	a := sym.Choose("a", 4)
	b := a + sym.Choose("b", 4)
	sym.Assume(b < 4)
	ta := spawnV(func() { call(a) })
	tb := spawnV(func() { call(b) })
	if sym.Choose("lost", 2) == 1 {
		es[1].lose(false)
	}
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
		time.Sleep(3 * time.Second)
		sym.Quiesce()
		spawnV(func() { call(0) })
		sym.Quiesce()
	}
	api.Close()
	sym.Quiesce()
	sym.Assert(ta.Done() && tb.Done(), "calls return")
	sym.Reach("api")
}

// C39Channel: both ends of a pipe send in one goroutine and receive in another.
func C39Channel() {
	ctx := context.Background()
	talk := func(s channel.Sender, r channel.Receiver, n int) {
		t := make(chan struct{})
		go func() {
			for {
				var m msg
				var cmd qrpc.Cmd
				if r.Receive(ctx, &cmd, &m) != nil {
					break
				}
			}
			close(t)
		}()
		for i := 0; i < n; i++ {
			b := []byte{1, 2}
			s.Send(ctx, 1, &msg{b}, i == n-1)
			b[0] = 3
		}
		if n == 0 {
			s.End()
		}
		<-t
	}
	na, nb := sym.Choose("na", 3), 1+sym.Choose("nb", 2)
	sym.Assume(na > 0)
	done := make(chan struct{})
	e := newServer(qrpc.ServerBinding{Handler: channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		talk(s, r, nb)
		close(done)
	}))})
	ca, cb := fake.Pipe()
	e.lns[0].Dial(cb)
	c, err := qrpc.NewConnection("fake", qrpc.ConnectionConfig{OverlayNetwork: dialer(ca)}, nil)
	sym.Assert(err == nil, "connected")
	s, r, err := channel.NewTransport(c).Pipe()
	sym.Assert(err == nil, "pipe opened")
	talk(s, r, na)
	<-done
	c.Close()
	sym.Quiesce()
	sym.Reach("channel")
}

// C39Mux: handlers are added while requests are served.
func C39Mux() {
	mux := qrpc.NewServeMux()
	mux.HandleFunc(1, reply)
	e := newServer(qrpc.ServerBinding{Handler: mux})
	c := e.dial()
	feed(c, fr(1, fNB, 1, nil), fr(3, fNB, 2, nil))
	t := spawnV(func() { mux.HandleFunc(2, reply) })
	feed(c, fr(5, fNB, 1, nil))
	sym.Quiesce()
	sym.Assert(t.Done(), "registered")
	sym.Reach("mux")
}
