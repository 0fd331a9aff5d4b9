package props

import (
	"context"
	"crypto/tls"
	"net"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
	"github.com/zhiqiangxu/qrpc/codegen"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

// steady repeats a piece of work and insists that what it leaves behind, when
// all is quiet again, does not grow: neither goroutines nor reachable memory.
func steady(round func()) {
	round()
	sym.Quiesce()
	g, h := sym.Live(), sym.Heap()
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		round()
		sym.Quiesce()
		sym.Assert(sym.Live() <= g, "no goroutine is left behind")
		sym.Assert(sym.Heap() <= h, "no memory is left behind")
	}
}

const (
	rndReply      = iota // answered
	rndNB                // answered from a goroutine
	rndStream            // a streamed request and a streamed response
	rndReset             // the client resets a streamed request
	rndBoth              // both sides reset
	rndRefuse            // the server resets before the stream has ended
	rndEarly             // the server answers before the stream has ended
	rndUnread            // the handler does not look at the stream
	rndPanic             // the handler panics
	rndAsk               // the handler sends a request of its own
	rndAskAbort          // and cancels it
	rndAskReset          // and the client resets it
	rndAskStream         // and is answered with a stream
	rndAskLater          // and does not wait for the answer
	rndStray             // frames that belong to nothing
	rndPushed            // the client pushes a frame
	rndPush              // the handler pushes frames
	rndPushStream        // the client pushes a stream
	rndPushReset         // and resets it
	nRnd
)

// C40Server: what a connection's requests leave behind in the server.
func C40Server() {
	wait := sym.Choose("settle", 2) == 1
	confirmed := sym.Choose("confirmed", 2) == 1
	kind := sym.Choose("kind", nRnd)
	var sub func(*qrpc.ConnectionInfo, *qrpc.Frame)
	if (kind == rndPushed || kind == rndPushStream || kind == rndPushReset) && sym.Choose("sub", 2) == 1 {
		sub = func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { go drainPushed(f) }
	}
	e := newServer(qrpc.ServerBinding{WriteFrameChSize: sym.Choose("batch", 2) * 2, SubFunc: sub, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		id := r.RequestID
		answer := func() {
			w.StartWrite(id, 1, 0)
			w.EndWrite()
		}
		switch kind {
		case rndStream:
			for range r.FrameCh() {
			}
			w.StartWrite(id, 1, qrpc.StreamFlag)
			w.EndWrite()
			w.StartWrite(id, 1, qrpc.StreamFlag|qrpc.StreamEndFlag)
			w.EndWrite()
			return
		case rndReset:
			for range r.FrameCh() {
			}
			<-r.Context().Done()
			return
		case rndBoth:
			for range r.FrameCh() {
			}
			w.ResetFrame(id, 1)
			return
		case rndRefuse:
			w.ResetFrame(id, 1)
			return
		case rndPanic:
			panic("handler")
		case rndPush:
			r.ConnectionInfo().Request(9, qrpc.PushFlag, nil)
			pw := r.ConnectionInfo().GetWriter()
			pw.StartWrite(2*id, 10, qrpc.PushFlag)
			pw.EndWrite()
		case rndAsk, rndAskReset:
			_, resp, err := r.ConnectionInfo().Request(9, qrpc.NBFlag, nil)
			if err == nil {
				resp.GetFrame()
			}
		case rndAskStream:
			_, resp, err := r.ConnectionInfo().Request(9, qrpc.NBFlag, nil)
			if err == nil {
				if f, err := resp.GetFrame(); err == nil && f != nil {
					drainPushed(f)
				}
			}
		case rndAskLater:
			r.ConnectionInfo().Request(9, qrpc.NBFlag, nil)
		case rndAskAbort:
			ask, _, err := r.ConnectionInfo().Request(9, qrpc.NBFlag, nil)
			if err == nil {
				w.ResetFrame(ask, 1)
			}
		}
		answer()
	})})
	c := e.dial()
	id := uint64(1)
	asked := 0
	steady(func() {
		switch kind {
		case rndReply:
			feed(c, fr(id, 0, 5, []byte{1}))
		case rndPushStream, rndPushReset:
			pushed(c, id, kind == rndPushReset, wait)
		case rndPushed:
			feed(c, fr(id, fPush, 5, nil))
		case rndNB, rndPush, rndPanic, rndAsk, rndAskAbort, rndAskReset, rndAskStream, rndAskLater:
			feed(c, fr(id, fNB, 5, []byte{1}))
		case rndStream, rndUnread:
			feed(c, fr(id, fStream, 5, nil), fr(id, fStream, 5, nil), fr(id, fStream|fEnd, 5, nil))
		case rndReset, rndBoth:
			feed(c, fr(id, fStream, 5, nil))
			if wait {
				sym.Quiesce()
			}
			feed(c, fr(id, fRst, 0, nil))
		case rndRefuse, rndEarly:
			feed(c, fr(id, fStream, 5, nil))
			if wait {
				sym.Quiesce()
			}
			feed(c, fr(id, fStream|fEnd, 5, nil))
		case rndStray:
			feed(c, fr(id+1, 0, 7, nil), fr(id, fRst, 7, nil))
		}
		sym.Quiesce()
		for _, f := range frames(c, "server")[asked:] {
			asked++
			if f.Cmd != 9 || kind == rndPush {
				continue
			}
			if kind == rndAskReset || kind == rndAskAbort && confirmed {
				feed(c, fr(f.ID, fRst, 0, nil))
			} else if kind == rndAskStream {
				feed(c, fr(f.ID, fStream, 10, nil), fr(f.ID, fStream, 10, nil))
				if wait {
					sym.Quiesce()
				}
				feed(c, fr(f.ID, fStream|fEnd, 10, nil))
			} else {
				feed(c, fr(f.ID, 0, 10, nil))
			}
		}
		id += 2
	})
	sym.Reach("server")
}

func drainPushed(f *qrpc.Frame) {
	for range f.FrameCh() {
	}
}

// pushed is a pushed stream that ends or is reset.
func pushed(c *fake.Conn, id uint64, reset, wait bool) {
	feed(c, fr(id, fPush|fStream, 5, nil), fr(id, fPush|fStream, 5, nil))
	if wait {
		sym.Quiesce()
	}
	if reset {
		feed(c, fr(id, fPush|fRst, 5, nil))
	} else {
		feed(c, fr(id, fPush|fStream|fEnd, 5, nil))
	}
}

const (
	cndReply      = iota // a request is answered
	cndStream            // a streamed request and a streamed response
	cndRefused           // the server resets the request
	cndPartial           // the server resets its response half way
	cndAbort             // the client cancels the request
	cndUnsent            // the client resets its streamed request
	cndTimeout           // the caller gives up, the answer comes later
	cndUnread            // nobody asks for the response
	cndPushed            // the server pushes a frame
	cndPushStream        // the server pushes a stream
	cndPushReset         // and resets it
	cndPush              // the client pushes a frame
	cndAsked             // the server asks something
	cndStray             // frames that belong to nothing
	nCnd
)

// C40Client: what the requests of a client connection leave behind.
func C40Client() {
	wait := sym.Choose("settle", 2) == 1
	confirmed := sym.Choose("confirmed", 2) == 1
	kind := sym.Choose("kind", nCnd)
	conf := qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 2) * 2}
	conf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})
	var sub qrpc.SubFunc
	if (kind == cndPushed || kind == cndPushStream || kind == cndPushReset) && sym.Choose("sub", 2) == 1 {
		sub = func(_ *qrpc.Connection, f *qrpc.Frame) { go drainPushed(f) }
	}
	c, fc := newClient(conf, sub)
	get := func(r qrpc.Response) *task {
		return spawnV(func() {
			f, err := r.GetFrame()
			if err == nil && f != nil {
				for range f.FrameCh() {
				}
			}
		})
	}
	// a cancelled request ends when the server has confirmed it or answered after all
	settle := func(id uint64) {
		if confirmed {
			feed(fc, fr(id, fRst, 0, nil))
		} else {
			feed(fc, fr(id, 0, 2, nil))
		}
		sym.Quiesce()
	}
	n := uint64(1)
	steady(func() {
		switch kind {
		case cndReply:
			id, r, _ := c.Request(1, 0, nil)
			t := get(r)
			feed(fc, fr(id, 0, 2, nil))
			sym.Quiesce()
			sym.Assert(t.Done(), "answered")
		case cndStream:
			w, r, _ := c.StreamRequest(1, 0, nil)
			w.StartWrite(2)
			w.EndWrite(true)
			t := get(r)
			feed(fc, fr(w.RequestID(), fStream, 2, nil), fr(w.RequestID(), fStream|fEnd, 2, nil))
			sym.Quiesce()
			sym.Assert(t.Done(), "answered")
		case cndRefused:
			id, r, _ := c.Request(1, 0, nil)
			t := get(r)
			feed(fc, fr(id, fRst, 2, nil))
			sym.Quiesce()
			sym.Assert(t.Done(), "answered")
		case cndPartial:
			id, r, _ := c.Request(1, 0, nil)
			t := get(r)
			feed(fc, fr(id, fStream, 2, nil))
			if wait {
				sym.Quiesce()
			}
			feed(fc, fr(id, fRst, 2, nil))
			sym.Quiesce()
			sym.Assert(t.Done(), "answered")
		case cndAbort:
			id, r, _ := c.Request(1, 0, nil)
			t := get(r)
			c.ResetFrame(id, 1)
			settle(id)
			sym.Assert(t.Done(), "cancelled")
		case cndUnsent:
			w, r, _ := c.StreamRequest(1, 0, nil)
			w.StartWrite(2)
			w.EndWrite(false)
			t := get(r)
			c.ResetFrame(w.RequestID(), 1)
			settle(w.RequestID())
			sym.Assert(t.Done(), "cancelled")
		case cndTimeout:
			id, r, _ := c.Request(1, 0, nil)
			ctx, cancel := context.WithCancel(context.Background())
			t := spawnV(func() { r.GetFrameWithContext(ctx) })
			cancel()
			sym.Quiesce()
			sym.Assert(t.Done(), "given up")
			feed(fc, fr(id, 0, 2, nil))
		case cndUnread:
			id, _, _ := c.Request(1, 0, nil)
			feed(fc, fr(id, 0, 2, nil))
		case cndPush:
			c.Request(1, qrpc.PushFlag, nil)
		case cndPushStream, cndPushReset:
			pushed(fc, 4*n, kind == cndPushReset, wait)
		case cndPushed:
			feed(fc, fr(4*n, fPush, 2, nil))
		case cndAsked:
			feed(fc, fr(4*n+2, fNB, 2, nil))
		case cndStray:
			feed(fc, fr(1, 0, 7, nil), fr(1, fRst, 7, nil))
		}
		n++
	})
	sym.Reach("client")
}

const (
	lifeIdle = iota
	lifeRequest
	lifeNamed   // takes an identifier
	lifeKicked  // and loses it to another one
	lifeBusy    // a handler is still running
	lifeStream  // a stream is still open
	lifeAsking  // the server waits for an answer
	lifeClosed  // the server closes it
	lifeGarbage // it breaks the protocol
	lifeBroken  // it cannot be written to
	nLife
)

// C40Conns: what connections leave behind in the server.
func C40Conns() {
	batch := sym.Choose("batch", 2) * 2
	wait := sym.Choose("settle", 2) == 1
	kind := sym.Choose("kind", nLife)
	e := newServer(qrpc.ServerBinding{DefaultReadTimeout: batch * 10, WriteFrameChSize: batch,
		Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
			ci := r.ConnectionInfo()
			switch kind {
			case lifeNamed, lifeKicked:
				ci.NotifyWhenClose(func() {})
				ci.SetID("x")
			case lifeBusy:
				<-r.Context().Done()
				return
			case lifeStream:
				for range r.FrameCh() {
				}
				return
			case lifeAsking:
				_, resp, err := ci.Request(9, qrpc.NBFlag, nil)
				if err == nil {
					resp.GetFrame()
				}
			case lifeClosed:
				ci.Close()
				return
			}
			reply(w, r)
		})})
	steady(func() {
		c := e.dial()
		kick := kind == lifeKicked
		switch kind {
		case lifeIdle:
		case lifeStream:
			feed(c, fr(1, fStream, 1, nil), fr(1, fStream, 1, nil))
		case lifeGarbage:
			c.Feed(make([]byte, 5))
			feed(c, fr(1, fStream|fRst|fPush, 1, nil))
		case lifeBroken:
			c.OnWrite = func([]byte) (int, error) { return 0, fake.ErrReset }
			feed(c, fr(1, fNB, 1, nil))
		default:
			feed(c, fr(1, fNB, 1, nil))
		}
		if wait {
			sym.Quiesce()
		}
		if kick {
			d := e.dial()
			feed(d, fr(1, fNB, 1, nil))
			sym.Quiesce()
			d.EOF()
		}
		c.EOF()
	})
	sym.Assert(e.srv.GetConnectionInfoByID(0, "x") == nil, "no connection")
	sym.Reach("conns")
}

// C40Dialled: what client connections leave behind.
func C40Dialled() {
	wait := sym.Choose("settle", 2) == 1
	lost := sym.Choose("lost", 2) == 1
	batch := sym.Choose("batch", 2) * 2
	kind := sym.Choose("kind", 5)
	steady(func() {
		conf := qrpc.ConnectionConfig{WriteFrameChSize: batch}
		conf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) { <-r.Context().Done() })
		c, fc := newClient(conf, nil)
		switch kind {
		case 1:
			_, r, _ := c.Request(1, 0, nil)
			spawnV(func() { r.GetFrame() })
		case 2:
			w, r, _ := c.StreamRequest(1, 0, nil)
			feed(fc, fr(w.RequestID(), fStream, 1, nil))
			spawnV(func() {
				f, err := r.GetFrame()
				if err == nil && f != nil {
					for range f.FrameCh() {
					}
				}
			})
		case 3:
			feed(fc, fr(2, fNB, 1, nil))
		case 4:
			fc.OnWrite = func([]byte) (int, error) { return 0, fake.ErrReset }
			c.Request(1, 0, nil)
		}
		if wait {
			sym.Quiesce()
		}
		if lost {
			fc.EOF()
			sym.Quiesce()
		}
		c.Close()
	})
	sym.Reach("dialled")
}

// C40Reconnect: what lost connections leave behind in a client that dials again.
func C40Reconnect() {
	wait := sym.Choose("settle", 2) == 1
	nw := newNetwork(0)
	conf := qrpc.ConnectionConfig{OverlayNetwork: nw.dial, WriteFrameChSize: sym.Choose("batch", 2) * 2}
	busy := sym.Choose("busy", 3)
	conf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) { <-r.Context().Done() })
	c := qrpc.NewConnectionWithReconnect([]string{"a", "b"}, conf, nil)
	nw.up()
	steady(func() {
		fc := nw.last()
		nw.conns = nil
		switch busy {
		case 1:
			_, r, err := c.Request(1, 0, nil)
			if err == nil {
				spawnV(func() { r.GetFrame() })
			}
		case 2:
			feed(fc, fr(2, fNB, 1, nil))
		}
		if wait {
			sym.Quiesce()
		}
		fc.EOF()
		nw.up()
	})
	sym.Reach("reconnect")
}

// C40API: what the calls of an API leave behind.
func C40API() {
	es, names := newEndpoints(2)
	a := qrpc.NewAPI(names, qrpc.ConnectionConfig{OverlayNetwork: es.dial}, nil)
	kind := sym.Choose("kind", 4)
	steady(func() {
		switch kind {
		case 1: // one is down for a while
			es[0].down = true
			for _, c := range es[0].conns {
				c.EOF()
			}
			es[0].conns = nil
			sym.Quiesce()
		case 2: // the caller gives up and is answered later
			es[0].mute, es[1].mute = true, true
		}
		ctx, cancel := context.WithCancel(context.Background())
		for i := 0; i < 2; i++ {
			t := spawnV(func() { a.Call(ctx, 1, []byte{1}) })
			sym.Quiesce()
			cancel()
			sym.Quiesce()
			sym.Assert(t.Done(), "calls return")
			for _, e := range es {
				for _, f := range e.owed {
					f()
				}
				e.owed = nil
			}
			sym.Quiesce()
			if kind == 3 {
				for _, e := range es {
					for _, c := range e.conns {
						c.EOF()
					}
					e.conns = nil
				}
				sym.Quiesce()
			}
		}
		es[0].down = false
	})
	sym.Reach("api")
}

// C40Channel: what pipes leave behind on both sides.
func C40Channel() {
	kind := sym.Choose("kind", 3)
	bg := context.Background()
	e := newServer(qrpc.ServerBinding{Handler: channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		for {
			var m msg
			if r.Receive(bg, nil, &m) != nil {
				break
			}
		}
		s.Send(bg, 1, &msg{[]byte{2}}, kind != 1)
		if kind == 1 {
			s.End()
		}
	}))})
	ca, cb := fake.Pipe()
	e.lns[0].Dial(cb)
	c, err := qrpc.NewConnection("fake", qrpc.ConnectionConfig{OverlayNetwork: dialer(ca)}, nil)
	sym.Assert(err == nil, "connected")
	t := channel.NewTransport(c)
	steady(func() {
		s, r, err := t.Pipe()
		sym.Assert(err == nil, "pipe opened")
		s.Send(bg, 1, &msg{[]byte{1}}, kind == 0)
		if kind == 1 {
			s.End()
		} else if kind == 2 {
			s.Send(bg, 1, &msg{[]byte{1}}, true)
		}
		tr := spawnV(func() {
			for {
				var m msg
				if r.Receive(bg, nil, &m) != nil {
					break
				}
			}
		})
		sym.Quiesce()
		sym.Assert(tr.Done(), "the pipe ends")
	})
	sym.Reach("channel")
}

// C40Servers: what a whole server leaves behind.
func C40Servers() {
	wait := sym.Choose("settle", 2) == 1
	steady(func() {
		e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(reply)})
		c := e.dial()
		feed(c, fr(1, fNB, 1, nil))
		if wait {
			sym.Quiesce()
		}
		sd := spawn(e.srv.Shutdown)
		sym.Quiesce()
		time.Sleep(2 * time.Second)
		c.EOF()
		sym.Quiesce()
		sym.Assert(sd.Done() && e.serves[0].Done(), "shutdown returns")
	})
	sym.Reach("servers")
}

// C40Calls: generated calls that are answered, refused, or given up.
func C40Calls() {
	kind, conns := sym.Choose("kind", 4), 1+sym.Choose("conns", 2)
	var fcs []*fake.Conn
	names := []string{"a", "b"}[:conns]
	c := codegen.NewClient(rpcCmd, errCmd, names, qrpc.ConnectionConfig{OverlayNetwork: func(addr string, _ qrpc.DialConfig) (netConn, error) {
		if kind == 3 && addr == "b" {
			return nil, fake.ErrRefused
		}
		fc := fake.NewConn()
		fcs = append(fcs, fc)
		return fc, nil
	}})
	sym.Quiesce()
	steady(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		seen := make([]int, len(fcs))
		for i, fc := range fcs {
			seen[i] = len(frames(fc, "before"))
		}
		t := spawnV(func() { c.Request(ctx, "n", "m", nil) })
		sym.Quiesce()
		// each request and cancellation gets its response and confirmation
		serve := func() {
			for i, fc := range fcs {
				fs := frames(fc, "sent")
				for _, f := range fs[seen[i]:] {
					switch {
					case f.Flags&fRst != 0:
						feed(fc, fr(f.ID, fRst, 0, nil))
					case kind == 1:
						feed(fc, fr(f.ID, 0, errCmd, []byte("e")))
					case kind != 2:
						feed(fc, fr(f.ID, 0, rpcCmd, []byte("r")))
					}
				}
				seen[i] = len(fs)
			}
			sym.Quiesce()
		}
		serve()
		if kind == 2 {
			cancel()
			sym.Quiesce()
		}
		sym.Assert(t.Done(), "answered")
		serve()
	})
	sym.Reach("calls")
}

// C40Overlay: connections to a websocket or TLS server, whole and broken ones.
func C40Overlay() {
	ln := fake.NewListener()
	kind := []int{hsGood, hsSilent, hsLost, hsPath, hsPlain}[sym.Choose("kind", 5)]
	web, secure := sym.Choose("web", 2) == 1, sym.Symbolic() && sym.Choose("tls", 2) == 1
	var conf *tls.Config
	if secure {
		conf = &tls.Config{ServerName: "q"}
	}
	block := kind == hsGood && sym.Choose("busy", 2) == 1
	b := qrpc.ServerBinding{TLSConf: conf, ListenFunc: func(string, string) (net.Listener, error) { return ln, nil }}
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if block {
			<-r.Context().Done()
			return
		}
		reply(w, r)
	})
	if web {
		srv := wsserver.New([]qrpc.ServerBinding{b})
		spawn(srv.ListenAndServe)
	} else {
		srv := qrpc.NewServer([]qrpc.ServerBinding{b})
		spawn(srv.ListenAndServe)
	}
	wait := sym.Choose("settle", 2) == 1
	steady(func() {
		fc := fake.NewConn()
		send := func(p []byte) {
			if secure {
				p = fake.TLSRecord(p)
			}
			fc.Feed(p)
		}
		if secure && kind != hsSilent {
			h := fake.TLSHello(conf)
			if kind == hsPath {
				h = h[:1]
			}
			fc.Feed(h)
		}
		ln.Dial(fc)
		if web {
			switch kind {
			case hsGood:
				send(upgradeRequest("/qrpc"))
			case hsPath:
				send(upgradeRequest("/other"))
			case hsPlain:
				send([]byte("GET /qrpc HTTP/1.1\r\nHost: h\r\n\r\n"))
			case hsLost:
				send(upgradeRequest("/qrpc")[:20])
			}
		}
		if kind == hsGood {
			whole := fake.Enc(fr(1, fNB, 7, nil))
			if web {
				whole = fake.WSFrame(true, 2, true, [4]byte{1, 2, 3, 4}, whole)
			}
			send(whole)
		}
		if wait {
			sym.Quiesce()
		}
		fc.EOF()
		sym.Quiesce()
		sym.Assert(fc.Closed(), "a connection that ends is closed")
	})
	sym.Reach("overlay")
}
