package props

import (
	"sync"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// C35Server: what a server's handler, middleware and subscriber can reach from
// a request is the connection it came on, and nothing of another one.
func C35Server() {
	act := sym.Choose("act", 7)
	var mu sync.Mutex
	var infos []*qrpc.ConnectionInfo
	var stashes []interface{}
	var anything []interface{}
	var pushed []*qrpc.ConnectionInfo
	var e *srvEnv
	h := qrpc.HandlerWithMW(qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		ci := r.ConnectionInfo()
		sym.Assert(ci.Server() == e.srv && ci.RemoteAddr() == fake.Addr{}.String(), "a request knows its server")
		mu.Lock()
		first := len(infos) == 0
		infos = append(infos, ci)
		stashes = append(stashes, r.GetStash())
		anything = append(anything, ci.GetAnything())
		mu.Unlock()
		if first {
			switch act {
			case 0:
				ci.SetAnything(41)
			case 1:
				r.Close()
				return
			case 2:
				_, _, err := r.StreamInitiator().StreamRequest(77, 0, []byte{1})
				sym.Assert(err == nil, "a stream can be opened to the peer")
			case 3:
				ci.Request(78, qrpc.PushFlag, []byte{2})
			case 4:
				r.SetStash(43)
			case 5:
				nw := ci.GetWriter()
				nw.StartWrite(100, 79, qrpc.PushFlag)
				nw.EndWrite()
			case 6:
				ci.NotifyWhenClose(func() {
					mu.Lock()
					pushed = append(pushed, ci)
					mu.Unlock()
				})
			}
		}
		w.StartWrite(r.RequestID, 9, 0)
		w.EndWrite()
	}), func(w qrpc.FrameWriter, r *qrpc.RequestFrame) bool {
		sym.Assert(r.GetStash() == nil, "a request starts without stash")
		r.SetStash(int(r.Payload[0]))
		return true
	})
	e = newServer(qrpc.ServerBinding{Handler: h, SubFunc: func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) {
		mu.Lock()
		pushed = append(pushed, ci)
		mu.Unlock()
	}})
	a := e.dial()
	sym.Quiesce()
	b := e.dial()
	sym.Quiesce()
	id := sym.U64("id")
	other := sym.U64("other")
	sym.Assume(sym.And(id != other, sym.And(id > 2, other > 2)))
	nb := uint8(sym.Choose("nb", 2)) * fNB
	feed(a, fr(id, nb, 1, []byte{5}))
	sym.Quiesce()
	answer := fr(id, 0, 9, nil)
	switch act {
	case 1:
		sym.Assert(a.Closed() && !b.Closed(), "closing a request's connection closes that one")
		expect(a, "a")
		sym.Reach("closed")
	case 2:
		expect(a, "a", fr(2, fStream, 77, []byte{1}), answer)
	case 3:
		expect(a, "a", fr(2, fPush|fNB, 78, []byte{2}), answer)
	case 5:
		expect(a, "a", fr(100, fPush, 79, nil), answer)
	default:
		expect(a, "a", answer)
	}
	expect(b, "b")
	if act == 1 {
		return
	}
	feed(b, fr(id, nb, 1, []byte{6}))
	sym.Quiesce()
	feed(a, fr(other, nb, 1, []byte{7}))
	sym.Quiesce()
	expect(b, "b", answer)
	sym.Assert(len(infos) == 3, "all requests are handled")
	sym.Assert(infos[0] == infos[2] && infos[0] != infos[1], "the connection info belongs to the connection")
	sym.Assert(stashes[0] == 5 && stashes[1] == 6 && stashes[2] == 7, "a stash belongs to its request")
	sym.Assert(anything[0] == nil && anything[1] == nil, "stored data belong to their connection")
	if act == 0 {
		sym.Assert(anything[2] == 41, "stored data stay with the connection")
	} else {
		sym.Assert(anything[2] == nil, "nothing is stored by itself")
	}
	n := len(frames(a, "a"))
	feed(b, fr(5, fPush, 1, nil))
	sym.Quiesce()
	sym.Assert(len(pushed) == 1 && pushed[0] == infos[1], "a subscriber is told the connection of the push")
	a.EOF()
	sym.Quiesce()
	if act == 6 {
		sym.Assert(len(pushed) == 2 && pushed[1] == infos[0], "the notification is for the connection it was asked of")
	} else {
		sym.Assert(len(pushed) == 1, "no notification")
	}
	sym.Assert(len(frames(a, "a")) == n && !b.Closed(), "the other connection goes on")
	sym.Reach("server")
}

// C35Client: the same for a client's handler and subscriber, on its first and
// on later connections.
func C35Client() {
	act := sym.Choose("act", 4)
	reconnect := sym.Choose("reconnect", 2) == 1
	var mu sync.Mutex
	var c *qrpc.Connection
	handled, pushed, connected, lost := 0, 0, 0, 0
	n := newNetwork(0)
	conf := qrpc.ConnectionConfig{OverlayNetwork: n.dial}
	conf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		cci := r.ClientConnectionInfo()
		mu.Lock()
		handled++
		sym.Assert(cci.CC == c, "a request knows its connection")
		mu.Unlock()
		sym.Assert(!r.FromClient(), "a request from the server")
		switch act {
		case 1:
			r.Close()
			return
		case 2:
			_, _, err := r.StreamInitiator().StreamRequest(77, 0, []byte{1})
			sym.Assert(err == nil, "a stream can be opened to the peer")
		case 3:
			cci.CC.Request(78, qrpc.PushFlag, []byte{2})
		}
		w.StartWrite(r.RequestID, 9, 0)
		w.EndWrite()
	})
	conf.LifecycleCallbacks.OnConnect = func(x *qrpc.Connection) {
		mu.Lock()
		connected++
		mu.Unlock()
	}
	conf.LifecycleCallbacks.OnDisconnect = func(x *qrpc.Connection) {
		mu.Lock()
		lost++
		sym.Assert(x == c, "a lifecycle callback is told its connection")
		mu.Unlock()
	}
	sub := func(x *qrpc.Connection, f *qrpc.Frame) {
		mu.Lock()
		pushed++
		sym.Assert(x == c, "a subscriber is told its connection")
		mu.Unlock()
	}
	mu.Lock()
	if reconnect {
		c = qrpc.NewConnectionWithReconnect([]string{"a"}, conf, sub)
	} else {
		x, err := qrpc.NewConnection("a", conf, sub)
		sym.Assert(err == nil, "connected")
		c = x
	}
	mu.Unlock()
	rounds := 1
	if reconnect {
		rounds = 2
	}
	for k := 0; k < rounds; k++ {
		fc := n.up()
		id := 2 * sym.U64("id")
		sym.Assume(id > 0)
		feed(fc, fr(8, fPush, 1, nil))
		feed(fc, fr(id, fNB, 1, []byte{5}))
		sym.Quiesce()
		mu.Lock()
		sym.Assert(handled == k+1 && pushed == k+1 && connected >= k+1, "requests and pushes of every connection are handled")
		mu.Unlock()
		answer := fr(id, 0, 9, nil)
		out := frames(fc, "client")
		switch act {
		case 0:
			expect(fc, "client", answer)
		case 1:
			sym.Assert(fc.Closed() && len(out) == 0, "closing a request's connection closes it")
			mu.Lock()
			sym.Assert(lost == k+1, "the loss is noticed")
			mu.Unlock()
			sym.Reach("closed")
		case 2:
			sym.Assert(len(out) == 2 && sym.And(out[0].Cmd == 77, out[0].Flags == fStream) && same(out[1], answer), "the stream is opened on the connection of the request")
		case 3:
			sym.Assert(len(out) == 2 && sym.And(out[0].Cmd == 78, out[0].Flags == fPush) && same(out[1], answer), "the push is sent on the connection of the request")
		}
		if act != 1 {
			fc.EOF()
			sym.Quiesce()
		}
		sym.Assert(fc.Closed(), "the connection ended")
	}
	sym.Assert(n.dials() == rounds || reconnect && n.dials() == rounds+1, "one dial per connection")
	sym.Assert(reconnect || c.IsClosed(), "without reconnect the client ends")
	c.Close()
	sym.Reach("client")
}

// C35Walk: walks over connections hand out each with its own writer.
func C35Walk() {
	const n = 3
	names := []string{"x", "y", "z"}
	var cis [n]*qrpc.ConnectionInfo
	k := 0
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		cis[k] = r.ConnectionInfo()
		w.StartWrite(r.RequestID, 9, 0)
		w.EndWrite()
	})})
	var fcs [n]*fake.Conn
	for i := 0; i < n; i++ {
		k = i
		fcs[i] = e.dial()
		feed(fcs[i], fr(3, 0, 1, nil))
		sym.Quiesce()
		if i < 2 {
			cis[i].SetID(names[i])
		}
	}
	var want [n][]F
	for i := range want {
		want[i] = []F{fr(3, 0, 9, nil)}
	}
	seen := 0
	push := func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) {
		seen++
		for i := range cis {
			if cis[i] == ci {
				id := e.srv.GetPushID()
				w.StartWrite(id, qrpc.Cmd(50+i), qrpc.PushFlag)
				sym.Assert(w.EndWrite() == nil, "a push can be sent")
				want[i] = append(want[i], fr(id, fPush, uint32(50+i), nil))
				return
			}
		}
		sym.Assert(false, "a walk hands out connections of the server")
	}
	if sym.Choose("byid", 2) == 1 {
		var ids []string
		for i := 0; i < 2; i++ {
			ids = append(ids, names[sym.Choose("name", 3)])
		}
		known := 0
		for _, id := range ids {
			if id != "z" {
				known++
			}
		}
		e.srv.WalkConnByID(0, ids, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo, i int) {
			sym.Assert(ci.GetID() == ids[i], "a walk by id hands out the owner of the id")
			push(w, ci)
		})
		sym.Assert(seen == known, "a walk by id visits the owner of every known id")
		sym.Reach("byid")
	} else {
		stop := sym.Choose("stop", 4)
		e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			push(w, ci)
			return seen != stop
		})
		if stop == 0 {
			stop = n
		}
		sym.Assert(seen == stop, "a walk visits every connection once unless stopped")
		sym.Reach("walk")
	}
	sym.Quiesce()
	ids := map[uint64]bool{}
	for i := range fcs {
		expect(fcs[i], "pushes", want[i]...)
		for _, f := range want[i][1:] {
			sym.Assert(!ids[f.ID], "push identifiers are unique")
			ids[f.ID] = true
		}
		if len(want[i]) > 2 {
			sym.Assert(seen == 2, "a walk visits a connection once")
		}
	}
}

// C35Late: a request is kept and closed later, while or after its connection is
// lost and replaced.
func C35Late() {
	n := newNetwork(0)
	reqs := make(chan *qrpc.RequestFrame, 2)
	conf := qrpc.ConnectionConfig{OverlayNetwork: n.dial}
	conf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		reqs <- r
		w.StartWrite(r.RequestID, 9, 0)
		w.EndWrite()
	})
	c := qrpc.NewConnectionWithReconnect([]string{"a"}, conf, nil)
	fc := n.up()
	id := 2 * sym.U64("id")
	sym.Assume(id > 0)
	feed(fc, fr(id, fNB, 1, nil))
	sym.Quiesce()
	r := <-reqs
	lost := sym.Choose("lost", 3)
	if lost > 0 {
		fc.EOF()
	}
	if lost == 2 {
		nc := n.up()
		sym.Assert(nc != fc && r.Context().Err() != nil, "the connection is replaced")
	}
	t := spawn(r.Close)
	sym.Quiesce()
	sym.Assert(t.Done() && fc.Closed(), "closing returns and the request's connection is closed")
	nc := n.up()
	sym.Assert(nc != fc && n.dials() == 2, "only the connection of the request is closed")
	served(c, nc, 20)
	feed(nc, fr(id, fNB, 1, nil))
	sym.Quiesce()
	sym.Assert(r.Close() == nil, "closing again does nothing")
	sym.Quiesce()
	sym.Assert(!nc.Closed(), "the newer connection stays")
	(<-reqs).Close()
	sym.Quiesce()
	sym.Assert(nc.Closed(), "until its own request closes it")
	c.Close()
	sym.Reach("late")
}
