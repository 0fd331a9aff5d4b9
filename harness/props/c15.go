package props

import (
	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

type open struct {
	r    *qrpc.RequestFrame
	d    drain
	runs int
}

// C15Server: three requests run; the peer resets one of them or sends a reset
// for an arbitrary identifier.
func C15Server() {
	os := map[uint64]*open{}
	hold := make(chan struct{})
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		o := &open{r: r}
		os[r.RequestID] = o
		o.d.start(r.FrameCh())
		<-hold
	})})
	c := e.dial()
	k1, k2 := requestFlags("k1", 1), requestFlags("k2", 1)
	feed(c, fr(1, k1, 1, nil), fr(3, k2, 1, nil), fr(5, fNB, 1, nil))
	sym.Quiesce()
	sym.Assert(len(os) == 3, "three requests run")
	id := sym.U64("id")
	fl := sym.U8("flags")
	feed(c, fr(id, fRst|fl&(fNB|fStream|fEnd|0xc0), sym.U32("reason")&0xffffff, sym.Bytes("p", 1)))
	sym.Quiesce()
	for _, k := range []uint64{1, 3, 5} {
		o := os[k]
		sym.Assert(isDone(o.r.Context().Done()) == (k == id), "exactly the reset request is cancelled")
		peerDone := k == 5 || k == 1 && k1 != fStream || k == 3 && k2 != fStream
		sym.Assert(o.d.closed == (peerDone || k == id), "exactly its frame channel ends")
	}
	sym.Assert(!c.Closed() && len(c.Out()) == 0, "nothing else happens")
	// the others go on: a continuation still arrives
	if k2 == fStream && id != 3 {
		feed(c, fr(3, fStream, 2, []byte{7}))
		sym.Quiesce()
		sym.Assert(len(os[3].d.got) == 1, "another stream keeps receiving")
		sym.Reach("goes on")
	}
	// losing the connection cancels everything
	endInput(c)
	sym.Quiesce()
	for _, k := range []uint64{1, 3, 5} {
		sym.Assert(isDone(os[k].r.Context().Done()), "a lost connection cancels every request")
	}
	close(hold)
	sym.Reach("server")
}

// C15Client: the same for a client's handlers.
func C15Client() {
	os := map[uint64]*open{}
	hold := make(chan struct{})
	c, fc := newClient(qrpc.ConnectionConfig{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		o := &open{r: r}
		os[r.RequestID] = o
		o.d.start(r.FrameCh())
		<-hold
	})}, nil)
	k1, k2 := requestFlags("k1", 1), requestFlags("k2", 1)
	feed(fc, fr(2, k1, 1, nil), fr(4, k2, 1, nil))
	_, r, err := c.Request(1, 0, nil)
	sym.Assert(err == nil, "request sent")
	w := await(3, r)
	sym.Quiesce()
	sym.Assert(len(os) == 2, "two requests run")
	id := sym.U64("id")
	feed(fc, fr(id, fRst, 0, nil))
	sym.Quiesce()
	for _, k := range []uint64{2, 4} {
		o := os[k]
		sym.Assert(isDone(o.r.Context().Done()) == (k == id), "exactly the reset request is cancelled")
		peerDone := k == 2 && k1 != fStream || k == 4 && k2 != fStream
		sym.Assert(o.d.closed == (peerDone || k == id), "exactly its frame channel ends")
	}
	sym.Assert(w.t.Done() == (id == 3), "exactly the reset request of its own ends")
	sym.Assert(!fc.Closed(), "connection stays")
	if sym.Choose("local", 2) == 1 {
		c.Close()
	} else {
		endInput(fc)
	}
	sym.Quiesce()
	for _, k := range []uint64{2, 4} {
		sym.Assert(isDone(os[k].r.Context().Done()), "a lost connection cancels every request")
	}
	close(hold)
	sym.Reach("client")
}

// C15Send: resets sent by a client for an arbitrary identifier.
func C15Send() {
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 2) * 2}, nil)
	id1, r1, err := c.Request(1, 0, nil)
	sym.Assert(err == nil, "request sent")
	id2, _, err := c.Request(2, 0, nil)
	sym.Assert(err == nil, "request sent")
	w3, _, err := c.StreamRequest(3, 0, nil)
	sym.Assert(err == nil, "request sent")
	// the first one is fully finished
	feed(fc, fr(id1, 0, 9, nil))
	w := await(id1, r1)
	sym.Quiesce()
	sym.Assert(w.t.Done(), "answered")
	out := fc.Out()
	id, reason := sym.U64("id"), sym.U32("reason")
	err = c.ResetFrame(id, qrpc.Cmd(reason))
	fs, ok := fake.Dec(fc.Out()[len(out):])
	sym.Assert(ok, "whole frames")
	if id == id2 || id == w3.RequestID() {
		sym.Assert(err == nil && len(fs) == 1 && same(fs[0], fr(id, fRst, reason&0xffffff, nil)), "reset of a request in flight is sent")
		sym.Reach("known")
	} else {
		sym.Assert(err != nil && len(fs) == 0, "reset of an unknown or finished request fails and sends nothing")
		sym.Reach("unknown")
	}
}

// C15ServerSend: resets sent by a server for an arbitrary identifier.
func C15ServerSend() {
	hold := make(chan struct{})
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if r.RequestID == 1 {
			finish(w, 1, endDone)
			return
		}
		<-hold
	})})
	c := e.dial()
	feed(c, fr(1, fNB, 1, nil), fr(3, requestFlags("kind", 1), 1, nil))
	sym.Quiesce()
	n := len(frames(c, "server"))
	sym.Assert(n == 1, "first request answered")
	id, reason := sym.U64("id"), sym.U32("reason")
	var err error
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		err = w.ResetFrame(id, qrpc.Cmd(reason))
		return true
	})
	fs := frames(c, "server")
	if id == 3 {
		sym.Assert(err == nil && len(fs) == 2 && same(fs[1], fr(3, fRst, reason&0xffffff, nil)), "reset of a request in flight is sent")
		sym.Reach("known")
	} else {
		sym.Assert(err != nil && len(fs) == 1, "reset of an unknown or finished request fails and sends nothing")
		sym.Reach("unknown")
	}
}
