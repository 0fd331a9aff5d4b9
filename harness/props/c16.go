package props

import (
	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// pushFrame is a push with any identifier and content.
func pushFrame() F {
	return fr(sym.U64("pid"), fPush|sym.U8("pfl")&(fNB|0xc0), uint32(sym.U16("pcmd")), sym.Bytes("pp", 1))
}

// C16Client: a request in flight, two pushes with any identifiers, a response.
func C16Client() {
	var got []F
	var sub qrpc.SubFunc
	withSub := sym.Choose("sub", 2) == 1
	if withSub {
		sub = func(c *qrpc.Connection, f *qrpc.Frame) {
			got = append(got, fr(f.RequestID, uint8(f.Flags), uint32(f.Cmd), f.Payload))
		}
	}
	handled := 0
	conf := qrpc.ConnectionConfig{}
	if sym.Choose("handler", 2) == 1 {
		conf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) { handled++ })
	}
	c, fc := newClient(conf, sub)
	stream := sym.Choose("stream", 2) == 1
	var id uint64
	var r qrpc.Response
	var err error
	if stream {
		var w qrpc.StreamWriter
		w, r, err = c.StreamRequest(1, 0, nil)
		id = w.RequestID()
	} else {
		id, r, err = c.Request(1, 0, nil)
	}
	sym.Assert(err == nil, "request sent")
	w := await(id, r)
	p1, p2 := pushFrame(), pushFrame()
	resp := fr(id, 0, 9, []byte{sym.U8("r")})
	order := sym.Choose("order", 3)
	switch order {
	case 0:
		feed(fc, p1, p2)
	case 1:
		feed(fc, p1, resp, p2)
	case 2:
		feed(fc, resp, p1, p2)
	}
	sym.Quiesce()
	if order == 0 {
		sym.Assert(!w.t.Done(), "a push never completes a request")
		feed(fc, resp)
		sym.Quiesce()
	}
	if withSub {
		expectFrames(got, []F{p1, p2}, "pushes")
	}
	sym.Assert(handled == 0, "no handler runs for a push")
	sym.Assert(w.t.Done() && w.t.Err() == nil && same(w.frame(), resp), "the request gets its own response")
	sym.Assert(!fc.Closed(), "connection stays")
	sym.Reach("client")
}

// C16Server: the same for pushes sent by a client.
func C16Server() {
	var got []F
	var handled []F
	withSub := sym.Choose("sub", 2) == 1
	hold := make(chan struct{})
	b := qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		handled = append(handled, fr(r.RequestID, uint8(r.Flags), uint32(r.Cmd), r.Payload))
		<-hold
		finish(w, r.RequestID, endDone)
	})}
	if withSub {
		b.SubFunc = func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) {
			got = append(got, fr(f.RequestID, uint8(f.Flags), uint32(f.Cmd), f.Payload))
		}
	}
	e := newServer(b)
	c := e.dial()
	p1, p2 := pushFrame(), pushFrame()
	req := fr(sym.U64("rid")|1, requestFlags("kind", 1), 9, []byte{sym.U8("r")})
	switch sym.Choose("order", 3) {
	case 0:
		feed(c, p1, p2, req)
	case 1:
		feed(c, p1, req, p2)
	case 2:
		feed(c, req, p1, p2)
	}
	sym.Quiesce()
	if withSub {
		expectFrames(got, []F{p1, p2}, "pushes")
	}
	expectFrames(handled, []F{req}, "requests")
	close(hold)
	sym.Quiesce()
	expect(c, "responses", finished(req.ID, endDone)...)
	sym.Reach("server")
}

// C16Stream: streamed pushes nobody subscribed to, or continued ones.
func C16Stream() {
	var firsts, conts []F
	withSub := sym.Choose("sub", 2) == 1
	client := sym.Choose("client", 2) == 1
	on := func(f *qrpc.Frame) {
		firsts = append(firsts, fr(f.RequestID, uint8(f.Flags), uint32(f.Cmd), f.Payload))
		go func() {
			for g := range f.FrameCh() {
				conts = append(conts, fr(g.RequestID, uint8(g.Flags), uint32(g.Cmd), g.Payload))
			}
		}()
	}
	id := sym.U64("id")
	fs := []F{fr(id, fPush|fStream, 1, nil), fr(id, fPush|fStream, 2, []byte{sym.U8("a")}), fr(id, fPush|fStream|fEnd, 3, []byte{sym.U8("b")}), fr(id, fPush, 4, nil)}
	var fc *fake.Conn
	handled := 0
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) { handled++; finish(w, r.RequestID, endDone) })
	if client {
		var sub qrpc.SubFunc
		if withSub {
			sub = func(c *qrpc.Connection, f *qrpc.Frame) { on(f) }
		}
		_, fc = newClient(qrpc.ConnectionConfig{Handler: h}, sub)
	} else {
		b := qrpc.ServerBinding{Handler: h}
		if withSub {
			b.SubFunc = func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) { on(f) }
		}
		fc = newServer(b).dial()
	}
	feed(fc, fs...)
	last := uint64(1)
	if client {
		last = 2
	}
	feed(fc, fr(last, fNB, 5, nil))
	sym.Quiesce()
	sym.Assert(handled == 1, "pushes are never requests and later requests are served")
	if withSub {
		expectFrames(firsts, []F{fs[0], fs[3]}, "pushes")
		expectFrames(conts, fs[1:3], "continuations")
	}
	expect(fc, "responses", finished(last, endDone)...)
	sym.Reach("stream")
}

// C16Send: sending a push expects no response.
func C16Send() {
	cmd, p := sym.U32("cmd"), sym.Bytes("p", 1)
	fl := fPush | sym.U8("fl")&fNB
	if sym.Choose("side", 2) == 0 {
		c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 2) * 2}, nil)
		id, r, err := c.Request(qrpc.Cmd(cmd), qrpc.FrameFlag(fl), p)
		sym.Assert(err == nil && r == nil, "push sent, no response handle")
		expect(fc, "push", fr(id, fl, cmd&0xffffff, p))
		sym.Assert(c.ResetFrame(id, 0) != nil, "no stream remains")
		sym.Reach("client")
		return
	}
	e := newServer(qrpc.ServerBinding{})
	c := e.dial()
	sym.Quiesce()
	id := uint64(0)
	pushID := sym.Choose("fresh", 2) == 1
	if pushID {
		id = e.srv.GetPushID()
		sym.Assert(e.srv.GetPushID() != id, "push identifiers are distinct")
	}
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		w.StartWrite(id, qrpc.Cmd(cmd), qrpc.FrameFlag(fl))
		w.WriteBytes(p)
		sym.Assert(w.EndWrite() == nil, "push sent")
		_, r, err := ci.Request(qrpc.Cmd(cmd), qrpc.FrameFlag(fl), p)
		sym.Assert(err == nil && r == nil, "push sent, no response handle")
		return true
	})
	fs := frames(c, "push")
	sym.Assert(len(fs) == 2 && same(fs[0], fr(id, fl, cmd&0xffffff, p)) && same(fs[1], fr(fs[1].ID, fl|fNB, cmd&0xffffff, p)), "pushes on the wire")
	sym.Reach("server")
}

// C16Reset: pushes of any flags, resets included, with any identifiers, while a
// handler and a streamed response are in progress.
func C16Reset() {
	server := sym.Choose("side", 2) == 1
	ended, conts := 0, 0
	var ctxErr error
	hold := make(chan struct{})
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		<-hold
		ctxErr = r.Context().Err()
		for range r.FrameCh() {
			conts++
		}
		ended++
		finish(w, r.RequestID, endDone)
	})
	var fc *fake.Conn
	id := uint64(1)
	var resp *task
	var rconts int
	var rid uint64
	request := func(f func(qrpc.Cmd, qrpc.FrameFlag, []byte) (qrpc.StreamWriter, qrpc.Response, error)) {
		w, r, err := f(1, 0, nil)
		sym.Assert(err == nil, "request sent")
		rid = w.RequestID()
		resp = spawn(func() error {
			f, err := r.GetFrame()
			if err != nil {
				return err
			}
			for range f.FrameCh() {
				rconts++
			}
			return f.Context().Err()
		})
	}
	if server {
		e := newServer(qrpc.ServerBinding{Handler: h})
		fc = e.dial()
		sym.Quiesce()
		e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			request(ci.StreamRequest)
			return true
		})
	} else {
		id = 2
		var c *qrpc.Connection
		c, fc = newClient(qrpc.ConnectionConfig{Handler: h}, nil)
		request(c.StreamRequest)
	}
	begun := sym.Choose("begun", 2) == 1 // the response has begun when the push arrives
	feed(fc, fr(id, fStream|fNB, 5, nil))
	if begun {
		feed(fc, fr(rid, fStream, 6, nil))
	}
	sym.Quiesce()
	feed(fc, fr(sym.U64("pid"), fPush|sym.U8("pfl")&(fStream|fEnd|fRst|fNB|0xc0), 7, nil))
	sym.Quiesce()
	close(hold)
	sym.Quiesce()
	sym.Assert(ended == 0 && ctxErr == nil, "a push never ends a request")
	sym.Assert(!resp.Done(), "a push never ends a response")
	if !begun {
		feed(fc, fr(rid, fStream, 6, nil))
	}
	feed(fc, fr(rid, fStream, 6, nil), fr(rid, fStream|fEnd, 6, nil), fr(id, fStream|fEnd, 5, nil))
	sym.Quiesce()
	sym.Assert(ended == 1 && conts == 1, "the request gets its continuation")
	sym.Assert(resp.Done() && rconts == 2, "the response gets its continuation")
	sym.Assert(!fc.Closed(), "connection stays")
	sym.Reach("reset")
}
