package props

import (
	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// isDone polls a channel.
func isDone(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// drain consumes a frame channel.
type drain struct {
	got    []F
	closed bool
}

func (d *drain) start(ch <-chan *qrpc.Frame) {
	go func() {
		for f := range ch {
			d.got = append(d.got, fr(f.RequestID, uint8(f.Flags), uint32(f.Cmd), f.Payload))
		}
		d.closed = true
	}()
}

// half is the reference model of one stream.
type half struct {
	self, peer, rst, conn bool
}

func (h half) released() bool  { return h.self && h.peer || h.conn }
func (h half) cancelled() bool { return h.released() || h.rst }

func checkStream(f *qrpc.Frame, d *drain, h half, inFrames int) {
	sym.Quiesce()
	sym.Assert(isDone(f.Stream.Done()) == h.released(), "done signal fires exactly when both halves are closed")
	sym.Assert(isDone(f.Context().Done()) == h.cancelled(), "context is cancelled exactly when released or reset by the peer")
	sym.Assert(f.Stream.IsSelfClosed() == h.self || h.conn, "self half state")
	sym.Assert(d.closed == (h.peer || h.conn), "frame channel is closed exactly when the peer half is")
	sym.Assert(len(d.got) == inFrames, "frames received on the open half are delivered")
}

// C13Server: any sequence of operations on both halves of a request's stream.
func C13Server() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	var w qrpc.FrameWriter
	var r *qrpc.RequestFrame
	hold := make(chan struct{})
	runs := 0
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(fw qrpc.FrameWriter, req *qrpc.RequestFrame) {
		runs++
		if runs > 1 {
			finish(fw, req.RequestID, endDone)
			return
		}
		w, r = fw, req
		<-hold
	})})
	c := e.dial()
	kind := requestFlags("kind", 1)
	feed(c, fr(1, kind, 5, nil))
	sym.Quiesce()
	sym.Assert(r != nil, "handler runs")
	var d drain
	d.start(r.FrameCh())
	h := half{peer: kind != fStream}
	in, out := 0, 0
	f := (*qrpc.Frame)(r)
	checkStream(f, &d, h, in)
	for i := 0; i < n && !h.released(); i++ {
		self := func(flags uint8) {
			w.StartWrite(1, 2, qrpc.FrameFlag(flags))
			err := w.EndWrite()
			sym.Assert((err == nil) == !h.self, "a frame is refused exactly when the own half is closed")
			if err == nil {
				out++
			}
		}
		switch sym.Choose("op", 7) {
		case 0:
			feed(c, fr(1, fStream, 6, nil))
			if !h.peer {
				in++
			}
		case 1:
			feed(c, fr(1, fStream|fEnd, 6, nil))
			if !h.peer {
				in++
			}
			h.peer = true
		case 2:
			feed(c, fr(1, fRst, 0, nil))
			h.peer, h.rst = true, true
		case 3:
			self(fStream)
		case 4:
			fl := uint8(fStream | fEnd)
			if sym.Choose("plain", 2) == 1 {
				fl = 0
			}
			self(fl)
			h.self = true
		case 5:
			sym.Assert(w.ResetFrame(1, 0) == nil, "reset sent")
			out++
			h.self = true
		case 6:
			endInput(c)
			h.conn = true
			sym.Quiesce()
			close(hold)
		}
		if h.conn {
			// released once everything of the connection has ended
			checkStream(f, &d, h, in)
			sym.Reach("conn")
			return
		}
		checkStream(f, &d, h, in)
	}
	fs := frames(c, "server")
	sym.Assert(len(fs) == out, "exactly the accepted frames are sent")
	if !h.released() {
		return
	}
	// refused for good
	w.StartWrite(1, 2, qrpc.FrameFlag([]uint8{0, fStream, fStream | fEnd}[sym.Choose("late", 3)]))
	sym.Assert(w.EndWrite() != nil, "a frame on a released stream is refused")
	sym.Assert(w.ResetFrame(1, 0) != nil, "a reset of a released stream is refused")
	sym.Assert(len(c.Out()) == len(fake.EncAll(fs...)), "nothing is sent on a released stream")
	close(hold)
	sym.Quiesce()
	sym.Assert(len(c.Out()) == len(fake.EncAll(fs...)), "nothing is sent when the handler of a released stream returns")
	// it left the table: the identifier starts a new stream
	feed(c, fr(1, fNB, 5, nil))
	sym.Quiesce()
	sym.Assert(runs == 2, "the identifier can be used anew")
	sym.Reach("released")
}

// C13Client: the same for a stream opened by a client.
func C13Client() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 2) * 2}, nil)
	w, resp, err := c.StreamRequest(5, 0, nil)
	sym.Assert(err == nil, "request sent")
	id := w.RequestID()
	h := half{}
	in, out := 0, 1
	var d drain
	var f *qrpc.Frame
	first := func() {
		if f == nil {
			t := spawn(func() (err error) { f, err = resp.GetFrame(); return })
			sym.Quiesce()
			sym.Assert(t.Done() && t.Err() == nil && f != nil, "first response frame delivered")
			d.start(f.FrameCh())
		} else if !h.peer {
			in++
		}
	}
	for i := 0; i < n && !h.released(); i++ {
		op := sym.Choose("op", 7)
		if op == 2 && f == nil {
			return // covered by C11
		}
		switch op {
		case 0:
			feed(fc, fr(id, fStream, 6, nil))
			first()
		case 1:
			feed(fc, fr(id, fStream|fEnd, 6, nil))
			first()
			h.peer = true
		case 2:
			feed(fc, fr(id, fRst, 0, nil))
			h.peer, h.rst = true, true
		case 3, 4:
			w.StartWrite(2)
			err := w.EndWrite(op == 4)
			sym.Assert((err == nil) == !h.self, "a frame is refused exactly when the own half is closed")
			if err == nil {
				out++
			}
			h.self = h.self || op == 4
		case 5:
			sym.Assert(w.ResetFrame(0) == nil, "reset sent")
			out++
			h.self = true
		case 6:
			if sym.Choose("local", 2) == 1 {
				c.Close()
			} else {
				endInput(fc)
			}
			h.conn = true
		}
		sym.Quiesce()
		if f != nil {
			checkStream(f, &d, h, in)
		}
	}
	sym.Assert(len(frames(fc, "client")) == out, "exactly the accepted frames are sent")
	if h.released() {
		w.StartWrite(2)
		sym.Assert(w.EndWrite(sym.Choose("late", 2) == 1) != nil, "a frame on a released stream is refused")
		sym.Assert(w.ResetFrame(0) != nil, "a reset of a released stream is refused")
		sym.Assert(len(frames(fc, "client")) == out, "nothing is sent on a released stream")
		sym.Reach("released")
	}
}

// C13Race: both halves are closed at the same time.
func C13Race() {
	var r *qrpc.RequestFrame
	how := sym.Choose("how", 3)
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, req *qrpc.RequestFrame) {
		r = req
		switch how {
		case 0:
			w.StartWrite(req.RequestID, 2, qrpc.StreamFlag|qrpc.StreamEndFlag)
			w.EndWrite()
		case 1:
			w.ResetFrame(req.RequestID, 0)
		}
		// otherwise reset because unfinished
	})})
	c := e.dial()
	feed(c, fr(1, fStream, 5, nil))
	conn := false
	switch sym.Choose("peer", 4) {
	case 0:
		feed(c, fr(1, fStream|fEnd, 6, nil))
	case 1:
		feed(c, fr(1, fRst, 6, nil))
	case 2:
		feed(c, fr(1, fStream, 6, nil), fr(1, fStream|fEnd, 6, nil))
	case 3:
		c.EOF()
		conn = true
	}
	sym.Quiesce()
	sym.Assert(r != nil, "handler ran")
	sym.Assert(isDone(r.Stream.Done()), "stream is released")
	sym.Assert(isDone(r.Context().Done()), "its context is cancelled")
	if !conn {
		n := len(frames(c, "race"))
		sym.Assert(n <= 1, "at most one end of the own half is sent")
		feed(c, fr(1, fNB, 5, nil))
		sym.Quiesce()
		sym.Assert(len(frames(c, "race")) == n+1, "the identifier can be used anew")
	}
	sym.Reach("race")
}

// C13ClientRace: both halves of a client's stream are closed at the same time.
func C13ClientRace() {
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 2) * 2}, nil)
	w, resp, err := c.StreamRequest(5, 0, nil)
	sym.Assert(err == nil, "request sent")
	id := w.RequestID()
	how, peer := sym.Choose("how", 2), sym.Choose("peer", 3)
	feed(fc, fr(id, fStream, 1, nil))
	var f *qrpc.Frame
	var d drain
	t := spawn(func() (err error) {
		f, err = resp.GetFrame()
		if err == nil {
			d.start(f.FrameCh())
		}
		return
	})
	t2 := spawnV(func() {
		if how == 0 {
			w.StartWrite(2)
			w.EndWrite(true)
		} else {
			w.ResetFrame(0)
		}
	})
	switch peer {
	case 0:
		feed(fc, fr(id, fStream|fEnd, 6, nil))
	case 1:
		feed(fc, fr(id, fRst, 6, nil))
	case 2:
		fc.EOF()
	}
	sym.Quiesce()
	sym.Assert(t.Done() && t2.Done(), "both sides return")
	if t.Err() == nil {
		sym.Assert(isDone(f.Stream.Done()) && isDone(f.Context().Done()) && d.closed, "stream is released")
	} else {
		sym.Assert(peer == 2, "the response arrived before the end of the stream")
	}
	if peer != 2 {
		sym.Assert(c.ResetFrame(id, 0) != nil, "it left the table")
	}
	sym.Reach("race")
}
