package props

import (
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// ways for a handler to end
const (
	endSilent = iota
	endPanic
	endDone
	endDonePanic
	endPart
	endPartPanic
	endStreamDone
	endReset
	endResetPanic
	endAbandon
	endRefused
	nEnds
)

// finish plays a handler that ends in the given way.
func finish(w qrpc.FrameWriter, id uint64, how int) {
	part := func(flags qrpc.FrameFlag) {
		w.StartWrite(id, 1, flags)
		w.WriteBytes([]byte{1})
		sym.Assert(w.EndWrite() == nil, "frame sent")
	}
	switch how {
	case endPanic:
		panic("handler panic")
	case endDone:
		part(0)
	case endDonePanic:
		part(0)
		panic("handler panic")
	case endPart:
		part(qrpc.StreamFlag)
	case endPartPanic:
		part(qrpc.StreamFlag)
		panic("handler panic")
	case endStreamDone:
		part(qrpc.StreamFlag)
		part(qrpc.StreamFlag | qrpc.StreamEndFlag)
	case endReset:
		sym.Assert(w.ResetFrame(id, 2) == nil, "reset sent")
	case endResetPanic:
		sym.Assert(w.ResetFrame(id, 2) == nil, "reset sent")
		panic("handler panic")
	case endAbandon:
		w.StartWrite(id, 1, 0)
		w.WriteBytes([]byte{1})
	case endRefused:
		w.StartWrite(id, 1, qrpc.CodecFlag)
		w.WriteBytes([]byte{1})
		sym.Assert(w.EndWrite() == qrpc.ErrNoCodec, "refused")
	}
}

// finished lists the frames the peer gets for it.
func finished(id uint64, how int) []F {
	done, part, end := fr(id, 0, 1, []byte{1}), fr(id, fStream, 1, []byte{1}), fr(id, fStream|fEnd, 1, []byte{1})
	switch how {
	case endDone, endDonePanic:
		return []F{done}
	case endPart, endPartPanic:
		return []F{part, fr(id, fRst, 0, nil)}
	case endStreamDone:
		return []F{part, end}
	case endReset, endResetPanic:
		return []F{fr(id, fRst, 2, nil)}
	}
	return []F{fr(id, fRst, 0, nil)}
}

// byID picks the frames with one identifier.
func byID(fs []F, id uint64) (r []F) {
	for _, f := range fs {
		if f.ID == id {
			r = append(r, f)
		}
	}
	return
}

func expectFrames(got, want []F, label string) {
	sym.Assert(len(got) == len(want), label+": number of frames")
	for i := range want {
		sym.Assert(same(got[i], want[i]), label+": frame content")
	}
}

// requestFlags chooses one of the request kinds.
func requestFlags(name string, min int) uint8 {
	return []uint8{0, fNB, fStream, fStream | fEnd}[min+sym.Choose(name, 4-min)]
}

// C12Server: two requests whose handlers end in any way, then a normal one, and
// another connection.
func C12Server() {
	how1, how2 := sym.Choose("how1", nEnds), sym.Choose("how2", nEnds)
	k1, k2 := requestFlags("kind1", 0), requestFlags("kind2", 0)
	sym.Assume(how2 == endPanic || how2 == endDone || how1 == endSilent)
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		switch r.RequestID {
		case 1:
			finish(w, 1, how1)
		case 3:
			finish(w, 3, how2)
		default:
			finish(w, r.RequestID, endDone)
		}
	})})
	c, d := e.dial(), e.dial()
	feed(c, fr(1, k1, 5, nil), fr(3, k2, 5, nil))
	sym.Quiesce()
	feed(c, fr(5, uint8(sym.Choose("nb", 2))*fNB, 6, nil))
	feed(d, fr(7, 0, 6, nil))
	sym.Quiesce()
	fs := frames(c, "server")
	expectFrames(byID(fs, 1), finished(1, how1), "first request")
	expectFrames(byID(fs, 3), finished(3, how2), "second request")
	expectFrames(byID(fs, 5), finished(5, endDone), "later request")
	sym.Assert(len(fs) == len(finished(1, how1))+len(finished(3, how2))+1, "nothing else is sent")
	sym.Assert(!c.Closed() && !d.Closed(), "connections stay open")
	expect(d, "other connection", finished(7, endDone)...)
	sym.Reach("server")
}

// C12Client: the same for a client's handler.
func C12Client() {
	how1, how2 := sym.Choose("how1", nEnds), sym.Choose("how2", nEnds)
	k1, k2 := requestFlags("kind1", 1), requestFlags("kind2", 1)
	sym.Assume(how2 == endPanic || how2 == endDone || how1 == endSilent)
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 2) * 2, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if r.RequestID == 2 {
			finish(w, 2, how1)
		} else {
			finish(w, 4, how2)
		}
	})}, nil)
	feed(fc, fr(2, k1, 5, nil), fr(4, k2, 5, nil))
	sym.Quiesce()
	fs := frames(fc, "client")
	expectFrames(byID(fs, 2), finished(2, how1), "first request")
	expectFrames(byID(fs, 4), finished(4, how2), "second request")
	sym.Assert(len(fs) == len(finished(2, how1))+len(finished(4, how2)), "nothing else is sent")
	// its own requests keep working
	id, r, err := c.Request(1, 0, nil)
	sym.Assert(err == nil, "own request sent")
	feed(fc, fr(id, 0, 9, nil))
	w := await(id, r)
	sym.Quiesce()
	sym.Assert(w.t.Done() && w.t.Err() == nil, "own request answered")
	sym.Reach("client")
}

// rest feeds what the peer still sends for a request: continuation frames and
// perhaps the end of the stream.
func rest(id uint64) (fs []F) {
	for i, n := 0, sym.Choose("rest", 3); i < n; i++ {
		fs = append(fs, fr(id, fStream, 5, []byte{7}))
	}
	if sym.Choose("ended", 2) == 1 {
		fs = append(fs, fr(id, fStream|fEnd, 5, nil))
	}
	return
}

// C12Rest: the peer goes on with a streamed request whose handler has ended or
// is about to, without having read anything; later requests are still served.
func C12Rest() {
	how := sym.Choose("how", nEnds)
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if r.RequestID == 1 {
			finish(w, 1, how)
		} else {
			finish(w, r.RequestID, endDone)
		}
	})})
	c := e.dial()
	feed(c, fr(1, fStream, 5, nil))
	if sym.Choose("later", 2) == 1 {
		sym.Quiesce()
	}
	feed(c, rest(1)...)
	feed(c, fr(3, 0, 6, nil))
	sym.Quiesce()
	fs := frames(c, "server")
	expectFrames(byID(fs, 1), finished(1, how), "streamed request")
	expectFrames(byID(fs, 3), finished(3, endDone), "later request")
	sym.Assert(!c.Closed(), "connection stays open")
	sym.Reach("rest")
}

// C12ClientRest: the same for a client's handler.
func C12ClientRest() {
	how := sym.Choose("how", nEnds)
	c, fc := newClient(qrpc.ConnectionConfig{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if r.RequestID == 2 {
			finish(w, 2, how)
		} else {
			finish(w, r.RequestID, endDone)
		}
	})}, nil)
	id, r, err := c.Request(1, 0, nil)
	sym.Assert(err == nil, "own request sent")
	sym.Quiesce()
	feed(fc, fr(2, fNB|fStream, 5, nil))
	if sym.Choose("later", 2) == 1 {
		sym.Quiesce()
	}
	feed(fc, rest(2)...)
	feed(fc, fr(4, fNB, 6, nil), fr(id, 0, 9, nil))
	w := await(id, r)
	sym.Quiesce()
	fs := frames(fc, "client")
	expectFrames(byID(fs, 2), finished(2, how), "streamed request")
	expectFrames(byID(fs, 4), finished(4, endDone), "later request")
	sym.Assert(w.t.Done() && w.t.Err() == nil, "own request answered")
	sym.Reach("rest")
}
