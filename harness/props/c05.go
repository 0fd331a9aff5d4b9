package props

import (
	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// abandon starts a frame, writes to it and does not send it; it may panic.
func abandon(w qrpc.FrameWriter, id uint64, p []byte, how int) {
	w.StartWrite(id, 1, 0)
	w.WriteBytes(p)
	switch how {
	case 0: // just return
	case 1:
		panic("handler panic")
	case 2: // finishing fails
		w.StartWrite(id, 1, qrpc.CodecFlag)
		w.WriteBytes(p)
		sym.Assert(w.EndWrite() != nil, "codec failure reported")
	case 3: // start over
		w.StartWrite(id, 2, 0)
		w.WriteBytes([]byte{7})
		sym.Assert(w.EndWrite() == nil, "response sent")
	case 4: // reset instead
		sym.Assert(w.ResetFrame(id, 0) == nil, "reset sent")
	case 5: // unknown request
		w.StartWrite(id+100, 1, qrpc.StreamRstFlag)
		w.WriteBytes(p)
		sym.Assert(w.EndWrite() != nil, "reset of unknown request refused")
	}
}

func abandonResult(id uint64, how int) F {
	switch how {
	case 3:
		return fr(id, 0, 2, []byte{7})
	default:
		return fr(id, fRst, 0, nil)
	}
}

// C05Server: a handler abandons a frame in every possible way; later frames of
// the same and of another connection carry only their own bytes.
func C05Server() {
	how := sym.Choose("how", 6)
	nb := uint8(sym.Choose("nb", 2)) * fNB
	junk := sym.BytesN("junk", 1+sym.Choose("njunk", 2))
	p := sym.Bytes("p", 2)
	b := qrpc.ServerBinding{}
	if how == 2 && sym.Choose("codec", 2) == 1 {
		b.Codec = &codec{encErr: true}
	}
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if r.RequestID == 1 {
			abandon(w, r.RequestID, junk, how)
			return
		}
		w.StartWrite(r.RequestID, 9, 0)
		w.WriteBytes(p)
		sym.Assert(w.EndWrite() == nil, "response sent")
	})
	e := newServer(b)
	c := e.dial()
	feed(c, fr(1, nb, 5, nil))
	sym.Quiesce()
	expect(c, "first", abandonResult(1, how))
	c2 := c
	if sym.Choose("other", 2) == 1 {
		c2 = e.dial()
	}
	n := len(c2.Out())
	feed(c2, fr(3, nb, 5, nil))
	sym.Quiesce()
	fs, ok := fake.Dec(c2.Out()[n:])
	sym.Assert(ok && len(fs) == 1 && same(fs[0], fr(3, 0, 9, p)), "later frame carries exactly its own bytes")
	// a push through a fresh writer
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		w.StartWrite(0, 4, qrpc.PushFlag)
		w.WriteBytes(p)
		sym.Assert(w.EndWrite() == nil, "push sent")
		return true
	})
	fs, ok = fake.Dec(c2.Out()[n:])
	sym.Assert(ok && len(fs) == 2 && same(fs[1], fr(0, fPush, 4, p)), "later push carries exactly its own bytes")
	sym.Reach("server")
}

// C05Client: the same for a client's handler, stream writers and requests.
func C05Client() {
	junk := sym.BytesN("junk", 1+sym.Choose("njunk", 2))
	p := sym.Bytes("p", 2)
	if sym.Choose("kind", 2) == 0 {
		how := sym.Choose("how", 6)
		c, fc := newClient(qrpc.ConnectionConfig{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
			abandon(w, r.RequestID, junk, how)
		})}, nil)
		feed(fc, fr(2, fNB, 5, nil))
		sym.Quiesce()
		expect(fc, "first", abandonResult(2, how))
		id, _, err := c.Request(6, 0, p)
		sym.Assert(err == nil, "request sent")
		expect(fc, "later", abandonResult(2, how), fr(id, 0, 6, p))
		sym.Assert(c.ResetFrame(id, 3) == nil, "reset sent")
		expect(fc, "reset", abandonResult(2, how), fr(id, 0, 6, p), fr(id, fRst, 3, nil))
		sym.Reach("handler")
		return
	}
	c, fc := newClient(qrpc.ConnectionConfig{}, nil)
	w, _, err := c.StreamRequest(5, 0, nil)
	sym.Assert(err == nil, "stream request sent")
	id := w.RequestID()
	w.StartWrite(1)
	w.WriteBytes(junk)
	switch sym.Choose("next", 2) {
	case 0:
		w.StartWrite(2)
		w.WriteBytes(p)
		sym.Assert(w.EndWrite(true) == nil, "continuation sent")
		expect(fc, "stream", fr(id, fStream, 5, nil), fr(id, fStream|fEnd, 2, p))
	case 1:
		sym.Assert(w.ResetFrame(3) == nil, "reset sent")
		expect(fc, "stream", fr(id, fStream, 5, nil), fr(id, fRst, 3, nil))
	}
	sym.Reach("stream")
}
