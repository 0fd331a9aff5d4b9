package props

import (
	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// recorder is a server binding that records the requests handled.
func recorder(got *[]F, b qrpc.ServerBinding) qrpc.ServerBinding {
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		*got = append(*got, fr(r.RequestID, uint8(r.Flags), uint32(r.Cmd), r.Payload))
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})
	return b
}

func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// header is a frame header with an arbitrary length field.
func header(size uint32, f F) []byte { return append(be32(size), fake.Enc(f)[4:16]...) }

// C03Server: a frame with any 32-bit length field after a good one.
func C03Server() {
	const max = 20
	size := sym.U32("size")
	nb := uint8(sym.Choose("nb", 2)) * fNB
	f1 := fr(1, nb, 5, []byte{sym.U8("a")})
	f2 := fr(3, nb, uint32(sym.U16("cmd")), nil)
	body := sym.BytesN("body", 8)
	var got []F
	e := newServer(recorder(&got, qrpc.ServerBinding{MaxFrameSize: max}))
	c := e.dial()
	feed(c, f1)
	c.Feed(header(size, f2))
	withBody := sym.Choose("body", 2) == 1
	if withBody {
		c.Feed(body)
	}
	sym.Quiesce()
	if len(got) == 2 && got[0].ID == 3 {
		// non-blocking requests may be handled in any order
		got[0], got[1] = got[1], got[0]
	}
	sym.Assert(len(got) >= 1 && same(got[0], f1), "frame before the bad one is handled")
	if sym.Or(size < 12, size > max) {
		sym.Assert(len(got) == 1, "bad frame not delivered")
		sym.Assert(c.Closed(), "connection ended")
		sym.Reach("bad")
		return
	}
	sym.Assert(!c.Closed(), "connection stays open for a frame within the limit")
	n := sym.Concrete(int(size)) - 12
	if n > 0 && !withBody {
		sym.Assert(len(got) == 1, "incomplete frame not delivered")
		return
	}
	sym.Assert(len(got) == 2, "frame within the limit delivered")
	f2.Payload = body[:n]
	sym.Assert(same(got[1], f2), "frame within the limit intact")
	sym.Reach("good")
}

// C03Default: the default limit of 10 MiB.
func C03Default() {
	const max = 10 << 20
	size := sym.U32("size")
	sym.Assume(size > max)
	if sym.Choose("exact", 2) == 1 {
		size = max
	}
	var got []F
	e := newServer(recorder(&got, qrpc.ServerBinding{}))
	c := e.dial()
	c.Feed(header(size, fr(1, fNB, 5, nil)))
	sym.Quiesce()
	sym.Assert(len(got) == 0, "incomplete frame not delivered")
	if size == max {
		sym.Assert(!c.Closed(), "frame of exactly 10 MiB accepted")
		sym.Reach("exact")
	} else {
		sym.Assert(c.Closed(), "frame above 10 MiB ends the connection")
		sym.Reach("above")
	}
}

// endInput ends the input of c in one of several ways.
func endInput(c *fake.Conn) {
	if sym.Choose("how", 2) == 0 {
		c.EOF()
	} else {
		c.FailRead(fake.ErrReset)
	}
}

// C03Trunc: a request cut off at any byte.
func C03Trunc() {
	f1 := fr(1, 0, 5, []byte{sym.U8("a")})
	f2 := fr(3, sym.U8("flags")&(fNB|fPush|fStream|fEnd), uint32(sym.U16("cmd")), sym.BytesN("p", 2))
	b := fake.Enc(f2)
	pushed := 0
	var got []F
	e := newServer(recorder(&got, qrpc.ServerBinding{SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) { pushed++ }}))
	c := e.dial()
	feed(c, f1)
	c.Feed(b[:sym.Choose("cut", len(b))])
	endInput(c)
	sym.Quiesce()
	sym.Assert(len(got) == 1 && same(got[0], f1), "only the complete frame is handled")
	sym.Assert(pushed == 0, "truncated push not delivered")
	sym.Assert(c.Closed(), "connection ended")
	sym.Reach("trunc")
}

// C03Client: a bad or truncated frame received by a client.
func C03Client() {
	pushed := 0
	c, fc := newClient(qrpc.ConnectionConfig{}, func(*qrpc.Connection, *qrpc.Frame) { pushed++ })
	id, r, err := c.Request(1, 0, nil)
	id2, r2, err2 := c.Request(2, 0, nil)
	sym.Assert(err == nil && err2 == nil, "requests sent")
	f1 := fr(id, 0, 7, []byte{sym.U8("a")})
	feed(fc, f1)
	f2 := fr(id2, sym.U8("flags")&(fNB|fPush), 8, sym.BytesN("p", 2))
	if sym.Choose("kind", 2) == 0 {
		size := sym.U32("size")
		sym.Assume(size < 12)
		fc.Feed(header(size, f2))
		fc.Feed(f2.Payload)
	} else {
		b := fake.Enc(f2)
		fc.Feed(b[:sym.Choose("cut", len(b))])
		endInput(fc)
	}
	var f *qrpc.Frame
	t := spawn(func() (err error) { f, err = r.GetFrame(); return })
	t2 := spawn(func() error { _, err := r2.GetFrame(); return err })
	sym.Quiesce()
	sym.Assert(t.Done() && t.Err() == nil && same(fr(f.RequestID, uint8(f.Flags), uint32(f.Cmd), f.Payload), f1), "complete frame delivered")
	sym.Assert(t2.Done() && t2.Err() != nil, "request whose response is bad fails")
	sym.Assert(pushed == 0, "bad push not delivered")
	sym.Assert(fc.Closed(), "connection ended")
	sym.Reach("client")
}
