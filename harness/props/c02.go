package props

import (
	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// split sets up how the fake delivers total bytes: whole, byte by byte, or cut
// at one or two arbitrary positions.
func split(c *fake.Conn, total int) {
	switch sym.Choose("split", 4) {
	case 0:
	case 1:
		c.OneByte = true
	case 2:
		c.Chunks = []int{1 + sym.Choose("cut", total-1)}
	case 3:
		a := 1 + sym.Choose("cut1", total-2)
		b := 1 + sym.Choose("cut2", total-a-1)
		c.Chunks = []int{a, b}
	}
}

// C02Server: two request frames with arbitrary content, any chunking.
func C02Server() {
	id1, id2 := sym.U64("id1"), sym.U64("id2")
	sym.Assume(id1 != id2)
	k1, k2 := uint8(0), uint8(0)
	switch sym.Choose("kinds", 4) {
	case 1:
		k1, k2 = fNB, fNB
	case 2:
		k1, k2 = fStream, fStream|fEnd
	case 3:
		k1 = fStream
	}
	f1 := fr(id1, k1, uint32(sym.U16("cmd1"))|uint32(sym.U8("op1"))<<16, sym.Bytes("p1", 2))
	f2 := fr(id2, k2|sym.U8("fl")&0xc0, uint32(sym.U16("cmd2"))|uint32(sym.U8("op2"))<<16, sym.Bytes("p2", 2))
	var got []F
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		got = append(got, fr(r.RequestID, uint8(r.Flags), uint32(r.Cmd), r.Payload))
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})})
	c := fake.NewConn()
	b := fake.EncAll(f1, f2)
	split(c, len(b))
	e.lns[0].Dial(c)
	c.Feed(b)
	sym.Quiesce()
	sym.Assert(len(got) == 2, "both frames delivered")
	if got[0].ID == id2 {
		got[0], got[1] = got[1], got[0] // only blocking requests are handled in order
	}
	sym.Assert(same(got[0], f1), "first frame intact")
	sym.Assert(same(got[1], f2), "second frame intact")
	sym.Reach("decoded")
}

// C02Client: a push and a response with arbitrary content, any chunking.
func C02Client() {
	var pushed, resp *qrpc.Frame
	c, fc := newClient(qrpc.ConnectionConfig{}, func(c *qrpc.Connection, f *qrpc.Frame) { pushed = f })
	id, r, err := c.Request(1, 0, nil)
	sym.Assert(err == nil, "request sent")
	f1 := fr(sym.U64("pid"), fPush|fNB&sym.U8("fl"), uint32(sym.U16("cmd1"))|uint32(sym.U8("op1"))<<16, sym.Bytes("p1", 2))
	f2 := fr(id, fNB&sym.U8("fl"), uint32(sym.U16("cmd2"))|uint32(sym.U8("op2"))<<16, sym.Bytes("p2", 2))
	b := fake.EncAll(f1, f2)
	split(fc, len(b))
	fc.Feed(b)
	t := spawn(func() (err error) { resp, err = r.GetFrame(); return })
	sym.Quiesce()
	sym.Assert(pushed != nil && t.Done() && t.Err() == nil, "both frames delivered")
	sym.Assert(same(fr(pushed.RequestID, uint8(pushed.Flags), uint32(pushed.Cmd), pushed.Payload), f1), "push intact")
	sym.Assert(same(fr(resp.RequestID, uint8(resp.Flags), uint32(resp.Cmd), resp.Payload), f2), "response intact")
	sym.Reach("decoded")
}

// C02Sizes: payloads around the read buffer size, followed by another frame.
func C02Sizes() {
	n := []int{1007, 1008, 1009, 1024, 2031, 2033, 3000}[sym.Choose("size", 7)]
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i*7 + 1)
	}
	p[0], p[n-1] = sym.U8("first"), sym.U8("last")
	f1 := fr(5, 0, 9, p)
	f2 := fr(7, 0, 10, []byte{sym.U8("x")})
	var got []F
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		got = append(got, fr(r.RequestID, uint8(r.Flags), uint32(r.Cmd), r.Payload))
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})})
	c := fake.NewConn()
	b := fake.EncAll(f1, f2)
	cut := []int{0, 1, 15, 16, 17, 1023, 1024, 1025, n + 15, n + 16, n + 17, n + 31, n + 32}[sym.Choose("cut", 13)]
	if cut > 0 && cut < len(b) {
		c.Chunks = []int{cut}
	}
	e.lns[0].Dial(c)
	c.Feed(b)
	sym.Quiesce()
	sym.Assert(len(got) == 2, "both frames delivered")
	sym.Assert(same(got[0], f1), "first frame intact")
	sym.Assert(same(got[1], f2), "second frame intact")
	sym.Reach("decoded")
}
