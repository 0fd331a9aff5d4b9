package props

import (
	"net"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/ws/server"
)

func adapter(isServer bool) (net.Conn, *fake.Conn) {
	fc := fake.NewConn()
	return server.NewConn(fake.NewWebsocket(fc, isServer)), fc
}

// message encodes a binary message in one or two fragments.
func message(toServer bool, p []byte, cut int) []byte {
	key := [4]byte{1, 2, 3, 4}
	if cut < 0 {
		return fake.WSFrame(true, 2, toServer, key, p)
	}
	return append(fake.WSFrame(false, 2, toServer, key, p[:cut]), fake.WSFrame(true, 0, toServer, key, p[cut:])...)
}

// C28Read: messages of any sizes, read with buffers of any sizes.
func C28Read() {
	isServer := sym.Choose("side", 2) == 1
	c, fc := adapter(isServer)
	var want []byte
	n := 1 + sym.Choose("messages", 2)
	for i := 0; i < n; i++ {
		p := sym.Bytes("p", 3)
		cut := -1
		if sym.Choose("frag", 2) == 1 {
			cut = sym.Choose("cut", len(p)+1)
		}
		if sym.Choose("ping", 2) == 1 {
			fc.Feed(fake.WSFrame(true, 9, isServer, [4]byte{}, []byte{1}))
		}
		fc.Feed(message(isServer, p, cut))
		want = append(want, p...)
	}
	end := sym.Choose("end", 5)
	switch end {
	case 0:
		fc.EOF()
	case 1:
		fc.FailRead(fake.ErrReset)
	case 2: // in the middle of a message
		b := message(isServer, []byte{1, 2, 3}, 1)
		fc.Feed(b[:1+sym.Choose("at", len(b)-1)])
		fc.EOF()
	case 3:
		fc.Feed(fake.WSFrame(true, 8, isServer, [4]byte{}, []byte{3, 0xe8}))
	case 4: // text instead of binary
		fc.Feed(fake.WSFrame(true, 1, isServer, [4]byte{}, []byte("x")))
		fc.EOF()
	}
	fc.OneByte = sym.Choose("bytewise", 2) == 1
	size := []int{1, 2, 4}[sym.Choose("size", 3)]
	var got []byte
	for {
		b := make([]byte, size)
		k, err := c.Read(b)
		sym.Assert(k >= 0 && k <= size, "no more than asked for")
		got = append(got, b[:k]...)
		if err != nil {
			break
		}
		sym.Assert(len(got) <= len(want), "nothing is made up")
	}
	sym.Assert(len(got) == len(want) && sym.EqBytes(got, want), "exactly the messages are read")
	_, err := c.Read(make([]byte, 1))
	sym.Assert(err != nil, "the error stays")
	sym.Reach("read")
}

// C28Write: writes of any sizes, some of which fail.
func C28Write() {
	isServer := sym.Choose("side", 2) == 1
	c, fc := adapter(isServer)
	sizes, large := []int{0, 1, 3, 125, 126, 5000}, false
	failAt, accept, calls := -1, 0, 0
	if sym.Choose("fail", 2) == 1 {
		failAt = sym.Choose("failAt", 3)
		accept = sym.Choose("accept", 3)
	}
	fc.OnWrite = func(b []byte) (int, error) {
		calls++
		if failAt >= 0 && calls > failAt {
			n := []int{0, 1, len(b) - 1}[accept]
			return n, fake.OpErr("write", fake.ErrReset)
		}
		return len(b), nil
	}
	var want [][]byte
	failed := false
	for i := 0; i < 3; i++ {
		n := sizes[sym.Choose("size", len(sizes))]
		if n == 5000 {
			sym.Assume(!large)
			large = true
		}
		p := make([]byte, n)
		for j := range p {
			p[j] = byte(j + i)
		}
		if n > 0 {
			p[0], p[n-1] = sym.U8("p"), sym.U8("q")
		}
		keep := append([]byte{}, p...)
		before := calls
		k, err := c.Write(p)
		if failAt >= 0 && calls > failAt {
			failed = true
		}
		sym.Assert((err != nil) == failed, "a write that fails is reported")
		if failed {
			sym.Assert(k == 0, "with no bytes written")
			sym.Reach("failed")
			return
		}
		sym.Assert(k == n && calls > before && sym.EqBytes(p, keep), "a write succeeds as a whole and keeps the caller's bytes")
		want = append(want, keep)
	}
	ms, masked, ok := fake.WSDec(fc.Out())
	sym.Assert(ok && masked == !isServer && len(ms) == len(want), "one message per write")
	for i, m := range ms {
		sym.Assert(m.Opcode == 2 && len(m.Data) == len(want[i]) && sym.EqBytes(m.Data, want[i]), "a binary message with exactly those bytes")
	}
	sym.Assert(c.Close() == nil && fc.Closed(), "closing closes the connection")
	_, err := c.Write([]byte{1})
	sym.Assert(err != nil, "a closed connection takes nothing")
	sym.Reach("written")
}

// C28Frames: requests cut into messages anywhere, served through the adapter.
func C28Frames() {
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		w.StartWrite(r.RequestID, r.Cmd, 0)
		w.WriteBytes(r.Payload)
		w.EndWrite()
	})})
	c, fc := adapter(true)
	e.lns[0].Dial(c)
	f1 := fr(sym.U64("id1"), 0, uint32(sym.U16("cmd1")), sym.Bytes("p1", 2))
	f2 := fr(sym.U64("id2"), 0, uint32(sym.U16("cmd2")), sym.Bytes("p2", 2))
	sym.Assume(f1.ID != f2.ID)
	b := fake.EncAll(f1, f2)
	k := 1 + sym.Choose("cut", len(b)-1)
	fc.Feed(message(true, b[:k], -1))
	fc.Feed(message(true, nil, -1))
	fc.Feed(message(true, b[k:], sym.Choose("cut2", 2)))
	sym.Quiesce()
	ms, _, ok := fake.WSDec(fc.Out())
	sym.Assert(ok, "whole messages")
	var out []byte
	for _, m := range ms {
		out = append(out, m.Data...)
	}
	fs, ok := fake.Dec(out)
	sym.Assert(ok && len(fs) == 2 && same(fs[0], f1) && same(fs[1], f2), "requests are served")
	fc.EOF()
	sym.Quiesce()
	sym.Assert(fc.Closed(), "the connection ends with the websocket")
	sym.Reach("frames")
}
