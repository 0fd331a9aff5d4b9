package props

import (
	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

func fr(id uint64, flags uint8, cmd uint32, payload []byte) F {
	return F{ID: id, Flags: flags, Cmd: cmd, Payload: payload}
}

// C01Client: request, stream request with continuation, push and reset frames
// of a client are on the wire in the documented format.
func C01Client() {
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 3)}, nil)
	cmd := sym.U32("cmd")
	flags := sym.U8("flags")
	sym.Assume(flags&(fRst|fCodec) == 0)
	payload := sym.Bytes("payload", 3)
	var want F
	switch sym.Choose("kind", 4) {
	case 0: // request (or client push)
		id, _, err := c.Request(qrpc.Cmd(cmd), qrpc.FrameFlag(flags), payload)
		sym.Assert(err == nil, "request sent")
		want = fr(id, flags&^(fStream|fEnd), cmd&0xffffff, payload)
		sym.Reach("request")
	case 1: // streamed request with a continuation
		sym.Assume(flags&(fPush|fEnd) == 0)
		w, _, err := c.StreamRequest(qrpc.Cmd(cmd), qrpc.FrameFlag(flags), payload)
		sym.Assert(err == nil, "stream request sent")
		cmd2 := sym.U32("cmd2")
		p2 := sym.Bytes("payload2", 2)
		end := sym.Bool("end")
		w.StartWrite(qrpc.Cmd(cmd2))
		w.WriteBytes(p2)
		sym.Assert(w.EndWrite(end) == nil, "continuation sent")
		f2 := flags | fStream
		if end {
			f2 |= fEnd
		}
		expect(fc, "stream", fr(w.RequestID(), flags|fStream, cmd&0xffffff, payload), fr(w.RequestID(), f2, cmd2&0xffffff, p2))
		sym.Reach("stream")
		return
	case 2: // reset of a request in flight
		sym.Assume(flags&fPush == 0)
		id, _, err := c.Request(qrpc.Cmd(cmd), qrpc.FrameFlag(flags), payload)
		sym.Assert(err == nil, "request sent")
		reason := sym.U32("reason")
		sym.Assert(c.ResetFrame(id, qrpc.Cmd(reason)) == nil, "reset sent")
		expect(fc, "reset", fr(id, flags&^(fStream|fEnd), cmd&0xffffff, payload), fr(id, fRst, reason&0xffffff, nil))
		sym.Reach("reset")
		return
	case 3: // reset through the stream writer
		sym.Assume(flags&(fPush|fEnd) == 0)
		w, _, err := c.StreamRequest(qrpc.Cmd(cmd), qrpc.FrameFlag(flags), payload)
		sym.Assert(err == nil, "stream request sent")
		reason := sym.U32("reason")
		sym.Assert(w.ResetFrame(qrpc.Cmd(reason)) == nil, "reset sent")
		expect(fc, "stream reset", fr(w.RequestID(), flags|fStream, cmd&0xffffff, payload), fr(w.RequestID(), fRst, reason&0xffffff, nil))
		return
	}
	expect(fc, "client frame", want)
}

// C01Server: response, streamed response, reset and push frames of a server.
func C01Server() {
	id := sym.U64("id")
	sym.Assume(id&1 == 1)
	reqFlags := []uint8{0, fNB, fStream, fStream | fEnd}[sym.Choose("reqflags", 4)]
	cmd := sym.U32("cmd")
	flags := sym.U8("flags")
	sym.Assume(flags&(fRst|fCodec|fPush) == 0)
	p1, p2 := sym.Bytes("payload", 2), sym.Bytes("more", 1)
	kind := sym.Choose("kind", 4)
	var want []F
	pushID := sym.U64("pushid")
	e := newServer(qrpc.ServerBinding{WriteFrameChSize: sym.Choose("batch", 3), Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		switch kind {
		case 0: // plain or streamed-and-ended response, written in two pieces
			sym.Assume(flags&fStream == 0)
			w.StartWrite(r.RequestID, qrpc.Cmd(cmd), qrpc.FrameFlag(flags))
			w.WriteBytes(p1)
			w.WriteBytes(p2)
			sym.Assert(w.EndWrite() == nil, "response sent")
			want = append(want, fr(id, flags, cmd&0xffffff, append(append([]byte(nil), p1...), p2...)))
		case 1: // streamed response: two frames
			w.StartWrite(r.RequestID, qrpc.Cmd(cmd), qrpc.FrameFlag(fStream))
			w.WriteBytes(p1)
			sym.Assert(w.EndWrite() == nil, "first frame sent")
			w.StartWrite(r.RequestID, qrpc.Cmd(cmd), qrpc.FrameFlag(fStream|fEnd|flags))
			w.WriteBytes(p2)
			sym.Assert(w.EndWrite() == nil, "last frame sent")
			want = append(want, fr(id, fStream, cmd&0xffffff, p1), fr(id, fStream|fEnd|flags, cmd&0xffffff, p2))
		case 2: // reset
			sym.Assert(w.ResetFrame(r.RequestID, qrpc.Cmd(cmd)) == nil, "reset sent")
			want = append(want, fr(id, fRst, cmd&0xffffff, nil))
		case 3: // push to every connection, then the response
			r.ConnectionInfo().Server().WalkConn(0, func(pw qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				pw.StartWrite(pushID, qrpc.Cmd(cmd), qrpc.FrameFlag(flags|fPush))
				pw.WriteBytes(p1)
				sym.Assert(pw.EndWrite() == nil, "push sent")
				return true
			})
			w.StartWrite(r.RequestID, qrpc.Cmd(cmd), 0)
			w.WriteBytes(p2)
			sym.Assert(w.EndWrite() == nil, "response sent")
			want = append(want, fr(pushID, flags|fPush, cmd&0xffffff, p1), fr(id, 0, cmd&0xffffff, p2))
			sym.Reach("push")
		}
	})})
	c := e.dial()
	feed(c, fr(id, reqFlags, 7, nil))
	sym.Quiesce()
	expect(c, "server frame", want...)
	sym.Assert(len(want) > 0, "handler ran")
	sym.Reach("server")
}

// C01ServerInit: requests initiated by the server.
func C01ServerInit() {
	cmd := sym.U32("cmd")
	flags := sym.U8("flags")
	sym.Assume(flags&(fRst|fCodec|fPush|fEnd) == 0)
	p1, p2 := sym.Bytes("payload", 2), sym.Bytes("more", 1)
	kind := sym.Choose("kind", 2)
	var want []F
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if kind == 0 {
			id, _, err := r.ConnectionInfo().Request(qrpc.Cmd(cmd), qrpc.FrameFlag(flags), p1)
			sym.Assert(err == nil, "request sent")
			want = append(want, fr(id, flags|fNB, cmd&0xffffff, p1))
		} else {
			sw, _, err := r.StreamInitiator().StreamRequest(qrpc.Cmd(cmd), qrpc.FrameFlag(flags), p1)
			sym.Assert(err == nil, "request sent")
			sw.StartWrite(qrpc.Cmd(cmd))
			sw.WriteBytes(p2)
			sym.Assert(sw.EndWrite(true) == nil, "end sent")
			want = append(want, fr(sw.RequestID(), flags|fStream, cmd&0xffffff, p1), fr(sw.RequestID(), flags|fStream|fEnd, cmd&0xffffff, p2))
		}
		w.StartWrite(r.RequestID, 1, 0)
		sym.Assert(w.EndWrite() == nil, "response sent")
		want = append(want, fr(r.RequestID, 0, 1, nil))
	})})
	c := e.dial()
	feed(c, fr(3, fNB, 7, nil))
	sym.Quiesce()
	expect(c, "server frame", want...)
	sym.Assert(len(want) > 0, "handler ran")
	sym.Reach("init")
}

// C01Sizes: the length field for payload sizes around its byte boundaries.
func C01Sizes() {
	n := []int{0, 1, 243, 244, 245, 1007, 1008, 1009, 2032, 3000, 65523, 65524, 70000}[sym.Choose("size", 13)]
	p := make([]byte, n)
	for i := 0; i < n && i < 251; i++ {
		p[i] = byte(i + 1)
	}
	for k := 251; k < n; k *= 2 {
		copy(p[k:], p[:k])
	}
	if n > 0 {
		p[0], p[n-1] = sym.U8("first"), sym.U8("last")
	}
	split := []int{0, n / 2, n}[sym.Choose("split", 3)]
	cmd := sym.U32("cmd")
	var out []byte
	var want []F
	if sym.Choose("side", 2) == 0 {
		c, fc := newClient(qrpc.ConnectionConfig{}, nil)
		w, _, err := c.StreamRequest(qrpc.Cmd(cmd), 0, p[:split])
		sym.Assert(err == nil, "request sent")
		id := w.RequestID()
		w.StartWrite(6)
		w.WriteBytes(p[split:])
		sym.Assert(w.EndWrite(false) == nil, "continuation sent")
		w.StartWrite(7)
		w.WriteBytes([]byte{5})
		sym.Assert(w.EndWrite(true) == nil, "continuation sent")
		out = fc.Out()
		want = []F{fr(id, fStream, cmd&0xffffff, p[:split]), fr(id, fStream, 6, p[split:]), fr(id, fStream|fEnd, 7, []byte{5})}
	} else {
		e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
			w.StartWrite(r.RequestID, qrpc.Cmd(cmd), 0)
			w.WriteBytes(p[:split])
			w.WriteBytes(p[split:])
			sym.Assert(w.EndWrite() == nil, "response sent")
		})})
		fc := e.dial()
		feed(fc, fr(1, 0, 1, nil), fr(3, 0, 1, nil))
		sym.Quiesce()
		out = fc.Out()
		want = []F{fr(1, 0, cmd&0xffffff, p), fr(3, 0, cmd&0xffffff, p)}
	}
	wb := fake.EncAll(want...)
	sym.Assert(len(out) == len(wb), "frame length")
	sym.Assert(sym.EqBytes(out, wb), "frame bytes")
	sym.Reach("sizes")
}
