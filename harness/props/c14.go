package props

import (
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// c14 drives two streams with an arbitrary interleaving of continuation frames.
// send delivers one frame of stream s to the code under test.
func c14(ids [2]uint64, ds [2]*drain, send func(f F)) {
	n := 4
	if sym.Thorough() {
		n = 6
	}
	var want [2][]F
	var ended [2]bool
	each := sym.Choose("quiesce", 2) == 1
	for i := 0; i < n; i++ {
		s := sym.Choose("stream", 2)
		if ended[s] {
			continue
		}
		f := fr(ids[s], fStream, uint32(sym.U16("cmd")), []byte{sym.U8("p")})
		switch sym.Choose("end", 3) {
		case 1:
			f.Flags |= fEnd
			ended[s] = true
		case 2:
			if !each {
				// a reset cancels what was not consumed yet
				continue
			}
			f.Flags = fRst
			f.Payload = nil
			ended[s] = true
		}
		if f.Flags != fRst {
			want[s] = append(want[s], f)
		}
		send(f)
		if each {
			sym.Quiesce()
			for k := range ds {
				sym.Assert(ds[k].closed == ended[k], "end-of-stream after the end frame and not before")
			}
		}
	}
	sym.Quiesce()
	for k := range ds {
		expectFrames(ds[k].got, want[k], "stream")
		sym.Assert(ds[k].closed == ended[k], "end-of-stream after the end frame and not before")
	}
}

// C14Server: two streamed requests.
func C14Server() {
	var ds [2]*drain
	hold := make(chan struct{})
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		d := &drain{}
		ds[r.RequestID/2] = d
		d.start(r.FrameCh())
		<-hold
	})})
	c := e.dial()
	feed(c, fr(1, fStream, 1, nil), fr(3, fStream, 2, nil))
	sym.Quiesce()
	sym.Assert(ds[0] != nil && ds[1] != nil, "both streams start")
	c14([2]uint64{1, 3}, ds, func(f F) { feed(c, f) })
	sym.Reach("server")
}

// C14Client: two streamed responses.
func C14Client() {
	c, fc := newClient(qrpc.ConnectionConfig{}, nil)
	ds := [2]*drain{{}, {}}
	var ids [2]uint64
	for i := 0; i < 2; i++ {
		_, r, err := c.StreamRequest(1, 0, nil)
		sym.Assert(err == nil, "request sent")
		d := ds[i]
		go func() {
			f, err := r.GetFrame()
			sym.Assert(err == nil, "first frame")
			d.start(f.FrameCh())
		}()
		ids[i] = uint64(2*i + 3)
	}
	feed(fc, fr(ids[1], fStream, 1, nil), fr(ids[0], fStream, 2, nil))
	if sym.Choose("settled", 2) == 1 {
		sym.Quiesce()
	}
	c14(ids, ds, func(f F) { feed(fc, f) })
	sym.Reach("client")
}

// C14Early: the whole stream, including its end, arrives before the handler
// looks at it.
func C14Early() {
	n := sym.Choose("n", 3)
	fs := []F{fr(1, fStream, 1, nil)}
	for i := 0; i < n; i++ {
		fs = append(fs, fr(1, fStream, uint32(sym.U16("cmd")), []byte{sym.U8("p")}))
	}
	fs[n].Flags |= fEnd
	var d drain
	runs := 0
	hold := make(chan struct{})
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		runs++
		if sym.Choose("late", 2) == 1 {
			<-hold
		}
		for f := range r.FrameCh() {
			d.got = append(d.got, fr(f.RequestID, uint8(f.Flags), uint32(f.Cmd), f.Payload))
		}
		d.closed = true
		w.StartWrite(r.RequestID, 9, 0)
		w.EndWrite()
	})})
	c := e.dial()
	feed(c, fs...)
	sym.Quiesce()
	close(hold)
	sym.Quiesce()
	sym.Assert(runs == 1, "one handler for the stream")
	expectFrames(d.got, fs[1:], "stream")
	sym.Assert(d.closed, "end-of-stream reported")
	expect(c, "response", fr(1, 0, 9, nil))
	sym.Reach("early")
}
