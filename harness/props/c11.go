package props

import (
	"context"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// fate is what happens to an outstanding request.
const (
	fateResponse = iota
	fateReset
	fateEOF
	fateReadErr
	fateBadFrame
	fateClose
	nFates
)

// waiter waits for a response through one of the two ways.
func waiter(r qrpc.Response, withCtx bool) (*task, **qrpc.Frame) {
	var f *qrpc.Frame
	t := spawn(func() (err error) {
		if withCtx {
			f, err = r.GetFrameWithContext(context.Background())
		} else {
			f, err = r.GetFrame()
		}
		return
	})
	return t, &f
}

// outcome asserts how the wait ended.
func outcome(t *task, f *qrpc.Frame, fate int, want F) {
	sym.Assert(t.Done(), "the caller does not wait forever")
	if fate == fateResponse {
		sym.Assert(t.Err() == nil && f != nil && same(fr(f.RequestID, uint8(f.Flags), uint32(f.Cmd), f.Payload), want), "the response is returned")
	} else {
		sym.Assert(t.Err() != nil && f == nil, "the wait ends with an error and no frame")
		sym.Assert(t.Err() == qrpc.ErrStreamClosed, "the error is stream-closed")
	}
}

func inflict(c *fake.Conn, fate int, want F, closeFn func()) {
	switch fate {
	case fateResponse:
		feed(c, want)
	case fateReset:
		feed(c, fr(want.ID, fRst|want.Flags&(fStream|fNB), want.Cmd, want.Payload))
	case fateEOF:
		c.EOF()
	case fateReadErr:
		c.FailRead(fake.ErrReset)
	case fateBadFrame:
		c.Feed(header(3, want))
	case fateClose:
		closeFn()
	}
}

// C11Client: a client's request and any fate, the wait starting before or after.
func C11Client() {
	fate := sym.Choose("fate", nFates)
	stream := sym.Choose("stream", 3)
	early := sym.Choose("early", 2) == 1
	withCtx := sym.Choose("ctx", 2) == 1
	c, fc := newClient(qrpc.ConnectionConfig{}, nil)
	var id uint64
	var r qrpc.Response
	var err error
	if stream > 0 {
		var w qrpc.StreamWriter
		w, r, err = c.StreamRequest(5, 0, nil)
		sym.Assert(err == nil, "request sent")
		id = w.RequestID()
		if stream == 2 {
			w.StartWrite(6)
			sym.Assert(w.EndWrite(true) == nil, "end sent")
		}
	} else {
		id, r, err = c.Request(5, 0, nil)
		sym.Assert(err == nil, "request sent")
	}
	want := fr(id, sym.U8("flags")&(fNB|fStream), sym.U32("cmd")&0xffffff, sym.Bytes("p", 1))
	var t *task
	var f **qrpc.Frame
	if early {
		t, f = waiter(r, withCtx)
	}
	inflict(fc, fate, want, func() { c.Close() })
	if !early {
		t, f = waiter(r, withCtx)
	}
	sym.Quiesce()
	outcome(t, *f, fate, want)
	sym.Reach("client")
}

// C11ClientRace: the fate strikes while requests are being issued.
func C11ClientRace() {
	fate := []int{fateEOF, fateBadFrame, fateClose}[sym.Choose("fate", 3)]
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 2) * 2}, nil)
	var ts []*task
	n := 1 + sym.Choose("n", 2)
	for i := 0; i < n; i++ {
		ts = append(ts, spawn(func() error {
			_, r, err := c.Request(5, 0, nil)
			if err != nil {
				return err
			}
			f, err := r.GetFrame()
			sym.Assert(f == nil && err != nil, "no response is made up")
			return err
		}))
	}
	k := spawnV(func() { inflict(fc, fate, fr(1, 0, 0, nil), func() { c.Close() }) })
	sym.Quiesce()
	sym.Assert(k.Done(), "close returns")
	for _, t := range ts {
		sym.Assert(t.Done() && t.Err() != nil, "every request ends")
	}
	sym.Assert(c.IsClosed(), "the connection is closed")
	w := spawnV(c.Wait)
	sym.Quiesce()
	sym.Assert(w.Done(), "the connection's goroutines finish")
	sym.Reach("race")
}

// C11Server: a request issued by the server and any fate.
func C11Server() {
	fate := sym.Choose("fate", nFates)
	stream := sym.Choose("stream", 2)
	withCtx := sym.Choose("ctx", 2) == 1
	var t *task
	var f **qrpc.Frame
	var id uint64
	var ci *qrpc.ConnectionInfo
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		ci = r.ConnectionInfo()
		var resp qrpc.Response
		var err error
		if stream > 0 {
			var sw qrpc.StreamWriter
			sw, resp, err = ci.StreamRequest(5, 0, nil)
			sym.Assert(err == nil, "request sent")
			id = sw.RequestID()
		} else {
			id, resp, err = ci.Request(5, 0, nil)
			sym.Assert(err == nil, "request sent")
		}
		t, f = waiter(resp, withCtx)
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})})
	c := e.dial()
	feed(c, fr(1, uint8(sym.Choose("nb", 2))*fNB, 1, nil))
	sym.Quiesce()
	sym.Assert(t != nil, "request issued")
	want := fr(id, sym.U8("flags")&(fNB|fStream), sym.U32("cmd")&0xffffff, sym.Bytes("p", 1))
	inflict(c, fate, want, func() { ci.Close() })
	sym.Quiesce()
	outcome(t, *f, fate, want)
	sym.Reach("server")
}

// C11ServerRace: the connection is lost while the server issues requests on it.
func C11ServerRace() {
	fate := []int{fateEOF, fateBadFrame, fateClose}[sym.Choose("fate", 3)]
	var ts []*task
	e := newServer(qrpc.ServerBinding{WriteFrameChSize: 1 + sym.Choose("batch", 2)})
	c := e.dial()
	sym.Quiesce()
	var ci *qrpc.ConnectionInfo
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool { ci = i; return true })
	sym.Assert(ci != nil, "connection known")
	n := 1 + sym.Choose("n", 2)
	for i := 0; i < n; i++ {
		ts = append(ts, spawn(func() error {
			_, r, err := ci.Request(5, 0, nil)
			if err != nil {
				return err
			}
			f, err := r.GetFrame()
			sym.Assert(f == nil && err != nil, "no response is made up")
			return err
		}))
	}
	k := spawnV(func() { inflict(c, fate, fr(1, 0, 0, nil), func() { ci.Close() }) })
	sym.Quiesce()
	sym.Assert(k.Done(), "close returns")
	for _, t := range ts {
		sym.Assert(t.Done() && t.Err() != nil, "every request ends")
	}
	sym.Assert(c.Closed(), "the connection is closed")
	sd := spawn(e.srv.Shutdown)
	sym.Quiesce()
	sym.Assert(sd.Done(), "shutdown completes")
	sym.Reach("race")
}

// C11Prompt: a peer that answers, resets or hangs up the moment it has a
// request, whatever else its sender still has to do.
func C11Prompt() {
	side := sym.Choose("side", 2)
	fate := []int{fateResponse, fateReset, fateEOF}[sym.Choose("fate", 3)]
	batch := sym.Choose("batch", 2) * 2
	stream := sym.Choose("stream", 2) == 1
	n := 1 + sym.Choose("n", 2)
	var fc *fake.Conn
	var request func() (uint64, qrpc.Response, error)
	if side == 0 {
		c, f := newClient(qrpc.ConnectionConfig{WriteFrameChSize: batch}, nil)
		fc = f
		request = func() (uint64, qrpc.Response, error) {
			if stream {
				w, r, err := c.StreamRequest(5, 0, nil)
				if err != nil {
					return 0, nil, err
				}
				return w.RequestID(), r, nil
			}
			return c.Request(5, 0, nil)
		}
	} else {
		e := newServer(qrpc.ServerBinding{WriteFrameChSize: batch})
		fc = e.dial()
		sym.Quiesce()
		e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			request = func() (uint64, qrpc.Response, error) {
				if stream {
					w, r, err := ci.StreamRequest(5, fNB, nil)
					if err != nil {
						return 0, nil, err
					}
					return w.RequestID(), r, nil
				}
				return ci.Request(5, fNB, nil)
			}
			return true
		})
	}
	sym.Quiesce()
	sent := make(chan []byte, 8)
	fc.OnWrite = func(b []byte) (int, error) {
		select {
		case sent <- append([]byte{}, b...):
		default:
		}
		return len(b), nil
	}
	spawnV(func() {
		var got []byte
		for b := range sent {
			got = append(got, b...)
			fs, _ := fake.Dec(got)
			for _, f := range fs {
				got = got[len(fake.Enc(f)):]
				if f.Flags&fRst == 0 {
					inflict(fc, fate, fr(f.ID, 0, 6, []byte{byte(f.ID)}), nil)
				}
			}
		}
	})
	var ts []*task
	for i := 0; i < n; i++ {
		ts = append(ts, spawn(func() error {
			id, r, err := request()
			if err != nil {
				sym.Assert(fate == fateEOF, "the request is sent")
				return err
			}
			f, err := r.GetFrame()
			if fate == fateResponse {
				sym.Assert(err == nil && same(fr(f.RequestID, uint8(f.Flags), uint32(f.Cmd), f.Payload), fr(id, 0, 6, []byte{byte(id)})), "the response is returned")
			} else {
				sym.Assert(err != nil && f == nil, "the wait ends with an error and no frame")
			}
			return err
		}))
	}
	sym.Quiesce()
	for _, t := range ts {
		sym.Assert(t.Done(), "every request ends")
	}
	sym.Reach("prompt")
}
