package props

import (
	"context"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// wait is a request's caller waiting for its response.
type wait struct {
	id uint64
	t  *task
	f  *qrpc.Frame
	r  qrpc.Response
}

func await(id uint64, r qrpc.Response) *wait {
	w := &wait{id: id, r: r}
	w.t = spawn(func() error {
		f, err := r.GetFrame()
		if err == nil {
			sym.Assert(f != nil, "no nil frame as a response")
			w.f = f
		}
		return err
	})
	return w
}

func (w *wait) frame() F {
	return fr(w.f.RequestID, uint8(w.f.Flags), uint32(w.f.Cmd), w.f.Payload)
}

// answered asserts that each wait got the first frame with its identifier
// among fs, and nothing else.
func answered(ws []*wait, fs []F) {
	for _, w := range ws {
		k := -1
		for i, f := range fs {
			if f.ID == w.id {
				k = i
				break
			}
		}
		if k < 0 {
			sym.Assert(!w.t.Done(), "request without a response stays open")
			continue
		}
		sym.Assert(w.t.Done() && w.t.Err() == nil, "request with a response completes")
		sym.Assert(same(w.frame(), fs[k]), "request gets the first response carrying its identifier")
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	for _, w := range ws {
		if w.t.Done() {
			_, err := w.r.GetFrameWithContext(ctx)
			sym.Assert(err != nil, "a request gets no second response")
		}
	}
}

// C08Client: two requests outstanding, any three frames arrive.
func C08Client() {
	c, fc := newClient(qrpc.ConnectionConfig{}, nil)
	var ws []*wait
	for i := 0; i < 2; i++ {
		id, r, err := c.Request(qrpc.Cmd(i), 0, nil)
		sym.Assert(err == nil, "request sent")
		ws = append(ws, await(id, r))
	}
	var fs []F
	for i := 0; i < 3; i++ {
		fs = append(fs, fr(sym.U64("id"), sym.U8("fl")&(fNB|0xc0), sym.U32("cmd")&0xffffff, []byte{byte(i), sym.U8("p")}))
	}
	feed(fc, fs...)
	sym.Quiesce()
	answered(ws, fs)
	id, r, err := c.Request(7, 0, nil)
	sym.Assert(err == nil, "a later request is sent")
	w := await(id, r)
	last := fr(id, 0, 8, []byte{9})
	feed(fc, last)
	sym.Quiesce()
	early := false
	for _, f := range fs {
		early = early || f.ID == id
	}
	if !early {
		answered([]*wait{w}, []F{last})
	}
	sym.Reach("client")
}

// C08Server: the same for requests issued by the server, while the client's own
// requests are in flight.
func C08Server() {
	var ws []*wait
	var handled []byte
	e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if r.RequestID != 3 || len(ws) > 0 {
			handled = append(handled, r.Payload[0])
			w.StartWrite(r.RequestID, 1, 0)
			w.EndWrite()
			return
		}
		for i := 0; i < 2; i++ {
			id, resp, err := r.ConnectionInfo().Request(5, 0, nil)
			sym.Assert(err == nil, "request sent")
			ws = append(ws, await(id, resp))
		}
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})})
	c := e.dial()
	feed(c, fr(3, fNB, 1, nil))
	sym.Quiesce()
	sym.Assert(len(ws) == 2, "requests issued")
	var fs []F
	for i := 0; i < 3; i++ {
		fs = append(fs, fr(sym.U64("id"), fNB, sym.U32("cmd")&0xffffff, []byte{byte(i), sym.U8("p")}))
	}
	feed(c, fs...)
	sym.Quiesce()
	answered(ws, fs)
	for i, f := range fs {
		resp, dup := false, false
		for _, w := range ws {
			resp = resp || f.ID == w.id
		}
		for _, g := range fs[:i] {
			dup = dup || f.ID == g.ID
		}
		n := 0
		for _, h := range handled {
			if int(h) == i {
				n++
			}
		}
		switch {
		case resp && !dup:
			sym.Assert(n == 0, "a response is not handled as a request")
		case !dup:
			sym.Assert(n == 1, "another frame is handled as a request")
		default:
			sym.Assert(n <= 1, "no frame is handled twice")
		}
	}
	sym.Reach("server")
}

// C08Concurrent: two callers issue requests concurrently; the peer answers as
// soon as a request arrives, in either order.
func C08Concurrent() {
	swap := sym.Choose("swap", 2) == 1
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 3)}, nil)
	held := make(chan F, 8)
	fc.OnWrite = func(b []byte) (int, error) {
		fs, ok := fake.Dec(b)
		sym.Assert(ok, "whole frames")
		for _, f := range fs {
			held <- f
		}
		return len(b), nil
	}
	resp := make([]*qrpc.Frame, 2)
	ids := make([]uint64, 2)
	var ts []*task
	for i := 0; i < 2; i++ {
		i := i
		ts = append(ts, spawn(func() error {
			id, r, err := c.Request(qrpc.Cmd(i+1), 0, nil)
			if err != nil {
				return err
			}
			ids[i] = id
			resp[i], err = r.GetFrame()
			return err
		}))
	}
	peer := spawnV(func() {
		f := <-held
		if swap {
			g := <-held
			feed(fc, fr(g.ID, 0, g.Cmd+100, nil))
			feed(fc, fr(f.ID, 0, f.Cmd+100, nil))
			return
		}
		feed(fc, fr(f.ID, 0, f.Cmd+100, nil))
		g := <-held
		feed(fc, fr(g.ID, 0, g.Cmd+100, nil))
	})
	sym.Quiesce()
	sym.Assert(peer.Done() && ts[0].Done() && ts[1].Done(), "all requests complete")
	for i := 0; i < 2; i++ {
		sym.Assert(ts[i].Err() == nil && resp[i].RequestID == ids[i] && resp[i].Cmd == qrpc.Cmd(i+101), "each caller gets the response to its own request")
	}
	sym.Reach("concurrent")
}
