package props

import (
	"sync"

	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// C09Origin: the helpers that tell the origins apart, for every identifier.
func C09Origin() {
	id := sym.U64("id")
	f := &qrpc.Frame{RequestID: id}
	r := &qrpc.RequestFrame{RequestID: id}
	odd := id&1 == 1
	sym.Assert(f.FromClient() == odd, "Frame.FromClient means odd")
	sym.Assert(f.FromServer() == !odd, "Frame.FromServer means even")
	sym.Assert(r.FromClient() == odd, "RequestFrame.FromClient means odd")
	sym.Reach("origin")
}

// issue makes one request of some kind and returns its identifier.
func issue(kind int, request func(qrpc.Cmd, qrpc.FrameFlag, []byte) (uint64, qrpc.Response, error), stream func(qrpc.Cmd, qrpc.FrameFlag, []byte) (qrpc.StreamWriter, qrpc.Response, error)) uint64 {
	if kind != 1 {
		id, _, err := request(1, qrpc.FrameFlag(kind)*fPush/2, nil)
		sym.Assert(err == nil, "request sent")
		return id
	}
	w, _, err := stream(1, 0, nil)
	sym.Assert(err == nil, "stream request sent")
	return w.RequestID()
}

func distinct(ids []uint64, n int, odd bool, onWire []F) {
	sym.Assert(len(ids) == n, "all requests sent")
	for i := range ids {
		sym.Assert(ids[i]&1 == 1 == odd, "identifier carries its origin")
		for j := 0; j < i; j++ {
			sym.Assert(ids[i] != ids[j], "identifiers are distinct")
		}
		hits := 0
		for _, f := range onWire {
			if f.ID == ids[i] {
				hits++
			}
		}
		sym.Assert(hits == 1, "the identifier returned is the one on the wire")
	}
}

// C09Client: concurrent requests of a client.
func C09Client() {
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 3)}, nil)
	const n = 3
	var mu sync.Mutex
	var ids []uint64
	for i := 0; i < n; i++ {
		kind := 0
		if i == 1 {
			kind = sym.Choose("kind", 3)
		}
		go func() {
			id := issue(kind, c.Request, c.StreamRequest)
			mu.Lock()
			ids = append(ids, id)
			mu.Unlock()
		}()
	}
	sym.Quiesce()
	distinct(ids, n, true, frames(fc, "client"))
	sym.Reach("client")
}

// C09Server: concurrent requests of a server on one connection.
func C09Server() {
	const n = 3
	var mu sync.Mutex
	var ids []uint64
	e := newServer(qrpc.ServerBinding{WriteFrameChSize: sym.Choose("batch", 3), Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		for i := 0; i < n; i++ {
			kind := 0
			if i == 1 {
				kind = sym.Choose("kind", 3)
			}
			go func() {
				id := issue(kind, r.ConnectionInfo().Request, r.ConnectionInfo().StreamRequest)
				mu.Lock()
				ids = append(ids, id)
				mu.Unlock()
			}()
		}
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})})
	c := e.dial()
	feed(c, fr(1, fNB, 1, nil))
	sym.Quiesce()
	distinct(ids, n, false, frames(c, "server"))
	sym.Reach("server")
}
