package props

import (
	"crypto/tls"
	"errors"
	"net"
	"sync"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

var errInUse = errors.New("address already in use")

// C34Listen: listening on all bindings, any of which may fail.
func C34Listen() {
	n := 1 + sym.Choose("bindings", 3)
	fails := sym.Choose("fails", 8)
	var bs []qrpc.ServerBinding
	lns := make([]*fake.Listener, n)
	names := []string{"a", "b", "c"}
	for i := 0; i < n; i++ {
		i := i
		b := qrpc.ServerBinding{Addr: names[i]}
		b.ListenFunc = func(network, addr string) (net.Listener, error) {
			sym.Assert(network == "tcp" && addr == names[i], "a binding listens on its own address")
			sym.Assert(lns[i] == nil, "a binding listens once")
			if fails>>uint(i)&1 == 1 {
				return nil, errInUse
			}
			lns[i] = fake.NewListener()
			return lns[i], nil
		}
		if sym.Choose("overlay", 2) == 1 {
			b.OverlayNetwork = func(l net.Listener, _ *tls.Config) qrpc.Listener { return l }
		}
		bs = append(bs, b)
	}
	srv := qrpc.NewServer(bs)
	var t *task
	whole := sym.Choose("whole", 2) == 1
	if whole {
		t = spawn(srv.ListenAndServe)
	} else {
		t = spawn(srv.ListenAll)
	}
	sym.Quiesce()
	bad := fails&(1<<uint(n)-1) != 0
	if bad {
		sym.Assert(t.Done() && t.Err() == errInUse, "a failure to listen is reported")
		for _, l := range lns {
			sym.Assert(l == nil || l.IsClosed(), "and leaves nothing listening")
		}
		sym.Reach("fails")
		return
	}
	for _, l := range lns {
		sym.Assert(l != nil && !l.IsClosed(), "every binding listens")
	}
	if !whole {
		sym.Assert(t.Done() && t.Err() == nil, "listening succeeds")
		sym.Reach("listens")
		return
	}
	sym.Assert(!t.Done(), "the server serves until it is shut down")
	srv.Shutdown()
	sym.Quiesce()
	time.Sleep(2 * time.Second)
	sym.Quiesce()
	sym.Assert(t.Done() && t.Err() == qrpc.ErrServerClosed, "then it returns")
	for _, l := range lns {
		sym.Assert(l.IsClosed(), "and listens no more")
	}
	sym.Reach("served")
}

// plainConn is a connection without socket options.
type plainConn struct{ net.Conn }

// C34Options: the options configured for a binding are set on what it accepts;
// failing to set them is no reason not to serve.
func C34Options() {
	ln := fake.NewListener()
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		w.StartWrite(r.RequestID, 6, 0)
		w.EndWrite()
	})
	b := qrpc.ServerBinding{Handler: h, ListenFunc: func(network, addr string) (net.Listener, error) { return ln, nil }}
	if sym.Choose("r", 2) == 1 {
		b.RBufSize = 1 + int(sym.U16("rbuf"))
	}
	if sym.Choose("w", 2) == 1 {
		b.WBufSize = 1 + int(sym.U16("wbuf"))
	}
	got := 0
	if sym.Choose("overlay", 2) == 1 {
		b.OverlayNetwork = func(l net.Listener, _ *tls.Config) qrpc.Listener {
			got++
			return l
		}
	}
	srv := qrpc.NewServer([]qrpc.ServerBinding{b})
	t := spawn(srv.ListenAndServe)
	sym.Quiesce()
	sym.Assert(b.OverlayNetwork == nil || got == 1, "the overlay is used")
	odd := fake.NewConn()
	if sym.Choose("odd", 2) == 1 {
		ln.Dial(plainConn{odd})
		sym.Quiesce()
		time.Sleep(2 * time.Second)
		sym.Quiesce()
		feed(odd, fr(3, 0, 1, nil))
		sym.Quiesce()
		sym.Assert(odd.Closed() && len(odd.Out()) == 0, "a connection that is not supported is closed")
		sym.Reach("odd")
	}
	fc := fake.NewConn()
	if sym.Choose("fail", 2) == 1 {
		fc.OptErr = fake.ErrReset
	}
	ln.Dial(fc)
	sym.Quiesce()
	sym.Assert(fc.RBuf == b.RBufSize, "the read buffer is set as configured")
	sym.Assert(fc.WBuf == b.WBufSize, "the write buffer is set as configured")
	sym.Assert(fc.KeepAlive && fc.KeepAlivePeriod == qrpc.DefaultKeepAliveDuration, "keep-alive is switched on")
	feed(fc, fr(5, 0, 1, nil))
	sym.Quiesce()
	expect(fc, "server", fr(5, 0, 6, nil))
	srv.Shutdown()
	sym.Quiesce()
	time.Sleep(2 * time.Second)
	sym.Quiesce()
	sym.Assert(t.Done(), "the server ends")
	sym.Reach("options")
}

// C34Bindings: connections are served under the configuration of the binding
// that accepted them, and known to the server under its index only.
func C34Bindings() {
	const n = 2
	var mu sync.Mutex
	var accepted, closed, pushed, kicked [n]int
	var infos [n][]*qrpc.ConnectionInfo
	e := &srvEnv{}
	var bs []qrpc.ServerBinding
	for i := 0; i < n; i++ {
		i := i
		ln := fake.NewListener()
		e.lns = append(e.lns, ln)
		bs = append(bs, qrpc.ServerBinding{
			MaxFrameSize: 13 + i,
			ListenFunc:   func(network, addr string) (net.Listener, error) { return ln, nil },
			Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
				ci := r.ConnectionInfo()
				mu.Lock()
				infos[i] = append(infos[i], ci)
				mu.Unlock()
				if ci.GetID() == "" {
					ci.SetID("x")
				}
				w.StartWrite(r.RequestID, qrpc.Cmd(10+i), 0)
				w.EndWrite()
			}),
			SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) { mu.Lock(); pushed[i]++; mu.Unlock() },
			OnKickCB: func(w qrpc.FrameWriter) {
				mu.Lock()
				kicked[i]++
				mu.Unlock()
				w.StartWrite(2, qrpc.Cmd(20+i), qrpc.PushFlag)
				w.EndWrite()
			},
			LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{
				OnAccept: func(net.Conn) error { mu.Lock(); accepted[i]++; mu.Unlock(); return nil },
				OnClose:  func(net.Conn) { mu.Lock(); closed[i]++; mu.Unlock() },
			},
		})
	}
	srv := qrpc.NewServer(bs)
	t := spawn(srv.ListenAndServe)
	sym.Quiesce()
	walk := func(i int) (k int) {
		srv.WalkConn(i, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			k++
			return true
		})
		return
	}
	var fcs [n]*fake.Conn
	for i := 0; i < n; i++ {
		fc := fake.NewConn()
		fcs[i] = fc
		e.lns[i].Dial(fc)
		sym.Quiesce()
		feed(fc, fr(3, 0, 1, nil))
		feed(fc, fr(5, fPush, 1, nil))
		sym.Quiesce()
		expect(fc, "server", fr(3, 0, uint32(10+i), nil))
	}
	for i := 0; i < n; i++ {
		sym.Assert(!fcs[i].Closed() && accepted[i] == 1 && pushed[i] == 1 && kicked[i] == 0 && len(infos[i]) == 1, "each binding serves its own connections")
		sym.Assert(walk(i) == 1, "each binding knows its own connections")
		sym.Assert(srv.GetConnectionInfoByID(i, "x") == infos[i][0], "an id belongs to the binding")
	}
	k := sym.Choose("which", n)
	o := 1 - k
	kick := 0
	switch sym.Choose("then", 3) {
	case 0: // the peer leaves
		fcs[k].EOF()
		sym.Quiesce()
		sym.Assert(srv.GetConnectionInfoByID(k, "x") == nil && walk(k) == 0, "a lost connection is forgotten")
	case 1: // another one takes the id
		kick = 1
		fc := fake.NewConn()
		e.lns[k].Dial(fc)
		feed(fc, fr(3, 0, 1, nil))
		sym.Quiesce()
		expect(fc, "server", fr(3, 0, uint32(10+k), nil))
		expect(fcs[k], "kicked", fr(3, 0, uint32(10+k), nil), fr(2, fPush, uint32(20+k), nil))
		sym.Assert(walk(k) == 1 && srv.GetConnectionInfoByID(k, "x") == infos[k][1], "the newer connection owns the id")
	case 2: // a frame above the smaller limit
		p := sym.BytesN("payload", 2)
		feed(fcs[k], fr(7, 0, 1, p))
		sym.Quiesce()
		sym.Assert(fcs[k].Closed() == (k == 0), "each binding has its own limits")
		if k == 1 {
			sym.Assert(len(infos[1]) == 2, "each binding has its own limits")
			fcs[k].EOF()
			sym.Quiesce()
		}
	}
	sym.Assert(fcs[k].Closed() && closed[k] == 1 && kicked[k] == kick, "the connection ended")
	sym.Assert(!fcs[o].Closed() && closed[o] == 0 && kicked[o] == 0 && walk(o) == 1 && srv.GetConnectionInfoByID(o, "x") == infos[o][0], "connections of other bindings are not affected")
	srv.Shutdown()
	sym.Quiesce()
	time.Sleep(2 * time.Second)
	sym.Quiesce()
	sym.Assert(t.Done() && t.Err() == qrpc.ErrServerClosed, "the server ends")
	for i := 0; i < n; i++ {
		sym.Assert(fcs[i].Closed() && closed[i] == accepted[i] && walk(i) == 0, "all connections of all bindings end")
	}
	sym.Reach("bindings")
}
