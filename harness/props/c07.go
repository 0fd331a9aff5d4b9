package props

import (
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// panics runs f and reports whether it panicked.
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// call counts the runs of a handler and answers its request.
type call struct {
	n   int
	cmd uint32
}

func (k *call) h(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
	k.n++
	k.cmd = uint32(r.Cmd)
	w.StartWrite(r.RequestID, 1, 0)
	w.EndWrite()
}

// C07Route: two registrations for arbitrary commands, one arbitrary request.
func C07Route() {
	a, b, q := sym.U32("a"), sym.U32("b"), sym.U32("q")
	sym.Assume(a <= 0xffffff && b <= 0xffffff)
	var ha, hb call
	mux := qrpc.NewServeMux()
	viaFunc := sym.Choose("func", 2) == 1
	reg := func(cmd uint32, k *call) func() {
		return func() {
			if viaFunc {
				mux.HandleFunc(qrpc.Cmd(cmd), k.h)
			} else {
				mux.Handle(qrpc.Cmd(cmd), qrpc.HandlerFunc(k.h))
			}
		}
	}
	sym.Assert(!panics(reg(a, &ha)), "first registration accepted")
	dup := a&0xffff == b&0xffff
	if dup {
		sym.Assert(panics(reg(b, &hb)), "second registration for the same routing value panics")
		sym.Reach("dup")
	} else {
		sym.Assert(!panics(reg(b, &hb)), "registration for another routing value accepted")
	}
	e := newServer(qrpc.ServerBinding{Handler: mux})
	c := e.dial()
	nb := uint8(sym.Choose("nb", 2)) * fNB
	feed(c, fr(1, nb, q&0xffffff, nil))
	sym.Quiesce()
	switch {
	case q&0xffff == a&0xffff:
		sym.Assert(ha.n == 1 && hb.n == 0, "exactly the first handler runs, once")
		sym.Assert(ha.cmd == q&0xffffff, "handler sees the whole command")
		sym.Assert(!c.Closed(), "connection stays open")
		sym.Reach("a")
	case !dup && q&0xffff == b&0xffff:
		sym.Assert(ha.n == 0 && hb.n == 1, "exactly the second handler runs, once")
		sym.Assert(!c.Closed(), "connection stays open")
		sym.Reach("b")
	default:
		sym.Assert(ha.n == 0 && hb.n == 0, "no handler runs for an unregistered command")
		sym.Assert(c.Closed(), "connection of an unregistered command is closed")
		sym.Reach("none")
	}
}

// C07Reject: refused registrations leave the mux as it was.
func C07Reject() {
	a, b := sym.U32("a"), sym.U32("b")
	sym.Assume(a <= 0xffffff)
	var ha, hb call
	mux := qrpc.NewServeMux()
	mux.HandleFunc(qrpc.Cmd(a), ha.h)
	if sym.Choose("how", 2) == 0 {
		sym.Assert(panics(func() { mux.Handle(qrpc.Cmd(b), nil) }), "nil handler panics")
		sym.Reach("nil")
	} else {
		sym.Assume(b > 0xffffff)
		sym.Assert(panics(func() { mux.HandleFunc(qrpc.Cmd(b), hb.h) }), "command beyond 24 bits panics")
		sym.Reach("big")
	}
	q := sym.U32("q") & 0xffffff
	e := newServer(qrpc.ServerBinding{Handler: mux})
	c := e.dial()
	feed(c, fr(1, 0, q, nil))
	sym.Quiesce()
	want := 0
	if q&0xffff == a&0xffff {
		want = 1
	}
	sym.Assert(ha.n == want && hb.n == 0, "existing registration stays in force")
	sym.Assert(c.Closed() == (want == 0), "unregistered closes, registered does not")
}

// C07Middleware: up to three middlewares with arbitrary verdicts.
func C07Middleware() {
	n := sym.Choose("n", 4)
	var log []int
	var mws []qrpc.MiddlewareFunc
	want := []int{}
	stopped := false
	for i := 0; i < n; i++ {
		i := i
		ok := sym.Bool("ok")
		mws = append(mws, func(w qrpc.FrameWriter, r *qrpc.RequestFrame) bool {
			log = append(log, i)
			return ok
		})
		if !stopped {
			want = append(want, i)
			if !ok {
				stopped = true
			}
		}
	}
	if !stopped {
		want = append(want, 99)
	}
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) { log = append(log, 99) })
	var handler qrpc.Handler
	switch sym.Choose("via", 3) {
	case 0:
		handler = qrpc.HandlerWithMW(h, mws...)
	case 1:
		mux := qrpc.NewServeMux()
		mux.Handle(7, h, mws...)
		handler = mux
	case 2:
		mux := qrpc.NewServeMux()
		mux.HandleFunc(7, h, mws...)
		handler = mux
	}
	e := newServer(qrpc.ServerBinding{Handler: handler})
	c := e.dial()
	feed(c, fr(1, uint8(sym.Choose("nb", 2))*fNB, 7, nil))
	sym.Quiesce()
	sym.Assert(len(log) == len(want), "middleware chain stops at the first that declines")
	for i := range want {
		sym.Assert(log[i] == want[i], "middleware runs in registration order before the handler")
	}
	sym.Reach("mw")
}
