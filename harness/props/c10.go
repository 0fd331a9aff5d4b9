package props

import (
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// C10Order: a sequence of requests of arbitrary kinds on one connection; their
// handlers return in an arbitrary order. At every point exactly those requests
// run whose earlier blocking requests have all returned.
func C10Order() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	gates := make([]chan struct{}, n)
	started := make([]int, n)
	ended := make([]int, n)
	blocking := make([]bool, n)
	var fs []F
	for i := range gates {
		gates[i] = make(chan struct{})
		var fl uint8
		switch sym.Choose("kind", 4) {
		case 0:
			blocking[i] = true
		case 1:
			fl = fNB
		case 2:
			fl = fStream
		case 3:
			fl = fEnd | uint8(i%2)*fStream
		}
		fs = append(fs, fr(uint64(2*i+1), fl, uint32(i), nil))
	}
	panicky := sym.Choose("panic", 2) == 1
	e := newServer(qrpc.ServerBinding{ReadFrameChSize: sym.Choose("readch", 2) * 4, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		i := int(r.Cmd)
		for j := 0; j < i; j++ {
			sym.Assert(!blocking[j] || ended[j] == 1, "no handler starts before an earlier blocking one returned")
		}
		started[i]++
		<-gates[i]
		ended[i]++
		if panicky {
			panic("handler panic")
		}
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})})
	c := e.dial()
	feed(c, fs...)
	released := make([]bool, n)
	check := func() {
		sym.Quiesce()
		open := true
		for i := 0; i < n; i++ {
			if open {
				sym.Assert(started[i] == 1, "a request whose turn has come runs without waiting for others")
			} else {
				sym.Assert(started[i] == 0, "a request waits for earlier blocking ones")
			}
			if open && released[i] {
				sym.Assert(ended[i] == 1, "released handler returned")
			}
			if blocking[i] && !(released[i] && open) {
				open = false
			}
		}
	}
	check()
	for k := 0; k < n; k++ {
		// the r-th handler not yet released
		i := 0
		for r := sym.Choose("release", n-k); ; i++ {
			if !released[i] {
				if r == 0 {
					break
				}
				r--
			}
		}
		released[i] = true
		close(gates[i])
		check()
	}
	sym.Reach("order")
}
