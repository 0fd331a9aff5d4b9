package props

import (
	"net"
	"sort"
	"sync"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// C38Pace: connections of a binding with a close rate, all ended at once by
// their peers or by the server, next to a binding without one.
func C38Pace() {
	rate := 1 + sym.Choose("rate", 3)
	k := 2
	if sym.Thorough() {
		k = 3
	}
	var mu sync.Mutex
	ends := map[net.Conn]int{}
	notified := 0
	ended := func(c net.Conn) {
		mu.Lock()
		ends[c]++
		mu.Unlock()
	}
	handler := qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		r.ConnectionInfo().NotifyWhenClose(func() {
			mu.Lock()
			notified++
			mu.Unlock()
		})
		if r.Cmd == 9 {
			r.Close()
			return
		}
		<-r.Context().Done()
	})
	cb := qrpc.ServerLifecycleCallbacks{OnClose: ended}
	e := newServer(
		qrpc.ServerBinding{Handler: handler, MaxCloseRate: rate, LifecycleCallbacks: cb},
		qrpc.ServerBinding{Handler: handler, LifecycleCallbacks: cb},
	)
	var closed []time.Time
	conns := make([]*fake.Conn, k)
	for i := range conns {
		fc := fake.NewConn()
		fc.OnClosed = func() {
			mu.Lock()
			closed = append(closed, time.Now())
			mu.Unlock()
		}
		e.lns[0].Dial(fc)
		feed(fc, fr(3, fNB, 5, nil))
		conns[i] = fc
	}
	free := fake.NewConn()
	e.lns[1].Dial(free)
	feed(free, fr(3, fNB, 5, nil))
	sym.Quiesce()
	mu.Lock()
	sym.Assert(len(closed) == 0, "nothing closes on its own")
	mu.Unlock()
	begin := time.Now()
	down := sym.Choose("shutdown", 2) == 1
	var t *task
	want := k + 1
	if down {
		t = spawn(e.srv.Shutdown)
	} else {
		for _, fc := range conns {
			switch sym.Choose("end", 3) {
			case 0:
				fc.EOF()
			case 1:
				fc.Feed([]byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
			default:
				feed(fc, fr(5, fNB, 9, nil))
				want++
			}
		}
		free.EOF()
	}
	sym.Quiesce()
	if down {
		// an accept failing before the shutdown is visible is retried
		time.Sleep(1100 * time.Millisecond)
		sym.Quiesce()
	}
	sym.Assert(free.Closed(), "a binding without a limit closes at once")
	period := time.Second / time.Duration(rate)
	time.Sleep(time.Duration(4*k)*period + 2*time.Second)
	sym.Quiesce()
	for _, fc := range conns {
		sym.Assert(fc.Closed(), "every connection is closed")
	}
	mu.Lock()
	sort.Slice(closed, func(i, j int) bool { return closed[i].Before(closed[j]) })
	for i, at := range closed {
		sym.Assert(at.Sub(begin) >= time.Duration(i)*period-period/8, "closes of the binding are spaced by its rate")
		if i > 0 {
			sym.Assert(at.Sub(closed[i-1]) >= period-period/8, "closes of the binding are spaced by its rate")
		}
	}
	for _, fc := range conns {
		sym.Assert(ends[fc] == 1, "every close is reported once")
	}
	sym.Assert(ends[free] == 1, "every close is reported once")
	sym.Assert(notified == want, "every close notification runs once")
	mu.Unlock()
	if down {
		sym.Assert(t.Done(), "shutdown returns")
		sym.Reach("shutdown")
	} else {
		sym.Reach("paced")
	}
}
