package props

import (
	"sync"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// idle follows what a read timeout of t seconds allows. Times are in quarters of
// a second; the peer never acts exactly at a deadline.
type idle struct {
	t        int // <= 0: none
	deadline int // when the current wait ends the connection
	now      int
	dead     bool
}

func (d *idle) wait() {
	d.deadline = d.now + 4*d.t
}

// header starts the wait for the payload, which takes at most 3 seconds.
func (d *idle) payload() {
	t := d.t
	if t > 3 {
		t = 3
	}
	d.deadline = d.now + 4*t
}

// pass lets time pass and asserts that the connection has ended exactly if the
// deadline is over.
func (d *idle) pass(fc *fake.Conn, quarters int) {
	time.Sleep(time.Duration(quarters) * 250 * time.Millisecond)
	sym.Quiesce()
	d.now += quarters
	if d.t > 0 && d.now > d.deadline {
		d.dead = true
	}
	if d.dead {
		sym.Assert(fc.Closed(), "a connection that stays silent beyond its read timeout is closed")
	} else {
		sym.Assert(!fc.Closed(), "a connection is not closed before its read timeout")
	}
}

// talk has the peer send frames in pieces with pauses in between.
func talk(fc *fake.Conn, d *idle, first uint64, n int, arrived func() int, changed func() int) {
	d.wait()
	for i := 0; i < n; i++ {
		b := fake.Enc(fr(first+2*uint64(i), 0, uint32(i+1), []byte{1, 2}))
		cut := []int{0, 9, 16, 17}[sym.Choose("cut", 4)]
		d.pass(fc, pause("pause"))
		fc.Feed(b[:cut])
		if cut >= 16 {
			sym.Quiesce()
			if !d.dead {
				d.payload()
			}
		}
		if cut > 0 {
			d.pass(fc, pause("gap"))
		}
		fc.Feed(b[cut:])
		sym.Quiesce()
		if d.dead {
			sym.Assert(arrived() == i, "nothing is taken from a connection that timed out")
			sym.Reach("late")
			return
		}
		sym.Assert(arrived() == i+1, "a frame that comes in time is handled")
		d.t = changed()
		d.wait()
	}
	d.pass(fc, 21)
	if d.dead {
		sym.Reach("silent")
	} else {
		sym.Reach("patient")
	}
}

// pause is a time, in quarters of a second, between the deadlines that matter.
func pause(name string) int { return []int{1, 9, 13, 17}[sym.Choose(name, 4)] }

func timeouts() int { return []int{-1, 0, 1, 2, 4}[sym.Choose("timeout", 5)] }

// C33Server: a server binding with a read timeout, which a handler may change.
func C33Server() {
	var mu sync.Mutex
	n := 0
	t := timeouts()
	next := t
	change := sym.Choose("change", 2) == 1
	if change {
		next = timeouts()
	}
	e := newServer(qrpc.ServerBinding{DefaultReadTimeout: t, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		mu.Lock()
		n++
		mu.Unlock()
		if change {
			r.ConnectionInfo().ReaderConfig().SetReadTimeout(next)
		}
		w.StartWrite(r.RequestID, 9, 0)
		w.EndWrite()
	})})
	fc := fake.NewConn()
	fc.Deadlines = true
	e.lns[0].Dial(fc)
	sym.Quiesce()
	k := 1
	if sym.Thorough() {
		k = 2
	}
	talk(fc, &idle{t: t}, 3, k, func() int {
		mu.Lock()
		defer mu.Unlock()
		return n
	}, func() int { return next })
}

// C33Client: the same for a client, whose pending request ends with the
// connection.
func C33Client() {
	var mu sync.Mutex
	n := 0
	t := timeouts()
	fc := fake.NewConn()
	fc.Deadlines = true
	c, err := qrpc.NewConnection("a", qrpc.ConnectionConfig{ReadTimeout: t, OverlayNetwork: dialer(fc)}, func(c *qrpc.Connection, f *qrpc.Frame) {
		mu.Lock()
		n++
		mu.Unlock()
	})
	sym.Assert(err == nil, "dial")
	sym.Quiesce()
	d := &idle{t: t}
	_, resp, err := c.Request(1, 0, nil)
	sym.Assert(err == nil, "request")
	w := spawn(func() error {
		_, err := resp.GetFrame()
		return err
	})
	d.wait()
	for i := 0; i < 2; i++ {
		d.pass(fc, pause("pause"))
		feed(fc, fr(uint64(2+2*i), fPush, 7, []byte{1}))
		sym.Quiesce()
		if d.dead {
			break
		}
		mu.Lock()
		sym.Assert(n == i+1, "a push that comes in time is handled")
		mu.Unlock()
		d.wait()
	}
	if !d.dead {
		d.pass(fc, 21)
	}
	sym.Assert(w.Done() == d.dead, "a pending request ends with the connection and not before")
	if d.dead {
		sym.Assert(w.Err() != nil && c.IsClosed(), "with an error")
		sym.Reach("silent")
	} else {
		sym.Reach("patient")
	}
}

// C33Busy: the time a blocking handler takes is not the peer's.
func C33Busy() {
	t := 1 + sym.Choose("timeout", 2)
	busy := sym.Choose("busy", 4)
	e := newServer(qrpc.ServerBinding{DefaultReadTimeout: t, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		time.Sleep(time.Duration(busy) * time.Second)
		w.StartWrite(r.RequestID, 9, 0)
		w.EndWrite()
	})})
	fc := fake.NewConn()
	fc.Deadlines = true
	e.lns[0].Dial(fc)
	sym.Quiesce()
	feed(fc, fr(3, 0, 1, nil))
	sym.Quiesce()
	d := &idle{t: t, now: 0}
	d.deadline = 4 * (busy + t)
	d.pass(fc, 1+4*sym.Choose("wait", 6))
	sym.Reach("busy")
}

// C33Early: the timeout can be changed as soon as the connection can be found.
func C33Early() {
	e := newServer(qrpc.ServerBinding{DefaultReadTimeout: 1})
	fc := fake.NewConn()
	fc.Deadlines = true
	found := 0
	t := spawnV(func() {
		for i := 0; i < 2; i++ {
			e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				found++
				ci.ReaderConfig().SetReadTimeout(2)
				w.StartWrite(2, 1, qrpc.PushFlag)
				w.EndWrite()
				return true
			})
			sym.Yield()
		}
	})
	e.lns[0].Dial(fc)
	sym.Quiesce()
	sym.Assert(t.Done(), "it does not crash or hang")
	if found > 0 {
		sym.Reach("found")
	}
}
