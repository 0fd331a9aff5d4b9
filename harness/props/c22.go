package props

import (
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// reply answers a request whose connection may be gone.
func reply(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
	w.StartWrite(r.RequestID, 1, 0)
	w.EndWrite()
}

// C22Inflight: every sequence of requests and completions against the limit on
// requests in progress, on one connection next to another one.
func C22Inflight() {
	limit := 1 + sym.Choose("limit", 2)
	steps := 4
	if sym.Thorough() {
		steps = 6
	}
	var hold []chan struct{} // handlers in progress
	handled, blocking := 0, 0
	how := sym.Choose("how", 3)
	e := newServer(qrpc.ServerBinding{MaxInboundInflightStreamPerConn: int32(limit), Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if !r.Flags.IsNonBlock() {
			blocking++
			if how == 0 {
				reply(w, r)
			} else {
				finish(w, r.RequestID, []int{endSilent, endPanic}[how-1])
			}
			return
		}
		handled++
		ch := make(chan struct{})
		hold = append(hold, ch)
		select {
		case <-ch:
		case <-r.Context().Done():
		}
		if how == 0 {
			reply(w, r)
		} else {
			finish(w, r.RequestID, []int{endSilent, endPanic}[how-1])
		}
	})})
	other := e.dial()
	feed(other, fr(1, fNB, 5, nil))
	sym.Quiesce()
	hold, handled = nil, 0
	c := e.dial()
	sym.Quiesce()
	running, wantHandled, wantBlocking := 0, 0, 0
	over := false
	id := uint64(1)
	for i := 0; i < steps && !over; i++ {
		op := sym.Choose("op", 5)
		switch op {
		case 4: // the oldest one completes
			sym.Assume(running > 0)
			close(hold[0])
			hold = hold[1:]
			running--
		case 0:
			feed(c, fr(id, 0, 5, nil))
			wantBlocking++
		default:
			feed(c, fr(id, []uint8{fNB, fStream, fStream | fEnd}[op-1], 5, nil))
			if running == limit {
				over = true
			} else {
				running++
				wantHandled++
			}
		}
		id += 2
		sym.Quiesce()
		sym.Assert(handled == wantHandled, "requests within the limit are handled, excess ones are not")
		sym.Assert(blocking == wantBlocking, "blocking requests do not count")
		sym.Assert(c.Closed() == over, "one request too many, and nothing else, ends the connection")
	}
	sym.Assert(!other.Closed(), "other connections are not affected")
	if over {
		sym.Reach("over")
	}
	sym.Reach("inflight")
}

// C22Race: requests completing while the next ones arrive.
func C22Race() {
	limit := 1 + sym.Choose("limit", 2)
	running, most, handled := 0, 0, 0
	e := newServer(qrpc.ServerBinding{MaxInboundInflightStreamPerConn: int32(limit), Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		running++
		handled++
		if running > most {
			most = running
		}
		sym.Yield()
		running--
		reply(w, r)
	})})
	c := e.dial()
	kind := sym.Choose("kind", 2)
	for i := 0; i < limit; i++ {
		feed(c, fr(uint64(2*i+1), []uint8{fNB, fStream | fEnd}[kind], 5, nil))
	}
	if sym.Choose("wait", 2) == 1 {
		sym.Quiesce()
		sym.Assert(handled == limit && !c.Closed(), "requests within the limit are handled")
	}
	for i := 0; i < 2; i++ {
		feed(c, fr(uint64(2*i+11), []uint8{fNB, fStream | fEnd}[kind], 5, nil))
	}
	sym.Quiesce()
	sym.Assert(most <= limit, "never more requests in progress than the limit")
	sym.Assert(handled >= limit && (handled == limit+2) == !c.Closed(), "a request is refused only with the connection")
	sym.Reach("race")
}

// C22Rate: frames of any kind arriving at any times against the limit on frames
// per second.
func C22Rate() {
	limit := 1 + sym.Choose("limit", 2)
	n := limit + 2
	if sym.Thorough() {
		n = limit + 3
	}
	handled := 0
	b := qrpc.ServerBinding{MaxInboundFramePerSecond: limit}
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		handled++
		reply(w, r)
	})
	b.SubFunc = func(*qrpc.ConnectionInfo, *qrpc.Frame) { handled++ }
	e := newServer(b)
	c, other := e.dial(), e.dial()
	sym.Quiesce()
	if !sym.Symbolic() {
		time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(1050 * time.Millisecond)))
	}
	count, want := 0, 0
	over := false
	for i := 0; i < n && !over; i++ {
		// any whole number of seconds may pass
		adv := sym.Int("adv", 0, 3)
		sym.AdvanceSec(adv)
		if adv > 0 {
			count = 0
		}
		count++
		feed(c, fr(uint64(2*i+1), []uint8{0, fNB, fStream, fPush}[sym.Choose("kind", 4)], 5, nil))
		if count > limit {
			over = true
		} else {
			want++
		}
		sym.Quiesce()
		sym.Assert(handled == want, "frames within the limit are handled, the excess is not")
		sym.Assert(c.Closed() == over, "exceeding the limit, and nothing else, ends the connection")
	}
	sym.Assert(!other.Closed(), "other connections are not affected")
	if over {
		sym.Reach("over")
	}
	sym.Reach("rate")
}

// C22Burst: more frames than the limit in one piece.
func C22Burst() {
	limit := 1 + sym.Choose("limit", 2)
	handled := 0
	b := qrpc.ServerBinding{MaxInboundFramePerSecond: limit, ReadFrameChSize: sym.Choose("ch", 2)}
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		handled++
		sym.Assert(r.RequestID < uint64(2*limit), "the excess is not handled")
		reply(w, r)
	})
	e := newServer(b)
	if !sym.Symbolic() {
		time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(1050 * time.Millisecond)))
	}
	c := e.dial()
	var fs []F
	kind := requestFlags("kind", 0)
	n := limit + sym.Choose("excess", 3)
	for i := 0; i < n; i++ {
		fs = append(fs, fr(uint64(2*i+1), kind, 5, nil))
	}
	c.Feed(fake.EncAll(fs...))
	sym.Quiesce()
	sym.Assert(c.Closed() == (n > limit), "exceeding the limit, and nothing else, ends the connection")
	sym.Assert(handled <= limit && (n > limit || handled == n), "requests within the limit are served")
	sym.Reach("burst")
}
