package props

import (
	"bytes"
	"errors"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

var errBroken = errors.New("broken pipe")

// faults makes the first write calls accept any part of their bytes, ending in
// a recoverable timeout or a fatal error; later calls accept everything. It
// returns a pointer that tells whether a fatal error happened.
func faults(fc *fake.Conn, calls int, giveUp bool) *bool {
	return faultsAfter(fc, 0, calls, giveUp)
}

// faultsAfter does the same after the first good calls.
func faultsAfter(fc *fake.Conn, good, calls int, giveUp bool) *bool {
	fatal := new(bool)
	n := -good
	fc.OnWrite = func(b []byte) (int, error) {
		if *fatal {
			return 0, fake.OpErr("write", errBroken)
		}
		n++
		if n <= 0 || n > calls {
			return len(b), nil
		}
		kind := sym.Choose("kind", 3)
		if kind == 0 {
			return len(b), nil
		}
		k := sym.Choose("accepted", len(b)+1)
		if kind == 1 {
			if giveUp {
				sym.AdvanceSec(3)
			}
			return k, fake.OpErr("write", fake.TimeoutErr{})
		}
		*fatal = true
		return k, fake.OpErr("write", errBroken)
	}
	return fatal
}

// accepted asserts that the wire holds a prefix of the frames sent, that a send
// succeeded only if its frame is complete, and that an incomplete send failed.
func accepted(fc *fake.Conn, ss []*sendOne) {
	out := fc.Out()
	used := make([]bool, len(ss))
	pos := 0
	for pos < len(out) {
		// the next bytes are a frame not seen so far, or the beginning of one
		hit := -1
		for i, s := range ss {
			if used[i] {
				continue
			}
			n := len(s.wire)
			if n > len(out)-pos {
				n = len(out) - pos
			}
			// only the constant marker bytes are compared for identification
			if n > 15 && out[pos+15] == s.wire[15] {
				hit = i
			}
			if n <= 15 && hit < 0 && bytes.Equal(out[pos:pos+n], s.wire[:n]) {
				hit = i
			}
		}
		sym.Assert(hit >= 0, "only frames that were sent are on the wire, none repeated")
		s := ss[hit]
		used[hit] = true
		n := len(s.wire)
		if n > len(out)-pos {
			n = len(out) - pos
		}
		sym.Assert(sym.EqBytes(out[pos:pos+n], s.wire[:n]), "bytes are neither repeated, skipped nor changed")
		s.whole = n == len(s.wire)
		pos += n
	}
	for _, s := range ss {
		sym.Assert(s.t.Done(), "every send returns")
		sym.Assert(s.t.Err() != nil || s.whole, "a send succeeds only if all its bytes were accepted")
	}
}

// sendOne sends one frame.
type sendOne struct {
	t     *task
	wire  []byte
	whole bool
}

// sendOnes starts n concurrent pushes or requests. The identifiers are those
// the connection hands out in the order of the calls, so the calls are made one
// after the other up to the point where they block.
func sendOnes(r requester, n int, first uint64, nb uint8) (ss []*sendOne) {
	for i := 0; i < n; i++ {
		s := &sendOne{}
		fl := uint8(0)
		if sym.Choose("push", 2) == 1 {
			fl = fPush
		}
		p := sym.BytesN("payload", 1+i)
		s.wire = fake.Enc(fr(first+2*uint64(i), fl|nb, uint32(i+1), p))
		cmd := qrpc.Cmd(i + 1)
		s.t = spawn(func() error {
			_, _, err := r.Request(cmd, qrpc.FrameFlag(fl), p)
			return err
		})
		sym.Quiesce()
		ss = append(ss, s)
	}
	return
}

func nFaults() int {
	if sym.Thorough() {
		return 3
	}
	return 2
}

// settled asserts what holds once everything has come to rest.
func settled(fc *fake.Conn, ss []*sendOne, failed bool, r requester) {
	accepted(fc, ss)
	if failed {
		sym.Assert(fc.Closed(), "the connection is closed when the network fails")
		_, _, err := r.Request(9, 0, nil)
		sym.Assert(err != nil, "sending on a failed connection fails")
	} else {
		for _, s := range ss {
			sym.Assert(s.t.Err() == nil, "without a fatal error every send succeeds")
		}
		sym.Assert(!fc.Closed(), "the connection survives temporary timeouts")
	}
}

// C18Client: a client's sends over a network that accepts bytes in parts, times
// out and breaks.
func C18Client() {
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 3)}, nil)
	sym.Quiesce()
	fc.Hold = true
	fatal := faults(fc, nFaults(), false)
	ss := sendOnes(c, 2, 3, 0)
	fc.Release()
	sym.Quiesce()
	settled(fc, ss, *fatal, c)
	sym.Reach("client")
}

// C18Server: the same for sends from the server.
func C18Server() {
	e := newServer(qrpc.ServerBinding{WriteFrameChSize: 1 + sym.Choose("batch", 2)})
	fc := e.dial()
	sym.Quiesce()
	fc.Hold = true
	fatal := faults(fc, nFaults(), false)
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		ss := sendOnes(ci, 2, 2, fNB)
		fc.Release()
		sym.Quiesce()
		settled(fc, ss, *fatal, ci)
		sym.Reach("server")
		return true
	})
}

// batched asserts the outcome of a batch that may give up: every send has an
// outcome which agrees with the bytes the network took.
func batched(fc *fake.Conn, ss []*sendOne, healthy bool, r requester) {
	accepted(fc, ss)
	failed := false
	for _, s := range ss {
		failed = failed || s.t.Err() != nil
		sym.Assert(s.t.Err() == nil || !s.whole, "a send whose bytes were all accepted succeeds")
	}
	sym.Assert(fc.Closed() || !failed, "the connection is closed when a send fails")
	sym.Assert(!healthy || !failed && !fc.Closed(), "without a fatal error every send succeeds and the connection survives")
	if failed {
		_, _, err := r.Request(9, 0, nil)
		sym.Assert(err != nil, "sending on a failed connection fails")
	}
	sym.Reach("batch")
}

// C18Batch: two sends which wait for a third one and are then written together,
// to a network that accepts them in parts, times out and breaks.
func C18Batch() {
	side := sym.Choose("side", 2)
	timeout := 2 * sym.Choose("timeout", 2) // seconds; a call that times out takes 3
	if side == 0 {
		c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: 3, WriteTimeout: timeout}, nil)
		sym.Quiesce()
		fc.Hold = true
		fatal := faultsAfter(fc, 1, nFaults(), timeout > 0)
		ss := sendOnes(c, 3, 3, 0)
		fc.Release()
		sym.Quiesce()
		batched(fc, ss, !*fatal && timeout == 0, c)
		return
	}
	e := newServer(qrpc.ServerBinding{WriteFrameChSize: 3, DefaultWriteTimeout: timeout})
	fc := e.dial()
	sym.Quiesce()
	fc.Hold = true
	fatal := faultsAfter(fc, 1, nFaults(), timeout > 0)
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		ss := sendOnes(ci, 3, 2, fNB)
		fc.Release()
		sym.Quiesce()
		batched(fc, ss, !*fatal && timeout == 0, ci)
		return true
	})
}

// C18Timeout: with a write timeout configured, a network that keeps timing out
// makes the send fail and ends the connection.
func C18Timeout() {
	side := sym.Choose("side", 2)
	timeout := 1 + sym.Choose("timeout", 7) // seconds; each call takes 3
	stuck := 0
	dead := sym.Choose("stuck", 4) // calls that accept nothing or one byte
	part := sym.Choose("part", 2)
	slow := func(b []byte) (int, error) {
		if stuck < dead {
			stuck++
			sym.AdvanceSec(3)
			return part, fake.OpErr("write", fake.TimeoutErr{})
		}
		return len(b), nil
	}
	var fc *fake.Conn
	check := func(r requester, first uint64, nb uint8) {
		fc.OnWrite = slow
		ss := sendOnes(r, 1, first, nb)
		sym.Quiesce()
		settled(fc, ss, ss[0].t.Err() != nil, r)
		if dead*3 < timeout {
			sym.Assert(ss[0].t.Err() == nil, "a send that recovers in time succeeds")
		}
		if dead*3 > timeout {
			sym.Assert(ss[0].t.Err() != nil, "a send that exceeds its timeout fails")
		}
		sym.Reach("timeout")
	}
	if side == 0 {
		c, f := newClient(qrpc.ConnectionConfig{WriteTimeout: timeout}, nil)
		fc = f
		sym.Quiesce()
		check(c, 3, 0)
	} else {
		e := newServer(qrpc.ServerBinding{DefaultWriteTimeout: timeout})
		fc = e.dial()
		sym.Quiesce()
		e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			check(ci, 2, fNB)
			return true
		})
	}
}

// C18Stall: a network that takes nothing for a while. The send succeeds if it
// takes the frame in time, fails otherwise, and ends when the connection does.
func C18Stall() {
	side := sym.Choose("side", 2)
	timeout := []int{0, 2, 7}[sym.Choose("timeout", 3)]
	stall := []int{1, 4, 6, 10}[sym.Choose("stall", 4)]
	closed := sym.Choose("closed", 2) == 1 // half a second before it goes on
	room := 5 * sym.Choose("room", 2)       // taken before that
	var fc *fake.Conn
	check := func(r requester, first uint64, nb uint8, end func()) {
		fc.Deadlines = true
		fc.Hold, fc.Room = true, room
		start := time.Now()
		var took time.Duration
		ss := sendOnes(r, 1, first, nb)
		go func() {
			for !ss[0].t.Done() {
				time.Sleep(500 * time.Millisecond)
			}
			took = time.Since(start)
		}()
		time.Sleep(time.Duration(stall)*time.Second - 500*time.Millisecond)
		if closed {
			end()
			sym.Quiesce()
		}
		time.Sleep(500 * time.Millisecond)
		fc.Release()
		time.Sleep(4 * time.Second)
		sym.Quiesce()
		ok := !closed && (timeout == 0 || stall < timeout)
		sym.Assert(ss[0].t.Done() && took > 0, "the send returns")
		sym.Assert((ss[0].t.Err() == nil) == ok, "the send succeeds if the network recovers in time")
		if timeout > 0 {
			sym.Assert(took < time.Duration(timeout+2)*time.Second, "the send fails in time")
		}
		if ok {
			accepted(fc, ss)
		} else {
			sym.Assert(fc.Closed(), "a failed send ends the connection")
			sym.Assert(len(fc.Out()) == room, "nothing is sent late")
		}
		sym.Reach("stall")
	}
	if side == 0 {
		c, f := newClient(qrpc.ConnectionConfig{WriteTimeout: timeout}, nil)
		fc = f
		sym.Quiesce()
		check(c, 3, 0, func() { c.Close() })
	} else {
		e := newServer(qrpc.ServerBinding{DefaultWriteTimeout: timeout})
		fc = e.dial()
		sym.Quiesce()
		e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			check(ci, 2, fNB, func() { ci.Close() })
			return true
		})
	}
}

// C18Handler: responses written by a handler over a failing network.
func C18Handler() {
	side := sym.Choose("side", 2)
	done := false
	var err1, err2 error
	p := sym.BytesN("payload", 2)
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		w.StartWrite(r.RequestID, 1, qrpc.StreamFlag)
		w.WriteBytes(p)
		err1 = w.EndWrite()
		w.StartWrite(r.RequestID, 2, qrpc.StreamFlag|qrpc.StreamEndFlag)
		w.WriteBytes(p[1:])
		err2 = w.EndWrite()
		done = true
	})
	var fc *fake.Conn
	id := uint64(7)
	if side == 0 {
		fc = newServer(qrpc.ServerBinding{Handler: h}).dial()
	} else {
		_, fc = newClient(qrpc.ConnectionConfig{Handler: h}, nil)
		id = 8
	}
	sym.Quiesce()
	fatal := faults(fc, nFaults(), false)
	feed(fc, fr(id, fNB, 5, nil))
	sym.Quiesce()
	sym.Assert(done, "the handler's writes return")
	t1, t2 := &task{done: true, err: err1}, &task{done: true, err: err2}
	ss := []*sendOne{{t: t1, wire: fake.Enc(fr(id, fStream, 1, p))}, {t: t2, wire: fake.Enc(fr(id, fStream|fEnd, 2, p[1:]))}}
	accepted(fc, ss)
	sym.Assert(*fatal || err1 == nil && err2 == nil, "without a fatal error the writes succeed")
	sym.Assert(fc.Closed() == *fatal, "the connection is closed exactly when the network fails")
	sym.Reach("handler")
}
