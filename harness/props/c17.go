package props

import (
	"sync"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// sender is a goroutine that sends frames and records those that were accepted.
type sender struct {
	t    *task
	mu   sync.Mutex
	sent []F
	all  int
}

func (s *sender) did(err error, f F) {
	s.mu.Lock()
	s.all++
	if err == nil {
		s.sent = append(s.sent, f)
	}
	s.mu.Unlock()
}

// requester is the common part of both endpoints.
type requester interface {
	Request(qrpc.Cmd, qrpc.FrameFlag, []byte) (uint64, qrpc.Response, error)
	StreamRequest(qrpc.Cmd, qrpc.FrameFlag, []byte) (qrpc.StreamWriter, qrpc.Response, error)
}

// kinds of senders
const (
	sendPush = iota
	sendRequest
	sendStream
	nSends
)

// startSender sends two frames of a kind; cmds identify them.
func startSender(r requester, kind int, k int, nb uint8) *sender {
	s := &sender{}
	p := []byte{byte(k), sym.U8("p")}
	if k == 1 {
		p = append(p, 7, 8)
	}
	cmd := uint32(16 * (k + 1))
	s.t = spawnV(func() {
		switch kind {
		case sendPush, sendRequest:
			fl := uint8(0)
			if kind == sendPush {
				fl = fPush
			}
			for j := uint32(0); j < 2; j++ {
				id, _, err := r.Request(qrpc.Cmd(cmd+j), qrpc.FrameFlag(fl), p[j:])
				s.did(err, fr(id, fl|nb, cmd+j, p[j:]))
			}
		case sendStream:
			w, _, err := r.StreamRequest(qrpc.Cmd(cmd), 0, p)
			if err != nil {
				s.did(err, F{})
				s.did(err, F{})
				return
			}
			s.did(err, fr(w.RequestID(), fStream, cmd, p))
			w.StartWrite(qrpc.Cmd(cmd + 1))
			w.WriteBytes(p[1:])
			s.did(w.EndWrite(true), fr(w.RequestID(), fStream|fEnd, cmd+1, p[1:]))
		}
	})
	return s
}

// delivered asserts that the wire holds exactly the frames sent, each once,
// unmodified, in the order of its sender.
func delivered(got []F, ss []*sender, exact bool) {
	n := 0
	for _, s := range ss {
		sym.Assert(s.t.Done() && s.all == 2, "every sender's calls return")
		n += len(s.sent)
		last := -1
		for _, f := range s.sent {
			hits := 0
			for i, g := range got {
				if g.Cmd == f.Cmd {
					hits++
					sym.Assert(same(f, g), "a frame is not modified")
					sym.Assert(i > last, "frames of one sender stay in order")
					last = i
				}
			}
			sym.Assert(hits == 1, "a frame sent appears exactly once")
		}
	}
	if exact {
		sym.Assert(len(got) == n, "nothing else is on the wire")
	}
}

func senders(r requester, n, kinds int, nb uint8) (ss []*sender) {
	for i := 0; i < n; i++ {
		kind := sendPush
		if i < kinds {
			kind = sym.Choose("kind", nSends)
		}
		ss = append(ss, startSender(r, kind, i, nb))
	}
	return
}

func nSenders() int {
	if sym.Thorough() {
		return 2 + sym.Choose("senders", 2)
	}
	return 2
}

// C17Client: concurrent senders of a client connection.
func C17Client() {
	c, fc := newClient(qrpc.ConnectionConfig{WriteFrameChSize: sym.Choose("batch", 4)}, nil)
	fc.Hold = sym.Choose("hold", 2) == 1
	ss := senders(c, nSenders(), 2, 0)
	sym.Quiesce()
	fc.Release()
	sym.Quiesce()
	for _, s := range ss {
		sym.Assert(len(s.sent) == 2, "every send succeeds")
	}
	delivered(frames(fc, "client"), ss, true)
	sym.Reach("client")
}

// C17Server: concurrent senders on a server's connection.
func C17Server() {
	e := newServer(qrpc.ServerBinding{WriteFrameChSize: 1 + sym.Choose("batch", 3), Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})})
	fc := e.dial()
	sym.Quiesce()
	fc.Hold = sym.Choose("hold", 2) == 1
	var ss []*sender
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		ss = senders(ci, nSenders(), 2, fNB)
		return true
	})
	sym.Quiesce()
	fc.Release()
	sym.Quiesce()
	for _, s := range ss {
		sym.Assert(len(s.sent) == 2, "every send succeeds")
	}
	delivered(frames(fc, "server"), ss, true)
	sym.Reach("server")
}

// C17Handlers: concurrently running handlers answer through their writers.
func C17Handlers() {
	side := sym.Choose("side", 2)
	var ss [3]*sender
	hold := make(chan struct{})
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		s := &sender{t: &task{}}
		k := r.Payload[0]
		ss[k] = s
		<-hold
		id := r.RequestID
		w.StartWrite(id, qrpc.Cmd(16*k+16), qrpc.StreamFlag)
		w.WriteBytes(r.Payload)
		s.did(w.EndWrite(), fr(id, fStream, 16*uint32(k)+16, r.Payload))
		w.StartWrite(id, qrpc.Cmd(16*k+17), qrpc.StreamFlag|qrpc.StreamEndFlag)
		w.WriteBytes(r.Payload[1:])
		s.did(w.EndWrite(), fr(id, fStream|fEnd, 16*uint32(k)+17, r.Payload[1:]))
		s.t.mu.Lock()
		s.t.done = true
		s.t.mu.Unlock()
	})
	var fc *fake.Conn
	first := uint64(1)
	batch := 1 + sym.Choose("batch", 2)
	if side == 0 {
		fc = newServer(qrpc.ServerBinding{WriteFrameChSize: batch, Handler: h}).dial()
	} else {
		_, fc = newClient(qrpc.ConnectionConfig{WriteFrameChSize: batch, Handler: h}, nil)
		first = 2
	}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		feed(fc, fr(first+2*uint64(i), fNB, 1, []byte{byte(i), sym.U8("p")}))
	}
	sym.Quiesce()
	close(hold)
	sym.Quiesce()
	for _, s := range ss[:n] {
		sym.Assert(s != nil && len(s.sent) == 2, "every send succeeds")
	}
	delivered(frames(fc, "wire"), ss[:n], true)
	sym.Reach("handlers")
}

// C17Close: the connection ends while senders are active.
func C17Close() {
	side := sym.Choose("side", 2)
	how := sym.Choose("how", 3)
	batch := 1 + sym.Choose("batch", 2)
	var fc *fake.Conn
	var ss []*sender
	closeFn := func() {}
	end := func() {
		switch how {
		case 0:
			fc.EOF()
		case 1:
			fc.Feed([]byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
		case 2:
			closeFn()
		}
	}
	if side == 0 {
		e := newServer(qrpc.ServerBinding{WriteFrameChSize: batch})
		fc = e.dial()
		sym.Quiesce()
		e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			closeFn = func() { ci.Close() }
			spawnV(end)
			ss = senders(ci, 2, 1, fNB)
			return true
		})
	} else {
		c, f := newClient(qrpc.ConnectionConfig{WriteFrameChSize: batch}, nil)
		fc = f
		closeFn = func() { c.Close() }
		spawnV(end)
		ss = senders(c, 2, 1, 0)
	}
	sym.Quiesce()
	delivered(frames(fc, "wire"), ss, false)
	sym.Reach("close")
}

const (
	reuReply = iota
	reuPanic
	reuHalf // panics half way through a frame
	reuReset
	reuStream
	reuAsk
	reuAskStream
	reuPushed
	nReu
)

// C17Reuse: writers that have been used before and are in use at the same time
// do not mix up their frames.
func C17Reuse() {
	gate := make(chan struct{})
	n := 1
	if sym.Thorough() {
		n = 2
	}
	h := func(ask func(r *qrpc.RequestFrame) requester) qrpc.Handler {
		return qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
			switch int(r.Cmd) {
			case reuPanic:
				panic("first")
			case reuHalf:
				w.StartWrite(r.RequestID, 1, 0)
				w.WriteBytes([]byte{1})
				panic("half")
			case reuReset:
				w.ResetFrame(r.RequestID, 1)
				return
			case reuStream:
				w.StartWrite(r.RequestID, 1, qrpc.StreamFlag)
				w.EndWrite()
				w.StartWrite(r.RequestID, 1, qrpc.StreamFlag|qrpc.StreamEndFlag)
				w.EndWrite()
				return
			case reuAsk:
				ask(r).Request(1, qrpc.NBFlag, nil)
			case reuAskStream:
				if sw, _, err := ask(r).StreamRequest(1, qrpc.NBFlag, nil); err == nil {
					sw.StartWrite(1)
					sw.EndWrite(true)
				}
			case reuPushed:
				ask(r).Request(1, qrpc.PushFlag, nil)
			case nReu:
				w.StartWrite(r.RequestID, 77, 0)
				w.WriteBytes(r.Payload)
				<-gate
				w.WriteBytes(r.Payload)
				w.EndWrite()
				return
			}
			w.StartWrite(r.RequestID, 1, 0)
			w.EndWrite()
		})
	}
	var c *fake.Conn
	id := uint64(1)
	if sym.Choose("client", 2) == 1 {
		id = 2
		var con *qrpc.Connection
		con, c = newClient(qrpc.ConnectionConfig{Handler: h(func(*qrpc.RequestFrame) requester { return con })}, nil)
	} else {
		e := newServer(qrpc.ServerBinding{Handler: h(func(r *qrpc.RequestFrame) requester { return r.ConnectionInfo() })})
		c = e.dial()
	}
	for i := 0; i < n; i++ {
		nb := uint8(fNB)
		if id == 1 {
			nb *= uint8(sym.Choose("nb", 2))
		}
		feed(c, fr(id, nb, uint32(sym.Choose("use", nReu)), nil))
		id += 2
		sym.Quiesce()
	}
	p := [2][]byte{sym.BytesN("p", 2), sym.BytesN("q", 1)}
	feed(c, fr(id, fNB, nReu, p[0]), fr(id+2, fNB, nReu, p[1]))
	sym.Quiesce()
	before := len(frames(c, "before"))
	close(gate)
	sym.Quiesce()
	got := frames(c, "after")[before:]
	sym.Assert(len(got) == 2, "both answer")
	for i := range p {
		fs := byID(got, id+2*uint64(i))
		sym.Assert(len(fs) == 1, "each answers its request")
		sym.Assert(same(fs[0], fr(id+2*uint64(i), 0, 77, append(append([]byte{}, p[i]...), p[i]...))), "its answer is its own")
	}
	sym.Reach("reuse")
}

const (
	refGood     = iota
	refNoReset  // resets a request that does not exist
	refNoAnswer // answers one
	refEnded    // writes to a stream it has ended
	refTwice    // resets a request a second time
	nRef
)

// C17Refused: frames that are refused, queued with others behind a stalled
// network, disturb nobody.
func C17Refused() {
	client := sym.Choose("client", 2) == 1
	size := 1 + sym.Choose("batch", 3)
	var r requester
	var fc *fake.Conn
	nb := uint8(0)
	// reset and answer write a frame for any identifier
	var reset func(id uint64) error
	var answer func(id uint64) error
	if client {
		c, f := newClient(qrpc.ConnectionConfig{WriteFrameChSize: size}, nil)
		r, fc = c, f
		reset = func(id uint64) error { return c.ResetFrame(id, 1) }
		answer = func(uint64) error { return c.ResetFrame(2, 1) }
	} else {
		nb = fNB
		e := newServer(qrpc.ServerBinding{WriteFrameChSize: size})
		fc = e.dial()
		sym.Quiesce()
		walk := func(do func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) error) (err error) {
			e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				err = do(w, ci)
				return true
			})
			return
		}
		walk(func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) error { r = ci; return nil })
		reset = func(id uint64) error {
			return walk(func(w qrpc.FrameWriter, _ *qrpc.ConnectionInfo) error { return w.ResetFrame(id, 1) })
		}
		answer = func(id uint64) error {
			return walk(func(w qrpc.FrameWriter, _ *qrpc.ConnectionInfo) error {
				w.StartWrite(id, 1, 0)
				return w.EndWrite()
			})
		}
	}
	sym.Quiesce()
	ended, _, err := r.StreamRequest(1, qrpc.FrameFlag(nb), nil)
	sym.Assert(err == nil, "a stream is opened")
	ended.StartWrite(2)
	sym.Assert(ended.EndWrite(true) == nil, "and ended")
	cancelled, _, err := r.Request(1, qrpc.FrameFlag(nb), nil)
	sym.Assert(err == nil && reset(cancelled) == nil, "a request is cancelled")
	sym.Quiesce()
	before := len(frames(fc, "before"))
	fc.Hold = true
	n := 3
	if sym.Thorough() {
		n = 4
	}
	good, again := 0, 0
	var ts []*task
	var kinds []int
	ts, kinds = append(ts, spawn(func() error {
		_, _, err := r.Request(40, qrpc.FrameFlag(nb), []byte{9})
		return err
	})), append(kinds, refGood)
	for i := 1; i < n; i++ {
		i, k, cmd := i, sym.Choose("kind", nRef), qrpc.Cmd(40+i)
		kinds = append(kinds, k)
		ts = append(ts, spawn(func() error {
			switch k {
			case refNoReset:
				return reset(1001)
			case refNoAnswer:
				return answer(1001)
			case refEnded:
				if i == 1 {
					ended.StartWrite(3)
					return ended.EndWrite(false)
				}
				return reset(1003)
			case refTwice:
				return reset(cancelled)
			}
			_, _, err := r.Request(cmd, qrpc.FrameFlag(nb), []byte{byte(i)})
			return err
		}))
	}
	sym.Quiesce()
	fc.Release()
	sym.Quiesce()
	_, _, err = r.Request(60, qrpc.FrameFlag(nb), nil)
	sym.Assert(err == nil, "the connection goes on")
	seen := make([]int, n)
	last := false
	for _, f := range frames(fc, "sent")[before:] {
		switch {
		case f.Cmd == 60:
			last = true
		case f.Cmd >= 40 && int(f.Cmd) < 40+n:
			seen[f.Cmd-40]++
		default:
			sym.Assert(f.Flags&fRst != 0 && f.ID == cancelled, "nothing that was refused is sent")
			again++
		}
	}
	sym.Assert(last, "the connection goes on sending")
	for i, t := range ts {
		sym.Assert(t.Done(), "every call returns")
		switch kinds[i] {
		case refGood:
			good++
			sym.Assert(t.Err() == nil && seen[i] == 1, "what is not refused is sent once")
		case refTwice:
			again--
		default:
			sym.Assert(t.Err() != nil, "a refused frame fails")
		}
	}
	sym.Assert(again <= 0, "a reset is sent at most as often as asked for")
	sym.Reach("refused")
}
