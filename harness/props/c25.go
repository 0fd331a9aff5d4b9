package props

import (
	"sync"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// network is what a reconnecting client dials.
type network struct {
	mu    sync.Mutex
	addrs []string
	conns []*fake.Conn
	fails int              // bit i: dial i fails
	setup func(*fake.Conn) // prepares a connection before it is handed out
	hold  int              // number of the dial that waits for release
	gate  chan struct{}
}

func newNetwork(fails int) *network {
	return &network{fails: fails, hold: -1, gate: make(chan struct{})}
}

func (n *network) dial(addr string, _ qrpc.DialConfig) (netConn, error) {
	n.mu.Lock()
	k := len(n.addrs)
	n.addrs = append(n.addrs, addr)
	n.mu.Unlock()
	if k == n.hold {
		<-n.gate
	}
	if n.fails>>uint(k)&1 == 1 {
		return nil, fake.ErrRefused
	}
	c := fake.NewConn()
	if n.setup != nil {
		n.setup(c)
	}
	n.mu.Lock()
	n.conns = append(n.conns, c)
	n.mu.Unlock()
	return c, nil
}

func (n *network) dials() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.addrs)
}

// last is the latest connection, if any.
func (n *network) last() *fake.Conn {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.conns) == 0 {
		return nil
	}
	return n.conns[len(n.conns)-1]
}

// up waits until the client has a connection again, which it does within two
// pauses if at most two dials in a row fail.
func (n *network) up() *fake.Conn {
	sym.Quiesce()
	for i := 0; i < 3; i++ {
		if c := n.last(); c != nil && !c.Closed() {
			return c
		}
		time.Sleep(3 * time.Second)
		sym.Quiesce()
	}
	c := n.last()
	sym.Assert(c != nil && !c.Closed(), "the client connects again")
	return c
}

// inTurn asserts that the addresses were dialled in turn.
func (n *network) inTurn(k int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for i := range n.addrs {
		for j := i + 1; j < len(n.addrs) && j < i+k; j++ {
			sym.Assert(n.addrs[i] != n.addrs[j], "addresses are tried in turn")
		}
	}
}

// served asserts that a request is sent on fc and answered.
func served(c *qrpc.Connection, fc *fake.Conn, cmd uint32) {
	before := len(frames(fc, "before"))
	id, r, err := c.Request(qrpc.Cmd(cmd), 0, []byte{1})
	sym.Assert(err == nil, "a request is sent on the new connection")
	fs := frames(fc, "served")
	sym.Assert(len(fs) == before+1 && same(fs[before], fr(id, 0, cmd, []byte{1})), "exactly that request")
	feed(fc, fr(id, 0, cmd+1, []byte{2}))
	f, err := r.GetFrame()
	sym.Assert(err == nil && f.RequestID == id && uint32(f.Cmd) == cmd+1, "the request is answered")
}

// lose ends a connection.
func lose(fc *fake.Conn, how int) {
	switch how {
	case 0:
		fc.EOF()
	case 1:
		fc.FailRead(fake.ErrReset)
	case 2:
		fc.Feed(header(3, fr(1, 0, 0, nil)))
	case 3:
		// a response for nobody, cut in the middle
		fc.Feed(fake.Enc(fr(5, 0, 1, []byte{1, 2}))[:9])
		fc.EOF()
	}
}

// C25Recover: two losses at any point of a session, with failing dials.
func C25Recover() {
	n := newNetwork(sym.Choose("fails", 16))
	var cs []chan struct{}
	conf := qrpc.ConnectionConfig{OverlayNetwork: n.dial, WriteFrameChSize: sym.Choose("batch", 2) * 2}
	conf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		ch := make(chan struct{})
		cs = append(cs, ch)
		<-ch
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})
	c := qrpc.NewConnectionWithReconnect([]string{"a", "b"}, conf, nil)
	for i := 0; i < 2; i++ {
		fc := n.up()
		served(c, fc, 10)
		var r qrpc.Response
		var sw qrpc.StreamWriter
		var t *task
		var err error
		pending := sym.Choose("pending", 5)
		switch pending {
		case 1:
			_, r, err = c.Request(20, 0, nil)
		case 2:
			sw, r, err = c.StreamRequest(20, 0, nil)
		case 3:
			fc.Hold = true
			t = spawn(func() error { _, _, err := c.Request(20, 0, nil); return err })
			if sym.Choose("wait", 2) == 1 {
				sym.Quiesce()
			}
		case 4:
			feed(fc, fr(2, fNB, 7, nil))
			sym.Quiesce()
		}
		sym.Assert(err == nil, "request sent")
		lose(fc, sym.Choose("how", 4))
		fc.Release()
		sym.Quiesce()
		if r != nil {
			w, f := waiter(r, false)
			sym.Quiesce()
			sym.Assert(w.Done() && w.Err() != nil && *f == nil, "an outstanding request fails when the connection is lost")
		}
		if pending == 4 {
			// the client still runs a handler: it finishes
			close(cs[len(cs)-1])
		}
		nc := n.up()
		sym.Assert(nc != fc && fc.Closed(), "the lost connection is closed and another used")
		if t != nil {
			sym.Assert(t.Done(), "a request being sent ends")
		}
		if sw != nil {
			sw.StartWrite(21)
			sym.Assert(sw.EndWrite(true) != nil, "the stream of a lost connection is gone")
		}
		fs := frames(nc, "new connection")
		sym.Assert(len(fs) == 0 || t != nil && t.Err() == nil && len(fs) == 1, "nothing of the old connection is sent on the new one")
	}
	fc := n.up()
	served(c, fc, 30)
	feed(fc, fr(2, fNB, 7, nil))
	sym.Quiesce()
	close(cs[len(cs)-1])
	sym.Quiesce()
	fs := frames(fc, "handler")
	sym.Assert(same(fs[len(fs)-1], fr(2, 0, 1, nil)), "requests of the server are handled on the new connection")
	n.inTurn(2)
	sym.Assert(c.Close() == nil, "closing succeeds")
	w := spawnV(c.Wait)
	settle(w)
	sym.Assert(w.Done() && fc.Closed(), "closing ends the connection")
	_, _, err := c.Request(1, 0, nil)
	sym.Assert(err != nil, "a closed client sends nothing")
	sym.Reach("recover")
}

// C25Close: closing in any state.
func C25Close() {
	state := sym.Choose("state", 6)
	n := newNetwork(0)
	switch state {
	case 3:
		n.fails = 0xfffe
	case 4:
		n.hold = 1
	case 5:
		n.fails = 0xffff
	}
	c := qrpc.NewConnectionWithReconnect([]string{"a", "b"}, qrpc.ConnectionConfig{OverlayNetwork: n.dial, WriteFrameChSize: sym.Choose("batch", 2) * 2}, nil)
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	fc := n.last()
	var r qrpc.Response
	var err error
	switch state {
	case 1:
		_, r, err = c.Request(5, 0, nil)
		sym.Assert(err == nil, "request sent")
	case 2:
		fc.Hold = true
	case 3, 4:
		fc.EOF()
		sym.Quiesce()
		if sym.Choose("later", 2) == 1 {
			time.Sleep(3 * time.Second)
			sym.Quiesce()
		}
	}
	var ts []*task
	request := func() {
		_, r, err := c.Request(6, 0, nil)
		if err == nil {
			_, err = r.GetFrame()
		}
		sym.Assert(err != nil, "a call fails when the client is closed")
	}
	ts = append(ts, spawnV(request))
	switch sym.Choose("other", 3) {
	case 0:
		ts = append(ts, spawnV(func() { c.ResetFrame(3, 0) }))
	case 1:
		ts = append(ts, spawnV(func() { c.StreamRequest(7, 0, nil) }))
	}
	if sym.Choose("first", 2) == 1 {
		sym.Quiesce()
	}
	n1, n2 := 0, 0
	cl := spawn(func() error {
		err := c.Close()
		n1 = n.dials()
		return err
	})
	ts = append(ts, cl, spawnV(c.Wait))
	sym.Quiesce()
	n2 = n.dials()
	sym.Assert(n2 <= n1+1, "at most a dial under way ends after closing")
	if state == 4 {
		close(n.gate)
		sym.Quiesce()
	}
	ts = append(ts, spawnV(request))
	settle(ts...)
	time.Sleep(9 * time.Second)
	sym.Quiesce()
	for _, t := range ts {
		sym.Assert(t.Done(), "every call returns once the client is closed")
	}
	sym.Assert(cl.Err() == nil, "closing succeeds")
	if r != nil {
		w, _ := waiter(r, false)
		sym.Quiesce()
		sym.Assert(w.Done() && w.Err() != nil, "an outstanding request fails")
	}
	sym.Assert(n.dials() == n2, "a closed client does not dial")
	for _, c := range n.conns {
		sym.Assert(c.Closed(), "its connections are closed")
	}
	if sym.Symbolic() {
		sym.Assert(sym.Live() == 0, "no goroutine is left behind")
	}
	sym.Reach("close")
}

// C25Race: requests while the connection is lost and replaced.
func C25Race() {
	n := newNetwork(0)
	n.setup = func(c *fake.Conn) {
		c.OnWrite = func(b []byte) (int, error) {
			fs, ok := fake.Dec(b)
			sym.Assert(ok, "whole frames")
			go func() {
				for _, f := range fs {
					feed(c, fr(f.ID, 0, f.Cmd+100, nil))
				}
			}()
			return len(b), nil
		}
	}
	c := qrpc.NewConnectionWithReconnect([]string{"a", "b"}, qrpc.ConnectionConfig{OverlayNetwork: n.dial, WriteFrameChSize: sym.Choose("batch", 3)}, nil)
	sym.Quiesce()
	fc := n.last()
	var ts []*task
	k := 1 + sym.Choose("callers", 2)
	for i := 0; i < k; i++ {
		cmd := uint32(i + 1)
		ts = append(ts, spawnV(func() {
			id, r, err := c.Request(qrpc.Cmd(cmd), 0, nil)
			if err != nil {
				return
			}
			f, err := r.GetFrame()
			sym.Assert(err != nil || f.RequestID == id && uint32(f.Cmd) == cmd+100, "a call fails or gets its own response")
		}))
	}
	closing := false
	switch sym.Choose("how", 3) {
	case 0:
		fc.EOF()
	case 1:
		fc.FailRead(fake.ErrReset)
	case 2:
		fc.EOF()
		closing = true
		ts = append(ts, spawn(c.Close))
	}
	sym.Quiesce()
	if closing {
		settle(append(ts, spawnV(c.Wait))...)
	}
	for _, t := range ts {
		sym.Assert(t.Done(), "every call returns")
	}
	if closing {
		for _, c := range n.conns {
			sym.Assert(c.Closed(), "connections are closed")
		}
		sym.Reach("closed")
		return
	}
	nc := n.last()
	sym.Assert(nc != fc && !nc.Closed() && n.dials() == 2, "the client has connected again")
	id, r, err := c.Request(9, 0, nil)
	sym.Assert(err == nil, "a request is sent on the new connection")
	f, err := r.GetFrame()
	sym.Assert(err == nil && f.RequestID == id && f.Cmd == 109, "it is answered")
	sym.Reach("recovered")
}

// C25OnConnect: a callback that makes a request as soon as the client connects,
// with the connection lost meanwhile.
func C25OnConnect() {
	n := newNetwork(0)
	conf := qrpc.ConnectionConfig{OverlayNetwork: n.dial}
	calls, ok := 0, 0
	how := sym.Choose("how", 4)
	conf.LifecycleCallbacks.OnConnect = func(c *qrpc.Connection) {
		calls++
		fc := n.last()
		id, r, err := c.Request(5, 0, nil)
		if err != nil {
			return
		}
		if calls > 1 {
			feed(fc, fr(id, 0, 6, nil))
		}
		if _, err = r.GetFrame(); err == nil {
			ok++
		}
	}
	c := qrpc.NewConnectionWithReconnect([]string{"a", "b"}, conf, nil)
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	lose(n.last(), how)
	nc := n.up()
	sym.Quiesce()
	sym.Assert(calls == 2 && ok == 1 && n.dials() == 2, "the client connects again although its callback was waiting")
	served(c, nc, 10)
	c.Close()
	w := spawnV(c.Wait)
	settle(w)
	sym.Assert(w.Done(), "closing completes")
	sym.Reach("onconnect")
}

// C25Stale: a handler that outlives its connection answers late, while a request
// with the same identifier may be in progress on the next connection.
func C25Stale() {
	n := newNetwork(0)
	holds := []chan struct{}{make(chan struct{}), make(chan struct{})}
	calls := 0
	conf := qrpc.ConnectionConfig{OverlayNetwork: n.dial, WriteFrameChSize: sym.Choose("batch", 2) * 2}
	how := sym.Choose("answer", 3)
	conf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		i := calls
		calls++
		<-holds[i]
		if i == 0 {
			switch how {
			case 1:
				w.ResetFrame(r.RequestID, 3)
				return
			case 2:
				panic("late")
			}
		}
		w.StartWrite(r.RequestID, 1, 0)
		w.WriteBytes([]byte{byte(i)})
		w.EndWrite()
	})
	c := qrpc.NewConnectionWithReconnect([]string{"a"}, conf, nil)
	fc := n.up()
	id := 2 * sym.U64("id")
	feed(fc, fr(id, fNB|uint8(sym.Choose("stream", 2))*fStream, 7, nil))
	sym.Quiesce()
	sym.Assert(calls == 1, "the request is handled")
	lose(fc, sym.Choose("how", 2))
	sym.Quiesce()
	if sym.Choose("later", 2) == 1 {
		time.Sleep(3 * time.Second)
		sym.Quiesce()
	}
	req := fr(id, fNB, 8, nil)
	early := n.last() != fc
	if early {
		feed(n.last(), req)
		sym.Quiesce()
	}
	close(holds[0])
	nc := n.up()
	sym.Assert(nc != fc, "the client connects again")
	sym.Assert(len(frames(nc, "late")) == 0, "nothing of the old connection is sent on the new one")
	if !early {
		feed(nc, req)
		sym.Quiesce()
	}
	sym.Assert(calls == 2, "the request on the new connection is handled")
	close(holds[1])
	sym.Quiesce()
	expect(nc, "answer", fr(id, 0, 1, []byte{1}))
	sym.Assert(c.Close() == nil, "closing succeeds")
	sym.Reach("stale")
}
