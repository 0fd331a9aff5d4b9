package props

import (
	"context"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

// msg is a message that encodes itself.
type msg struct{ b []byte }

func (m *msg) Marshal() ([]byte, error) { return m.b, nil }

func (m *msg) Unmarshal(b []byte) error {
	m.b = append([]byte{}, b...)
	return nil
}

// letter is a message with its command.
type letter struct {
	cmd uint32
	b   []byte
}

func letters(name string, max int) (ls []letter) {
	n := sym.Choose(name+".n", max+1)
	for i := 0; i < n; i++ {
		ls = append(ls, letter{uint32(sym.U16(name + ".c")), sym.Bytes(name+".m", 1)})
	}
	return
}

const (
	markLast  = iota // the last message is marked as end
	endAfter         // the sender is ended explicitly
	markEarly        // a message before the last one is marked
	nChanEnds
)

// sendAll sends messages and ends; it returns how many are to be received.
func sendAll(s channel.Sender, ls []letter, how int) int {
	ctx := context.Background()
	sent := 0
	ended := false
	for i, m := range ls {
		end := how == markLast && i == len(ls)-1 || how == markEarly && i == len(ls)-2
		err := s.Send(ctx, qrpc.Cmd(m.cmd), &msg{m.b}, end)
		sym.Assert((err == nil) == !ended, "sending works until the sender has ended")
		if err == nil {
			sent++
		}
		ended = ended || end
	}
	if !ended {
		s.End()
	}
	err := s.Send(ctx, 1, &msg{}, sym.Choose("again", 2) == 1)
	sym.Assert(err != nil, "sending on an ended sender fails")
	return sent
}

// receiveAll receives until the stream is finished.
func receiveAll(r channel.Receiver, withCmd bool) (ls []letter, err error) {
	ctx := context.Background()
	for {
		var m msg
		var cmd qrpc.Cmd
		if withCmd {
			err = r.Receive(ctx, &cmd, &m)
		} else {
			err = r.Receive(ctx, nil, &m)
		}
		if err != nil {
			return
		}
		ls = append(ls, letter{uint32(cmd), m.b})
		sym.Assert(len(ls) < 9, "no message is received over and over")
	}
}

// delivers asserts that got are the first n of sent.
func delivers(sent []letter, n int, got []letter, err error, withCmd bool) {
	sym.Assert(len(got) == n, "every message is received once")
	for i := range got {
		sym.Assert(sym.EqBytes(got[i].b, sent[i].b), "content and order are kept")
		sym.Assert(!withCmd || got[i].cmd == sent[i].cmd, "the command is kept")
	}
	if n > 0 {
		sym.Assert(err == channel.ErrStreamFinished, "the end of the stream is reported")
	} else {
		sym.Assert(err != nil, "nothing is received")
	}
}

// side is what one end of a pipe does.
type side struct {
	out     []letter
	how     int
	withCmd bool
	both    bool // send while receiving
	first   bool // send before receiving
	n       int
	got     []letter
	err     error
	again   error
}

func newSide(name string) *side {
	return &side{out: letters(name, 2), how: sym.Choose(name+".end", nChanEnds), withCmd: sym.Choose(name+".cmd", 2) == 1}
}

func (d *side) run(s channel.Sender, r channel.Receiver) {
	receive := func() {
		d.got, d.err = receiveAll(r, d.withCmd)
		var m msg
		d.again = r.Receive(context.Background(), nil, &m)
	}
	if d.first {
		d.n = sendAll(s, d.out, d.how)
		receive()
		return
	}
	receive()
	d.n = sendAll(s, d.out, d.how)
}

// C27Pipe: messages in both directions over a pipe opened by either side.
func C27Pipe() {
	a, b := newSide("a"), newSide("b")
	sym.Assume(len(a.out) > 0)
	// the opener sends first, the other one before or after it has received everything
	a.first = true
	b.first = sym.Choose("b.first", 2) == 1
	var ta, tb *task
	answer := channel.HandlerFunc(func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		if tb != nil {
			sym.Assert(false, "one pipe, one handler")
		}
		tb = &task{}
		b.run(s, r)
		tb.mu.Lock()
		tb.done = true
		tb.mu.Unlock()
	})
	open := func(t channel.Transport) {
		s, r, err := t.Pipe()
		sym.Assert(err == nil, "pipe opened")
		ta = spawnV(func() { a.run(s, r) })
	}
	fromServer := sym.Choose("from", 2) == 1
	var sb qrpc.ServerBinding
	var conf qrpc.ConnectionConfig
	gate := make(chan struct{})
	if fromServer {
		sb.Handler = channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, r channel.Receiver, t channel.Transport) {
			open(t)
			<-gate
		}))
		conf.Handler = channel.NewQRPCHandler(answer)
	} else {
		sb.Handler = channel.NewQRPCHandler(answer)
	}
	e := newServer(sb)
	ca, cb := fake.Pipe()
	conf.OverlayNetwork = dialer(ca)
	e.lns[0].Dial(cb)
	c, err := qrpc.NewConnection("fake", conf, nil)
	sym.Assert(err == nil, "connected")
	if fromServer {
		c.Request(1, fNB, nil)
	} else {
		open(channel.NewTransport(c))
	}
	sym.Quiesce()
	sym.Assert(ta != nil && ta.Done() && tb != nil && tb.Done(), "both sides finish")
	delivers(a.out, a.n, b.got, b.err, b.withCmd)
	delivers(b.out, b.n, a.got, a.err, a.withCmd)
	sym.Assert(a.again != nil && b.again != nil && (a.n == 0 || b.again == channel.ErrStreamFinished) && (b.n == 0 || a.again == channel.ErrStreamFinished), "the end stays")
	close(gate)
	c.Close()
	sym.Quiesce()
	_, _, err = channel.NewTransport(c).Pipe()
	sym.Assert(err == channel.ErrClientAlreadyClosed, "no pipe on a closed connection")
	sym.Reach("pipe")
}

// C27Early: the stream is not finished before it ends, and a receiver may give
// up waiting without losing anything.
func C27Early() {
	ls := letters("a", 2)
	sym.Assume(len(ls) > 0)
	var s channel.Sender
	var got []letter
	var res error
	var r0 channel.Receiver
	e := newServer(qrpc.ServerBinding{Handler: channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		if sym.Choose("giveup", 2) == 1 {
			var m msg
			sym.Assert(r.Receive(context.Background(), nil, &m) == nil, "first message received")
			got = append(got, letter{0, m.b})
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			if err := r.Receive(ctx, nil, &m); err == nil {
				got = append(got, letter{0, m.b})
			} else {
				sym.Assert(err == context.Canceled, "giving up is reported")
			}
		}
		r0 = r
		g, err := receiveAll(r, false)
		got, res = append(got, g...), err
	}))})
	ca, cb := fake.Pipe()
	e.lns[0].Dial(cb)
	c, err := qrpc.NewConnection("fake", qrpc.ConnectionConfig{OverlayNetwork: dialer(ca)}, nil)
	sym.Assert(err == nil, "connected")
	s, _, err = channel.NewTransport(c).Pipe()
	sym.Assert(err == nil, "pipe opened")
	t := spawnV(func() {
		for _, l := range ls {
			sym.Assert(s.Send(context.Background(), qrpc.Cmd(l.cmd), &msg{l.b}, false) == nil, "sent")
		}
	})
	sym.Quiesce()
	sym.Assert(t.Done() && r0 != nil && res == nil, "the stream goes on until it is ended")
	switch sym.Choose("end", 2) {
	case 0:
		sym.Assert(s.End() == nil, "ended")
	case 1:
		ls = append(ls, letter{0, []byte{9}})
		sym.Assert(s.Send(context.Background(), 1, &msg{[]byte{9}}, true) == nil, "ended")
	}
	sym.Quiesce()
	delivers(ls, len(ls), got, res, false)
	sym.Reach("early")
}

func C27Empty() {
	server := sym.Choose("server", 2) == 1
	var s channel.Sender
	var r channel.Receiver
	handled := 0
	gate := make(chan struct{})
	e := newServer(qrpc.ServerBinding{Handler: channel.NewQRPCHandler(channel.HandlerFunc(func(hs channel.Sender, hr channel.Receiver, t channel.Transport) {
		handled++
		if server {
			var m msg
			sym.Assert(hr.Receive(context.Background(), nil, &m) == nil, "first message received")
			s = hs
			<-gate
		}
	}))})
	ca, cb := fake.Pipe()
	e.lns[0].Dial(cb)
	c, err := qrpc.NewConnection("fake", qrpc.ConnectionConfig{OverlayNetwork: dialer(ca)}, nil)
	sym.Assert(err == nil, "connected")
	cs, cr, err := channel.NewTransport(c).Pipe()
	sym.Assert(err == nil, "pipe opened")
	if server {
		sym.Assert(cs.Send(context.Background(), 7, &msg{[]byte{1}}, sym.Choose("end", 2) == 1) == nil, "sent")
		r = cr
		sym.Quiesce()
	} else {
		s, r = cs, cr
	}
	s.End()
	sym.Quiesce()
	n := len(ca.Out()) + len(cb.Out())
	for i := 0; i < 2; i++ {
		err := s.Send(context.Background(), qrpc.Cmd(sym.U16("c")), &msg{sym.Bytes("m", 1)}, sym.Choose("again", 2) == 1)
		sym.Assert(err != nil, "sending on an ended sender fails")
	}
	sym.Quiesce()
	sym.Assert(len(ca.Out())+len(cb.Out()) == n, "an ended sender sends nothing")
	var m msg
	sym.Assert(r.Receive(context.Background(), nil, &m) != nil, "nothing is received from an ended sender")
	close(gate)
	sym.Quiesce()
	sym.Assert(server == (handled == 1), "a pipe without messages is not handled")
	sym.Reach("empty")
}

// C27GiveUp: a receiver on either side gives up waiting before any of the
// messages, with a context that is over or ends while it waits, and receives
// everything later.
func C27GiveUp() {
	ls := []letter{{3, []byte{sym.U8("x")}}, {4, []byte{sym.U8("y")}}}[:1+sym.Choose("n", 2)]
	server := sym.Choose("receiver", 2) == 1
	at := sym.Choose("at", 3)
	waiting := sym.Choose("waiting", 2) == 1
	var got []letter
	var res error
	var cancel context.CancelFunc
	var t *task
	receive := func(r channel.Receiver) {
		for i := 0; i < at; i++ {
			var m msg
			if r.Receive(context.Background(), nil, &m) != nil {
				break
			}
			got = append(got, letter{0, m.b})
		}
		var ctx context.Context
		ctx, cancel = context.WithCancel(context.Background())
		if !waiting {
			cancel()
		}
		var m msg
		if err := r.Receive(ctx, nil, &m); err == nil {
			got = append(got, letter{0, m.b})
		} else {
			sym.Assert(err == context.Canceled || at > 0 && err == channel.ErrStreamFinished, "giving up is reported")
		}
		g, err := receiveAll(r, false)
		got, res = append(got, g...), err
	}
	hold := make(chan struct{})
	e := newServer(qrpc.ServerBinding{Handler: channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, r channel.Receiver, _ channel.Transport) {
		if server {
			t = &task{}
			receive(r)
			t.mu.Lock()
			t.done = true
			t.mu.Unlock()
			return
		}
		<-hold
		for i, l := range ls {
			sym.Assert(s.Send(context.Background(), qrpc.Cmd(l.cmd), &msg{l.b}, i == len(ls)-1) == nil, "sent")
		}
	}))})
	ca, cb := fake.Pipe()
	e.lns[0].Dial(cb)
	c, err := qrpc.NewConnection("fake", qrpc.ConnectionConfig{OverlayNetwork: dialer(ca)}, nil)
	sym.Assert(err == nil, "connected")
	s, r, err := channel.NewTransport(c).Pipe()
	sym.Assert(err == nil, "pipe opened")
	if server {
		sym.Assert(s.Send(context.Background(), qrpc.Cmd(ls[0].cmd), &msg{ls[0].b}, len(ls) == 1) == nil, "sent")
	} else {
		sym.Assert(s.Send(context.Background(), 1, &msg{}, true) == nil, "sent")
		t = spawnV(func() { receive(r) })
	}
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
		if cancel != nil {
			cancel()
			sym.Quiesce()
		}
	}
	close(hold)
	if server && len(ls) == 2 {
		sym.Assert(s.Send(context.Background(), qrpc.Cmd(ls[1].cmd), &msg{ls[1].b}, true) == nil, "sent")
	}
	sym.Quiesce()
	sym.Assert(t != nil && t.Done(), "receiving ends")
	delivers(ls, len(ls), got, res, false)
	c.Close()
	sym.Reach("giveup")
}
