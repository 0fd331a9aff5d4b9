package props

import (
	"context"
	"sync"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// endpoint is one of the servers of an API. It answers every request with its
// own number unless it is mute.
type endpoint struct {
	mu    sync.Mutex
	id    byte
	down  bool // refuses connections
	mute  bool
	dials int
	calls int
	conns []*fake.Conn
	owed  []func() // what it did not answer while mute
}

type endpoints []*endpoint

func newEndpoints(n int) (es endpoints, names []string) {
	for i := 0; i < n; i++ {
		es = append(es, &endpoint{id: byte(i)})
		names = append(names, string(rune('a'+i)))
	}
	return
}

func (es endpoints) dial(addr string, _ qrpc.DialConfig) (netConn, error) {
	e := es[addr[0]-'a']
	e.mu.Lock()
	defer e.mu.Unlock()
	e.dials++
	if e.down {
		return nil, fake.ErrRefused
	}
	c := fake.NewConn()
	c.OnWrite = func(b []byte) (int, error) {
		fs, ok := fake.Dec(b)
		sym.Assert(ok, "whole frames")
		e.mu.Lock()
		e.calls += len(fs)
		mute := e.mute
		answer := func() {
			for _, f := range fs {
				feed(c, fr(f.ID, 0, f.Cmd+1, []byte{e.id, f.Payload[0]}))
			}
		}
		if mute {
			e.owed = append(e.owed, answer)
		}
		e.mu.Unlock()
		if !mute {
			go answer()
		}
		return len(b), nil
	}
	e.conns = append(e.conns, c)
	return c, nil
}

// lose ends all connections of an endpoint, which refuses further ones.
func (e *endpoint) lose(refuse bool) {
	e.mu.Lock()
	e.down = refuse
	cs := e.conns
	e.mu.Unlock()
	for _, c := range cs {
		c.EOF()
	}
}

func (es endpoints) total() (dials, calls int) {
	for _, e := range es {
		e.mu.Lock()
		dials += e.dials
		calls += e.calls
		e.mu.Unlock()
	}
	return
}

// answer asserts that f answers a call with payload p, and returns who did.
func answer(f *qrpc.Frame, err error, p byte) int {
	sym.Assert(err == nil && f != nil, "the call succeeds")
	sym.Assert(len(f.Payload) == 2 && f.Payload[1] == p, "it gets its own response")
	return int(f.Payload[0])
}

// C26Weights: which endpoint is picked, for small weights and every draw.
func C26Weights() {
	n := 1 + sym.Choose("endpoints", 3)
	var weights []int
	total := 0
	if sym.Choose("weighted", 2) == 1 {
		for i := 0; i < n; i++ {
			w := sym.Choose("weight", 4)
			weights = append(weights, w)
			total += w
		}
		sym.Assume(total > 0)
	} else {
		total = n
	}
	es, names := newEndpoints(n)
	api := qrpc.NewAPI(names, qrpc.ConnectionConfig{OverlayNetwork: es.dial}, weights)
	rounds := 1
	if !sym.Symbolic() {
		rounds = 500
	}
	for i := 0; i < total*rounds; i++ {
		sym.Draw(i)
		f, err := api.Call(context.Background(), 1, []byte{7})
		answer(f, err, 7)
	}
	for i, e := range es {
		w := rounds
		if weights != nil {
			w = weights[i] * rounds
		}
		d := e.calls - w
		sym.Assert(d == 0 || w != 0 && rounds > 1 && d < rounds/3 && -d < rounds/3, "an endpoint is picked for as many draws as its weight")
	}
	sym.Reach("weights")
}

// C26Zero: an endpoint of weight zero is never picked, for any weights and draw.
func C26Zero() {
	es, names := newEndpoints(3)
	var weights []int
	total := 0
	for i := 0; i < 3; i++ {
		w := int(sym.U32("weight"))
		weights = append(weights, w)
		total += w
	}
	sym.Assume(total > 0)
	api := qrpc.NewAPI(names, qrpc.ConnectionConfig{OverlayNetwork: es.dial}, weights)
	f, err := api.Call(context.Background(), 1, []byte{7})
	i := answer(f, err, 7)
	sym.Assert(weights[i] > 0, "an endpoint of weight zero is never picked")
	sym.Reach("zero")
}

// C26Failover: calls of all kinds with any endpoints unreachable or lost.
func C26Failover() {
	es, names := newEndpoints(3)
	for _, e := range es {
		e.down = sym.Choose("down", 2) == 1
	}
	api := qrpc.NewAPI(names, qrpc.ConnectionConfig{OverlayNetwork: es.dial}, nil)
	sym.Quiesce()
	alive := 0 // connected
	for _, e := range es {
		then := sym.Choose("then", 4)
		if !e.down && then%3 == 0 {
			alive++
		}
		switch then {
		case 1:
			e.lose(true)
		case 2:
			e.lose(false)
		case 3:
			e.down = false
		}
	}
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	switch sym.Choose("call", 4) {
	case 0:
		k := sym.Choose("draw", 3)
		sym.Draw(k)
		f, err := api.Call(ctx, 1, []byte{7})
		if err == nil {
			i := answer(f, err, 7)
			sym.Assert(!es[i].down, "an unreachable endpoint does not answer")
		}
		sym.Assert(err == nil || alive == 0, "a call succeeds if any endpoint is connected")
		sym.Assert(err == nil || !sym.Symbolic() || es[k].down, "a call succeeds if the picked endpoint is reachable")
		sym.Reach("call")
	case 1:
		k := sym.Choose("one", 3)
		f, err := api.CallOne(ctx, names[k], 1, []byte{7})
		sym.Assert((err != nil) == es[k].down || len(es[k].conns) > 0 && !es[k].down, "a call to an endpoint fails if it is unreachable")
		if err == nil {
			sym.Assert(answer(f, err, 7) == k, "a call to an endpoint goes there")
		}
		for i, e := range es {
			sym.Assert(i == k || e.calls == 0, "and nowhere else")
		}
		sym.Reach("one")
	case 2:
		res := api.CallAll(ctx, 1, []byte{7})
		sym.Assert(len(res) == 3, "one result per endpoint")
		for i, n := range names {
			r := res[n]
			sym.Assert(r != nil && (r.Err == nil) == (r.Frame != nil), "a result for every endpoint")
			if r.Err == nil {
				sym.Assert(answer(r.Frame, r.Err, 7) == i, "by that endpoint")
			} else {
				sym.Assert(es[i].down || len(es[i].conns) > 0, "a reachable endpoint answers")
			}
			sym.Assert(es[i].calls <= 2, "not called over and over")
		}
		sym.Reach("all")
	case 3:
		_, err := api.CallOne(ctx, "z", 1, []byte{7})
		sym.Assert(err == qrpc.ErrEndPointNotExists, "an unknown endpoint is reported")
		_, calls := es.total()
		sym.Assert(calls == 0, "and nothing is sent")
		sym.Reach("unknown")
	}
}

// C26Close: closing while calls run, and calls afterwards.
func C26Close() {
	es, names := newEndpoints(2)
	es[1].down = sym.Choose("down", 2) == 1
	mute := sym.Choose("mute", 2) == 1
	es[0].mute = mute
	conf := qrpc.ConnectionConfig{OverlayNetwork: es.dial}
	api := qrpc.NewAPI(names, conf, []int{1, 1})
	if sym.Choose("lost", 2) == 1 {
		sym.Quiesce()
		es[1].lose(false)
	}
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	ctx := context.Background()
	call := func(kind int) {
		switch kind {
		case 0:
			sym.Draw(0)
			api.Call(ctx, 1, []byte{7})
		case 1:
			sym.Draw(1)
			api.Call(ctx, 1, []byte{7})
		case 2:
			api.CallOne(ctx, names[1], 1, []byte{7})
		case 3:
			api.CallAll(ctx, 1, []byte{7})
		}
	}
	var ts []*task
	n := 1 + sym.Choose("calls", 2)
	for i := 0; i < n; i++ {
		k := sym.Choose("kind", 4)
		ts = append(ts, spawnV(func() { call(k) }))
	}
	if sym.Choose("first", 2) == 1 {
		sym.Quiesce()
	}
	dials, calls := 0, 0
	cl := spawn(func() error {
		err := api.Close()
		dials, _ = es.total()
		return err
	})
	sym.Quiesce()
	for _, t := range append(ts, cl) {
		sym.Assert(t.Done(), "calls return once the client is closed")
	}
	sym.Assert(cl.Err() == nil && api.Close() == qrpc.ErrClosed, "it is closed once")
	for _, e := range es {
		e.mu.Lock()
		e.mute, e.down = false, false
		e.mu.Unlock()
		for _, c := range e.conns {
			sym.Assert(c.Closed(), "all connections are closed")
		}
	}
	_, calls = es.total()
	for _, name := range names {
		_, err := api.CallOne(ctx, name, 1, []byte{7})
		sym.Assert(err != nil, "a closed client answers no call")
	}
	_, err := api.Call(ctx, 1, []byte{7})
	sym.Assert(err != nil, "a closed client answers no call")
	for _, r := range api.CallAll(ctx, 1, []byte{7}) {
		sym.Assert(r.Err != nil, "a closed client answers no call")
	}
	sym.Quiesce()
	d, k := es.total()
	sym.Assert(d == dials, "a closed client opens no connection")
	sym.Assert(k == calls, "a closed client sends nothing")
	if sym.Symbolic() {
		sym.Assert(sym.Live() == 0, "no goroutine is left behind")
	}
	sym.Reach("close")
}

// C26Reuse: calls made together around the loss of an endpoint's connection
// share one new connection.
func C26Reuse() {
	es, names := newEndpoints(2)
	api := qrpc.NewAPI(names, qrpc.ConnectionConfig{OverlayNetwork: es.dial}, nil)
	sym.Quiesce()
	es[1].lose(false)
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	}
	sym.Draw(1)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	var ts []*task
	for i := 0; i < 2; i++ {
		how := sym.Choose("how", 3)
		ts = append(ts, spawnV(func() {
			switch how {
			case 0:
				api.Call(ctx, 1, []byte{7})
			case 1:
				api.CallOne(ctx, names[1], 1, []byte{7})
			default:
				api.CallAll(ctx, 1, []byte{7})
			}
		}))
	}
	sym.Quiesce()
	for _, t := range ts {
		sym.Assert(t.Done(), "the calls return")
	}
	f, err := api.CallOne(ctx, names[1], 1, []byte{8})
	sym.Assert(answer(f, err, 8) == 1, "a call to an endpoint goes there")
	f, err = api.CallOne(ctx, names[0], 1, []byte{8})
	sym.Assert(answer(f, err, 8) == 0, "a call to an endpoint goes there")
	sym.Quiesce()
	for _, e := range es {
		live := 0
		for _, c := range e.conns {
			if !c.Closed() {
				live++
			}
		}
		sym.Assert(live == 1, "an endpoint has one connection")
	}
	sym.Assert(es[0].dials == 1 && es[1].dials == 2, "an endpoint is dialed again only after losing its connection")
	api.Close()
	sym.Quiesce()
	for _, e := range es {
		for _, c := range e.conns {
			sym.Assert(c.Closed(), "all connections are closed")
		}
	}
	sym.Reach("reuse")
}
