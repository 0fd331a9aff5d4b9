package props

import (
	"context"
	"errors"
	"sync"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/codegen"
	"github.com/zhiqiangxu/qrpc/codegen/pb"
)

const (
	rpcCmd = 70
	errCmd = 71
)

// ran is one run of a callback.
type ran struct {
	where, which int
	params       []byte
}

type service struct {
	mu   sync.Mutex
	runs []ran
	quit bool // the caller may have given up
}

var methods = [][2]string{{"", "m"}, {"n", "m"}, {"n", "o"}, {"nm", ""}}

// newService has the four methods; each runs outcome.
func (s *service) callbacks(where int, outcome func(which int, p []byte) ([]byte, error)) map[string]codegen.MethodCall {
	cbs := make(map[string]codegen.MethodCall)
	for i, m := range methods {
		i := i
		cbs[codegen.FQMethod(m[0], m[1])] = func(ctx context.Context, p []byte) ([]byte, error) {
			sym.Assert(ctx != nil && (s.quit || ctx.Err() == nil), "the callback has a live context")
			s.mu.Lock()
			s.runs = append(s.runs, ran{where, i, append([]byte{}, p...)})
			s.mu.Unlock()
			return outcome(i, p)
		}
	}
	return cbs
}

func (s *service) mux(where int, outcome func(which int, p []byte) ([]byte, error)) *qrpc.ServeMux {
	mux := qrpc.NewServeMux()
	mux.Handle(rpcCmd, codegen.NewServiceHandler(errCmd, s.callbacks(where, outcome)))
	return mux
}

func name(s string, n int) string {
	b := sym.Bytes(s, n)
	for _, c := range b {
		sym.Assume(c != ':')
	}
	return string(b)
}

func which(ns, method string) int {
	for i, m := range methods {
		if sym.And(sym.EqBytes([]byte(ns), []byte(m[0])), sym.EqBytes([]byte(method), []byte(m[1]))) {
			return i
		}
	}
	return -1
}

// C30Serve: any call to a served service, and the response on the wire.
func C30Serve() {
	var s service
	outs := [][]byte{sym.Bytes("out0", 2), sym.Bytes("out1", 1)}
	fails := []bool{sym.Choose("fail0", 2) == 1, sym.Choose("fail1", 2) == 1}
	n := 0
	var mu sync.Mutex
	e := newServer(qrpc.ServerBinding{Handler: s.mux(0, func(_ int, p []byte) ([]byte, error) {
		mu.Lock()
		i := n
		n++
		mu.Unlock()
		if fails[i] {
			return outs[i], errors.New("bad" + string(outs[i]))
		}
		return outs[i], nil
	})})
	calls := 1 + sym.Choose("calls", 2)
	fc := e.dial()
	for k := 0; k < calls; k++ {
		before, had := len(fc.Out()), len(s.runs)
		bad := sym.Choose("bad", 2) == 1
		ns, method, params := "n", "o", sym.Bytes("params", 1)
		if k == 0 {
			ns, method = name("ns", 2), name("method", 1)
		}
		m := pb.RpcRequest{NS: ns, Method: method, Params: params}
		b, err := m.Marshal()
		sym.Assert(err == nil, "encodes")
		if bad {
			b = append(b, 0x80)
		}
		id := sym.U64("id")
		flags := uint8(sym.Choose("nb", 2)) * fNB
		feed(fc, fr(id, flags, rpcCmd, b))
		sym.Quiesce()
		fs, ok := fake.Dec(fc.Out()[before:])
		sym.Assert(ok && len(fs) == 1 && fs[0].ID == id, "a call gets one response")
		w := which(ns, method)
		if bad || w < 0 {
			sym.Assert(len(s.runs) == had, "nothing runs")
			sym.Assert(fs[0].Cmd == errCmd && len(fs[0].Payload) > 0, "and the caller is told")
			sym.Reach("refused")
			fc = e.dial()
			continue
		}
		sym.Assert(len(s.runs) == had+1 && s.runs[had].which == w && sym.EqBytes(s.runs[had].params, params), "exactly the named method runs with the parameters")
		if fails[had] {
			sym.Assert(fs[0].Cmd == errCmd && sym.EqBytes(fs[0].Payload, append([]byte("bad"), outs[had]...)), "its error text is returned")
			sym.Reach("failed")
			fc = e.dial()
			continue
		}
		sym.Assert(fs[0].Cmd == rpcCmd && sym.EqBytes(fs[0].Payload, outs[had]), "its result is returned")
		sym.Reach("served")
	}
}

// C30Call: a client of one to three servers, some of which refuse.
func C30Call() {
	var s service
	n := 1 + sym.Choose("servers", 3)
	out, fail := sym.Bytes("out", 2), sym.Choose("fail", 2) == 1
	var names []string
	var mu sync.Mutex
	down, conns := make([]bool, n), make([]*fake.Conn, n)
	var es []*srvEnv
	up := 0
	for i := 0; i < n; i++ {
		names = append(names, string(rune('a'+i)))
		es = append(es, newServer(qrpc.ServerBinding{Handler: s.mux(i, func(_ int, p []byte) ([]byte, error) {
			if fail {
				return nil, errors.New("bad" + string(out))
			}
			return out, nil
		})}))
		down[i] = sym.Choose("down", 2) == 1
		if !down[i] {
			up++
		}
	}
	dial := func(addr string, _ qrpc.DialConfig) (netConn, error) {
		mu.Lock()
		defer mu.Unlock()
		i := int(addr[0] - 'a')
		if down[i] {
			return nil, fake.ErrRefused
		}
		a, b := fake.Pipe()
		es[i].lns[0].Dial(b)
		conns[i] = a
		return a, nil
	}
	c := codegen.NewClient(rpcCmd, errCmd, names, qrpc.ConnectionConfig{OverlayNetwork: dial})
	sym.Quiesce()
	if up > 0 && sym.Choose("lose", 2) == 1 {
		for i := range conns {
			if !down[i] {
				mu.Lock()
				down[i] = true
				mu.Unlock()
				conns[i].EOF()
				up--
				break
			}
		}
		sym.Quiesce()
	}
	k := 1 + sym.Choose("calls", 2)
	for j := 0; j < k; j++ {
		ns, method, params := name("ns", 1), name("method", 1), sym.Bytes("params", 1)
		had := len(s.runs)
		b, err := c.Request(context.Background(), ns, method, params)
		if up == 0 {
			sym.Assert(err == codegen.ErrServiceNA && len(s.runs) == had, "when all refuse the call fails")
			sym.Reach("unavailable")
			continue
		}
		w := which(ns, method)
		if w < 0 {
			sym.Assert(err != nil && err != codegen.ErrServiceNA && len(s.runs) == had, "an unknown method is refused by the server")
			sym.Reach("unknown")
			return
		}
		sym.Assert(len(s.runs) == had+1 && s.runs[had].which == w && sym.EqBytes(s.runs[had].params, params), "the method runs once with the parameters")
		sym.Assert(!down[s.runs[had].where], "at a server that is up")
		if fail {
			sym.Assert(err != nil && sym.EqBytes([]byte(err.Error()), append([]byte("bad"), out...)), "the caller gets the error text")
			sym.Reach("failed")
			return
		}
		sym.Assert(err == nil && sym.EqBytes(b, out), "the caller gets the result")
		sym.Reach("called")
	}
}

// C30Response: what a caller makes of any response, or of none.
func C30Response() {
	fc := fake.NewConn()
	c := codegen.NewClient(rpcCmd, errCmd, []string{"a"}, qrpc.ConnectionConfig{OverlayNetwork: dialer(fc)})
	sym.Quiesce()
	ctx, cancel := context.WithCancel(context.Background())
	var out [2][]byte
	var ts []*task
	n := 1 + sym.Choose("calls", 2)
	for i := 0; i < n; i++ {
		i := i
		ts = append(ts, spawn(func() (err error) {
			out[i], err = c.Request(ctx, "n", "m", []byte{byte(i)})
			return
		}))
		sym.Quiesce()
	}
	fs := frames(fc, "calls")
	sym.Assert(len(fs) == n, "each call is one request")
	var m pb.RpcRequest
	for i, f := range fs {
		sym.Assert(f.Cmd == rpcCmd && m.Unmarshal(f.Payload) == nil && m.NS == "n" && m.Method == "m" && len(m.Params) == 1 && m.Params[0] == byte(i), "with its method and parameters")
	}
	cmd, p := uint32(sym.U16("cmd")), sym.Bytes("p", 2)
	how := sym.Choose("how", 3)
	last := n - 1 // answered first
	switch how {
	case 0:
		feed(fc, fr(fs[last].ID, 0, cmd, p))
	case 1:
		fc.EOF()
	case 2:
		cancel()
	}
	sym.Quiesce()
	for i, t := range ts {
		if how == 0 && i != last {
			sym.Assert(!t.Done(), "another call's response does not answer it")
			continue
		}
		sym.Assert(t.Done(), "the call returns")
		switch {
		case how != 0:
			sym.Assert(t.Err() != nil && out[i] == nil, "with an error")
			sym.Reach("none")
		case cmd == errCmd:
			sym.Assert(t.Err() != nil && sym.EqBytes([]byte(t.Err().Error()), p), "with the error text")
			sym.Reach("error")
		default:
			sym.Assert(t.Err() == nil && sym.EqBytes(out[i], p), "with the result")
			sym.Reach("result")
		}
	}
	cancel()
	sym.Quiesce()
	for _, t := range ts {
		sym.Assert(t.Done(), "a cancelled call returns")
	}
}

// C30Parallel: two callers at once, one of whom may give up.
func C30Parallel() {
	var s service
	e := newServer(qrpc.ServerBinding{Handler: s.mux(0, func(w int, p []byte) ([]byte, error) {
		return []byte{byte(w), p[0] + 1}, nil
	})})
	c := codegen.NewClient(rpcCmd, errCmd, []string{"a", "b"}, qrpc.ConnectionConfig{OverlayNetwork: func(string, qrpc.DialConfig) (netConn, error) {
		a, b := fake.Pipe()
		e.lns[0].Dial(b)
		return a, nil
	}})
	sym.Quiesce()
	p := sym.BytesN("params", 2)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	quit := sym.Choose("quit", 2) == 1
	s.quit = quit
	var out [2][]byte
	var ts []*task
	for i := 0; i < 2; i++ {
		i := i
		ts = append(ts, spawn(func() (err error) {
			cx := context.Background()
			if i == 1 {
				cx = ctx
			}
			out[i], err = c.Request(cx, methods[i+1][0], methods[i+1][1], p[i:i+1])
			return
		}))
	}
	if quit {
		cancel()
	}
	settle(ts...)
	for i, t := range ts {
		if t.Err() != nil {
			sym.Assert(quit && i == 1 && out[i] == nil, "only a cancelled call fails")
			sym.Reach("quit")
			continue
		}
		sym.Assert(len(out[i]) == 2 && out[i][0] == byte(i+1) && out[i][1] == p[i]+1, "each caller gets the result of its own call")
		sym.Reach("result")
	}
	ran := [4]int{}
	for _, r := range s.runs {
		ran[r.which]++
	}
	sym.Assert(ran[1] == 1 && (ran[2] == 1 || quit) && ran[2] <= 1 && ran[0]+ran[3] == 0, "each call runs once")
}
