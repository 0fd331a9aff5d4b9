package props

import (
	"sync"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// F is a frame on the wire.
type F = fake.F

// task is an operation run in its own goroutine.
type task struct {
	mu   sync.Mutex
	done bool
	err  error
}

func (t *task) Done() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.done
}

func (t *task) Err() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.err
}

// spawn runs f in a goroutine.
func spawn(f func() error) *task {
	t := &task{}
	go func() {
		err := f()
		t.mu.Lock()
		t.done, t.err = true, err
		t.mu.Unlock()
	}()
	return t
}

func spawnV(f func()) *task {
	return spawn(func() error { f(); return nil })
}

// dialer returns an OverlayNetwork that hands out the given connections.
func dialer(cs ...*fake.Conn) func(string, qrpc.DialConfig) (netConn, error) {
	var mu sync.Mutex
	k := 0
	return func(string, qrpc.DialConfig) (netConn, error) {
		mu.Lock()
		defer mu.Unlock()
		if k >= len(cs) || cs[k] == nil {
			k++
			return nil, fake.ErrRefused
		}
		k++
		return cs[k-1], nil
	}
}

// newClient makes a client connection over a fake network connection.
func newClient(conf qrpc.ConnectionConfig, sub qrpc.SubFunc) (*qrpc.Connection, *fake.Conn) {
	fc := fake.NewConn()
	conf.OverlayNetwork = dialer(fc)
	c, err := qrpc.NewConnection("fake", conf, sub)
	if err != nil {
		panic("dial failed")
	}
	return c, fc
}

// srvEnv is a server with fake listeners, one per binding.
type srvEnv struct {
	srv    *qrpc.Server
	lns    []*fake.Listener
	serves []*task
}

func newServer(bs ...qrpc.ServerBinding) *srvEnv {
	e := &srvEnv{srv: qrpc.NewServer(bs)}
	for i := range bs {
		ln := fake.NewListener()
		i := i
		e.lns = append(e.lns, ln)
		e.serves = append(e.serves, spawn(func() error { return e.srv.Serve(ln, i) }))
	}
	return e
}

// dial connects a new fake connection to binding 0.
func (e *srvEnv) dial() *fake.Conn {
	c := fake.NewConn()
	e.lns[0].Dial(c)
	return c
}

// frames decodes what the code under test wrote, insisting on whole frames.
func frames(c *fake.Conn, label string) []F {
	fs, ok := fake.Dec(c.Out())
	sym.Assert(ok, label+": bytes on the wire are whole frames")
	return fs
}

// same compares two frames without forking.
func same(a, b F) bool {
	return sym.And(sym.And(a.ID == b.ID, a.Flags == b.Flags), sym.And(a.Cmd == b.Cmd, sym.EqBytes(a.Payload, b.Payload)))
}

// expect asserts that exactly these frames were written, in this order.
func expect(c *fake.Conn, label string, want ...F) {
	got := frames(c, label)
	sym.Assert(len(got) == len(want), label+": number of frames")
	for i := range want {
		sym.Assert(same(got[i], want[i]), label+": frame content")
	}
}

// feed queues frames for the code under test.
func feed(c *fake.Conn, fs ...F) { c.Feed(fake.EncAll(fs...)) }

func bits(v uint8, m uint8) bool { return v&m != 0 }

const (
	fStream = 1
	fEnd    = 2
	fRst    = 4
	fNB     = 8
	fPush   = 16
	fCodec  = 32
)
