package props

import (
	"crypto/tls"
	"errors"
	"net"
	"sync"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

var errAsked = errors.New("enough seen")

// C32Dial: the dial settings, TLS included, reach the overlay on every dial of
// a connection.
func C32Dial() {
	reconnect := sym.Choose("reconnect", 2) == 1
	conf := qrpc.ConnectionConfig{}
	if sym.Choose("tls", 2) == 1 {
		conf.TLSConf = &tls.Config{ServerName: "q"}
	}
	conf.DialTimeout = time.Duration(sym.U64("timeout"))
	conf.RBufSize = int(sym.U32("rbuf"))
	conf.WBufSize = int(sym.U32("wbuf"))
	n := newNetwork(sym.Choose("fails", 4) << 1)
	asked := 0
	conf.OverlayNetwork = func(addr string, d qrpc.DialConfig) (netConn, error) {
		asked++
		sym.Assert(d.TLSConf == conf.TLSConf, "every dial is told the TLS configuration")
		sym.Assert(d.DialTimeout == conf.DialTimeout, "every dial is told the timeout")
		sym.Assert(sym.And(d.RBufSize == conf.RBufSize, d.WBufSize == conf.WBufSize), "every dial is told the buffer sizes")
		return n.dial(addr, d)
	}
	if !reconnect {
		_, err := qrpc.NewConnection("a", conf, nil)
		sym.Assert(err == nil && asked == 1, "one dial")
		sym.Reach("once")
		return
	}
	c := qrpc.NewConnectionWithReconnect([]string{"a"}, conf, nil)
	n.up().EOF()
	n.up()
	sym.Assert(asked >= 2, "the client dials again")
	c.Close()
	sym.Reach("again")
}

// peers plays the servers a client dials over TCP.
type peers struct {
	mu    sync.Mutex
	conns []*fake.Conn
	reply func(k int, fc *fake.Conn) // prepares connection k
}

func (p *peers) dial(network, addr string, timeout time.Duration) (*fake.Conn, error) {
	p.mu.Lock()
	k := len(p.conns)
	fc := fake.NewConn()
	p.conns = append(p.conns, fc)
	p.mu.Unlock()
	p.reply(k, fc)
	return fc, nil
}

func (p *peers) last() *fake.Conn {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.conns[len(p.conns)-1]
}

// plain returns the frames sent on a connection that is or is not under TLS.
func plain(fc *fake.Conn, conf *tls.Config, label string) []F {
	b := fc.Out()
	if conf != nil {
		h := fake.TLSHello(conf)
		sym.Assert(len(b) >= len(h) && sym.EqBytes(b[:len(h)], h), label+": the TLS handshake with the configuration comes first")
		var ok bool
		b, ok = fake.TLSPlain(b[len(h):])
		sym.Assert(ok, label+": every byte is sent through TLS")
	}
	fs, ok := fake.Dec(b)
	sym.Assert(ok, label+": whole frames")
	return fs
}

// newTCPClient are the ways to get a client that does not connect again.
var newTCPClient = []func(string, qrpc.ConnectionConfig, qrpc.SubFunc) (*qrpc.Connection, error){qrpc.NewConnection, qrpc.NewReusedConnection}

// C32TCP: a client dialing TCP, with or without TLS, with or without reconnect:
// every byte of every connection goes through TLS if that is configured, a
// connection whose handshake fails carries nothing and is not used.
func C32TCP() {
	if !sym.Symbolic() {
		return // TCP and TLS are models of the engine
	}
	how := sym.Choose("client", 3)
	reconnect := how == 2
	var conf *tls.Config
	if sym.Choose("tls", 2) == 1 {
		conf = &tls.Config{ServerName: "q"}
	}
	bad := 0
	kind := 0
	if conf != nil {
		bad = sym.Choose("bad", 4) // bit k: the handshake of connection k fails
		kind = sym.Choose("kind", 3)
	}
	hello := []byte{fake.TLSHandshakeMark, 0}
	p := &peers{reply: func(k int, fc *fake.Conn) {
		if conf == nil {
			return
		}
		if bad>>uint(k)&1 == 0 {
			fc.Feed(hello)
			return
		}
		switch kind {
		case 0:
			fc.EOF()
		case 1:
			fc.Feed([]byte{0, 0, 0})
		default:
			fc.FailRead(fake.ErrReset)
		}
	}}
	fake.OnDial = p.dial
	cc := qrpc.ConnectionConfig{TLSConf: conf}
	record := func(b []byte) []byte {
		if conf != nil {
			return fake.TLSRecord(b)
		}
		return b
	}
	use := func(c *qrpc.Connection, fc *fake.Conn, id uint64) {
		x := sym.BytesN("payload", 2)
		_, resp, err := c.Request(5, 0, x)
		sym.Assert(err == nil, "a request can be sent")
		fs := plain(fc, conf, "client")
		sym.Assert(len(fs) == 1 && same(fs[0], fr(id, 0, 5, x)), "the request is sent")
		y := sym.BytesN("answer", 2)
		fc.Feed(record(fake.Enc(fr(id, 0, 6, y))))
		t := spawn(func() error {
			f, err := resp.GetFrame()
			if err == nil {
				sym.Assert(f.Cmd == 6 && sym.EqBytes(f.Payload, y), "the response arrives")
			}
			return err
		})
		sym.Quiesce()
		sym.Assert(t.Done() && t.Err() == nil, "the response arrives")
	}
	if !reconnect {
		c, err := newTCPClient[how]("a", cc, nil)
		if bad&1 == 1 {
			sym.Assert(err != nil, "a failed handshake fails the dial")
			sym.Assert(p.last().Closed(), "a connection whose handshake failed is closed")
			sym.Assert(len(p.last().Out()) <= 2, "nothing but the handshake is sent")
			sym.Reach("refused")
			return
		}
		sym.Assert(err == nil, "the dial succeeds")
		use(c, p.last(), 3)
		sym.Reach("once")
		return
	}
	c := qrpc.NewConnectionWithReconnect([]string{"a"}, cc, nil)
	next := func(id uint64) *fake.Conn {
		for i := 0; i < 4; i++ {
			sym.Quiesce()
			if !p.last().Closed() {
				break
			}
			time.Sleep(3 * time.Second)
		}
		fc := p.last()
		sym.Assert(!fc.Closed(), "the client connects again")
		use(c, fc, id)
		return fc
	}
	next(3).EOF()
	next(5)
	for k, fc := range p.conns {
		if bad>>uint(k)&1 == 1 {
			sym.Assert(fc.Closed() && len(fc.Out()) <= 2, "a connection whose handshake failed carries nothing and is closed")
		}
	}
	c.Close()
	sym.Reach("again")
}

// C32Options: the dial timeout and the buffer sizes reach every TCP dial of a
// connection; failing to set a size does not keep it from being used.
func C32Options() {
	if !sym.Symbolic() {
		return
	}
	how := sym.Choose("client", 3)
	reconnect := how == 2
	cc := qrpc.ConnectionConfig{DialTimeout: time.Duration(sym.U64("timeout"))}
	cc.RBufSize = int(int32(sym.U32("rbuf")))
	cc.WBufSize = int(int32(sym.U32("wbuf")))
	optErr := sym.Choose("opterr", 2) == 1
	var mu sync.Mutex
	var conns []*fake.Conn
	fake.OnDial = func(network, addr string, timeout time.Duration) (*fake.Conn, error) {
		sym.Assert(network == "tcp" && addr == "a", "the address is dialed over TCP")
		sym.Assert(timeout == cc.DialTimeout, "every dial is told the timeout")
		fc := fake.NewConn()
		if optErr {
			fc.OptErr = fake.ErrReset
		}
		mu.Lock()
		conns = append(conns, fc)
		mu.Unlock()
		return fc, nil
	}
	var c *qrpc.Connection
	if reconnect {
		c = qrpc.NewConnectionWithReconnect([]string{"a"}, cc, nil)
		sym.Quiesce()
		conns[0].EOF()
		sym.Quiesce()
		time.Sleep(5 * time.Second)
		sym.Quiesce()
		sym.Assert(len(conns) >= 2, "the client dials again")
	} else {
		var err error
		c, err = newTCPClient[how]("a", cc, nil)
		sym.Assert(err == nil, "the dial succeeds")
	}
	for _, fc := range conns {
		r, w := fc.RBuf, fc.WBuf
		sym.Assert(sym.Or(sym.And(cc.RBufSize > 0, r == cc.RBufSize), sym.And(cc.RBufSize <= 0, r == 0)), "every connection gets the read buffer size")
		sym.Assert(sym.Or(sym.And(cc.WBufSize > 0, w == cc.WBufSize), sym.And(cc.WBufSize <= 0, w == 0)), "every connection gets the write buffer size")
	}
	last := conns[len(conns)-1]
	sym.Assert(!last.Closed(), "the connection is used")
	_, _, err := c.Request(5, 0, []byte{1})
	sym.Assert(err == nil && len(last.Out()) > 0, "a request can be sent")
	c.Close()
	sym.Reach("options")
}

// C32Server: a binding with TLS serves only what arrives through TLS and
// answers only through TLS; one without serves plain connections. A peer that
// never completes its handshake holds up nobody else.
func C32Server() {
	if !sym.Symbolic() {
		return
	}
	var conf *tls.Config
	if sym.Choose("tls", 2) == 1 {
		conf = &tls.Config{ServerName: "s"}
	}
	ln := fake.NewListener()
	var mu sync.Mutex
	handled, subbed := 0, 0
	b := qrpc.ServerBinding{Addr: "x", TLSConf: conf, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		mu.Lock()
		handled++
		mu.Unlock()
		w.StartWrite(r.RequestID, 6, 0)
		w.WriteBytes(r.Payload)
		w.EndWrite()
	}), SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) {
		mu.Lock()
		subbed++
		mu.Unlock()
	}}
	if sym.Choose("listen", 2) == 0 {
		b.ListenFunc = func(network, addr string) (net.Listener, error) { return ln, nil }
	} else {
		fake.OnListen = func(network, addr string) (net.Listener, error) { return ln, nil }
	}
	srv := qrpc.NewServer([]qrpc.ServerBinding{b})
	sym.Assert(srv.ListenAll() == nil, "the server listens")
	t := spawn(srv.ServeAll)
	sym.Quiesce()
	if sym.Choose("silent", 2) == 1 {
		ln.Dial(fake.NewConn())
	}
	fc := fake.NewConn()
	ln.Dial(fc)
	sym.Quiesce()
	x := sym.BytesN("payload", 2)
	fl := uint8(sym.Choose("push", 2)) * fPush
	req := fake.Enc(fr(7, fl, 5, x))
	overTLS := sym.Choose("client", 2) == 1
	if overTLS {
		fc.Feed([]byte{fake.TLSHandshakeMark, 0})
		fc.Feed(fake.TLSRecord(req))
	} else {
		fc.Feed(req)
	}
	sym.Quiesce()
	mu.Lock()
	n := handled + subbed
	mu.Unlock()
	if overTLS == (conf != nil) {
		sym.Assert(n == 1, "a request over the configured transport is served")
		fs := plain(fc, conf, "server")
		if fl == 0 {
			sym.Assert(len(fs) == 1 && same(fs[0], fr(7, 0, 6, x)), "and answered")
		}
		sym.Reach("served")
	} else {
		sym.Assert(n == 0, "nothing is served over the wrong transport")
		if conf != nil {
			sym.Assert(fc.Closed(), "a connection that does not speak TLS is closed")
			sym.Assert(len(fc.Out()) == 0, "and nothing is sent to it")
		}
		sym.Reach("refused")
	}
	srv.Shutdown()
	sym.Quiesce()
	time.Sleep(2 * time.Second)
	sym.Quiesce()
	sym.Assert(t.Done(), "the server ends")
}

// C32Accept: what a TLS binding accepts is wrapped into a TLS connection over
// the accepted one; with an overlay, the listener and the TLS configuration are
// handed to the overlay, which does the wrapping.
func C32Accept() {
	withTLS := sym.Choose("tls", 2) == 1
	overlay := sym.Choose("overlay", 2) == 1
	ln := fake.NewListener()
	fc := fake.NewConn()
	seen := false
	b := qrpc.ServerBinding{ListenFunc: func(network, addr string) (net.Listener, error) { return ln, nil }}
	if withTLS {
		b.TLSConf = &tls.Config{ServerName: "s"}
	}
	conf := b.TLSConf
	var got *tls.Config
	asked := 0
	if overlay {
		b.OverlayNetwork = func(l net.Listener, c *tls.Config) qrpc.Listener {
			asked++
			got = c
			return l
		}
	}
	b.LifecycleCallbacks.OnAccept = func(nc net.Conn) error {
		seen = true
		tc, isTLS := nc.(*tls.Conn)
		if withTLS && !overlay {
			sym.Assert(isTLS && tc.NetConn() == net.Conn(fc), "an accepted connection is wrapped into TLS")
		} else {
			sym.Assert(nc == net.Conn(fc), "an accepted connection is handed on as it is")
		}
		return errAsked
	}
	srv := qrpc.NewServer([]qrpc.ServerBinding{b})
	sym.Assert(srv.ListenAll() == nil, "the server listens")
	if overlay {
		sym.Assert(asked == 1 && got == conf, "the overlay gets the TLS configuration")
	}
	t := spawn(srv.ServeAll)
	sym.Quiesce()
	ln.Dial(fc)
	sym.Quiesce()
	sym.Assert(seen, "the connection is accepted")
	sym.Assert(fc.Closed(), "a refused connection is closed")
	srv.Shutdown()
	sym.Quiesce()
	time.Sleep(2 * time.Second)
	sym.Quiesce()
	sym.Assert(t.Done(), "the server ends")
	sym.Reach("accepted")
}
