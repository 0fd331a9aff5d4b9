package props

import (
	"crypto/tls"
	"net"
	"strings"
	"sync"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
	wsclient "github.com/zhiqiangxu/qrpc/ws/client"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

// upgradeRequest asks for a websocket.
func upgradeRequest(path string) []byte {
	return []byte("GET " + path + " HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n")
}

// upgraded splits what a server sent into the answer to the handshake and the
// websocket messages after it.
func upgraded(fc *fake.Conn) (ok bool, status string, ms []fake.WSMsg) {
	out := string(fc.Out())
	i := strings.Index(out, "\r\n\r\n")
	if i < 0 {
		return false, "", nil
	}
	sym.Assert(strings.HasPrefix(out, "HTTP/1.1 "), "a client gets an HTTP answer first")
	status = out[9:12]
	if status != "101" {
		return false, status, nil
	}
	ms, masked, whole := fake.WSDec([]byte(out[i+4:]))
	sym.Assert(whole && (len(ms) == 0 || !masked), "websocket frames follow")
	return true, status, ms
}

const (
	hsGood   = iota // asks for a websocket
	hsPath          // on another path
	hsPlain         // does not ask for a websocket
	hsSilent        // sends nothing, or its request after the close
	hsLost          // goes away in the middle of its request
	nHandshake
)

// C37Accept: websocket handshakes against the overlay's listener, closed at any
// time.
func C37Accept() {
	ln := fake.NewListener()
	o := wsserver.OverlayNetwork(ln, nil)
	n := 1 + sym.Choose("clients", 2)
	var fcs []*fake.Conn
	var kinds []int
	for i := 0; i < n; i++ {
		fc := fake.NewConn()
		k := sym.Choose("kind", nHandshake)
		fcs, kinds = append(fcs, fc), append(kinds, k)
		switch k {
		case hsGood:
			fc.Feed(upgradeRequest("/qrpc"))
		case hsPath:
			fc.Feed(upgradeRequest("/other"))
		case hsPlain:
			fc.Feed([]byte("GET /qrpc HTTP/1.1\r\nHost: h\r\n\r\n"))
		case hsLost:
			fc.Feed(upgradeRequest("/qrpc")[:20])
			fc.EOF()
		}
		ln.Dial(fc)
	}
	when := sym.Choose("close", 3)
	var acc []net.Conn
	accept := spawn(func() error {
		if when == 2 {
			time.Sleep(time.Second) // closed before anything is accepted
		}
		for {
			c, err := o.Accept()
			if err != nil {
				return err
			}
			acc = append(acc, c)
		}
	})
	if when == 0 {
		sym.Quiesce()
		for i, fc := range fcs {
			ok, status, _ := upgraded(fc)
			switch kinds[i] {
			case hsGood:
				sym.Assert(ok, "a client is upgraded")
			case hsPath, hsPlain:
				sym.Assert(status[0] == '4', "other requests are refused")
			case hsSilent, hsLost:
				sym.Assert(len(fc.Out()) == 0, "nothing is answered without a request")
			}
			sym.Assert(kinds[i] != hsSilent || !fc.Closed(), "a client may take its time")
		}
		good := 0
		for _, k := range kinds {
			if k == hsGood {
				good++
			}
		}
		sym.Assert(len(acc) == good && !accept.Done(), "every upgraded client is accepted, and nobody else")
	}
	closing := spawn(o.Close)
	sym.Quiesce()
	time.Sleep(2 * time.Second)
	for i, fc := range fcs {
		if kinds[i] == hsSilent && sym.Choose("late", 2) == 1 {
			fc.Feed(upgradeRequest("/qrpc"))
			kinds[i] = hsGood
		}
	}
	sym.Quiesce()
	sym.Assert(closing.Done() && accept.Done() && accept.Err() != nil && ln.IsClosed(), "after closing nothing is accepted")
	for i, c := range acc {
		k, err := c.Write([]byte{byte(i + 1)})
		sym.Assert(k == 1 && err == nil, "an accepted connection can be used")
	}
	seen := make([]int, len(acc))
	for i, fc := range fcs {
		ok, _, ms := upgraded(fc)
		sym.Assert(!ok || kinds[i] == hsGood, "only those who ask for it are upgraded")
		switch len(ms) {
		case 0:
			sym.Assert(!ok || fc.Closed(), "an upgraded client which is not accepted is closed")
		case 1:
			seen[ms[0].Data[0]-1]++
			sym.Assert(!fc.Closed(), "an accepted connection stays with its user")
		default:
			sym.Assert(false, "a client is accepted once")
		}
		if kinds[i] == hsPath || kinds[i] == hsPlain {
			sym.Assert(fc.Closed() || !ok && len(fc.Out()) == 0, "refused connections are closed")
		}
	}
	for i, c := range acc {
		sym.Assert(seen[i] == 1, "an accepted connection is a client's")
		c.Close()
	}
	sym.Quiesce()
	for i, fc := range fcs {
		ok, _, _ := upgraded(fc)
		sym.Assert(!ok || fc.Closed(), "closing an accepted connection closes it")
		_ = i
	}
	sym.Reach("accept")
}

// wsFrames decodes the qrpc frames a server sent over a websocket.
func wsFrames(ms []fake.WSMsg) []F {
	var b []byte
	for _, m := range ms {
		sym.Assert(m.Opcode == 2, "qrpc travels in binary messages")
		b = append(b, m.Data...)
	}
	fs, ok := fake.Dec(b)
	sym.Assert(ok, "whole frames are sent")
	return fs
}

// C37Serve: a server over websockets: requests, a push, and the end.
func C37Serve() {
	ln := fake.NewListener()
	var conf *tls.Config
	if sym.Symbolic() && sym.Choose("tls", 2) == 1 {
		conf = &tls.Config{ServerName: "q"}
	}
	closes, running := 0, 0
	b := qrpc.ServerBinding{TLSConf: conf, ListenFunc: func(string, string) (net.Listener, error) { return ln, nil }}
	b.LifecycleCallbacks.OnClose = func(net.Conn) { closes++ }
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		running++
		w.StartWrite(r.RequestID, r.Cmd, 0)
		w.WriteBytes(r.Payload)
		w.EndWrite()
		if r.Flags.IsNonBlock() {
			<-r.Context().Done()
		}
		running--
	})
	srv := wsserver.New([]qrpc.ServerBinding{b})
	t := spawn(srv.ListenAndServe)
	fc := fake.NewConn()
	silent := fake.NewConn()
	wrap := func(p []byte) []byte { return p }
	if conf != nil {
		wrap = fake.TLSRecord
		fc.Feed(fake.TLSHello(conf))
	}
	fc.Feed(wrap(upgradeRequest("/qrpc")))
	if sym.Choose("silent", 2) == 1 {
		ln.Dial(silent)
	}
	ln.Dial(fc)
	sym.Quiesce()
	sent := func() (bool, []fake.WSMsg) {
		if conf == nil {
			ok, _, ms := upgraded(fc)
			return ok, ms
		}
		out := fc.Out()
		sym.Assert(len(out) >= 2 && out[0] == fake.TLSHandshakeMark, "a TLS binding speaks TLS")
		p, ok := fake.TLSPlain(out[2:])
		sym.Assert(ok, "everything is sent in TLS records")
		q := fake.NewConn()
		q.Write(p)
		up, _, ms := upgraded(q)
		return up, ms
	}
	ok, ms := sent()
	sym.Assert(ok && len(ms) == 0, "the client is upgraded")
	p := sym.Bytes("p", 2)
	id := sym.U64("id")
	flags := []uint8{0, fNB}[sym.Choose("nb", 2)]
	key := [4]byte{1, 2, 3, 4}
	whole := fake.Enc(fr(id, flags, 7, p))
	cut := []int{0, 1, 4, 15, 16}[sym.Choose("cut", 5)]
	if cut > 0 {
		fc.Feed(wrap(fake.WSFrame(true, 2, true, key, whole[:cut])))
	}
	fc.Feed(wrap(fake.WSFrame(true, 2, true, key, whole[cut:])))
	sym.Quiesce()
	_, ms = sent()
	fs := wsFrames(ms)
	sym.Assert(len(fs) == 1 && same(fs[0], fr(id, 0, 7, p)), "a request is answered over the websocket")
	sd := spawn(srv.Shutdown)
	settle(sd, t)
	sym.Assert(sd.Done() && t.Done() && t.Err() == qrpc.ErrServerClosed, "the server ends")
	sym.Assert(fc.Closed() && ln.IsClosed() && closes == 1 && running == 0, "its connections end")
	sym.Reach("serve")
}

// C37Dial: a client over websockets, with TLS and dial settings; handshakes may
// be refused or fail.
func C37Dial() {
	if !sym.Symbolic() {
		return // the network is the engine's
	}
	conf := qrpc.ConnectionConfig{DialTimeout: time.Duration(sym.U32("timeout")), RBufSize: int(sym.U16("rbuf")), WBufSize: int(sym.U16("wbuf"))}
	if sym.Choose("tls", 2) == 1 {
		conf.TLSConf = &tls.Config{ServerName: "q"}
	}
	reconnect := sym.Choose("reconnect", 2) == 1
	how := sym.Choose("how", 4)
	wrap := func(p []byte) []byte { return p }
	if conf.TLSConf != nil {
		wrap = fake.TLSRecord
	}
	head := 0
	p := &peers{reply: func(k int, fc *fake.Conn) {
		if conf.TLSConf != nil {
			fc.Feed(fake.TLSHello(conf.TLSConf))
		}
		switch {
		case k > 0 || how == 0:
			fc.Feed(wrap([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\n\r\n")))
		case how == 1:
			fc.Feed(wrap([]byte("HTTP/1.1 404 Not Found\r\n\r\n")))
		case how == 2:
			fc.EOF()
		case how == 3:
			fc.Feed(wrap([]byte("HTTP/1.1 1")))
			fc.EOF()
		}
	}}
	var mu sync.Mutex
	fake.OnDial = func(network, addr string, timeout time.Duration) (*fake.Conn, error) {
		mu.Lock()
		head++
		mu.Unlock()
		sym.Assert(network == "tcp" && addr == "h:9", "the client dials its server")
		sym.Assert(timeout == conf.DialTimeout, "with its timeout")
		return p.dial(network, addr, timeout)
	}
	conf.OverlayNetwork = wsclient.OverlayNetwork
	var c *qrpc.Connection
	var err error
	if reconnect {
		c = qrpc.NewConnectionWithReconnect([]string{"h:9"}, conf, nil)
	} else if sym.Choose("wrapper", 2) == 1 {
		conf.OverlayNetwork = nil
		c, err = wsclient.NewConnection("h:9", conf, nil)
	} else {
		c, err = qrpc.NewConnection("h:9", conf, nil)
	}
	if how != 0 && !reconnect {
		sym.Assert(err != nil && p.last().Closed(), "a failed handshake is reported and closed")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "connected")
	rounds := 1
	if reconnect {
		rounds = 2
		if how != 0 {
			sym.Quiesce()
			time.Sleep(3 * time.Second)
			sym.Assert(p.conns[0].Closed(), "a refused connection is closed")
		}
	}
	sym.Quiesce()
	for k := 0; k < rounds; k++ {
		fc := p.last()
		sym.Assert(sym.And(fc.RBuf == conf.RBufSize, fc.WBuf == conf.WBufSize), "buffer sizes are set")
		sym.Assert(!fc.Closed(), "the connection is used")
		pl := sym.Bytes("p", 1)
		_, resp, err := c.Request(5, 0, pl)
		sym.Assert(err == nil, "request sent")
		out := fc.Out()
		if conf.TLSConf != nil {
			h := fake.TLSHello(conf.TLSConf)
			sym.Assert(len(out) > len(h) && out[0] == h[0] && out[1] == h[1], "TLS with the configuration comes first")
			plain, ok := fake.TLSPlain(out[len(h):])
			sym.Assert(ok, "everything is sent in TLS records")
			out = plain
		}
		s := string(out)
		i := strings.Index(s, "\r\n\r\n")
		sym.Assert(i > 0 && strings.HasPrefix(s, "GET /qrpc HTTP/1.1\r\nHost: h:9\r\n"), "the client asks for the websocket of qrpc")
		ms, masked, ok := fake.WSDec(out[i+4:])
		sym.Assert(ok && masked && len(ms) > 0, "requests travel in masked websocket frames")
		fs := wsFrames(ms)
		sym.Assert(len(fs) == 1 && sym.And(fs[0].Cmd == 5, sym.EqBytes(fs[0].Payload, pl)), "the request is sent")
		fc.Feed(wrap(fake.WSFrame(true, 2, false, [4]byte{}, fake.Enc(fr(fs[0].ID, 0, 6, pl)))))
		f, err := resp.GetFrame()
		sym.Assert(err == nil && f.Cmd == 6 && sym.EqBytes(f.Payload, pl), "the response arrives")
		if k+1 < rounds {
			fc.EOF()
			sym.Quiesce()
			time.Sleep(3 * time.Second)
			sym.Quiesce()
		}
	}
	c.Close()
	sym.Quiesce()
	sym.Assert(p.last().Closed(), "closing the client closes its connection")
	sym.Reach("dialed")
}
