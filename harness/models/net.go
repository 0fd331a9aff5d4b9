package models

import (
	"context"
	"crypto/tls"
	"errors"
	"net"
	"sync"
	"time"
	"unsafe"

	"verifh/fake"
)

// TCP connections: net.Dial hands out *net.TCPConn values whose methods work on
// a fake connection provided by the harness.

var tcps = map[unsafe.Pointer]*fake.Conn{}

func connField(c *net.TCPConn) unsafe.Pointer { panic("intrinsic") }

func newTCP(f *fake.Conn) *net.TCPConn {
	c := new(net.TCPConn)
	tcps[unsafe.Pointer(c)] = f
	tcps[connField(c)] = f
	return c
}

func netDial(network, addr string, timeout time.Duration) (net.Conn, error) {
	if fake.OnDial == nil {
		return nil, fake.ErrRefused
	}
	f, err := fake.OnDial(network, addr, timeout)
	if err != nil {
		return nil, err
	}
	return newTCP(f), nil
}

// NetDialTimeout models net.DialTimeout.
func NetDialTimeout(network, addr string, timeout time.Duration) (net.Conn, error) {
	return netDial(network, addr, timeout)
}

// NetDial models net.Dial.
func NetDial(network, addr string) (net.Conn, error) { return netDial(network, addr, 0) }

// DialerDial models (*net.Dialer).Dial.
func DialerDial(d *net.Dialer, network, addr string) (net.Conn, error) {
	return netDial(network, addr, d.Timeout)
}

// DialerDialContext models (*net.Dialer).DialContext.
func DialerDialContext(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	return netDial(network, addr, d.Timeout)
}

// NetListen models net.Listen.
func NetListen(network, addr string) (net.Listener, error) {
	if fake.OnListen == nil {
		return nil, fake.ErrRefused
	}
	return fake.OnListen(network, addr)
}

// TCPRead and the others model the methods of *net.TCPConn.
func TCPRead(c unsafe.Pointer, b []byte) (int, error) { return tcps[c].Read(b) }

func TCPWrite(c unsafe.Pointer, b []byte) (int, error) { return tcps[c].Write(b) }

// TCPWriteBuffers models the vectored write behind net.Buffers.
func TCPWriteBuffers(c unsafe.Pointer, v *net.Buffers) (n int64, err error) {
	for len(*v) > 0 {
		k, err := tcps[c].Write((*v)[0])
		n += int64(k)
		if k < len((*v)[0]) {
			(*v)[0] = (*v)[0][k:]
		} else {
			(*v)[0] = nil
			*v = (*v)[1:]
		}
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func TCPClose(c unsafe.Pointer) error { return tcps[c].Close() }

func TCPAddr(c unsafe.Pointer) net.Addr { return fake.Addr{} }

func TCPSetDeadline(c unsafe.Pointer, t time.Time) error { return tcps[c].SetDeadline(t) }

func TCPSetReadDeadline(c unsafe.Pointer, t time.Time) error { return tcps[c].SetReadDeadline(t) }

func TCPSetWriteDeadline(c unsafe.Pointer, t time.Time) error { return tcps[c].SetWriteDeadline(t) }

func TCPSetReadBuffer(c unsafe.Pointer, n int) error { return tcps[c].SetReadBuffer(n) }

func TCPSetWriteBuffer(c unsafe.Pointer, n int) error { return tcps[c].SetWriteBuffer(n) }

func TCPSetKeepAlive(c unsafe.Pointer, on bool) error { return tcps[c].SetKeepAlive(on) }

func TCPSetKeepAlivePeriod(c unsafe.Pointer, d time.Duration) error {
	return tcps[c].SetKeepAlivePeriod(d)
}

// TLS: the handshake is an exchange of two bytes in each direction (a marker
// and one that depends on the configuration), data travel in records. What
// matters to the code under test is modelled: which bytes go through the TLS
// layer, when the handshake happens, how it fails, and that a failed write
// makes all later ones fail.

type tlsSt struct {
	hsMu, inMu, outMu sync.Mutex
	hsDone            bool
	hsErr, outErr     error
	raw, buf          []byte
}

var (
	tlsMu sync.Mutex
	tlss  = map[*tls.Conn]*tlsSt{}
)

func tlsIsClient(c *tls.Conn) bool       { panic("intrinsic") }
func tlsConfig(c *tls.Conn) *tls.Config { panic("intrinsic") }

func tlsState(c *tls.Conn) *tlsSt {
	tlsMu.Lock()
	defer tlsMu.Unlock()
	s := tlss[c]
	if s == nil {
		s = &tlsSt{}
		tlss[c] = s
	}
	return s
}

var errNotTLS = errors.New("tls: first record does not look like a TLS handshake")

func tlsFull(c *tls.Conn, n int) ([]byte, error) {
	var b []byte
	for len(b) < n {
		t := make([]byte, n-len(b))
		k, err := c.NetConn().Read(t)
		b = append(b, t[:k]...)
		if err != nil {
			return nil, err
		}
	}
	return b, nil
}

// TLSHandshake models (*tls.Conn).Handshake.
func TLSHandshake(c *tls.Conn) error {
	s := tlsState(c)
	s.hsMu.Lock()
	defer s.hsMu.Unlock()
	if s.hsDone {
		return s.hsErr
	}
	conf := tlsConfig(c)
	hs := func() error {
		if tlsIsClient(c) {
			if conf.ServerName == "" && !conf.InsecureSkipVerify {
				return errors.New("tls: either ServerName or InsecureSkipVerify must be specified in the tls.Config")
			}
			if _, err := c.NetConn().Write(fake.TLSHello(conf)); err != nil {
				return err
			}
			h, err := tlsFull(c, 2)
			if err != nil {
				return err
			}
			if h[0] != fake.TLSHandshakeMark {
				return errNotTLS
			}
			return nil
		}
		h, err := tlsFull(c, 2)
		if err != nil {
			return err
		}
		if h[0] != fake.TLSHandshakeMark {
			return errNotTLS
		}
		_, err = c.NetConn().Write(fake.TLSHello(conf))
		return err
	}
	s.hsErr = hs()
	s.hsDone = true
	return s.hsErr
}

// TLSHandshakeContext models (*tls.Conn).HandshakeContext.
func TLSHandshakeContext(c *tls.Conn, ctx context.Context) error { return TLSHandshake(c) }

// TLSRead models (*tls.Conn).Read.
func TLSRead(c *tls.Conn, b []byte) (int, error) {
	if err := TLSHandshake(c); err != nil {
		return 0, err
	}
	s := tlsState(c)
	s.inMu.Lock()
	defer s.inMu.Unlock()
	for len(s.buf) == 0 {
		want := 3
		if len(s.raw) >= 3 {
			want = 3 + (int(s.raw[1])<<8 | int(s.raw[2]))
		}
		if len(s.raw) >= 3 && len(s.raw) == want {
			s.buf = s.raw[3:]
			s.raw = nil
			continue
		}
		t := make([]byte, want-len(s.raw))
		k, err := c.NetConn().Read(t)
		s.raw = append(s.raw, t[:k]...)
		if err != nil {
			return 0, err
		}
		if len(s.raw) > 0 && s.raw[0] != fake.TLSDataMark {
			return 0, errors.New("tls: unexpected message")
		}
	}
	n := copy(b, s.buf)
	s.buf = s.buf[n:]
	return n, nil
}

// TLSWrite models (*tls.Conn).Write.
func TLSWrite(c *tls.Conn, b []byte) (int, error) {
	if err := TLSHandshake(c); err != nil {
		return 0, err
	}
	s := tlsState(c)
	s.outMu.Lock()
	defer s.outMu.Unlock()
	if s.outErr != nil {
		return 0, s.outErr
	}
	_, err := c.NetConn().Write(fake.TLSRecord(b))
	if err != nil {
		s.outErr = permanent{err}
		return 0, s.outErr
	}
	return len(b), nil
}

// permanent is what crypto/tls makes of an error of the connection below.
type permanent struct{ err error }

func (e permanent) Error() string   { return e.err.Error() }
func (e permanent) Unwrap() error   { return e.err }
func (e permanent) Temporary() bool { return false }
func (e permanent) Timeout() bool {
	t, ok := e.err.(interface{ Timeout() bool })
	return ok && t.Timeout()
}

// TLSClose models (*tls.Conn).Close.
func TLSClose(c *tls.Conn) error { return c.NetConn().Close() }

// TLSState models (*tls.Conn).ConnectionState.
func TLSState(c *tls.Conn) (st tls.ConnectionState) {
	s := tlsState(c)
	st.HandshakeComplete = s.hsDone && s.hsErr == nil
	return
}

// TLSDial models tls.Dial.
func TLSDial(network, addr string, conf *tls.Config) (*tls.Conn, error) {
	return TLSDialWithDialer(new(net.Dialer), network, addr, conf)
}

// TLSDialWithDialer models tls.DialWithDialer.
func TLSDialWithDialer(d *net.Dialer, network, addr string, conf *tls.Config) (*tls.Conn, error) {
	nc, err := netDial(network, addr, d.Timeout)
	if err != nil {
		return nil, err
	}
	c := tls.Client(nc, conf)
	if err := TLSHandshake(c); err != nil {
		nc.Close()
		return nil, err
	}
	return c, nil
}
